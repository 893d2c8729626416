From 7900ef10eaaa7a2b434f450784c6180e16fd190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:23 +0000
Subject: [PATCH 1/5] x

hooks: read-only views of private state behind cfg(ed448_verif)
---
 src/lib.rs         |   4 ++
 src/verif_hooks.rs | 110 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 114 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 9abe061..c6df7fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,4 +14,8 @@ pub mod decaf;
 mod field;
 pub mod ristretto;
 
+// Read-only views of private state for external monitors; see the module documentation.
+#[cfg(ed448_verif)]
+pub mod verif_hooks;
+
 pub use field::Scalar;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..89bfaa4
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,110 @@
+//! Verification hooks.
+//!
+//! This module only exists when the crate is compiled with
+//! `RUSTFLAGS="--cfg ed448_verif"`. It exposes read-only views of private state
+//! (base field elements and point coordinates) to the external runtime monitors.
+//! It is not part of the API and changes no behaviour.
+#![allow(non_snake_case)]
+
+use crate::curve::edwards::ExtendedPoint;
+use crate::curve::twedwards::extended::ExtendedPoint as TwistedExtendedPoint;
+use crate::decaf::DecafPoint;
+use crate::field::FieldElement;
+use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};
+
+/// A base field element of the selected backend.
+#[derive(Copy, Clone)]
+pub struct Fe(FieldElement);
+
+impl Fe {
+    pub fn zero() -> Fe {
+        Fe(FieldElement::zero())
+    }
+    pub fn one() -> Fe {
+        Fe(FieldElement::one())
+    }
+    pub fn from_bytes(bytes: &[u8; 56]) -> Fe {
+        Fe(FieldElement::from_bytes(bytes))
+    }
+    pub fn to_bytes(&self) -> [u8; 56] {
+        self.0.to_bytes()
+    }
+    pub fn add(&self, rhs: &Fe) -> Fe {
+        Fe(self.0 + rhs.0)
+    }
+    pub fn sub(&self, rhs: &Fe) -> Fe {
+        Fe(self.0 - rhs.0)
+    }
+    pub fn mul(&self, rhs: &Fe) -> Fe {
+        Fe(self.0 * rhs.0)
+    }
+    pub fn mul_ref(&self, rhs: &Fe) -> Fe {
+        Fe(self.0 * &rhs.0)
+    }
+    pub fn square(&self) -> Fe {
+        Fe(self.0.square())
+    }
+    pub fn negate(&self) -> Fe {
+        Fe(self.0.negate())
+    }
+    pub fn invert(&self) -> Fe {
+        Fe(self.0.invert())
+    }
+    pub fn inverse_square_root(&self) -> (Fe, bool) {
+        let (r, ok) = self.0.inverse_square_root();
+        (Fe(r), ok.into())
+    }
+    pub fn sqrt_ratio(u: &Fe, v: &Fe) -> (Fe, bool) {
+        let (r, ok) = FieldElement::sqrt_ratio(&u.0, &v.0);
+        (Fe(r), ok.into())
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative().into()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero().into()
+    }
+    pub fn strong_reduce(&self) -> Fe {
+        let mut r = self.0;
+        r.strong_reduce();
+        Fe(r)
+    }
+    pub fn eq(&self, rhs: &Fe) -> bool {
+        self.0 == rhs.0
+    }
+    pub fn ct_eq(&self, rhs: &Fe) -> bool {
+        self.0.ct_eq(&rhs.0).into()
+    }
+    pub fn conditional_select(a: &Fe, b: &Fe, choice: u8) -> Fe {
+        Fe(FieldElement::conditional_select(
+            &a.0,
+            &b.0,
+            Choice::from(choice),
+        ))
+    }
+    pub fn conditional_negate(&self, choice: u8) -> Fe {
+        let mut r = self.0;
+        r.conditional_negate(Choice::from(choice));
+        Fe(r)
+    }
+    pub fn conditional_swap(a: &Fe, b: &Fe, choice: u8) -> (Fe, Fe) {
+        let (mut x, mut y) = (a.0, b.0);
+        FieldElement::conditional_swap(&mut x, &mut y, Choice::from(choice));
+        (Fe(x), Fe(y))
+    }
+}
+
+/// X, Y, Z, T of an Ed448-Goldilocks point.
+pub fn edwards_coords(p: &ExtendedPoint) -> [Fe; 4] {
+    [Fe(p.X), Fe(p.Y), Fe(p.Z), Fe(p.T)]
+}
+
+/// X, Y, Z, T of a twisted curve point.
+pub fn twisted_coords(p: &TwistedExtendedPoint) -> [Fe; 4] {
+    [Fe(p.X), Fe(p.Y), Fe(p.Z), Fe(p.T)]
+}
+
+/// X, Y, Z, T of the internal representative of a Decaf element.
+pub fn decaf_coords(p: &DecafPoint) -> [Fe; 4] {
+    twisted_coords(&p.0)
+}
-- 
2.43.0


From 8172bd42121b39839cfd00bd200855b05cd25b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 2/5] fix: apply the pending swap at the end of the Montgomery
 ladder

The last iteration leaves the swap for bit 0 outstanding, so every odd
scalar returned the u-coordinate of [s+1]P instead of [s]P.
---
 src/curve/montgomery/montgomery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..e1f1fb5 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,8 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        // Undo the swap of the last iteration, which is pending when the scalar is odd
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From a22e4a0825102a9edf9c31c0d374989f49d4a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 3/5] fix: detect low order points given by a non-canonical
 encoding

RFC 7748 accepts u-coordinates in [p, 2^448); the encodings of p and p+1
are the low order points 0 and 1, and the ladder treats them as such.
---
 src/curve/montgomery/montgomery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index e1f1fb5..98bd480 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -114,7 +114,9 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // Compare the u-coordinate and not its encoding: p and p+1 also fit in 448 bits
+        let u = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
+        (u == LOW_A) || (u == LOW_B) || (u == LOW_C)
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0


From 85d2c8b1f58e2a28ea54f13f81414e6557afccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:29 +0000
Subject: [PATCH 4/5] fix: reject non-canonical Edwards point encodings

decompress accepted y >= p, ignored the seven unused bits of the last byte
and accepted the sign bit for x = 0, so that one point had many accepted
encodings. RFC 8032 5.2.3 requires decoding to fail for all of these.
---
 src/curve/edwards/extended.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/curve/edwards/extended.rs b/src/curve/edwards/extended.rs
index 13eeee2..844499b 100644
--- a/src/curve/edwards/extended.rs
+++ b/src/curve/edwards/extended.rs
@@ -47,6 +47,12 @@ impl CompressedEdwardsY {
 
         // Recover x using y
         let y = FieldElement::from_bytes(&y_bytes);
+
+        // The y-coordinate must be fully reduced, and only the sign may be set in the last byte
+        if y.to_bytes() != y_bytes || sign & 0x7f != 0 {
+            return None;
+        }
+
         let yy = y.square();
         let dyy = EDWARDS_D * yy;
         let numerator = FieldElement::one() - yy;
@@ -62,6 +68,11 @@ impl CompressedEdwardsY {
         let is_negative = x.is_negative();
         x.conditional_negate(compressed_sign_bit ^ is_negative);
 
+        // There is no negative zero
+        if compressed_sign_bit.unwrap_u8() != x.is_negative().unwrap_u8() {
+            return None;
+        }
+
         return Some(AffinePoint { x, y }.to_extended());
     }
 }
-- 
2.43.0


From 1322a19b4fc05285aa75bcdd4f9f54c95cd46f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:15 +0000
Subject: [PATCH 5/5] fix: keep Scalar::halve free of secret-dependent branches

The optimiser turned the 0/-1 mask into a branch on the parity of the scalar
and a separate loop for each outcome, so an optimised build executed a
different number of instructions for odd and even scalars.
---
 src/field/scalar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/scalar.rs b/src/field/scalar.rs
index 35b1602..2642666 100644
--- a/src/field/scalar.rs
+++ b/src/field/scalar.rs
@@ -2,7 +2,7 @@ use std::ops::{Add, Index, IndexMut, Mul, Sub};
 
 #[cfg(feature = "rand")]
 use rand_core::{CryptoRng, RngCore};
-use subtle::{Choice, ConstantTimeEq};
+use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
 
 use crate::constants;
 
@@ -250,11 +250,11 @@ impl Scalar {
     pub fn halve(&self) -> Self {
         let mut result = Scalar::zero();
 
-        let mask = 0u32.wrapping_sub(self[0] & 1);
+        let is_odd = Choice::from((self[0] & 1) as u8);
         let mut chain = 0u64;
 
         for i in 0..14 {
-            chain += (self[i] as u64) + ((MODULUS[i] & mask) as u64);
+            chain += (self[i] as u64) + (u32::conditional_select(&0, &MODULUS[i], is_odd) as u64);
             result[i] = chain as u32;
             chain >>= 32
         }
-- 
2.43.0

