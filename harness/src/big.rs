//! Reference integers for the oracle: 448-bit values modulo m = 2^k - c.
//! Deliberately shares nothing with the crate under test (no Montgomery form,
//! no Karatsuba, no unsaturated limbs): schoolbook product plus folding of the
//! high part, then plain subtraction.

pub const W: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct U(pub [u64; 7]); // little endian, compare with cmp() below

impl U {
    pub const ZERO: U = U([0; 7]);
    pub const ONE: U = U([1, 0, 0, 0, 0, 0, 0]);
    pub const MAX: U = U([u64::MAX; 7]);
    pub fn small(x: u64) -> U {
        U([x, 0, 0, 0, 0, 0, 0])
    }
    pub fn from_le(b: &[u8]) -> U {
        assert!(b.len() <= 56);
        let mut r = [0u64; 7];
        for (i, x) in b.iter().enumerate() {
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        U(r)
    }
    pub fn to_le(&self) -> [u8; 56] {
        let mut o = [0u8; 56];
        for i in 0..56 {
            o[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        o
    }
    pub fn lt(&self, o: &U) -> bool {
        for i in (0..7).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] < o.0[i];
            }
        }
        false
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 7]
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    /// Addition modulo 2^448.
    pub fn wadd(&self, o: &U) -> U {
        let mut c = 0u128;
        let mut r = [0u64; 7];
        for i in 0..7 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        U(r)
    }
    /// Subtraction modulo 2^448.
    pub fn wsub(&self, o: &U) -> U {
        let mut b = 0i128;
        let mut r = [0u64; 7];
        for i in 0..7 {
            b += self.0[i] as i128 - o.0[i] as i128;
            r[i] = b as u64;
            b >>= 64;
        }
        U(r)
    }
    pub fn shr(&self, n: usize) -> U {
        let (q, s) = (n / 64, n % 64);
        let mut r = [0u64; 7];
        for i in 0..7usize.saturating_sub(q) {
            r[i] = self.0[i + q] >> s;
            if s != 0 && i + q + 1 < 7 {
                r[i] |= self.0[i + q + 1] << (64 - s);
            }
        }
        U(r)
    }
    pub fn set_bit(&mut self, i: usize, v: bool) {
        if v {
            self.0[i / 64] |= 1 << (i % 64);
        } else {
            self.0[i / 64] &= !(1 << (i % 64));
        }
    }
    pub fn hex(&self) -> String {
        hex(&self.to_le())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// Modulus 2^k - c, c < 2^256.
pub struct Modulus {
    pub k: usize,
    pub c: [u64; 4],
    pub m: U,
}

/// p = 2^448 - 2^224 - 1
pub const P: Modulus = Modulus {
    k: 448,
    c: [1, 0, 0, 1 << 32],
    m: U([
        u64::MAX,
        u64::MAX,
        u64::MAX,
        0xfffffffeffffffff,
        u64::MAX,
        u64::MAX,
        u64::MAX,
    ]),
};

/// l = 2^446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
pub const L: Modulus = Modulus {
    k: 446,
    c: [
        0xdc873d6d54a7bb0d,
        0xde933d8d723a70aa,
        0x3bb124b65129c96f,
        0x000000008335dc16,
    ],
    m: U([
        0x2378c292ab5844f3,
        0x216cc2728dc58f55,
        0xc44edb49aed63690,
        0xffffffff7cca23e9,
        u64::MAX,
        u64::MAX,
        0x3fffffffffffffff,
    ]),
};

impl Modulus {
    /// Reduces a wide little-endian value.
    pub fn reduce_wide(&self, w: &[u64; W]) -> U {
        let mut w = *w;
        let (q, r) = (self.k / 64, self.k % 64);
        loop {
            // hi = w >> k, lo = w mod 2^k
            let mut hi = [0u64; W];
            for i in 0..W - q {
                hi[i] = w[i + q] >> r;
                if r != 0 && i + q + 1 < W {
                    hi[i] |= w[i + q + 1] << (64 - r);
                }
            }
            if hi.iter().all(|x| *x == 0) {
                break;
            }
            let mut lo = w;
            for (i, x) in lo.iter_mut().enumerate() {
                if i > q || (i == q && r == 0) {
                    *x = 0;
                } else if i == q {
                    *x &= (1u64 << r) - 1;
                }
            }
            // w = lo + hi * c
            w = lo;
            for i in 0..W {
                if hi[i] == 0 {
                    continue;
                }
                let mut carry = 0u128;
                let mut j = 0;
                while i + j < W {
                    let t = if j < 4 {
                        (hi[i] as u128) * (self.c[j] as u128)
                    } else {
                        0
                    };
                    if j >= 4 && carry == 0 {
                        break;
                    }
                    carry += t + w[i + j] as u128;
                    w[i + j] = carry as u64;
                    carry >>= 64;
                    j += 1;
                }
                assert!(carry == 0, "oracle overflow");
            }
        }
        let mut v = U([w[0], w[1], w[2], w[3], w[4], w[5], w[6]]);
        while !v.lt(&self.m) {
            v = v.wsub(&self.m);
        }
        v
    }
    pub fn reduce(&self, a: &U) -> U {
        let mut w = [0u64; W];
        w[..7].copy_from_slice(&a.0);
        self.reduce_wide(&w)
    }
    pub fn reduce_bytes(&self, b: &[u8]) -> U {
        assert!(b.len() <= 8 * W);
        let mut w = [0u64; W];
        for (i, x) in b.iter().enumerate() {
            w[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        self.reduce_wide(&w)
    }
    fn product(a: &U, b: &U) -> [u64; W] {
        let mut w = [0u64; W];
        for i in 0..7 {
            let mut c = 0u128;
            for j in 0..7 {
                c += (a.0[i] as u128) * (b.0[j] as u128) + w[i + j] as u128;
                w[i + j] = c as u64;
                c >>= 64;
            }
            w[i + 7] = c as u64;
        }
        w
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        let w = Modulus::product(a, b);
        if self.k == 448 {
            self.fold_p(&w)
        } else {
            self.reduce_wide(&w)
        }
    }
    /// The slow way, to check `mul` against.
    pub fn mul_slow(&self, a: &U, b: &U) -> U {
        self.reduce_wide(&Modulus::product(a, b))
    }
    /// w mod p for w < 2^896: 2^448 = 2^224 + 1, applied to the whole upper half.
    fn fold_p(&self, w: &[u64; W]) -> U {
        // hi = h0 + h1 2^224; w = lo + hi + h1 + (h0 + h1) 2^224 (mod p)
        let mut c: u128 = 0;
        let mut r = [0u64; 8];
        let h = &w[7..14];
        for i in 0..7 {
            // h1 = hi >> 224 (224 = 3*64 + 32)
            let h1 = if i + 3 < 7 { h[i + 3] >> 32 | if i + 4 < 7 { h[i + 4] << 32 } else { 0 } } else { 0 };
            c += w[i] as u128 + h[i] as u128 + h1 as u128;
            // (h0 << 224): limbs 3.5.. of the result; h1 << 224 likewise
            if i >= 3 {
                let lo = if i == 3 { 0 } else { h[i - 4] >> 32 };
                // h << 224 truncated to 448 bits is exactly h0 << 224
                c += (h[i - 3] << 32 | lo) as u128;
                let g = |k: usize| -> u64 {
                    if k + 3 < 7 { h[k + 3] >> 32 | if k + 4 < 7 { h[k + 4] << 32 } else { 0 } } else { 0 }
                };
                let lo = if i == 3 { 0 } else { g(i - 4) >> 32 };
                c += (g(i - 3) << 32 | lo) as u128;
            }
            r[i] = c as u64;
            c >>= 64;
        }
        r[7] = c as u64;
        loop {
            let t = r[7];
            if t == 0 {
                break;
            }
            r[7] = 0;
            let mut c = t as u128;
            for (i, x) in r.iter_mut().enumerate() {
                c += *x as u128;
                if i == 3 {
                    c += (t as u128) << 32;
                }
                *x = c as u64;
                c >>= 64;
            }
        }
        let mut v = U([r[0], r[1], r[2], r[3], r[4], r[5], r[6]]);
        while !v.lt(&self.m) {
            v = v.wsub(&self.m);
        }
        v
    }
    pub fn sq(&self, a: &U) -> U {
        self.mul(a, a)
    }
    fn fits(&self, a: &U) -> U {
        if a.lt(&self.m) {
            *a
        } else {
            self.reduce(a)
        }
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        // both below m, so a + b < 2m and (a + b) mod 2^448 - m is right even if it wrapped
        let (a, b) = (self.fits(a), self.fits(b));
        let s = a.wadd(&b);
        if s.lt(&a) || !s.lt(&self.m) {
            s.wsub(&self.m)
        } else {
            s
        }
    }
    pub fn neg(&self, a: &U) -> U {
        let a = self.fits(a);
        if a.is_zero() {
            a
        } else {
            self.m.wsub(&a)
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (a, b) = (self.fits(a), self.fits(b));
        if a.lt(&b) {
            a.wsub(&b).wadd(&self.m)
        } else {
            a.wsub(&b)
        }
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        // fixed 4-bit windows
        let mut t = [U::ONE; 16];
        for i in 1..16 {
            t[i] = self.mul(&t[i - 1], a);
        }
        let mut r = U::ONE;
        for i in (0..112).rev() {
            for _ in 0..4 {
                r = self.sq(&r);
            }
            let d = (e.0[i / 16] >> (4 * (i % 16))) & 15;
            if d != 0 {
                r = self.mul(&r, &t[d as usize]);
            }
        }
        r
    }
    /// Fermat inverse; zero maps to zero.
    pub fn inv(&self, a: &U) -> U {
        self.pow(a, &self.m.wsub(&U::small(2)))
    }
    pub fn half(&self, a: &U) -> U {
        // a * (m+1)/2
        let h = self.m.shr(1).wadd(&U::ONE);
        self.mul(a, &h)
    }
}
