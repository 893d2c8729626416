//! Reference model of everything the crate promises, over plain integers.
use crate::big::{unhex, L, P, U};
use std::sync::OnceLock;

fn fneg_small(x: u64) -> U {
    P.neg(&U::small(x))
}
/// Edwards d = -39081 (curve x^2 + y^2 = 1 + d x^2 y^2).
pub fn ed_d() -> &'static U {
    static V: OnceLock<U> = OnceLock::new();
    V.get_or_init(|| fneg_small(39081))
}
/// Twisted d = -39082 (curve y^2 - x^2 = 1 + d x^2 y^2).
pub fn tw_d() -> &'static U {
    static V: OnceLock<U> = OnceLock::new();
    V.get_or_init(|| fneg_small(39082))
}

pub fn is_square(a: &U) -> bool {
    // zero counts as a square
    let e = P.m.shr(1);
    let r = P.pow(a, &e);
    r == U::ONE || r.is_zero()
}
/// Square root with exponent (p+1)/4; None if `a` is not a square.
pub fn sqrt(a: &U) -> Option<U> {
    let a = P.reduce(a);
    let e = P.m.wadd(&U::ONE).shr(2);
    // p + 1 = 2^448 - 2^224 fits in 448 bits
    let r = P.pow(&a, &e);
    if P.sq(&r) == a {
        Some(r)
    } else {
        None
    }
}

/// Affine point of a twisted Edwards curve.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Aff {
    pub x: U,
    pub y: U,
}

/// Projective point (X:Y:Z) on a x^2 + y^2 = 1 + d x^2 y^2 with a = 1 or -1.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: U,
    pub y: U,
    pub z: U,
    pub twisted: bool,
}

impl Pt {
    pub fn identity(twisted: bool) -> Pt {
        Pt { x: U::ZERO, y: U::ONE, z: U::ONE, twisted }
    }
    pub fn new(x: U, y: U, twisted: bool) -> Pt {
        Pt { x, y, z: U::ONE, twisted }
    }
    fn d(&self) -> &'static U {
        if self.twisted {
            tw_d()
        } else {
            ed_d()
        }
    }
    /// Bernstein-Lange projective addition (add-2007-bl / add-2008-bbjlp).
    pub fn add(&self, o: &Pt) -> Pt {
        debug_assert!(self.twisted == o.twisted);
        let a = P.mul(&self.z, &o.z);
        let b = P.sq(&a);
        let c = P.mul(&self.x, &o.x);
        let d = P.mul(&self.y, &o.y);
        let e = P.mul(self.d(), &P.mul(&c, &d));
        let f = P.sub(&b, &e);
        let g = P.add(&b, &e);
        let xy = P.mul(&P.add(&self.x, &self.y), &P.add(&o.x, &o.y));
        let cross = P.sub(&P.sub(&xy, &c), &d);
        let yy = if self.twisted { P.add(&d, &c) } else { P.sub(&d, &c) };
        Pt {
            x: P.mul(&a, &P.mul(&f, &cross)),
            y: P.mul(&a, &P.mul(&g, &yy)),
            z: P.mul(&f, &g),
            twisted: self.twisted,
        }
    }
    pub fn neg(&self) -> Pt {
        Pt { x: P.neg(&self.x), ..*self }
    }
    pub fn sub(&self, o: &Pt) -> Pt {
        self.add(&o.neg())
    }
    pub fn mul(&self, s: &U) -> Pt {
        let mut t = [Pt::identity(self.twisted); 16];
        for i in 1..16 {
            t[i] = t[i - 1].add(self);
        }
        let mut r = t[0];
        let mut started = false;
        for i in (0..112).rev() {
            let d = (s.0[i / 16] >> (4 * (i % 16))) & 15;
            if started {
                for _ in 0..4 {
                    r = r.add(&r);
                }
            }
            if d != 0 {
                r = r.add(&t[d as usize]);
                started = true;
            }
        }
        r
    }
    /// Bit by bit, to check `mul` against.
    pub fn mul_slow(&self, s: &U) -> Pt {
        let mut r = Pt::identity(self.twisted);
        for i in (0..448).rev() {
            r = r.add(&r);
            if s.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn aff(&self) -> Aff {
        if self.z == U::ONE {
            return Aff { x: self.x, y: self.y };
        }
        let zi = P.inv(&self.z);
        Aff { x: P.mul(&self.x, &zi), y: P.mul(&self.y, &zi) }
    }
    pub fn norm(&self) -> Pt {
        let a = self.aff();
        Pt::new(a.x, a.y, self.twisted)
    }
    pub fn eq(&self, o: &Pt) -> bool {
        P.mul(&self.x, &o.z) == P.mul(&o.x, &self.z) && P.mul(&self.y, &o.z) == P.mul(&o.y, &self.z)
    }
    pub fn is_identity(&self) -> bool {
        self.x.is_zero() && self.y == self.z
    }
    pub fn on_curve(&self) -> bool {
        let Aff { x, y } = self.aff();
        let (xx, yy) = (P.sq(&x), P.sq(&y));
        let lhs = if self.twisted { P.sub(&yy, &xx) } else { P.add(&yy, &xx) };
        let rhs = P.add(&U::ONE, &P.mul(self.d(), &P.mul(&xx, &yy)));
        !self.z.is_zero() && lhs == rhs
    }
    /// RFC 8032 encoding (Edwards curve only).
    pub fn encode(&self) -> [u8; 57] {
        let a = self.aff();
        let mut o = [0u8; 57];
        o[..56].copy_from_slice(&a.y.to_le());
        o[56] = (a.x.is_odd() as u8) << 7;
        o
    }
    /// RFC 8032 5.2.3 decoding.
    pub fn decode(b: &[u8; 57]) -> Option<Pt> {
        if b[56] & 0x7f != 0 {
            return None;
        }
        let y = U::from_le(&b[..56]);
        if !y.lt(&P.m) {
            return None;
        }
        let sign = b[56] >> 7 == 1;
        let x = x_from_y(&y)?;
        if x.is_zero() && sign {
            return None;
        }
        let x = if x.is_odd() != sign { P.neg(&x) } else { x };
        Some(Pt::new(x, y, false))
    }
    /// u = y^2 / x^2, zero if x = 0.
    pub fn to_u(&self) -> U {
        let a = self.aff();
        P.mul(&P.sq(&a.y), &P.inv(&P.sq(&a.x)))
    }
    /// Edwards -> twisted 4-isogeny (degree counted over the closure).
    pub fn to_twisted(&self) -> Pt {
        assert!(!self.twisted);
        let a = self.aff();
        let (xx, yy) = (P.sq(&a.x), P.sq(&a.y));
        let xy = P.mul(&a.x, &a.y);
        let nx = P.mul(&P.add(&xy, &xy), &P.inv(&P.sub(&yy, &xx)));
        let s = P.add(&yy, &xx);
        let ny = P.mul(&s, &P.inv(&P.sub(&U::small(2), &s)));
        Pt::new(nx, ny, true)
    }
    pub fn to_untwisted(&self) -> Pt {
        assert!(self.twisted);
        let a = self.aff();
        let (xx, yy) = (P.sq(&a.x), P.sq(&a.y));
        let xy = P.mul(&a.x, &a.y);
        let nx = P.mul(&P.add(&xy, &xy), &P.inv(&P.add(&yy, &xx)));
        let s = P.sub(&yy, &xx);
        let ny = P.mul(&s, &P.inv(&P.sub(&U::small(2), &s)));
        Pt::new(nx, ny, false)
    }
}

/// Some root x of x^2 = (1-y^2)/(1-d y^2), if any.
pub fn x_from_y(y: &U) -> Option<U> {
    let yy = P.sq(y);
    let num = P.sub(&U::ONE, &yy);
    let den = P.sub(&U::ONE, &P.mul(ed_d(), &yy));
    sqrt(&P.mul(&num, &P.inv(&den)))
}

pub fn base() -> &'static Pt {
    static V: OnceLock<Pt> = OnceLock::new();
    V.get_or_init(|| {
        let be = |s: &str| {
            let mut b = unhex(s);
            b.reverse();
            U::from_le(&b)
        };
        // RFC 8032, section 5.2
        Pt::new(
            be("4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e"),
            be("693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14"),
            false,
        )
    })
}
/// The four rational points of order dividing 4: identity, order 2, two of order 4.
pub fn torsion(i: usize) -> Pt {
    match i & 3 {
        0 => Pt::identity(false),
        1 => Pt::new(U::ONE, U::ZERO, false),
        2 => Pt::new(U::ZERO, P.neg(&U::ONE), false),
        _ => Pt::new(P.neg(&U::ONE), U::ZERO, false),
    }
}

/// Fixed-base multiples by a radix-16 table (itself built with `add` only).
/// RFC 9496's decaf448 generator, as a point of this Edwards model: it is [2]B.
pub fn decaf_base() -> Pt {
    base_mul(&U::small(2))
}
pub fn base_mul(s: &U) -> Pt {
    static T: OnceLock<Vec<[Pt; 16]>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut v = Vec::new();
        let mut b = *base();
        for _ in 0..112 {
            let mut row = [Pt::identity(false); 16];
            for i in 1..16 {
                row[i] = row[i - 1].add(&b);
            }
            for r in row.iter_mut() {
                *r = r.norm();
            }
            b = row[15].add(&b).norm();
            v.push(row);
        }
        v
    });
    let mut r = Pt::identity(false);
    for i in 0..112 {
        let d = (s.0[i / 16] >> (4 * (i % 16))) & 15;
        if d != 0 {
            r = r.add(&t[i][d as usize]);
        }
    }
    r
}

/// X-only multiplication, RFC 7748 section 5 ladder with an arbitrary scalar.
pub fn mont_mul(u: &U, k: &U) -> U {
    let x1 = P.reduce(u);
    let (mut x2, mut z2, mut x3, mut z3) = (U::ONE, U::ZERO, x1, U::ONE);
    let mut swap = false;
    let a24 = U::small(39081);
    for t in (0..448).rev() {
        let kt = k.bit(t);
        if swap != kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = P.add(&x2, &z2);
        let aa = P.sq(&a);
        let b = P.sub(&x2, &z2);
        let bb = P.sq(&b);
        let e = P.sub(&aa, &bb);
        let c = P.add(&x3, &z3);
        let d = P.sub(&x3, &z3);
        let da = P.mul(&d, &a);
        let cb = P.mul(&c, &b);
        x3 = P.sq(&P.add(&da, &cb));
        z3 = P.mul(&x1, &P.sq(&P.sub(&da, &cb)));
        x2 = P.mul(&aa, &bb);
        z2 = P.mul(&e, &P.add(&aa, &P.mul(&a24, &e)));
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    P.mul(&x2, &P.inv(&z2))
}

/// The same function from the affine chord-and-tangent law of B v^2 = u^3 + A u^2 + u
/// (B = 1 on the curve, B = -1 on the twist); slow, used to validate `mont_mul`.
pub fn mont_mul_affine(u: &U, k: &U) -> U {
    let u = P.reduce(u);
    let a = U::small(156326);
    let rhs = P.mul(&u, &P.add(&P.add(&P.sq(&u), &P.mul(&a, &u)), &U::ONE));
    let (b, v) = match sqrt(&rhs) {
        Some(v) => (U::ONE, v),
        None => (P.neg(&U::ONE), sqrt(&P.neg(&rhs)).unwrap()),
    };
    let add = |p: &Option<(U, U)>, q: &Option<(U, U)>| -> Option<(U, U)> {
        let (x1, y1) = match p {
            None => return *q,
            Some(x) => *x,
        };
        let (x2, y2) = match q {
            None => return *p,
            Some(x) => *x,
        };
        let lam = if x1 == x2 {
            if P.add(&y1, &y2).is_zero() {
                return None;
            }
            let n = P.add(
                &P.add(&P.mul(&U::small(3), &P.sq(&x1)), &P.mul(&U::small(2), &P.mul(&a, &x1))),
                &U::ONE,
            );
            P.mul(&n, &P.inv(&P.mul(&U::small(2), &P.mul(&b, &y1))))
        } else {
            P.mul(&P.sub(&y2, &y1), &P.inv(&P.sub(&x2, &x1)))
        };
        let x3 = P.sub(&P.sub(&P.sub(&P.mul(&b, &P.sq(&lam)), &a), &x1), &x2);
        let y3 = P.sub(&P.mul(&lam, &P.sub(&x1, &x3)), &y1);
        Some((x3, y3))
    };
    let p = Some((u, v));
    let mut r: Option<(U, U)> = None;
    for i in (0..448).rev() {
        r = add(&r, &r);
        if k.bit(i) {
            r = add(&r, &p);
        }
    }
    match r {
        None => U::ZERO,
        Some((x, _)) => x,
    }
}

// ---- RFC 9496 decaf448, on the Edwards curve ----

fn abs(a: &U) -> U {
    if a.is_odd() {
        P.neg(a)
    } else {
        *a
    }
}
/// SQRT_RATIO_M1(1, v)
fn inv_sqrt(v: &U) -> (bool, U) {
    // r = u * (u*v)^((p-3)/4) with u = 1
    let e = P.m.wsub(&U::small(3)).shr(2);
    let r = P.pow(v, &e);
    let check = P.mul(v, &P.sq(&r));
    (check == U::ONE, abs(&r))
}
fn decaf_consts() -> &'static (U, U) {
    static V: OnceLock<(U, U)> = OnceLock::new();
    V.get_or_init(|| {
        // SQRT_MINUS_D = sqrt(39081), INVSQRT_MINUS_D = 1/sqrt(39081), non-negative roots as in the RFC
        let s = abs(&sqrt(&U::small(39081)).unwrap());
        let i = abs(&P.inv(&s));
        (s, i)
    })
}
pub fn decaf_decode(b: &[u8; 56]) -> Option<Pt> {
    let s = U::from_le(b);
    if !s.lt(&P.m) || s.is_odd() {
        return None;
    }
    let (sqrt_minus_d, invsqrt_minus_d) = decaf_consts();
    let ss = P.sq(&s);
    let u1 = P.add(&U::ONE, &ss);
    let u2 = P.sub(&P.sq(&u1), &P.mul(&P.mul(&U::small(4), ed_d()), &ss));
    let (ok, isr) = inv_sqrt(&P.mul(&u2, &P.sq(&u1)));
    if !ok {
        return None;
    }
    let u3 = abs(&P.mul(
        &P.mul(&P.mul(&P.add(&s, &s), &isr), &u1),
        sqrt_minus_d,
    ));
    let x = P.mul(&P.mul(&P.mul(&u3, &isr), &u2), invsqrt_minus_d);
    let y = P.mul(&P.mul(&P.sub(&U::ONE, &ss), &isr), &u1);
    Some(Pt::new(x, y, false))
}
pub fn decaf_encode(p: &Pt) -> [u8; 56] {
    let (sqrt_minus_d, invsqrt_minus_d) = decaf_consts();
    let a = p.aff();
    let (x0, t0, z0) = (a.x, P.mul(&a.x, &a.y), U::ONE);
    let u1 = P.mul(&P.add(&x0, &t0), &P.sub(&x0, &t0));
    let omd = U::small(39082);
    let (_, isr) = inv_sqrt(&P.mul(&P.mul(&u1, &omd), &P.sq(&x0)));
    let ratio = abs(&P.mul(&P.mul(&isr, &u1), sqrt_minus_d));
    let u2 = P.sub(&P.mul(&P.mul(invsqrt_minus_d, &ratio), &z0), &t0);
    let s = abs(&P.mul(&P.mul(&P.mul(&omd, &isr), &x0), &u2));
    s.to_le()
}
/// Decaf group equality of two Edwards representatives.
pub fn decaf_eq(p: &Pt, q: &Pt) -> bool {
    // RFC 9496 5.3.3: x1*y2 == y1*x2
    let (a, b) = (p.aff(), q.aff());
    P.mul(&a.x, &b.y) == P.mul(&a.y, &b.x)
}

/// Validates the oracle itself: published vectors and independent recomputation.
pub fn selftest() -> Result<usize, String> {
    let mut n = 0usize;
    let mut ck = |c: bool, what: &str| -> Result<(), String> {
        n += 1;
        if c {
            Ok(())
        } else {
            Err(format!("oracle self-test failed: {}", what))
        }
    };
    // Curve constants.
    ck(base().on_curve(), "base on curve")?;
    ck(base().mul(&L.m).is_identity(), "order of base")?;
    ck(!is_square(ed_d()), "d non-square")?;
    for i in 0..4 {
        ck(torsion(i).on_curve() && torsion(i).mul(&U::small(4)).is_identity(), "torsion")?;
        ck(torsion(1).mul(&U::small(i as u64)).eq(&torsion(i)), "torsion generator")?;
    }
    ck(base().to_u() == U::small(5), "u(base) = 5")?;
    // RFC 7748 5.2 vectors (decodeScalar448 clamps).
    let v = [
        ("3d262fddf9ec8e88495266fea19a34d28882acef045104d0d1aae121700a779c984c24f8cdd78fbff44943eba368f54b29259a4f1c600ad3",
         "06fce640fa3487bfda5f6cf2d5263f8aad88334cbd07437f020f08f9814dc031ddbdc38c19c6da2583fa5429db94ada18aa7a7fb4ef8a086",
         "ce3e4ff95a60dc6697da1db1d85e6afbdf79b50a2412d7546d5f239fe14fbaadeb445fc66a01b0779d98223961111e21766282f73dd96b6f"),
        ("0500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000",
         "0500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000",
         "3f482c8a9f19b01e6c46ee9711d9dc14fd4bf67af30765c2ae2b846a4d23a8cd0db897086239492caf350b51f833868b9bc2b3bca9cf4113"),
    ];
    for (k, u, o) in v.iter() {
        let mut k = unhex(k);
        clamp(&mut k);
        ck(mont_mul(&U::from_le(&unhex(u)), &U::from_le(&k)).to_le()[..] == unhex(o)[..], "RFC 7748 vector")?;
    }
    // Ladder against affine arithmetic, curve and twist, odd and even.
    let mut rng = crate::rng::Rng::new(7, 7);
    for i in 0..6u64 {
        let u = U::from_le(&rng.bytes::<56>());
        let k = if i < 2 { U::small(i + 1) } else { U::from_le(&rng.bytes::<56>()) };
        ck(mont_mul(&u, &k) == mont_mul_affine(&u, &k), "ladder vs affine")?;
    }
    // Edwards vs Montgomery.
    for _ in 0..3 {
        let k = U::from_le(&rng.bytes::<56>());
        let q = base_mul(&k);
        ck(q.eq(&base().mul(&k)), "fixed base")?;
        ck(q.on_curve(), "closure")?;
        ck(q.to_u() == mont_mul(&U::small(5), &k), "edwards/montgomery")?;
        ck(q.to_twisted().on_curve(), "isogeny image")?;
        ck(q.to_twisted().to_untwisted().eq(&q.mul(&U::small(4))), "isogeny [4]")?;
        ck(Pt::decode(&q.encode()).map_or(false, |r| r.eq(&q)), "rfc8032 round trip")?;
        // associativity of the affine law through scalars
        ck(q.add(base()).eq(&base_mul(&L.add(&L.reduce(&k), &U::ONE))), "k+1")?;
    }
    // RFC 9496 A.? multiples of the generator.
    let gens = [
        "6666666666666666666666666666666666666666666666666666666633333333333333333333333333333333333333333333333333333333",
        "c898eb4f87f97c564c6fd61fc7e49689314a1f818ec85eeb3bd5514ac816d38778f69ef347a89fca817e66defdedce178c7cc709b2116e75",
        "a0c09bf2ba7208fda0f4bfe3d0f5b29a543012306d43831b5adc6fe7f8596fa308763db15468323b11cf6e4aeb8c18fe44678f44545a69bc",
    ];
    for (i, g) in gens.iter().enumerate() {
        let q = base_mul(&U::small(2 * (i as u64 + 1)));
        ck(decaf_encode(&q)[..] == unhex(g)[..], "RFC 9496 generator multiple")?;
        for t in 0..4 {
            ck(decaf_encode(&q.add(&torsion(t))) == decaf_encode(&q) || t % 2 == 1, "decaf torsion")?;
        }
        let mut b = [0u8; 56];
        b.copy_from_slice(&unhex(g));
        let r = decaf_decode(&b).ok_or("decode")?;
        ck(decaf_eq(&r, &q), "decaf decode")?;
    }
    // Fast paths against slow ones.
    let edges = crate::gen::edges();
    for m in [&P, &L] {
        for i in 0..4000 {
            let mut pick = || match i % 3 {
                0 => *rng.pick(edges),
                1 => U::from_le(&rng.bytes::<56>()),
                _ => m.m.wsub(&U::small(rng.below(9) as u64)),
            };
            let (a, b) = (pick(), pick());
            ck(m.mul(&a, &b) == m.mul_slow(&a, &b), "product")?;
            let mut w = [0u64; crate::big::W];
            let mut c = 0u128;
            for k in 0..7 {
                c += a.0[k] as u128 + b.0[k] as u128;
                w[k] = c as u64;
                c >>= 64;
            }
            w[7] = c as u64;
            ck(m.add(&a, &b) == m.reduce_wide(&w), "sum")?;
            ck(m.add(&m.sub(&a, &b), &b) == m.reduce(&a), "difference")?;
        }
    }
    for i in 0..4 {
        let k = U::from_le(&rng.bytes::<56>());
        ck(base().add(&torsion(i)).mul(&k).eq(&base().add(&torsion(i)).mul_slow(&k)), "windowed multiple")?;
    }
    for n in [0usize, 1, 31, 63, 64, 65, 224, 446, 447] {
        let a = U::from_le(&rng.bytes::<56>());
        let b = a.shr(n);
        ck((0..448).all(|i| b.bit(i) == (i + n < 448 && a.bit(i + n))), "shift")?;
    }
    // Modular arithmetic sanity: Fermat and distributivity.
    for m in [&P, &L] {
        for _ in 0..8 {
            let a = m.reduce(&U::from_le(&rng.bytes::<56>()));
            let b = m.reduce(&U::from_le(&rng.bytes::<56>()));
            let c = m.reduce(&U::from_le(&rng.bytes::<56>()));
            ck(m.mul(&a, &m.inv(&a)) == U::ONE, "inverse")?;
            ck(m.mul(&a, &m.add(&b, &c)) == m.add(&m.mul(&a, &b), &m.mul(&a, &c)), "distributive")?;
            ck(m.mul(&m.mul(&a, &b), &c) == m.mul(&a, &m.mul(&b, &c)), "associative")?;
            ck(m.add(&m.half(&a), &m.half(&a)) == a, "half")?;
        }
        // bytes: value = m * 2^k + r
        ck(m.reduce(&m.m).is_zero(), "m mod m")?;
    }
    Ok(n)
}
pub fn clamp(k: &mut [u8]) {
    k[0] &= 252;
    k[55] |= 128;
}
