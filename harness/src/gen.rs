//! Workload generators: realistic, structured and hostile operands.
use crate::big::{L, P, U};
use crate::cov;
use crate::oracle::{self, Pt};
use crate::rng::Rng;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::ExtendedPoint;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use std::sync::OnceLock;

/// Edge values of 448-bit integers that matter to any radix and both moduli.
pub fn edges() -> &'static Vec<U> {
    static V: OnceLock<Vec<U>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<U> = Vec::new();
        for i in 0..10 {
            v.push(U::small(i));
            v.push(U::MAX.wsub(&U::small(i)));
        }
        let mut near = |c: U| {
            for i in 0..4 {
                v.push(c.wadd(&U::small(i)));
                v.push(c.wsub(&U::small(i)));
            }
        };
        near(P.m);
        near(P.m.shr(1));
        let mut jl = L.m;
        for _ in 0..4 {
            near(jl);
            jl = jl.wadd(&L.m);
        }
        near(L.m.shr(1));
        for k in [
            28, 32, 56, 64, 112, 128, 192, 224, 252, 255, 256, 280, 320, 384, 392, 416, 420, 444,
            445, 446, 447,
        ] {
            let mut x = U::ZERO;
            x.set_bit(k, true);
            v.push(x);
            v.push(x.wsub(&U::ONE));
            v.push(x.wadd(&U::ONE));
        }
        // radix-16 extremes: all digits 7, 8, 9, f, and alternations
        for b in [0x77u8, 0x88, 0x99, 0x78, 0x87, 0x80, 0x08, 0xf0, 0x0f, 0x55, 0xaa, 0x11] {
            v.push(U::from_le(&[b; 56]));
        }
        // single saturated 32-bit limb and single missing limb
        for i in 0..14 {
            let mut b = [0u8; 56];
            b[4 * i..4 * i + 4].fill(0xff);
            v.push(U::from_le(&b));
            let mut b = [0xffu8; 56];
            b[4 * i..4 * i + 4].fill(0);
            v.push(U::from_le(&b));
        }
        // one limb of l / p off by one
        for i in 0..14 {
            let mut one = U::ZERO;
            one.set_bit(32 * i, true);
            v.push(L.m.wadd(&one));
            v.push(L.m.wsub(&one));
            v.push(P.m.wsub(&one));
        }
        v.sort();
        v.dedup();
        v
    })
}
pub fn edges_mod(m: &'static crate::big::Modulus) -> Vec<U> {
    let mut v: Vec<U> = edges().iter().map(|x| m.reduce(x)).collect();
    v.sort();
    v.dedup();
    v
}

fn limbs(rng: &mut Rng, w: usize) -> U {
    let mut u = U::ZERO;
    let style = rng.below(4);
    let mut i = 0;
    while i < 448 {
        let n = w.min(448 - i);
        let full = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
        let v = match rng.below(if style == 0 { 3 } else { 9 }) {
            0 => 0,
            1 => full,
            2 => {
                if style == 1 {
                    rng.u64() & full
                } else {
                    full
                }
            }
            3 => 1,
            4 => full - 1,
            5 => 1 << (n - 1),
            6 => (1u64 << (n - 1)) - 1,
            7 => (1u64 << (n - 1)) + 1 & full,
            _ => rng.u64() & full,
        };
        for j in 0..n {
            if (v >> j) & 1 == 1 {
                u.set_bit(i + j, true);
            }
        }
        i += n;
    }
    u
}
fn mix_limbs(rng: &mut Rng, m: &U, w: usize) -> U {
    // limbs of m, some of them nudged, the rest kept: forces long carry/borrow chains
    let mut u = *m;
    let n = 1 + rng.below(3);
    for _ in 0..n {
        let i = rng.below(448 / w) * w;
        let mut one = U::ZERO;
        one.set_bit(i, true);
        match rng.below(4) {
            0 => u = u.wadd(&one),
            1 => u = u.wsub(&one),
            2 => {
                for j in 0..w.min(448 - i) {
                    u.set_bit(i + j, rng.bool());
                }
            }
            _ => {
                let v = rng.bool();
                for j in 0..w.min(448 - i) {
                    u.set_bit(i + j, v);
                }
            }
        }
    }
    u
}

/// Any 448-bit integer, biased towards hostile shapes. Returns the class name too.
pub fn u448(rng: &mut Rng) -> (U, &'static str) {
    let (u, c) = match cov::suggest(rng) {
        Some(u) => (u, "feedback"),
        None => match cov::from_corpus(rng) {
            Some(u) => (u, "corpus"),
            None => u448_fresh(rng),
        },
    };
    cov::note(&u);
    (u, c)
}
fn u448_fresh(rng: &mut Rng) -> (U, &'static str) {
    match rng.below(16) {
        0 | 1 | 2 | 3 => (U::from_le(&rng.bytes::<56>()), "random"),
        4 => (*rng.pick(edges()), "edge"),
        5 => {
            let e = *rng.pick(edges());
            let d = U::small(rng.below(1 << 16) as u64);
            (if rng.bool() { e.wadd(&d) } else { e.wsub(&d) }, "near-edge")
        }
        6 => (limbs(rng, 28), "limbs28"),
        7 => (limbs(rng, 32), "limbs32"),
        8 => (limbs(rng, 56), "limbs56"),
        9 => (limbs(rng, 4), "nibbles"),
        10 => {
            let mut u = U::ZERO;
            for _ in 0..1 + rng.below(4) {
                u.set_bit(rng.below(448), true);
            }
            (u, "sparse")
        }
        11 => {
            let mut u = U::MAX;
            for _ in 0..1 + rng.below(4) {
                u.set_bit(rng.below(448), false);
            }
            (u, "dense")
        }
        12 => {
            let n = rng.below(448);
            (U::from_le(&rng.bytes::<56>()).shr(n), "short")
        }
        13 => {
            // high bits random, low bits zero or one
            let n = rng.below(448);
            let mut u = U::from_le(&rng.bytes::<56>());
            let v = rng.bool();
            for i in 0..n {
                u.set_bit(i, v);
            }
            (u, "long-tail")
        }
        14 => {
            let w = *rng.pick(&[28, 32, 56, 64]);
            let m = if rng.bool() { P.m } else { L.m };
            (mix_limbs(rng, &m, w), "modulus-mix")
        }
        _ => {
            let j = 1 + rng.below(3);
            let mut u = U::from_le(&rng.bytes::<56>());
            u = L.reduce(&u);
            for _ in 0..j {
                u = u.wadd(&L.m);
            }
            (u, "above-order")
        }
    }
}
pub fn scalar_canon(rng: &mut Rng) -> (U, &'static str) {
    let (u, c) = u448(rng);
    (L.reduce(&u), c)
}
pub fn field(rng: &mut Rng) -> (U, &'static str) {
    let (u, c) = u448(rng);
    (P.reduce(&u), c)
}
pub fn sc(u: &U) -> Scalar {
    Scalar::from_bytes(u.to_le())
}

/// A point of the whole curve group as the model sees it. `kt` is set when the point
/// is known to be [k]B + [t]T (T the order-4 point), which makes multiples cheap.
#[derive(Clone, Copy)]
pub struct Mp {
    pub m: Pt,
    pub kt: Option<(U, usize)>,
    pub class: &'static str,
}
impl Mp {
    pub fn kt(k: U, t: usize, class: &'static str) -> Mp {
        let k = L.reduce(&k);
        Mp { m: oracle::base_mul(&k).add(&oracle::torsion(t)).norm(), kt: Some((k, t & 3)), class }
    }
    /// [k] times the Decaf generator.
    pub fn dk(k: U, class: &'static str) -> Mp {
        let k = L.reduce(&k);
        Mp::kt(L.add(&k, &k), 0, class)
    }
    pub fn mul(&self, s: &U) -> Pt {
        match self.kt {
            Some((k, t)) => oracle::base_mul(&L.mul(&k, &L.reduce(s)))
                .add(&oracle::torsion((t * (s.0[0] & 3) as usize) & 3)),
            None => self.m.mul(s),
        }
    }
    pub fn torsion_free(&self) -> bool {
        match self.kt {
            Some((_, t)) => t == 0,
            None => self.m.mul(&L.m).is_identity(),
        }
    }
    pub fn enc(&self) -> [u8; 57] {
        self.m.encode()
    }
    pub fn lifted(y0: U, rng: &mut Rng) -> Mp {
        let mut y = P.reduce(&y0);
        loop {
            if let Some(x) = oracle::x_from_y(&y) {
                let x = if rng.bool() { P.neg(&x) } else { x };
                return if rng.bool() {
                    Mp { m: Pt::new(x, y, false), kt: None, class: "lifted-y" }
                } else {
                    Mp { m: Pt::new(y, x, false), kt: None, class: "lifted-x" }
                };
            }
            y = P.add(&y, &U::ONE);
        }
    }
}
pub fn model_point(rng: &mut Rng) -> Mp {
    match rng.below(14) {
        0 => Mp::kt(U::ZERO, 0, "identity"),
        1 => Mp::kt(U::ZERO, 1 + rng.below(3), "torsion"),
        2 => Mp::kt(U::ONE, 0, "base"),
        3 => {
            let k = U::small(1 + rng.below(40) as u64);
            Mp::kt(if rng.bool() { k } else { L.neg(&k) }, 0, "small-multiple")
        }
        4 | 5 => Mp::kt(scalar_canon(rng).0, 0, "prime-order"),
        6 | 7 => Mp::kt(scalar_canon(rng).0, 1 + rng.below(3), "mixed-torsion"),
        8 => Mp::kt(U::small(rng.below(20) as u64), 1 + rng.below(3), "small-mixed"),
        _ => {
            let y = if rng.below(4) == 0 { U::small(rng.below(200) as u64) } else { field(rng).0 };
            Mp::lifted(y, rng)
        }
    }
}

/// The crate's own point for a model point, through the wire format. None when the
/// crate does not return that very point (which is another property's business).
pub fn lift(p: &Pt) -> Option<ExtendedPoint> {
    let e = p.encode();
    let q = CompressedEdwardsY(e).decompress()?;
    if q.compress().0[..] == e[..] {
        Some(q)
    } else {
        None
    }
}

/// Changes the projective representation of a point without changing the point.
pub fn rerepresent(rng: &mut Rng, p: ExtendedPoint) -> (ExtendedPoint, &'static str) {
    let g = ExtendedPoint::generator();
    match rng.below(8) {
        0 | 1 => (p, "z=1"),
        2 => (p + ExtendedPoint::identity(), "p+0"),
        3 => ((p + g) - g, "p+g-g"),
        4 => {
            let q = g.double();
            ((q + p) - q, "2g+p-2g")
        }
        5 => (p.torque().torque() + ExtendedPoint::identity(), "torque2"),
        6 => (-(-p + ExtendedPoint::identity()), "neg"),
        _ => {
            let mut r = p;
            for _ in 0..3 {
                r = (r + g) + ExtendedPoint::identity();
            }
            (r - g - g - g, "walk")
        }
    }
}

pub struct Pair {
    pub c: ExtendedPoint,
    pub mp: Mp,
    pub m: Pt,
    pub rep: &'static str,
}
pub fn realise(rng: &mut Rng, mp: Mp) -> Option<Pair> {
    let c = match mp.class {
        "identity" if rng.bool() => ExtendedPoint::identity(),
        "base" if rng.bool() => ExtendedPoint::generator(),
        _ => lift(&mp.m)?,
    };
    let (c, rep) = rerepresent(rng, c);
    Some(Pair { c, mp, m: mp.m, rep })
}
/// The inverse of an odd s modulo the order 4l of the whole curve group.
pub fn inv_4l(s: &U) -> Option<U> {
    let r = L.reduce(s);
    if r.is_zero() || !s.is_odd() {
        return None;
    }
    let mut x = L.inv(&r);
    while x.0[0] & 3 != s.0[0] & 3 {
        x = x.wadd(&L.m);
    }
    Some(x)
}
/// A point P chosen so that [s]P has an edge coordinate (s odd, not a multiple of l).
pub fn edge_product(rng: &mut Rng, s: &U) -> Option<Mp> {
    let k = inv_4l(s)?;
    let y = *rng.pick(edges());
    let r = Mp::lifted(y, rng);
    Some(Mp { m: r.m.mul(&k).norm(), kt: None, class: "edge-product" })
}
/// An odd scalar, otherwise like `u448`.
pub fn odd(rng: &mut Rng) -> U {
    let mut s = u448(rng).0;
    s.set_bit(0, true);
    s
}
/// A crate point with its model. None if the crate did not decode a valid encoding.
pub fn point(rng: &mut Rng) -> Option<Pair> {
    let mp = model_point(rng);
    realise(rng, mp)
}
/// A model point related to `p`.
pub fn related(rng: &mut Rng, p: &Mp) -> (Mp, &'static str) {
    let derived = |m: Pt| Mp { m: m.norm(), kt: None, class: "derived" };
    match rng.below(13) {
        11 => {
            // P + Q has an edge coordinate
            let y = *rng.pick(edges());
            (derived(Mp::lifted(y, rng).m.sub(&p.m)), "edge-sum")
        }
        12 => {
            let y = *rng.pick(edges());
            (derived(p.m.sub(&Mp::lifted(y, rng).m)), "edge-difference")
        }
        0 => (*p, "same"),
        1 => (derived(p.m.neg()), "inverse"),
        2 => (derived(p.m.add(&oracle::torsion(1 + rng.below(3)))), "torsion-shift"),
        3 => (derived(p.m.neg().add(&oracle::torsion(1 + rng.below(3)))), "neg-torsion-shift"),
        4 => (derived(p.m.add(&p.m)), "double"),
        5 => (derived(p.m.add(&p.m).neg()), "minus-double"),
        6 => (derived(Pt::new(p.m.aff().y, p.m.aff().x, false)), "swapped"),
        _ => (model_point(rng), "unrelated"),
    }
}
/// Related pairs: equal, inverse, torsion-shifted, doubled, unrelated.
pub fn pair(rng: &mut Rng) -> Option<(Pair, Pair, &'static str)> {
    let p = point(rng)?;
    let (q, rel) = related(rng, &p.mp);
    let q = realise(rng, q)?;
    Some((p, q, rel))
}

/// A Decaf element: crate element and Edwards model representative.
pub struct DPair {
    pub c: DecafPoint,
    pub mp: Mp,
    pub enc: [u8; 56],
}
pub fn dlift(mp: Mp) -> Option<DPair> {
    let enc = oracle::decaf_encode(&mp.m);
    let c = CompressedDecaf(enc).decompress()?;
    Some(DPair { c, mp, enc })
}
/// Nearest decodable even s at or above `s0` (wrapping), as a model element.
pub fn decaf_near(s0: U) -> Mp {
    let mut s = P.reduce(&s0);
    loop {
        let even = if s.is_odd() { P.neg(&s) } else { s };
        if let Some(m) = oracle::decaf_decode(&even.to_le()) {
            return Mp { m, kt: None, class: "lifted" };
        }
        s = P.add(&s, &U::ONE);
    }
}
pub fn decaf_mp(rng: &mut Rng) -> Mp {
    match rng.below(8) {
        0 => Mp::dk(U::ZERO, "identity"),
        1 => Mp::dk(U::ONE, "generator"),
        2 | 3 => decaf_near(field(rng).0),
        4 => {
            let k = U::small(rng.below(33) as u64);
            Mp::dk(if rng.bool() { k } else { L.neg(&k) }, "small-multiple")
        }
        _ => Mp::dk(scalar_canon(rng).0, "multiple"),
    }
}
pub fn drealise(rng: &mut Rng, mp: Mp) -> Option<DPair> {
    let d = match mp.class {
        "identity" if rng.bool() => {
            DPair { c: DecafPoint::identity(), mp, enc: [0; 56] }
        }
        "generator" if rng.bool() => {
            DPair { c: DecafPoint::generator(), mp, enc: oracle::decaf_encode(&mp.m) }
        }
        _ => dlift(mp)?,
    };
    let g = DecafPoint::generator();
    // other representatives of the same element
    let c = match rng.below(6) {
        0 | 1 => d.c,
        2 => &d.c + &DecafPoint::identity(),
        3 => &(&d.c + &g) - &g,
        4 => -(-d.c),
        _ => &(&g + &(&d.c + &g)) - &(&g + &g),
    };
    Some(DPair { c, ..d })
}
pub fn decaf(rng: &mut Rng) -> Option<DPair> {
    let mp = decaf_mp(rng);
    drealise(rng, mp)
}
pub fn dclone(p: &DecafPoint) -> DecafPoint {
    p + &DecafPoint::identity()
}
