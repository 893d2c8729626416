//! C13-C15: Curve448 u-coordinates.
use crate::big::{hex, L, P, U};
use crate::gen::{self, sc, Mp};
use crate::oracle;
use crate::report::Ctx;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};

fn ladder(c: &mut Ctx, u: &U, k: &U) {
    let (ub, kb) = (u.to_le(), k.to_le());
    c.seen("montgomery-mul", &[&ub, &kb]);
    c.cov(if k.is_odd() { "scalar:odd" } else { "scalar:even" });
    let want = oracle::mont_mul(u, k).to_le();
    let (p, s) = (MontgomeryPoint(ub), sc(k));
    c.same("&U * &s", &(&p * &s).0, &want, &[&ub, &kb]);
    c.same("&s * &U", &(&s * &p).0, &want, &[&ub, &kb]);
}
fn special_u() -> Vec<U> {
    let mut v: Vec<U> = (0..8).map(U::small).collect();
    v.push(P.m);
    v.push(P.m.wadd(&U::ONE));
    v.push(P.m.wsub(&U::ONE));
    v.push(P.m.wsub(&U::small(5)));
    v.push(P.m.wadd(&U::small(5)));
    v.push(U::MAX);
    v.push(P.neg(&U::small(156326)));
    v
}
fn dh(c: &mut Ctx, a: &U, b: &U) {
    // two clamped private keys
    let cl = |u: &U| {
        let mut x = u.to_le();
        oracle::clamp(&mut x);
        U::from_le(&x)
    };
    let (a, b) = (cl(a), cl(b));
    let g = MontgomeryPoint::generator();
    let (pa, pb) = (&g * &sc(&a), &g * &sc(&b));
    let (s1, s2) = (&pb * &sc(&a), &pa * &sc(&b));
    c.seen("x448", &[&a.to_le(), &b.to_le()]);
    c.ck(s1 == s2 && s1.0 == s2.0, "shared secrets differ", || format!("{} {}", a.hex(), b.hex()));
    c.same("X448 public key", &pa.0, &oracle::mont_mul(&U::small(5), &a).to_le(), &[&a.to_le()]);
    c.same("X448 secret", &s1.0, &oracle::mont_mul(&U::from_le(&pb.0), &a).to_le(), &[&a.to_le(), &b.to_le()]);
}
pub fn c13_directed() -> u64 {
    1 + gen::edges().len() as u64 + 448
}
pub fn c13(c: &mut Ctx) {
    let i = c.case as usize;
    let su = special_u();
    if i == 0 {
        c.same("generator", &MontgomeryPoint::generator().0, &U::small(5).to_le(), &[]);
        for u in &su {
            for k in 0..20 {
                ladder(c, u, &U::small(k));
            }
        }
        return;
    }
    let e = gen::edges();
    if i - 1 < e.len() {
        c.cov("class:edge-scalar");
        let k = e[i - 1];
        for u in &su {
            ladder(c, u, &k);
        }
        // edge value as u-coordinate (canonical or not, curve or twist)
        for k in [U::ONE, U::small(2), U::small(3), L.m, L.m.wadd(&U::ONE), P.m] {
            ladder(c, &e[i - 1], &k);
        }
        return;
    }
    let i = i - 1 - e.len();
    if i < 448 {
        c.cov("class:single-bit-scalar");
        let mut k = U::ZERO;
        k.set_bit(i, true);
        ladder(c, &U::small(5), &k);
        let (u, _) = gen::u448(&mut c.rng);
        ladder(c, &u, &k);
        ladder(c, &u, &k.wsub(&U::ONE));
        ladder(c, &u, &k.wadd(&U::ONE));
        return;
    }
    for _ in 0..3 {
        let (u, cu) = gen::u448(&mut c.rng);
        let (k, ck) = gen::u448(&mut c.rng);
        c.cov(format!("class:{}x{}", cu, ck));
        ladder(c, &u, &k);
    }
    if c.rng.below(3) == 0 {
        // u such that [k]u is an edge value
        let k = gen::odd(&mut c.rng);
        let t = P.reduce(c.rng.pick(gen::edges()));
        let a = U::small(156326);
        let on = oracle::is_square(&P.mul(&t, &P.add(&P.add(&P.sq(&t), &P.mul(&a, &t)), &U::ONE)));
        if let (true, Some(i)) = (on, gen::inv_4l(&k)) {
            let u = oracle::mont_mul(&t, &i);
            c.cov("class:edge-product");
            ladder(c, &u, &k);
        }
    }
    let (a, _) = gen::u448(&mut c.rng);
    let (b, _) = gen::u448(&mut c.rng);
    dh(c, &a, &b);
}

// ---- C14 ----

fn commute(c: &mut Ctx, p: &gen::Pair, s: &U) {
    let (a, b) = (p.mp.enc(), s.to_le());
    let ins: &[&[u8]] = &[&a, &b];
    c.seen("to_montgomery", &[&a, p.rep.as_bytes()]);
    let m = p.c.to_montgomery();
    c.same("to_montgomery", &m.0, &p.m.to_u().to_le(), &[&a]);
    c.seen("commute", ins);
    let want = p.mp.mul(s).to_u().to_le();
    let l = (p.c * sc(s)).to_montgomery();
    let r = &m * &sc(s);
    c.same("to_montgomery([s]P)", &l.0, &want, ins);
    c.same("[s]to_montgomery(P)", &r.0, &want, ins);
}
pub fn c14_directed() -> u64 {
    1 + gen::edges().len() as u64
}
pub fn c14(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        c.same("generator to Montgomery", &ExtendedPoint::generator().to_montgomery().0, &U::small(5).to_le(), &[]);
        c.ck(ExtendedPoint::generator().to_montgomery() == MontgomeryPoint::generator(), "generators correspond", String::new);
        for t in 0..4 {
            for k in 0..20 {
                let mp = Mp::kt(U::small(k), t, "special");
                match gen::realise(&mut c.rng, mp) {
                    None => c.cov("skip:lift"),
                    Some(p) => {
                        for s in 0..8 {
                            commute(c, &p, &U::small(s));
                        }
                    }
                }
            }
        }
        return;
    }
    let e = gen::edges();
    if i - 1 < e.len() {
        c.cov("class:edge-scalar");
        for mp in [
            Mp::kt(U::ONE, 0, "base"),
            Mp::kt(U::ZERO, 1 + i % 3, "torsion"),
            Mp::kt(U::small(3), i % 4, "special"),
            Mp::kt(e[i - 1], i % 4, "special"),
        ] {
            match gen::realise(&mut c.rng, mp) {
                None => c.cov("skip:lift"),
                Some(p) => commute(c, &p, &e[i - 1]),
            }
        }
        return;
    }
    for _ in 0..2 {
        let (s, cs) = gen::u448(&mut c.rng);
        let (s, p) = if c.rng.below(5) == 0 {
            let s = gen::odd(&mut c.rng);
            let mp = gen::edge_product(&mut c.rng, &s);
            (s, mp.and_then(|mp| gen::realise(&mut c.rng, mp)))
        } else {
            (s, gen::point(&mut c.rng))
        };
        match p {
            None => c.cov("skip:lift"),
            Some(p) => {
                c.cov(format!("class:{}/{}/{}", p.mp.class, p.rep, cs));
                commute(c, &p, &s);
            }
        }
    }
}

// ---- C15 ----

fn low(c: &mut Ctx, u: &U, mul: bool) {
    let b = u.to_le();
    c.seen("is_low_order", &[&b]);
    let r = P.reduce(u);
    let want = r.is_zero() || r == U::ONE || r == P.m.wsub(&U::ONE);
    c.cov(if want { "low:yes" } else { "low:no" });
    let p = MontgomeryPoint(b);
    c.ck(p.is_low_order() == want, "is_low_order", || format!("{} expected {}", hex(&b), want));
    if mul {
        // operational meaning: clamped scalars (multiples of 4) annihilate exactly these
        let mut k = c.rng.bytes::<56>();
        oracle::clamp(&mut k);
        let k = U::from_le(&k);
        let z = oracle::mont_mul(u, &k).is_zero();
        c.ck(z == want, "oracle: low order", || hex(&b));
        let got = (&p * &sc(&k)).0 == [0u8; 56];
        c.seen("clamped-product", &[&b, &k.to_le()]);
        c.ck(got == want, "all-zero shared secret vs low-order test", || {
            format!("u={} k={} zero={} expected {}", hex(&b), k.hex(), got, want)
        });
    }
}
pub fn c15_directed() -> u64 {
    4 + gen::edges().len() as u64
}
pub fn c15(c: &mut Ctx) {
    let i = c.case as usize;
    if i < 4 {
        c.cov("class:neighbours");
        let bases = [U::ZERO, U::ONE, P.m, P.m.wadd(&U::ONE), P.m.wsub(&U::ONE)];
        for b in bases {
            low(c, &b, true);
            for k in 0..448 {
                let mut x = b;
                x.set_bit(k, !x.bit(k));
                low(c, &x, k % 64 == i);
            }
        }
        for d in 0..200u64 {
            low(c, &U::small(d), false);
            low(c, &U::MAX.wsub(&U::small(d)), false);
            low(c, &P.m.wsub(&U::small(d)), false);
            low(c, &P.m.wadd(&U::small(d)), false);
        }
        return;
    }
    let e = gen::edges();
    if i - 4 < e.len() {
        c.cov("class:edge");
        low(c, &e[i - 4], true);
        return;
    }
    for _ in 0..16 {
        let (u, cls) = gen::u448(&mut c.rng);
        c.cov(format!("class:{}", cls));
        low(c, &u, false);
    }
    let (u, _) = gen::u448(&mut c.rng);
    low(c, &u, true);
    // u-coordinates of the images of torsion points
    for t in 0..4 {
        if let Some(p) = gen::lift(&oracle::torsion(t)) {
            let m = p.to_montgomery();
            c.seen("torsion-image", &[&m.0]);
            c.ck(m.is_low_order(), "image of a torsion point not low order", || hex(&m.0));
        }
    }
}
