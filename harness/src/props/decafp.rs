//! C16-C18: the Decaf group.
use crate::big::{hex, L, P, U};
use crate::gen::{self, sc, DPair, Mp};
use crate::oracle::{self, Pt};
use crate::report::Ctx;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};

// ---- C16 ----

fn dec(c: &mut Ctx, b: &[u8; 56]) {
    c.seen("decaf-decompress", &[b]);
    let want = oracle::decaf_decode(b);
    c.cov(if want.is_some() { "decode:valid" } else { "decode:invalid" });
    match (CompressedDecaf(*b).decompress(), want) {
        (None, None) => {}
        (None, Some(_)) => c.fail("valid decaf encoding refused", hex(b)),
        (Some(_), None) => c.fail("invalid decaf encoding accepted", hex(b)),
        (Some(p), Some(m)) => {
            c.same("re-encoding of decoded", &p.compress().0, b, &[b]);
            // the decoded element is the right one: use it
            let g = DecafPoint::generator();
            c.same("decoded + generator", &(&p + &g).compress().0, &oracle::decaf_encode(&m.add(&oracle::decaf_base())), &[b]);
            c.ck(p.equals(&p), "decoded element not equal to itself", || hex(b));
        }
    }
}
/// RFC 9496 appendix B.? style rejects: non-canonical, negative, non-square.
pub fn c16_directed() -> u64 {
    20 + gen::edges().len() as u64
}
pub fn c16(c: &mut Ctx) {
    let i = c.case as usize;
    if i < 8 {
        c.cov("class:small-s");
        for k in 0..64u64 {
            let v = U::small(64 * i as u64 + k);
            dec(c, &v.to_le());
            dec(c, &P.neg(&v).to_le());
        }
        return;
    }
    if i < 16 {
        c.cov("class:non-canonical");
        for k in 0..64u64 {
            // p + k: every value >= p whose residue is small
            dec(c, &P.m.wadd(&U::small(64 * (i as u64 - 8) + k)).to_le());
        }
        return;
    }
    if i < 20 {
        c.cov("class:bit-flips");
        let b = match i {
            16 => [0u8; 56],
            17 => oracle::decaf_encode(&oracle::decaf_base()),
            18 => oracle::decaf_encode(&Mp::dk(U::small(12345), "").m),
            _ => P.m.to_le(),
        };
        dec(c, &b);
        for k in 0..448 {
            let mut x = b;
            x[k / 8] ^= 1 << (k % 8);
            dec(c, &x);
        }
        return;
    }
    let e = gen::edges();
    if i - 20 < e.len() {
        c.cov("class:edge");
        dec(c, &e[i - 20].to_le());
        dec(c, &P.neg(&e[i - 20]).to_le());
        return;
    }
    for _ in 0..6 {
        let (s, cls) = gen::u448(&mut c.rng);
        c.cov(format!("class:{}", cls));
        dec(c, &s.to_le());
        let mut r = P.reduce(&s);
        if r.is_odd() {
            r = P.neg(&r);
        }
        dec(c, &r.to_le());
        // a valid encoding, its negative, its non-canonical alias where one exists
        let mp = gen::decaf_mp(&mut c.rng);
        let v = oracle::decaf_encode(&mp.m);
        dec(c, &v);
        dec(c, &P.neg(&U::from_le(&v)).to_le());
        let alias = U::from_le(&v).wadd(&P.m);
        dec(c, &alias.to_le());
        let mut x = v;
        let k = c.rng.below(448);
        x[k / 8] ^= 1 << (k % 8);
        dec(c, &x);
    }
}

// ---- C17 ----

fn same_d(c: &mut Ctx, what: &str, got: &DecafPoint, want: &Pt, ins: &[&[u8]]) -> bool {
    c.same(what, &got.compress().0, &oracle::decaf_encode(want), ins)
}
fn eq_check(c: &mut Ctx, p: &DecafPoint, a: &[u8; 56], q: &DecafPoint, b: &[u8; 56], how: &str) {
    c.seen("decaf-equals", &[a, b, how.as_bytes()]);
    let want = a == b;
    c.cov(if want { "eq:equal" } else { "eq:different" });
    let d = || format!("{} vs {} ({}) expected {}", hex(a), hex(b), how, want);
    c.ck(p.equals(q) == want, "equals", d);
    c.ck(q.equals(p) == want, "equals (swapped)", d);
}
/// Several computations of the same multiple of the generator.
fn routes(k: &U, rng: &mut crate::rng::Rng) -> Vec<(DecafPoint, &'static str)> {
    let g = DecafPoint::generator();
    let mut v = Vec::new();
    v.push((&g * &sc(k), "k*G"));
    let a = gen::scalar_canon(rng).0;
    let b = L.sub(k, &a);
    v.push((&(&g * &sc(&a)) + &(&g * &sc(&b)), "a*G + (k-a)*G"));
    v.push((&(&g * &sc(&a)) - &(&g * &sc(&L.neg(&b))), "a*G - (a-k)*G"));
    if !a.is_zero() {
        let q = L.mul(k, &L.inv(&a));
        v.push((&(&g * &sc(&a)) * &sc(&q), "(k/a)*(a*G)"));
    }
    v.push((-(&g * &sc(&L.neg(k))), "-(-k*G)"));
    // unreduced scalar
    let mut u = L.reduce(k);
    for _ in 0..1 + rng.below(3) {
        u = u.wadd(&L.m);
    }
    v.push((&g * &sc(&u), "(k+j*l)*G"));
    v.push((&(&g * &sc(k)) + &DecafPoint::identity(), "k*G+0"));
    v
}
pub fn c17_directed() -> u64 {
    34 + gen::edges().len() as u64
}
pub fn c17(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        c.same("identity encodes as zeros", &DecafPoint::identity().compress().0, &[0u8; 56], &[]);
        c.same("CompressedDecaf::identity", &CompressedDecaf::identity().0, &[0u8; 56], &[]);
        same_d(c, "generator", &DecafPoint::generator(), &oracle::decaf_base(), &[]);
        c.same("generator (RFC 9496)", &DecafPoint::generator().compress().0, &oracle::decaf_encode(&oracle::decaf_base()), &[]);
        let z = DecafPoint::generator() - DecafPoint::generator();
        c.same("G - G", &z.compress().0, &[0u8; 56], &[]);
        c.ck(z.equals(&DecafPoint::identity()), "G - G equals identity", String::new);
        return;
    }
    let e = gen::edges();
    let k = if i < 34 {
        c.cov("class:small-multiple");
        Some(U::small(i as u64 - 1))
    } else if i - 34 < e.len() {
        c.cov("class:edge-multiple");
        Some(L.reduce(&e[i - 34]))
    } else {
        None
    };
    let k = match k {
        Some(k) => k,
        None => gen::scalar_canon(&mut c.rng).0,
    };
    let m = Mp::dk(k, "").m.norm();
    let want = oracle::decaf_encode(&m);
    let rs = routes(&k, &mut c.rng);
    for (p, how) in rs.iter() {
        c.seen("decaf-compress", &[&k.to_le(), how.as_bytes()]);
        c.same(&format!("encoding of {}", how), &p.compress().0, &want, &[&k.to_le()]);
        for (q, _) in rs.iter() {
            eq_check(c, p, &want, q, &want, how);
        }
    }
    // decoded versions and unequal neighbours
    let rels: Vec<(U, &'static str)> = vec![
        (k, "decoded"),
        (k, "decoded, then computed with"),
        (L.neg(&k), "negative"),
        (L.add(&k, &U::ONE), "plus one"),
        (L.add(&k, &k), "double"),
        (L.half(&k), "half"),
        (U::ZERO, "identity"),
        (U::ONE, "generator"),
    ];
    for (q, how) in rels {
        let mp = Mp::dk(q, "");
        if let Some(d) = gen::drealise(&mut c.rng, mp) {
            for (p, _) in rs.iter().take(3) {
                eq_check(c, p, &want, &d.c, &d.enc, how);
            }
        } else {
            c.cov("skip:dlift");
        }
    }
    // arbitrary decodable elements
    if let (Some(p), Some(q)) = (gen::decaf(&mut c.rng), gen::decaf(&mut c.rng)) {
        c.cov(format!("class:{}/{}", p.mp.class, q.mp.class));
        c.same("encoding of decoded element", &p.c.compress().0, &p.enc, &[&p.enc]);
        eq_check(c, &p.c, &p.enc, &q.c, &q.enc, "decoded");
        eq_check(c, &p.c, &p.enc, &p.c, &p.enc, "self");
        if let Some(p2) = gen::drealise(&mut c.rng, p.mp) {
            eq_check(c, &p.c, &p.enc, &p2.c, &p2.enc, "other representative");
        }
        let n = -&p.c;
        let ne = oracle::decaf_encode(&p.mp.m.neg());
        c.same("encoding of negative", &n.compress().0, &ne, &[&p.enc]);
        eq_check(c, &p.c, &p.enc, &n, &ne, "negative");
        // the same elements once computed and once decoded: representatives that differ by the
        // point of order two
        let (sum, dif) = (p.mp.m.add(&q.mp.m), p.mp.m.sub(&q.mp.m));
        let u = *c.rng.pick(&[L.m, L.m.wadd(&U::ONE), L.m.wadd(&L.m), L.m.wsub(&U::ONE)]);
        let v = c.rng.below(16) as u64;
        let list: Vec<(DecafPoint, Pt, &'static str)> = vec![
            (n, p.mp.m.neg(), "negated / decoded"),
            (&p.c + &q.c, sum, "added / decoded"),
            (&p.c - &q.c, dif, "subtracted / decoded"),
            (&p.c + &p.c, p.mp.m.add(&p.mp.m), "doubled / decoded"),
            (&p.c * &sc(&u), p.mp.m.mul(&L.reduce(&u)), "multiplied by about the order / decoded"),
            (&p.c * &sc(&U::small(v)), p.mp.m.mul(&U::small(v)), "multiplied / decoded"),
        ];
        for (x, m, how) in list.iter() {
            let enc = oracle::decaf_encode(m);
            c.seen("decaf-compress", &[&p.enc, &q.enc, how.as_bytes()]);
            c.same(&format!("encoding, {}", how), &x.compress().0, &enc, &[&p.enc, &q.enc]);
            match CompressedDecaf(enc).decompress() {
                Some(y) => {
                    eq_check(c, x, &enc, &y, &enc, how);
                    eq_check(c, &(x + &q.c), &oracle::decaf_encode(&m.add(&q.mp.m)), &(&y + &q.c), &oracle::decaf_encode(&m.add(&q.mp.m)), how);
                }
                None => c.cov("skip:dlift"),
            }
        }
        let id = DecafPoint::identity();
        let z = &p.c * &sc(&L.m);
        eq_check(c, &z, &[0; 56], &id, &[0; 56], "l*P / identity");
        eq_check(c, &z, &[0; 56], &(&q.c - &q.c), &[0; 56], "l*P / Q-Q");
    } else {
        c.cov("skip:dlift");
    }
}

// ---- C18 ----

fn dops(c: &mut Ctx, p: &DPair, q: &DPair) {
    let ins: &[&[u8]] = &[&p.enc, &q.enc];
    c.seen("decaf-pair", ins);
    let (a, b) = (p.mp.m, q.mp.m);
    let (sum, dif) = (a.add(&b).norm(), a.sub(&b).norm());
    let cl = gen::dclone;
    same_d(c, "&P + &Q", &(&p.c + &q.c), &sum, ins);
    same_d(c, "P + Q", &(cl(&p.c) + cl(&q.c)), &sum, ins);
    same_d(c, "&Q + &P", &(&q.c + &p.c), &sum, ins);
    same_d(c, "&P - &Q", &(&p.c - &q.c), &dif, ins);
    same_d(c, "P - Q", &(cl(&p.c) - cl(&q.c)), &dif, ins);
    same_d(c, "P.sub(&Q)", &p.c.sub(&q.c), &dif, ins);
    same_d(c, "-&P", &(-&p.c), &a.neg(), ins);
    same_d(c, "-P", &(-cl(&p.c)), &a.neg(), ins);
    same_d(c, "(P+Q)-Q", &(&(&p.c + &q.c) - &q.c), &a, ins);
    same_d(c, "P+P", &(&p.c + &p.c), &a.add(&a).norm(), ins);
    same_d(c, "P-P", &(&p.c - &p.c), &Pt::identity(false), ins);
    same_d(c, "-P+Q", &(&-&p.c + &q.c), &b.sub(&a).norm(), ins);
    same_d(c, "(P-Q)-(P+Q)", &(&(&p.c - &q.c) - &(&p.c + &q.c)), &b.add(&b).neg().norm(), ins);
}
fn dmul(c: &mut Ctx, p: &DPair, s: &U, all: bool) {
    let b = s.to_le();
    let ins: &[&[u8]] = &[&p.enc, &b];
    c.seen("decaf-mul", ins);
    let want = p.mp.mul(s);
    let k = sc(s);
    same_d(c, "&P * &s", &(&p.c * &k), &want, ins);
    if all {
        same_d(c, "&s * &P", &(&k * &p.c), &want, ins);
        same_d(c, "P * s", &(gen::dclone(&p.c) * k), &want, ins);
        same_d(c, "s * P", &(k * gen::dclone(&p.c)), &want, ins);
    }
}
fn dspecial() -> Vec<Mp> {
    let mut v = vec![Mp::dk(U::ZERO, "identity"), Mp::dk(U::ONE, "generator")];
    for k in [2u64, 3, 4, 7] {
        v.push(Mp::dk(U::small(k), ""));
        v.push(Mp::dk(L.neg(&U::small(k)), ""));
    }
    v.push(Mp::dk(L.neg(&U::ONE), ""));
    v.push(Mp::dk(L.m.shr(1), ""));
    v.push(Mp::dk(L.m.shr(1).wadd(&U::ONE), ""));
    v.push(gen::decaf_near(U::small(2)));
    v.push(gen::decaf_near(P.m.wsub(&U::small(2000))));
    v
}
pub fn c18_directed() -> u64 {
    dspecial_n() + 448 + gen::edges().len() as u64
}
fn dspecial_n() -> u64 {
    15
}
pub fn c18(c: &mut Ctx) {
    let i = c.case as usize;
    let n = dspecial_n() as usize;
    if i < n {
        let s = dspecial();
        assert!(s.len() == n);
        c.cov("class:special-row");
        for q in s.iter() {
            if let (Some(p), Some(q)) = (gen::drealise(&mut c.rng, s[i]), gen::drealise(&mut c.rng, *q)) {
                dops(c, &p, &q);
            } else {
                c.cov("skip:dlift");
            }
        }
        if let Some(p) = gen::drealise(&mut c.rng, s[i]) {
            for k in [U::ZERO, U::ONE, U::small(2), L.m, L.m.wadd(&U::ONE), L.m.wadd(&L.m), L.m.wsub(&U::ONE), U::MAX] {
                dmul(c, &p, &k, true);
            }
        }
        return;
    }
    let i = i - n;
    if i < 448 {
        c.cov("class:single-bit-scalar");
        let mut k = U::ZERO;
        k.set_bit(i, true);
        if let Some(p) = gen::decaf(&mut c.rng) {
            dmul(c, &p, &k, false);
        } else {
            c.cov("skip:dlift");
        }
        return;
    }
    let i = i - 448;
    let e = gen::edges();
    if i < e.len() {
        c.cov("class:edge-scalar");
        for mp in [Mp::dk(U::ONE, "generator"), gen::decaf_mp(&mut c.rng.clone())] {
            if let Some(p) = gen::drealise(&mut c.rng, mp) {
                dmul(c, &p, &e[i], true);
            } else {
                c.cov("skip:dlift");
            }
        }
        return;
    }
    if let (Some(p), Some(q)) = (gen::decaf(&mut c.rng), gen::decaf(&mut c.rng)) {
        c.cov(format!("class:{}/{}", p.mp.class, q.mp.class));
        dops(c, &p, &q);
        let (s, cs) = gen::u448(&mut c.rng);
        c.cov(format!("scalar:{}", cs));
        dmul(c, &p, &s, true);
        dmul(c, &q, &L.m, false);
        // distributivity across the two operations
        let (t, _) = gen::scalar_canon(&mut c.rng);
        let l = &(&p.c + &q.c) * &sc(&t);
        let m = p.mp.mul(&t).add(&q.mp.mul(&t)).norm();
        c.seen("distribute", &[&p.enc, &q.enc, &t.to_le()]);
        same_d(c, "[t](P+Q)", &l, &m, &[&p.enc, &q.enc, &t.to_le()]);
        // results with an edge encoding
        let e = *c.rng.pick(gen::edges());
        let r = gen::decaf_near(e);
        let d = Mp { m: r.m.sub(&p.mp.m).norm(), kt: None, class: "edge-sum" };
        if let Some(d) = gen::drealise(&mut c.rng, d) {
            c.cov("class:edge-sum");
            dops(c, &p, &d);
        }
        let k = gen::odd(&mut c.rng);
        if let Some(i) = gen::inv_4l(&k) {
            let d = Mp { m: r.m.mul(&i).norm(), kt: None, class: "edge-product" };
            if let Some(d) = gen::drealise(&mut c.rng, d) {
                c.cov("class:edge-product");
                dmul(c, &d, &k, false);
            }
        }
    } else {
        c.cov("skip:dlift");
    }
}
