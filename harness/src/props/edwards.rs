//! C06-C12: the Edwards curve, its encoding, its histories, its isogenous twist.
use crate::big::{hex, L, P, U};
use crate::gen::{self, sc, Mp, Pair};
use crate::oracle::{self, Pt};
use crate::report::Ctx;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::CompressedRistretto;
use std::sync::OnceLock;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

pub fn same_pt(c: &mut Ctx, what: &str, got: &ExtendedPoint, want: &Pt, ins: &[&[u8]]) -> bool {
    let e = want.encode();
    if !c.same(what, &got.compress().0, &e, ins) {
        return false;
    }
    // The encoding does not show every coordinate: the point must also behave as the one it
    // denotes when it is used.
    let fresh = match CompressedEdwardsY(e).decompress() {
        Some(f) => f,
        None => return true,
    };
    let g = ExtendedPoint::generator();
    c.ck(*got + g == fresh + g, &format!("{}: the result encodes as the right point but its sum with another is wrong", what), || {
        let i: Vec<String> = ins.iter().map(|o| hex(o)).collect();
        format!("inputs=[{}]", i.join(", "))
    })
}

// ---- C06 ----

/// The small set of points every exceptional case of an addition law lives in.
fn special() -> &'static Vec<Mp> {
    static V: OnceLock<Vec<Mp>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = Vec::new();
        for t in 0..4 {
            for k in [0u64, 1, 2, 3, 4, 5, 8] {
                v.push(Mp::kt(U::small(k), t, "special"));
                if k != 0 {
                    v.push(Mp::kt(L.neg(&U::small(k)), t, "special"));
                }
            }
            v.push(Mp::kt(L.m.shr(1), t, "special"));
            v.push(Mp::kt(L.m.shr(1).wadd(&U::ONE), t, "special"));
        }
        // smallest x and y on the curve
        let mut rng = crate::rng::Rng::new(6, 6);
        for y in [2u64, 3, 10, 100] {
            for _ in 0..4 {
                v.push(Mp::lifted(U::small(y), &mut rng));
            }
        }
        v
    })
}
fn group_ops(c: &mut Ctx, p: &Pair, q: &Pair) {
    let (a, b) = (p.mp.enc(), q.mp.enc());
    let ins: &[&[u8]] = &[&a, &b];
    c.seen("pair", ins);
    let (x, y) = (p.c, q.c);
    let sum = p.m.add(&q.m).norm();
    let dif = p.m.sub(&q.m).norm();
    same_pt(c, "P + Q", &(x + y), &sum, ins);
    same_pt(c, "&P + Q", &(&x + y), &sum, ins);
    same_pt(c, "P + &Q", &(x + &y), &sum, ins);
    same_pt(c, "&P + &Q", &(&x + &y), &sum, ins);
    same_pt(c, "P.add(&Q)", &ExtendedPoint::add(&x, &y), &sum, ins);
    let mut t = x;
    t += y;
    same_pt(c, "P += Q", &t, &sum, ins);
    let mut t = x;
    t += &y;
    same_pt(c, "P += &Q", &t, &sum, ins);
    same_pt(c, "P - Q", &(x - y), &dif, ins);
    same_pt(c, "&P - Q", &(&x - y), &dif, ins);
    same_pt(c, "P - &Q", &(x - &y), &dif, ins);
    same_pt(c, "&P - &Q", &(&x - &y), &dif, ins);
    let mut t = x;
    t -= y;
    same_pt(c, "P -= Q", &t, &dif, ins);
    let mut t = x;
    t -= &y;
    same_pt(c, "P -= &Q", &t, &dif, ins);
    // the results are points again: use them once more
    let again = (x + y) + (x - y);
    same_pt(c, "(P+Q)+(P-Q)", &again, &p.m.add(&p.m).norm(), ins);
}
fn unary_ops(c: &mut Ctx, p: &Pair) {
    let a = p.mp.enc();
    let ins: &[&[u8]] = &[&a];
    c.seen("unary", ins);
    let x = p.c;
    let dbl = p.m.add(&p.m).norm();
    same_pt(c, "double", &x.double(), &dbl, ins);
    same_pt(c, "-P", &(-x), &p.m.neg(), ins);
    same_pt(c, "-&P", &(-&x), &p.m.neg(), ins);
    same_pt(c, "negate", &x.negate(), &p.m.neg(), ins);
    same_pt(c, "double of -P", &(-x).double(), &dbl.neg(), ins);
    let t2 = p.m.add(&oracle::torsion(2)).norm();
    same_pt(c, "torque", &x.torque(), &t2, ins);
    same_pt(c, "double of torqued P", &x.torque().double(), &dbl, ins);
    same_pt(c, "torqued P + P", &(x.torque() + x), &dbl.add(&oracle::torsion(2)).norm(), ins);
    same_pt(c, "P + identity", &(x + ExtendedPoint::identity()), &p.m, ins);
    same_pt(c, "identity + P", &(ExtendedPoint::identity() + x), &p.m, ins);
    same_pt(c, "P - P", &(x - x), &Pt::identity(false), ins);
}
fn sums(c: &mut Ctx, n: usize) {
    let mut ps = Vec::new();
    let mut want = Pt::identity(false);
    for _ in 0..n {
        if let Some(p) = gen::point(&mut c.rng) {
            want = want.add(&p.m);
            ps.push(p.c);
        }
    }
    let want = want.norm();
    c.seen("sum", &[&want.encode()]);
    c.cov(format!("sum-length:{}", ps.len()));
    same_pt(c, "sum by reference", &ps.iter().sum::<ExtendedPoint>(), &want, &[]);
    same_pt(c, "sum by value", &ps.iter().copied().sum::<ExtendedPoint>(), &want, &[]);
    // iterators that cannot tell their length, that are glued together, that run backwards,
    // and items of another type that borrows as a point
    same_pt(c, "sum of a filtered iterator", &ps.iter().filter(|_| true).sum::<ExtendedPoint>(), &want, &[]);
    let k = if ps.is_empty() { 0 } else { c.rng.below(ps.len() + 1) };
    same_pt(c, "sum of a chained iterator", &ps[k..].iter().chain(ps[..k].iter()).sum::<ExtendedPoint>(), &want, &[]);
    same_pt(c, "sum backwards", &ps.iter().rev().sum::<ExtendedPoint>(), &want, &[]);
    same_pt(c, "sum of boxes", &ps.iter().map(|p| Box::new(*p)).sum::<ExtendedPoint>(), &want, &[]);
    // items that are computed (and summed) while the sum is under way
    let t = gen::lift(&oracle::torsion(1 + c.rng.below(3))).unwrap_or(ExtendedPoint::identity());
    same_pt(c, "sum of computed items", &ps.iter().map(|p| [*p, t, -t].iter().sum::<ExtendedPoint>()).sum::<ExtendedPoint>(), &want, &[]);
    let mut it = ps.iter();
    same_pt(c, "sum of a generated sequence", &std::iter::from_fn(|| it.next()).sum::<ExtendedPoint>(), &want, &[]);
}
/// Lengths of sums: all short ones, then around powers of two.
fn sum_length(c: &mut Ctx) -> usize {
    match c.rng.below(16) {
        0..=11 => c.rng.below(20),
        12..=14 => c.rng.below(70),
        _ => (1usize << (5 + c.rng.below(5))) + c.rng.below(3) - 1,
    }
}
pub fn c06_directed() -> u64 {
    1 + special().len() as u64 + 70
}
pub fn c06(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        same_pt(c, "generator", &ExtendedPoint::generator(), oracle::base(), &[]);
        same_pt(c, "identity", &ExtendedPoint::identity(), &Pt::identity(false), &[]);
        same_pt(c, "default", &ExtendedPoint::default(), &Pt::identity(false), &[]);
        same_pt(c, "empty sum", &Vec::<ExtendedPoint>::new().iter().sum::<ExtendedPoint>(), &Pt::identity(false), &[]);
        for n in 0..12 {
            sums(c, n);
        }
        return;
    }
    let s = special();
    if i > s.len() && i <= s.len() + 70 {
        // every length once, in order
        return sums(c, i - s.len());
    }
    if i - 1 < s.len() {
        c.cov("class:special-row");
        let p = match gen::realise(&mut c.rng, s[i - 1]) {
            Some(p) => p,
            None => return c.cov("skip:lift"),
        };
        unary_ops(c, &p);
        for q in s.iter() {
            match gen::realise(&mut c.rng, *q) {
                Some(q) => group_ops(c, &p, &q),
                None => c.cov("skip:lift"),
            }
        }
        return;
    }
    for _ in 0..3 {
        match gen::pair(&mut c.rng) {
            None => c.cov("skip:lift"),
            Some((p, q, rel)) => {
                c.cov(format!("class:{}/{}/{}", p.mp.class, p.rep, rel));
                group_ops(c, &p, &q);
                unary_ops(c, &p);
                // associativity and long chains
                let mut acc = p.c;
                let mut m = p.m;
                for _ in 0..12 {
                    match c.rng.below(6) {
                        0 => {
                            acc = acc + q.c;
                            m = m.add(&q.m)
                        }
                        1 => {
                            acc -= p.c;
                            m = m.sub(&p.m)
                        }
                        2 => {
                            acc = acc.double();
                            m = m.add(&m)
                        }
                        3 => {
                            acc = -acc;
                            m = m.neg()
                        }
                        4 => {
                            acc = acc.torque();
                            m = m.add(&oracle::torsion(2))
                        }
                        _ => {
                            acc = p.c - &acc;
                            m = p.m.sub(&m)
                        }
                    }
                }
                c.seen("chain", &[&m.encode()]);
                same_pt(c, "chain of group operations", &acc, &m.norm(), &[&p.mp.enc(), &q.mp.enc()]);
            }
        }
    }
    if c.case % 8 == 0 {
        let n = sum_length(c);
        sums(c, n);
    }
}

// ---- C07 ----

fn smul(c: &mut Ctx, p: &Pair, s: &U, all_forms: bool) {
    let (a, b) = (p.mp.enc(), s.to_le());
    let ins: &[&[u8]] = &[&a, &b];
    c.seen("scalar-mul", ins);
    let want = p.mp.mul(s).encode();
    let (x, k) = (p.c, sc(s));
    if !c.same("P.scalar_mul(&s)", &x.scalar_mul(&k).compress().0, &want, ins) {
        return;
    }
    if all_forms {
        c.seen("scalar-mul-forms", ins);
        c.same("P * s", &(x * k).compress().0, &want, ins);
        c.same("&P * s", &(&x * k).compress().0, &want, ins);
        c.same("P * &s", &(x * &k).compress().0, &want, ins);
        c.same("&P * &s", &(&x * &k).compress().0, &want, ins);
        c.same("s * P", &(k * x).compress().0, &want, ins);
        c.same("&s * P", &(&k * x).compress().0, &want, ins);
        c.same("s * &P", &(k * &x).compress().0, &want, ins);
        c.same("&s * &P", &(&k * &x).compress().0, &want, ins);
        let mut t = x;
        t *= k;
        c.same("P *= s", &t.compress().0, &want, ins);
        let mut t = x;
        t *= &k;
        c.same("P *= &s", &t.compress().0, &want, ins);
    }
    let r = U::small(s.0[0] & 3);
    c.same("scalar_mod_four", &x.scalar_mod_four(&k).compress().0, &p.mp.mul(&r).encode(), ins);
}
/// Scalars that put a chosen signed radix-16 digit at a chosen window position,
/// for a recoding of s, of s/2 and of s/4 (whatever pre-division an implementation uses).
fn digit_scalar(pos: usize, digit: i32, shift: usize, low: u64) -> Option<U> {
    let bit = 4 * pos + shift;
    let mut u = U::ZERO;
    let top = |u: &mut U, b: usize, v: u64| -> Option<()> {
        for j in 0..5 {
            if (v >> j) & 1 == 1 {
                if b + j >= 448 {
                    return None;
                }
                u.set_bit(b + j, true);
            }
        }
        Some(())
    };
    if digit >= 0 {
        top(&mut u, bit, digit as u64)?;
    } else {
        // 16^(pos+1) - |d| 16^pos
        top(&mut u, bit, (16 + digit) as u64)?;
        if bit + 4 < 448 {
            // leave as is: recoding carries a one into the next digit
        }
    }
    Some(u.wadd(&U::small(low)))
}
fn torsion_points() -> Vec<Mp> {
    let mut v = Vec::new();
    for t in 0..4 {
        for k in [0u64, 1, 2, 3] {
            v.push(Mp::kt(U::small(k), t, "special"));
        }
        v.push(Mp::kt(L.m.wsub(&U::ONE), t, "special"));
    }
    v
}
const POS: usize = 112;
pub fn c07_directed() -> u64 {
    (POS + gen::edges().len()) as u64
}
pub fn c07(c: &mut Ctx) {
    let i = c.case as usize;
    if i < POS {
        c.cov("class:window-digits");
        let mp = match i % 4 {
            0 => Mp::kt(U::ONE, 0, "base"),
            1 => Mp::kt(U::small(7), 1, "special"),
            2 => Mp::kt(gen::scalar_canon(&mut c.rng).0, 3, "mixed"),
            _ => Mp::kt(gen::scalar_canon(&mut c.rng).0, 2, "mixed"),
        };
        let p = match gen::realise(&mut c.rng, mp) {
            Some(p) => p,
            None => return c.cov("skip:lift"),
        };
        for d in -8..=8 {
            for shift in [0usize, 2] {
                if let Some(s) = digit_scalar(i, d, shift, (d & 3) as u64) {
                    smul(c, &p, &s, false);
                }
            }
        }
        return;
    }
    let e = gen::edges();
    if i - POS < e.len() {
        c.cov("class:edge-scalar");
        let s = e[i - POS];
        for (j, mp) in torsion_points().into_iter().enumerate() {
            match gen::realise(&mut c.rng, mp) {
                Some(p) => smul(c, &p, &s, j % 5 == 0),
                None => c.cov("skip:lift"),
            }
        }
        return;
    }
    for j in 0..3 {
        let (s, cs) = gen::u448(&mut c.rng);
        let forms = j == 0 && c.rng.below(5) == 0;
        let (s, p) = if c.rng.below(6) == 0 {
            let s = gen::odd(&mut c.rng);
            let mp = gen::edge_product(&mut c.rng, &s);
            (s, mp.and_then(|mp| gen::realise(&mut c.rng, mp)))
        } else {
            (s, gen::point(&mut c.rng))
        };
        match p {
            None => c.cov("skip:lift"),
            Some(p) => {
                c.cov(format!("class:{}/{}/{}", p.mp.class, p.rep, cs));
                smul(c, &p, &s, forms);
                if j == 1 {
                    // result used as the next base: [t][s]P
                    let (t, _) = gen::scalar_canon(&mut c.rng);
                    let q = Pair { c: p.c * sc(&s), mp: Mp { m: p.mp.mul(&s).norm(), kt: p.mp.kt.map(|(k, tt)| (L.mul(&k, &L.reduce(&s)), (tt * (s.0[0] & 3) as usize) & 3)), class: "product" }, m: p.m, rep: "product" };
                    smul(c, &q, &t, false);
                }
            }
        }
    }
}

// ---- C08 ----

fn decode_one(c: &mut Ctx, b: &[u8; 57]) {
    c.seen("decompress", &[b]);
    let want = Pt::decode(b);
    c.cov(match &want {
        Some(_) => "decode:valid",
        None => "decode:invalid",
    });
    match (CompressedEdwardsY(*b).decompress(), want) {
        (None, None) => {}
        (None, Some(_)) => c.fail("valid encoding refused", hex(b)),
        (Some(_), None) => c.fail("invalid encoding accepted", hex(b)),
        (Some(p), Some(m)) => {
            c.same("recompression", &p.compress().0, b, &[b]);
            // the decoded value is used as a point
            same_pt(c, "decoded + generator", &(p + ExtendedPoint::generator()), &m.add(oracle::base()).norm(), &[b]);
            same_pt(c, "double of decoded", &p.double(), &m.add(&m).norm(), &[b]);
        }
    }
}
fn y_variants(c: &mut Ctx, y: &U) {
    for sign in [0u8, 0x80] {
        let mut b = [0u8; 57];
        b[..56].copy_from_slice(&y.to_le());
        b[56] = sign;
        decode_one(c, &b);
    }
}
pub fn c08_directed() -> u64 {
    20 + gen::edges().len() as u64
}
pub fn c08(c: &mut Ctx) {
    let i = c.case as usize;
    if i < 8 {
        c.cov("class:small-y");
        for k in 0..64u64 {
            let v = U::small(64 * i as u64 + k);
            y_variants(c, &v);
            y_variants(c, &P.neg(&v));
        }
        return;
    }
    if i < 16 {
        // around p: every representable non-canonical neighbour of small values
        c.cov("class:non-canonical-y");
        for k in 0..32u64 {
            y_variants(c, &P.m.wadd(&U::small(32 * (i as u64 - 8) + k)));
        }
        return;
    }
    if i < 20 {
        c.cov("class:spare-bits");
        let mp = [
            Mp::kt(U::ONE, 0, ""),
            Mp::kt(U::ZERO, 0, ""),
            Mp::kt(U::ZERO, 1, ""),
            Mp::kt(U::small(99), 2, ""),
        ][i - 16];
        let e = mp.enc();
        for top in 0..=255u8 {
            let mut b = e;
            b[56] = top;
            decode_one(c, &b);
        }
        return;
    }
    let e = gen::edges();
    if i - 20 < e.len() {
        c.cov("class:edge-y");
        y_variants(c, &e[i - 20]);
        return;
    }
    // points in any representation encode canonically and come back
    for _ in 0..2 {
        match gen::point(&mut c.rng) {
            None => {
                c.cov("skip:lift");
            }
            Some(p) => {
                c.cov(format!("class:{}/{}", p.mp.class, p.rep));
                let a = p.mp.enc();
                c.seen("compress", &[&a]);
                let got = p.c.compress();
                c.same("compress", &got.0, &a, &[&a]);
                match got.decompress() {
                    None => c.fail("own encoding refused", hex(&a)),
                    Some(q) => {
                        c.ck(q == p.c, "decompress(compress(P)) != P", || hex(&a));
                    }
                }
            }
        }
    }
    for _ in 0..6 {
        let (y, cls) = gen::u448(&mut c.rng);
        c.cov(format!("class:y:{}", cls));
        let mut b = [0u8; 57];
        b[..56].copy_from_slice(&y.to_le());
        b[56] = match c.rng.below(6) {
            0 => 0x80,
            1 => c.rng.u64() as u8,
            2 => 1 << c.rng.below(8),
            3 => 0x80 | 1 << c.rng.below(7),
            _ => 0,
        };
        decode_one(c, &b);
        // a valid string with one bit flipped
        let mp = gen::model_point(&mut c.rng);
        let mut b = mp.enc();
        decode_one(c, &b);
        let k = c.rng.below(456);
        b[k / 8] ^= 1 << (k % 8);
        decode_one(c, &b);
        // x = 0 or y = 0 never carry a sign
        if c.rng.below(8) == 0 {
            let mut b = oracle::torsion(c.rng.below(4)).encode();
            b[56] ^= 0x80;
            decode_one(c, &b);
        }
    }
}

// ---- C09: histories with coordinate invariants ----

#[cfg(feature = "hooks")]
pub fn coords_ok(f: &[ed448_goldilocks::verif_hooks::Fe; 4], twisted: bool, model: Option<&Pt>) -> Result<(), String> {
    let v: Vec<U> = f.iter().map(|x| U::from_le(&x.to_bytes())).collect();
    let (x, y, z, t) = (v[0], v[1], v[2], v[3]);
    if z.is_zero() {
        return Err("zero denominator".into());
    }
    if P.mul(&x, &y) != P.mul(&z, &t) {
        return Err("auxiliary coordinate inconsistent (XY != ZT)".into());
    }
    let (xx, yy) = (P.sq(&x), P.sq(&y));
    let lhs = if twisted { P.sub(&yy, &xx) } else { P.add(&yy, &xx) };
    let d = if twisted { oracle::tw_d() } else { oracle::ed_d() };
    if lhs != P.add(&P.sq(&z), &P.mul(d, &P.sq(&t))) {
        return Err("not on the curve".into());
    }
    if let Some(m) = model {
        if !(Pt { x, y, z, twisted }).eq(m) {
            return Err(format!("denotes another point than the history defines, expected x={} y={}", m.aff().x.hex(), m.aff().y.hex()));
        }
    }
    Ok(())
}
fn audit_e(c: &mut Ctx, op: &str, p: &ExtendedPoint, m: &Pt, hist: &[String]) -> bool {
    c.seen(op, &[&m.x.to_le(), &m.y.to_le(), &m.z.to_le()]);
    #[cfg(feature = "hooks")]
    let r = coords_ok(&ed448_goldilocks::verif_hooks::edwards_coords(p), false, Some(m));
    #[cfg(not(feature = "hooks"))]
    let r = if p.compress().0[..] == m.encode()[..] && (*p + *p).compress().0[..] == m.add(m).encode()[..] {
        Ok(())
    } else {
        Err("denotes another point than the history defines".to_string())
    };
    match r {
        Ok(()) => true,
        Err(e) => {
            c.fail(&format!("edwards point after {}: {}", op, e), hist.join("; "));
            false
        }
    }
}
fn audit_d(c: &mut Ctx, op: &str, p: &DecafPoint, m: &Pt, hist: &[String]) -> bool {
    c.seen(op, &[&m.x.to_le(), &m.y.to_le(), &m.z.to_le()]);
    #[cfg(feature = "hooks")]
    if let Err(e) = coords_ok(&ed448_goldilocks::verif_hooks::decaf_coords(p), true, None) {
        c.fail(&format!("decaf representative after {}: {}", op, e), hist.join("; "));
        return false;
    }
    if p.compress().0[..] != oracle::decaf_encode(m)[..] {
        c.fail(&format!("decaf element after {}: wrong element", op), hist.join("; "));
        return false;
    }
    true
}
pub fn c09_directed() -> u64 {
    0
}
pub fn c09(c: &mut Ctx) {
    // registers: Edwards points, Decaf elements, with their models; twisted points are
    // transient (their type cannot be stored by users, but values can be held).
    let mut e: Vec<(ExtendedPoint, Pt)> = vec![
        (ExtendedPoint::identity(), Pt::identity(false)),
        (ExtendedPoint::generator(), *oracle::base()),
    ];
    let mut d: Vec<(DecafPoint, Pt)> = vec![
        (DecafPoint::identity(), Pt::identity(false)),
        (DecafPoint::generator(), oracle::decaf_base()),
    ];
    let mut hist: Vec<String> = Vec::new();
    for _ in 0..3 {
        let mp = gen::model_point(&mut c.rng);
        if let Some(p) = gen::lift(&mp.m) {
            hist.push(format!("e{}=decode {}", e.len(), hex(&mp.enc())));
            if !audit_e(c, "decode", &p, &mp.m, &hist) {
                return;
            }
            e.push((p, mp.m));
        } else {
            c.cov("skip:lift");
        }
        let mp = gen::decaf_mp(&mut c.rng);
        if let Some(p) = gen::dlift(mp) {
            hist.push(format!("d{}=decode {}", d.len(), hex(&p.enc)));
            if !audit_d(c, "decaf-decode", &p.c, &mp.m, &hist) {
                return;
            }
            d.push((p.c, mp.m));
        } else {
            c.cov("skip:dlift");
        }
    }
    if c.case == 0 {
        let h = ["initial".to_string()];
        audit_e(c, "identity", &e[0].0, &e[0].1, &h);
        audit_e(c, "generator", &e[1].0, &e[1].1, &h);
        audit_d(c, "decaf-identity", &d[0].0, &d[0].1, &h);
        audit_d(c, "decaf-generator", &d[1].0, &d[1].1, &h);
    }
    for _ in 0..40 {
        let (i, j, k) = (c.rng.below(e.len()), c.rng.below(e.len()), c.rng.below(e.len()));
        let (p, a) = e[i];
        let (q, b) = e[j];
        let op = c.rng.below(27);
        let (nm, r, m): (&str, ExtendedPoint, Pt) = match op {
            0 | 1 => ("add", p + q, a.add(&b)),
            2 | 3 => ("sub", &p - &q, a.sub(&b)),
            4 => ("double", p.double(), a.add(&a)),
            5 => ("neg", -p, a.neg()),
            6 => ("torque", p.torque(), a.add(&oracle::torsion(2))),
            7 => {
                let ch = c.rng.below(2) as u8;
                ("select", ExtendedPoint::conditional_select(&p, &q, Choice::from(ch)), if ch == 1 { b } else { a })
            }
            8 => {
                let mut t = p;
                let ch = c.rng.below(2) as u8;
                t.conditional_assign(&q, Choice::from(ch));
                ("assign", t, if ch == 1 { b } else { a })
            }
            9 => {
                let mut t = p;
                t += &q;
                ("add-assign", t, a.add(&b))
            }
            10 => ("sum", [p, q, p].iter().sum(), a.add(&b).add(&a)),
            11 => match p.compress().decompress() {
                Some(t) => ("round-trip", t, a),
                None => {
                    c.fail("own encoding refused", hist.join("; "));
                    return;
                }
            },
            12 => ("untwist-twist", p.to_twisted().to_untwisted(), {
                let t = a.add(&a);
                t.add(&t)
            }),
            13 => {
                let s = c.rng.below(4) as u32;
                ("mod-four", p.scalar_mod_four(&s.into()), a.mul(&U::small(s as u64)))
            }
            14 if c.rng.below(4) == 0 => {
                let (s, _) = gen::u448(&mut c.rng);
                ("mul", p * sc(&s), a.mul(&s))
            }
            15 => ("affine-round-trip", p.to_affine().to_extended(), a),
            16 => {
                // twisted-curve arithmetic between the isogenies
                let (tp, tq) = (p.to_twisted(), q.to_twisted());
                ("twisted-add", tp.to_extensible().add_extended(&tq).to_extended().to_untwisted(), a.add(&b).mul(&U::small(4)))
            }
            17 => {
                let (tp, tq) = (p.to_twisted(), q.to_twisted());
                let r = tp.to_extensible().double().sub_extended(&tq.torque().negate()).to_extended();
                ("twisted-mix", r.to_untwisted(), a.add(&a).add(&b).mul(&U::small(4)))
            }
            18 => {
                let (tp, tq) = (p.to_twisted(), q.to_twisted());
                let n = tq.to_extensible().to_projective_niels();
                let r = tp.to_extensible().add_projective_niels(&n).add_extensible(&n.to_extended().to_extensible());
                ("twisted-niels", r.to_extended().to_untwisted(), a.add(&b).add(&b).mul(&U::small(4)))
            }
            19 => {
                let (mut s, mut t) = (p, q);
                let ch = c.rng.below(2) as u8;
                ExtendedPoint::conditional_swap(&mut s, &mut t, Choice::from(ch));
                let (x, y) = if ch == 1 { (b, a) } else { (a, b) };
                if c.rng.bool() {
                    ("swap.0", s, x)
                } else {
                    ("swap.1", t, y)
                }
            }
            20 => {
                let mut t = p;
                let ch = c.rng.below(2) as u8;
                subtle::ConditionallyNegatable::conditional_negate(&mut t, Choice::from(ch));
                ("conditional-negate", t, if ch == 1 { a.neg() } else { a })
            }
            21 => {
                let mut t = p;
                t -= q;
                ("sub-assign", t, a.sub(&b))
            }
            22 if c.rng.below(4) == 0 => {
                let (s, _) = gen::u448(&mut c.rng);
                let mut t = p;
                t *= sc(&s);
                ("mul-assign", t, a.mul(&s))
            }
            _ => {
                // Decaf step
                let (i, j) = (c.rng.below(d.len()), c.rng.below(d.len()));
                let (x, ma) = (&d[i].0, d[i].1);
                let (y, mb) = (&d[j].0, d[j].1);
                let (nm, r, m) = match c.rng.below(8) {
                    0 | 1 => ("decaf-add", x + y, ma.add(&mb)),
                    2 | 3 => ("decaf-sub", x - y, ma.sub(&mb)),
                    4 => ("decaf-neg", -x, ma.neg()),
                    5 => ("decaf-sub-method", x.sub(y), ma.sub(&mb)),
                    6 => match x.compress().decompress() {
                        Some(t) => ("decaf-round-trip", t, ma),
                        None => {
                            c.fail("own decaf encoding refused", hist.join("; "));
                            return;
                        }
                    },
                    _ => {
                        let (s, _) = gen::u448(&mut c.rng);
                        ("decaf-mul", x * &sc(&s), ma.mul(&s))
                    }
                };
                hist.push(format!("{}(d{},d{})", nm, i, j));
                let m = m.norm();
                if !audit_d(c, nm, &r, &m, &hist) {
                    return;
                }
                if d.len() < 6 {
                    d.push((r, m))
                } else {
                    d[2 + i % 4] = (r, m)
                }
                continue;
            }
        };
        hist.push(format!("e{}={}(e{},e{})", k, nm, i, j));
        if !audit_e(c, nm, &r, &m, &hist) {
            return;
        }
        if e.len() < 6 {
            e.push((r, m.norm()));
        } else if k >= 2 {
            e[k] = (r, m.norm());
        }
    }
}
// ---- C10 ----

fn eq_pts(c: &mut Ctx, p: &Pair, q: &Pair) {
    let (a, b) = (p.mp.enc(), q.mp.enc());
    let want = a == b;
    c.seen("eq", &[&a, &b]);
    c.cov(if want { "eq:equal" } else { "eq:different" });
    let d = || format!("{} ({}) vs {} ({}) expected {}", hex(&a), p.rep, hex(&b), q.rep, want);
    c.ck((p.c == q.c) == want, "==", d);
    c.ck((p.c != q.c) != want, "!=", d);
    c.ck((q.c == p.c) == want, "== (swapped operands)", d);
    c.ck(bool::from(p.c.ct_eq(&q.c)) == want, "ct_eq", d);
    c.ck(bool::from(p.c.ct_ne(&q.c)) != want, "ct_ne", d);
}
fn select_pts(c: &mut Ctx, p: &Pair, q: &Pair) {
    let (a, b) = (p.mp.enc(), q.mp.enc());
    let ins: &[&[u8]] = &[&a, &b];
    for ch in [0u8, 1] {
        c.seen("select", &[&a, &b, &[ch]]);
        let pick = if ch == 1 { q.m } else { p.m };
        let other = if ch == 1 { p.m } else { q.m };
        let r = ExtendedPoint::conditional_select(&p.c, &q.c, Choice::from(ch));
        same_pt(c, "conditional_select", &r, &pick, ins);
        // a selected point must be usable: this needs all of its coordinates
        same_pt(c, "selected + P", &(r + p.c), &pick.add(&p.m).norm(), ins);
        let mut t = p.c;
        t.conditional_assign(&q.c, Choice::from(ch));
        same_pt(c, "conditional_assign", &t, &pick, ins);
        same_pt(c, "assigned + Q", &(t + q.c), &pick.add(&q.m).norm(), ins);
        let (mut s, mut t) = (p.c, q.c);
        ExtendedPoint::conditional_swap(&mut s, &mut t, Choice::from(ch));
        same_pt(c, "conditional_swap.0", &s, &pick, ins);
        same_pt(c, "conditional_swap.1", &t, &other, ins);
        same_pt(c, "swapped sum", &(s + t), &pick.add(&other).norm(), ins);
        let mut t = p.c;
        subtle::ConditionallyNegatable::conditional_negate(&mut t, Choice::from(ch));
        same_pt(c, "conditional_negate", &t, &if ch == 1 { p.m.neg() } else { p.m }, ins);
    }
}
fn wrappers(c: &mut Ctx) {
    let a: [u8; 56] = if c.rng.bool() { gen::u448(&mut c.rng).0.to_le() } else { c.rng.bytes::<56>() };
    let mut b = a;
    match c.rng.below(5) {
        0 => {}
        1 => {
            let k = c.rng.below(448);
            b[k / 8] ^= 1 << (k % 8);
        }
        2 => {
            let (i, j) = (c.rng.below(56), c.rng.below(56));
            b.swap(i, j);
        }
        3 => {
            let k = c.rng.below(8);
            let (i, j) = (c.rng.below(56), c.rng.below(56));
            b[i] ^= 1 << k;
            b[j] ^= 1 << k;
        }
        _ => b = P.reduce(&U::from_le(&a)).to_le(),
    }
    one_wrapper(c, &a, &b);
}
fn one_wrapper(c: &mut Ctx, a: &[u8; 56], b: &[u8; 56]) {
    use std::hash::{Hash, Hasher};
    let want = a == b;
    c.seen("wrapper-eq", &[a, b]);
    let d = || format!("{} vs {} expected {}", hex(a), hex(b), want);
    let (x, y) = (MontgomeryPoint(*a), MontgomeryPoint(*b));
    c.ck((x == y) == want && bool::from(x.ct_eq(&y)) == want && (x != y) != want, "montgomery equality", d);
    c.ck(x.as_bytes() == a, "montgomery as_bytes", d);
    let h = |m: &MontgomeryPoint| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        m.hash(&mut s);
        s.finish()
    };
    if want {
        c.ck(h(&x) == h(&y), "hashes of equal values differ", d);
    }
    c.ck(h(&x) == h(&MontgomeryPoint(*a)), "hash not a function of the value", d);
    // selection of projective u-coordinates
    let (px, py) = (x.to_projective(), y.to_projective());
    let (rx, ry) = (P.reduce(&U::from_le(a)).to_le(), P.reduce(&U::from_le(b)).to_le());
    for ch in [0u8, 1] {
        let (w, o) = if ch == 1 { (&ry, &rx) } else { (&rx, &ry) };
        c.same("projective u select", &select_like(&px, &py, ch).to_affine().0, w, &[a, b, &[ch]]);
        let (mut s, mut t) = (px, py);
        ConditionallySelectable::conditional_swap(&mut s, &mut t, Choice::from(ch));
        c.same("projective u swap.0", &s.to_affine().0, w, &[a, b, &[ch]]);
        c.same("projective u swap.1", &t.to_affine().0, o, &[a, b, &[ch]]);
        let mut s = px;
        s.conditional_assign(&py, Choice::from(ch));
        c.same("projective u assign", &s.to_affine().0, w, &[a, b, &[ch]]);
    }
    let (x, y) = (CompressedDecaf(*a), CompressedDecaf(*b));
    c.ck((x == y) == want && bool::from(x.ct_eq(&y)) == want && (x != y) != want, "compressed decaf equality", d);
    c.ck(x.as_bytes() == &a[..], "compressed decaf as_bytes", d);
    let z = CompressedDecaf::identity();
    c.ck((x == z) == (*a == [0u8; 56]), "compressed decaf vs identity", d);
    let r = CompressedRistretto::identity();
    c.ck(r == CompressedRistretto::identity() && r.as_bytes() == &[0u8; 56][..], "compressed ristretto identity", d);
}
fn c10_points() -> Vec<Mp> {
    let mut v: Vec<Mp> = Vec::new();
    for t in 0..4 {
        for k in [0u64, 1, 2, 77] {
            v.push(Mp::kt(U::small(k), t, ""));
            if k != 0 {
                v.push(Mp::kt(L.neg(&U::small(k)), t, ""));
            }
        }
    }
    // mirror images: (x,y), (y,x), (-x,y), (x,-y), ...
    let a = oracle::base_mul(&U::small(5)).aff();
    for (x, y) in [(a.x, a.y), (a.y, a.x)] {
        for (x, y) in [(x, y), (P.neg(&x), y), (x, P.neg(&y)), (P.neg(&x), P.neg(&y))] {
            v.push(Mp { m: Pt::new(x, y, false), kt: None, class: "mirror" });
        }
    }
    v
}
pub fn c10_directed() -> u64 {
    (c10_points().len() + 57) as u64
}
pub fn c10(c: &mut Ctx) {
    let pts = c10_points();
    let i = c.case as usize;
    if i < pts.len() {
        c.cov("class:matrix-row");
        for _ in 0..3 {
            let p = match gen::realise(&mut c.rng, pts[i]) {
                Some(p) => p,
                None => return c.cov("skip:lift"),
            };
            for q in pts.iter() {
                if let Some(q) = gen::realise(&mut c.rng, *q) {
                    eq_pts(c, &p, &q);
                    select_pts(c, &p, &q);
                } else {
                    c.cov("skip:lift");
                }
            }
        }
        return;
    }
    let i = i - pts.len();
    if i < 57 {
        c.cov("class:wrapper-bytes");
        let base: [u8; 56] = c.rng.bytes::<56>();
        for base in [[0u8; 56], [0xff; 56], base] {
            one_wrapper(c, &base, &base);
            if i < 56 {
                for k in 0..8 {
                    let mut b = base;
                    b[i] ^= 1 << k;
                    one_wrapper(c, &base, &b);
                }
            }
        }
        return;
    }
    for _ in 0..4 {
        match gen::pair(&mut c.rng) {
            None => c.cov("skip:lift"),
            Some((p, q, rel)) => {
                c.cov(format!("class:{}/{}/{}", p.rep, q.rep, rel));
                eq_pts(c, &p, &q);
                eq_pts(c, &p, &p);
                select_pts(c, &p, &q);
                // same point through another computation
                if let Some(p2) = gen::realise(&mut c.rng, p.mp) {
                    eq_pts(c, &p, &p2);
                }
                // results of scalar multiplications
                if c.rng.below(4) == 0 {
                    let (s, _) = gen::u448(&mut c.rng);
                    let (t, _) = gen::u448(&mut c.rng);
                    let l = p.c * sc(&s) + p.c * sc(&t);
                    let r = p.c * sc(&t) + p.c * sc(&s);
                    let m = p.mp.mul(&s).add(&p.mp.mul(&t)).norm();
                    let w = Mp { m, kt: None, class: "" };
                    eq_pts(c, &Pair { c: l, mp: w, m, rep: "sum" }, &Pair { c: r, mp: w, m, rep: "sum" });
                    let n = Mp { m: m.neg(), kt: None, class: "" };
                    eq_pts(c, &Pair { c: l, mp: w, m, rep: "sum" }, &Pair { c: -r, mp: n, m: m.neg(), rep: "sum" });
                }
            }
        }
        for _ in 0..4 {
            wrappers(c);
        }
    }
}

// ---- C11 ----

fn torsion_check(c: &mut Ctx, p: &ExtendedPoint, want: bool, enc: &[u8], rep: &str) {
    c.seen("is_torsion_free", &[enc, rep.as_bytes()]);
    c.cov(if want { "torsion:free" } else { "torsion:present" });
    c.ck(p.is_torsion_free() == want, "is_torsion_free", || format!("{} ({}) expected {}", hex(enc), rep, want));
}
pub fn c11_directed() -> u64 {
    gen::edges().len() as u64
}
pub fn c11(c: &mut Ctx) {
    let i = c.case as usize;
    let e = gen::edges();
    if i < e.len() {
        c.cov("class:edge-multiple");
        for t in 0..4 {
            let mp = Mp::kt(e[i], t, "");
            match gen::realise(&mut c.rng, mp) {
                None => c.cov("skip:lift"),
                Some(p) => torsion_check(c, &p.c, t == 0, &mp.enc(), p.rep),
            }
        }
        return;
    }
    for _ in 0..2 {
        match gen::point(&mut c.rng) {
            None => c.cov("skip:lift"),
            Some(p) => {
                c.cov(format!("class:{}/{}", p.mp.class, p.rep));
                let free = p.mp.torsion_free();
                let a = p.mp.enc();
                torsion_check(c, &p.c, free, &a, p.rep);
                torsion_check(c, &-p.c, free, &a, "neg");
                // all four cosets of this point, added with the crate's own addition
                for t in 1..4 {
                    let m = p.m.add(&oracle::torsion(t)).norm();
                    if let Some(tp) = gen::lift(&oracle::torsion(t)) {
                        let want = Mp { m, kt: p.mp.kt.map(|(k, u)| (k, (u + t) & 3)), class: "" }.torsion_free();
                        torsion_check(c, &(p.c + tp), want, &m.encode(), "coset");
                    }
                }
                // clearing the cofactor always lands in the subgroup
                torsion_check(c, &p.c.double().double(), true, &a, "cleared");
            }
        }
    }
}

// ---- C12 ----

macro_rules! tw_same {
    ($c:expr, $what:expr, $got:expr, $model:expr, $ins:expr) => {{
        let g = $got;
        let m: Pt = $model;
        $c.seen($what, $ins);
        #[cfg(feature = "hooks")]
        if let Err(e) = coords_ok(&ed448_goldilocks::verif_hooks::twisted_coords(&g), true, Some(&m)) {
            let s: Vec<String> = $ins.iter().map(|x: &&[u8]| hex(x)).collect();
            $c.fail(&format!("twisted {}: {}", $what, e), s.join(", "));
        }
        same_pt($c, &format!("untwisted {}", $what), &g.to_untwisted(), &m.to_untwisted(), $ins);
    }};
}
fn isogeny(c: &mut Ctx, p: &Pair) {
    let a = p.mp.enc();
    let ins: &[&[u8]] = &[&a];
    let m = p.m.to_twisted();
    tw_same!(c, "to_twisted", p.c.to_twisted(), m, ins);
    let d = p.m.add(&p.m);
    same_pt(c, "twist-untwist = [4]", &p.c.to_twisted().to_untwisted(), &d.add(&d).norm(), ins);
}
fn twisted_ops(c: &mut Ctx, p: &Pair, q: &Pair) {
    let (a, b) = (p.mp.enc(), q.mp.enc());
    let ins: &[&[u8]] = &[&a, &b];
    let (mp, mq) = (p.m.to_twisted(), q.m.to_twisted());
    let (tp, tq) = (p.c.to_twisted(), q.c.to_twisted());
    // homomorphism
    c.ck(mp.add(&mq).eq(&p.m.add(&q.m).to_twisted()), "oracle isogeny", || "model".into());
    tw_same!(c, "phi(P+Q)", (p.c + q.c).to_twisted(), mp.add(&mq).norm(), ins);
    let t2 = Pt::new(U::ZERO, P.neg(&U::ONE), true);
    let (ep, eq) = (tp.to_extensible(), tq.to_extensible());
    tw_same!(c, "extensible round trip", ep.to_extended(), mp, ins);
    tw_same!(c, "add_extended", ep.add_extended(&tq).to_extended(), mp.add(&mq).norm(), ins);
    tw_same!(c, "add_extensible", ep.add_extensible(&eq).to_extended(), mp.add(&mq).norm(), ins);
    tw_same!(c, "sub_extended", ep.sub_extended(&tq).to_extended(), mp.sub(&mq).norm(), ins);
    tw_same!(c, "double", ep.double().to_extended(), mp.add(&mp).norm(), ins);
    tw_same!(c, "negate", tp.negate(), mp.neg(), ins);
    tw_same!(c, "torque", tp.torque(), mp.add(&t2).norm(), ins);
    let n = eq.to_projective_niels();
    tw_same!(c, "niels round trip", n.to_extended(), mq, ins);
    tw_same!(c, "add_projective_niels", ep.add_projective_niels(&n).to_extended(), mp.add(&mq).norm(), ins);
    // selection and negation of the cached form
    for ch in [0u8, 1] {
        let n1 = ep.double().to_projective_niels();
        let mut n2 = n;
        n2.conditional_assign(&n1, Choice::from(ch));
        let want = if ch == 1 { mp.add(&mp).norm() } else { mq };
        tw_same!(c, "niels select", n2.to_extended(), want, ins);
        let mut n3 = n;
        subtle::ConditionallyNegatable::conditional_negate(&mut n3, Choice::from(ch));
        let want = if ch == 1 { mq.neg() } else { mq };
        tw_same!(c, "niels negate", n3.to_extended(), want, ins);
        tw_same!(c, "add negated niels", ep.double().add_projective_niels(&n3).to_extended(), mp.add(&mp).add(&want).norm(), ins);
        let s = select_like(&tp, &tq, ch);
        tw_same!(c, "twisted select", s, if ch == 1 { mq } else { mp }, ins);
        let (mut s, mut t) = (tp, tq);
        ConditionallySelectable::conditional_swap(&mut s, &mut t, Choice::from(ch));
        tw_same!(c, "twisted swap.0", s, if ch == 1 { mq } else { mp }, ins);
        tw_same!(c, "twisted swap.1", t, if ch == 1 { mp } else { mq }, ins);
        tw_same!(c, "twisted swapped sum", s.to_extensible().add_extended(&tq).to_extended(), if ch == 1 { mq.add(&mq).norm() } else { mp.add(&mq).norm() }, ins);
        let (mut s, mut t) = (n, n1);
        ConditionallySelectable::conditional_swap(&mut s, &mut t, Choice::from(ch));
        let (w, o) = if ch == 1 { (mp.add(&mp).norm(), mq) } else { (mq, mp.add(&mp).norm()) };
        tw_same!(c, "add swapped niels.0", ep.add_projective_niels(&s).to_extended(), mp.add(&w).norm(), ins);
        tw_same!(c, "add swapped niels.1", ep.add_projective_niels(&t).to_extended(), mp.add(&o).norm(), ins);
    }
    // equality on the twisted curve
    let same = mp.eq(&mq);
    c.ck((tp == tq) == same, "twisted ==", || format!("{} {}", hex(&a), hex(&b)));
    c.ck((ep == eq) == same, "extensible ==", || format!("{} {}", hex(&a), hex(&b)));
    c.ck((n == ep.to_projective_niels()) == same, "niels ==", || format!("{} {}", hex(&a), hex(&b)));
    // the same comparisons with one side held under another denominator
    let (ep2, eq2) = (ep.double().sub_extended(&tp), eq.add_extended(&tp).sub_extended(&tp));
    for (what, x, w) in [("P (rescaled)", &ep2, true), ("Q (rescaled)", &eq2, same)] {
        let d = || format!("{} {} {}", what, hex(&a), hex(&b));
        c.ck((ep == *x) == w && (*x == ep) == w, "extensible == across denominators", d);
        c.ck(bool::from(ep.ct_eq(x)) == w, "extensible ct_eq across denominators", d);
        c.ck((tp == x.to_extended()) == w && (x.to_extended() == tp) == w, "twisted == across denominators", d);
        c.ck((ep.to_projective_niels() == x.to_projective_niels()) == w, "niels == across denominators", d);
        c.ck((x.to_projective_niels() == ep.to_projective_niels()) == w, "niels == across denominators", d);
        let neg = tp.negate();
        let wn = if what.starts_with('P') { mp.eq(&mp.neg()) } else { mq.eq(&mp.neg()) };
        c.ck((neg == x.to_extended()) == wn, "twisted == with the negative", d);
        c.ck((neg.to_extensible().to_projective_niels() == x.to_projective_niels()) == wn, "niels == with the negative", d);
    }
    c.ck(bool::from(tp.ct_eq(&tp.torque())) == false, "P = P + T2 on the twist", || hex(&a));
    // identities
    let id = default_like(&tp);
    tw_same!(c, "identity", id, Pt::identity(true), ins);
    tw_same!(c, "P + 0", ep.add_extended(&id).to_extended(), mp, ins);
    tw_same!(c, "0 - P", id.to_extensible().sub_extended(&tp).to_extended(), mp.neg(), ins);
    let nid = default_like(&n);
    tw_same!(c, "P + cached 0", ep.add_projective_niels(&nid).to_extended(), mp, ins);
    // a chain whose intermediate forms keep split auxiliary coordinates
    let mut x = tp.to_extensible();
    let mut m = mp;
    for _ in 0..16 {
        match c.rng.below(7) {
            0 => {
                x = x.double();
                m = m.add(&m)
            }
            1 => {
                x = x.add_extended(&tq);
                m = m.add(&mq)
            }
            2 => {
                x = x.sub_extended(&tp);
                m = m.sub(&mp)
            }
            3 => {
                x = x.add_projective_niels(&n);
                m = m.add(&mq)
            }
            4 => {
                x = x.add_extensible(&x);
                m = m.add(&m)
            }
            5 => {
                x = x.to_extended().torque().to_extensible();
                m = m.add(&t2)
            }
            _ => {
                x = x.to_projective_niels().to_extended().negate().to_extensible();
                m = m.neg()
            }
        }
    }
    tw_same!(c, "chain", x.to_extended(), m.norm(), ins);
}
fn default_like<T: Default>(_: &T) -> T {
    T::default()
}
fn select_like<T: ConditionallySelectable>(a: &T, b: &T, ch: u8) -> T {
    T::conditional_select(a, b, Choice::from(ch))
}
pub fn c12_directed() -> u64 {
    special().len() as u64
}
pub fn c12(c: &mut Ctx) {
    let i = c.case as usize;
    let s = special();
    if i < s.len() {
        c.cov("class:special-row");
        if let Some(p) = gen::realise(&mut c.rng, s[i]) {
            isogeny(c, &p);
            for q in s.iter().step_by(3) {
                if let Some(q) = gen::realise(&mut c.rng, *q) {
                    twisted_ops(c, &p, &q);
                }
            }
        } else {
            c.cov("skip:lift");
        }
        return;
    }
    match gen::pair(&mut c.rng) {
        None => c.cov("skip:lift"),
        Some((p, q, rel)) => {
            c.cov(format!("class:{}/{}", p.mp.class, rel));
            isogeny(c, &p);
            isogeny(c, &q);
            twisted_ops(c, &p, &q);
        }
    }
}
