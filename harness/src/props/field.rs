//! C05: base field arithmetic, as a register machine shadowed by the reference integers.
use crate::big::{P, U};
use crate::gen;
use crate::report::Ctx;
use ed448_goldilocks::curve::MontgomeryPoint;

/// Loading, inverting one, multiplying and storing, through the public API.
fn public_store(c: &mut Ctx, u: &U) {
    let b = u.to_le();
    c.seen("load-store", &[&b]);
    let got = MontgomeryPoint(b).to_projective().to_affine();
    c.same("canonical store of loaded bytes", &got.0, &P.reduce(u).to_le(), &[&b]);
}

#[cfg(feature = "hooks")]
mod hooked {
    use super::*;
    use crate::oracle;
    use ed448_goldilocks::verif_hooks::Fe;

    pub fn fe(u: &U) -> Fe {
        Fe::from_bytes(&u.to_le())
    }
    fn chk(c: &mut Ctx, what: &str, got: &Fe, want: &U, ins: &[&U]) -> bool {
        let b: Vec<[u8; 56]> = ins.iter().map(|u| u.to_le()).collect();
        let r: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
        c.same(what, &got.to_bytes(), &want.to_le(), &r)
    }
    fn flag(c: &mut Ctx, what: &str, got: bool, want: bool, ins: &[&U]) {
        c.ck(got == want, what, || {
            let b: Vec<String> = ins.iter().map(|u| u.hex()).collect();
            format!("inputs=[{}] got={} expected={}", b.join(", "), got, want)
        });
    }
    /// Unary facts about a register holding `x` with value `v` (canonical).
    pub fn unary(c: &mut Ctx, x: &Fe, v: &U, roots: bool) {
        c.seen("unary", &[&v.to_le()]);
        chk(c, "store", x, v, &[v]);
        chk(c, "square", &x.square(), &P.sq(v), &[v]);
        chk(c, "negate", &x.negate(), &P.neg(v), &[v]);
        chk(c, "strong_reduce", &x.strong_reduce(), v, &[v]);
        flag(c, "is_zero", x.is_zero(), v.is_zero(), &[v]);
        flag(c, "is_negative", x.is_negative(), v.is_odd(), &[v]);
        flag(c, "reduced is_negative", x.strong_reduce().is_negative(), v.is_odd(), &[v]);
        chk(c, "conditional_negate(0)", &x.conditional_negate(0), v, &[v]);
        chk(c, "conditional_negate(1)", &x.conditional_negate(1), &P.neg(v), &[v]);
        if roots {
            chk(c, "invert", &x.invert(), &P.inv(v), &[v]);
            let (r, ok) = x.inverse_square_root();
            let sq = oracle::is_square(v) && !v.is_zero();
            flag(c, "inverse_square_root flag", ok, sq, &[v]);
            c.cov(if sq { "isr:square" } else { "isr:nonsquare" });
            if sq {
                // r^2 * v = 1
                let rv = U::from_le(&r.to_bytes());
                flag(c, "inverse_square_root value", P.mul(&P.sq(&rv), v) == U::ONE, true, &[v]);
            }
        }
    }
    pub fn ratio(c: &mut Ctx, x: &Fe, a: &U, y: &Fe, b: &U) {
        c.seen("sqrt_ratio", &[&a.to_le(), &b.to_le()]);
        let (r, ok) = Fe::sqrt_ratio(x, y);
        let q = P.mul(a, &P.inv(b));
        let want = a.is_zero() || (!b.is_zero() && oracle::is_square(&q));
        c.cov(if want { "ratio:square" } else { "ratio:nonsquare" });
        flag(c, "sqrt_ratio flag", ok, want, &[a, b]);
        if want {
            let rv = U::from_le(&r.to_bytes());
            flag(c, "sqrt_ratio value", P.sq(&rv) == q, true, &[a, b]);
        }
    }
    pub fn binary(c: &mut Ctx, x: &Fe, a: &U, y: &Fe, b: &U) {
        c.seen("binary", &[&a.to_le(), &b.to_le()]);
        chk(c, "add", &x.add(y), &P.add(a, b), &[a, b]);
        chk(c, "sub", &x.sub(y), &P.sub(a, b), &[a, b]);
        chk(c, "mul", &x.mul(y), &P.mul(a, b), &[a, b]);
        chk(c, "mul by reference", &x.mul_ref(y), &P.mul(a, b), &[a, b]);
        flag(c, "eq", x.eq(y), a == b, &[a, b]);
        flag(c, "ct_eq", x.ct_eq(y), a == b, &[a, b]);
        let d = x.sub(y);
        flag(c, "is_zero of difference", d.is_zero(), a == b, &[a, b]);
        flag(c, "sign of sum", x.add(y).is_negative(), P.add(a, b).is_odd(), &[a, b]);
        flag(c, "sign of difference", d.is_negative(), P.sub(a, b).is_odd(), &[a, b]);
        chk(c, "select(0)", &Fe::conditional_select(x, y, 0), a, &[a, b]);
        chk(c, "select(1)", &Fe::conditional_select(x, y, 1), b, &[a, b]);
        let (s, t) = Fe::conditional_swap(x, y, 0);
        chk(c, "swap(0).0", &s, a, &[a, b]);
        chk(c, "swap(0).1", &t, b, &[a, b]);
        let (s, t) = Fe::conditional_swap(x, y, 1);
        chk(c, "swap(1).0", &s, b, &[a, b]);
        chk(c, "swap(1).1", &t, a, &[a, b]);
    }
    /// Random operation chains over lazily reduced registers.
    pub fn machine(c: &mut Ctx, steps: usize) {
        let mut regs: Vec<(Fe, U)> = Vec::new();
        regs.push((Fe::zero(), U::ZERO));
        regs.push((Fe::one(), U::ONE));
        for _ in 0..6 {
            let (u, cls) = gen::u448(&mut c.rng);
            c.cov(format!("load:{}", cls));
            regs.push((fe(&u), P.reduce(&u)));
        }
        for _ in 0..steps {
            let (i, j) = (c.rng.below(regs.len()), c.rng.below(regs.len()));
            let (x, a) = regs[i];
            let (y, b) = regs[j];
            let k = c.rng.below(regs.len());
            let op = c.rng.below(18);
            let (nm, r, v) = match op {
                0 | 1 | 2 => ("add", x.add(&y), P.add(&a, &b)),
                3 | 4 | 5 => ("sub", x.sub(&y), P.sub(&a, &b)),
                6 | 7 => ("mul", x.mul(&y), P.mul(&a, &b)),
                8 => ("mul_ref", x.mul_ref(&y), P.mul(&a, &b)),
                9 => ("square", x.square(), P.sq(&a)),
                10 | 11 => ("negate", x.negate(), P.neg(&a)),
                12 => ("reduce", x.strong_reduce(), a),
                13 => {
                    let ch = c.rng.below(2) as u8;
                    ("select", Fe::conditional_select(&x, &y, ch), if ch == 1 { b } else { a })
                }
                14 => {
                    let ch = c.rng.below(2) as u8;
                    ("cneg", x.conditional_negate(ch), if ch == 1 { P.neg(&a) } else { a })
                }
                16 => {
                    // an operand that makes the sum or difference an edge value
                    let t = P.reduce(c.rng.pick(gen::edges()));
                    if c.rng.bool() {
                        ("add", x.add(&fe(&P.sub(&t, &a))), t)
                    } else {
                        ("sub", x.sub(&fe(&P.sub(&a, &t))), t)
                    }
                }
                17 if c.rng.below(6) == 0 && !a.is_zero() => {
                    // an operand that makes the product an edge value
                    let t = P.reduce(c.rng.pick(gen::edges()));
                    ("mul", x.mul(&fe(&P.mul(&t, &P.inv(&a)))), t)
                }
                _ => {
                    let (u, _) = gen::u448(&mut c.rng);
                    ("load", fe(&u), P.reduce(&u))
                }
            };
            c.seen(nm, &[&a.to_le(), &b.to_le()]);
            if !chk(c, nm, &r, &v, &[&a, &b]) {
                return;
            }
            flag(c, "machine is_zero", r.is_zero(), v.is_zero(), &[&v]);
            flag(c, "machine is_negative", r.is_negative(), v.is_odd(), &[&v]);
            regs[k] = (r, v);
        }
        // facts about whatever representations we ended up with
        for i in 0..regs.len() {
            let (x, a) = regs[i];
            unary(c, &x, &a, i < 2);
            let (y, b) = regs[(i + 3) % regs.len()];
            binary(c, &x, &a, &y, &b);
        }
        let (x, a) = *c.rng.pick(&regs);
        let (y, b) = *c.rng.pick(&regs);
        ratio(c, &x, &a, &y, &b);
    }
    pub fn edge_row(c: &mut Ctx, u: &U) {
        let v = P.reduce(u);
        let x = fe(u);
        unary(c, &x, &v, true);
        for w in gen::edges() {
            let y = fe(w);
            let b = P.reduce(w);
            binary(c, &x, &v, &y, &b);
        }
        // lazily reduced zero and relatives
        let z = x.sub(&x);
        unary(c, &z, &U::ZERO, true);
        let z2 = x.add(&x.negate());
        unary(c, &z2, &U::ZERO, false);
        binary(c, &z, &U::ZERO, &z2, &U::ZERO);
        for w in [U::ZERO, U::ONE, P.m.wsub(&U::ONE), U::small(4), P.sq(&v), v] {
            let y = fe(&w);
            let b = P.reduce(&w);
            ratio(c, &x, &v, &y, &b);
            ratio(c, &y, &b, &x, &v);
        }
    }
    pub fn consts(c: &mut Ctx) {
        chk(c, "zero", &Fe::zero(), &U::ZERO, &[]);
        chk(c, "one", &Fe::one(), &U::ONE, &[]);
    }
}

pub fn c05_directed() -> u64 {
    1 + gen::edges().len() as u64
}
pub fn c05(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        #[cfg(feature = "hooks")]
        hooked::consts(c);
        // every value from p - 300 up to 2^448 - 1 near the top, and just above p
        let mut u = P.m.wsub(&U::small(300));
        for _ in 0..600 {
            public_store(c, &u);
            u = u.wadd(&U::ONE);
        }
        let mut u = U::MAX.wsub(&U::small(300));
        for _ in 0..600 {
            public_store(c, &u);
            u = u.wadd(&U::ONE);
        }
        return;
    }
    let e = gen::edges();
    if i - 1 < e.len() {
        c.cov("class:edge-row");
        public_store(c, &e[i - 1]);
        #[cfg(feature = "hooks")]
        hooked::edge_row(c, &e[i - 1]);
        return;
    }
    for _ in 0..8 {
        let (u, _) = gen::u448(&mut c.rng);
        public_store(c, &u);
    }
    #[cfg(feature = "hooks")]
    hooked::machine(c, 80);
    #[cfg(not(feature = "hooks"))]
    public_route(c);
}

/// Without access to the field type: observe field arithmetic through one ladder and one
/// group operation, whose results are pure field expressions.
#[cfg(not(feature = "hooks"))]
fn public_route(c: &mut Ctx) {
    use crate::oracle;
    let (u, _) = gen::u448(&mut c.rng);
    let (k, _) = gen::u448(&mut c.rng);
    let got = &MontgomeryPoint(u.to_le()) * &gen::sc(&k);
    c.seen("ladder", &[&u.to_le(), &k.to_le()]);
    c.same("ladder value", &got.0, &oracle::mont_mul(&u, &k).to_le(), &[&u.to_le(), &k.to_le()]);
    if let Some((p, q, _)) = gen::pair(&mut c.rng) {
        c.seen("edwards", &[&p.mp.enc(), &q.mp.enc()]);
        c.same("edwards sum", &(p.c + q.c).compress().0, &p.m.add(&q.m).encode(), &[&p.mp.enc(), &q.mp.enc()]);
    }
}
