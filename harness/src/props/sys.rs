//! C19, C20, C22: whole-API programs without a value oracle.
use crate::big::{hex, L, P, U};
use crate::gen::{self, sc};
use crate::oracle;
use crate::report::{Ctx, Report};
use crate::rng::Rng;
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::{CompressedRistretto, RistrettoPoint};
use ed448_goldilocks::Scalar;
use rand_core::{CryptoRng, RngCore};
use std::hash::{Hash, Hasher};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// Byte strings a hostile peer might send.
pub fn bytes56(rng: &mut Rng) -> [u8; 56] {
    match rng.below(6) {
        0 => rng.bytes::<56>(),
        1 => oracle::decaf_encode(&gen::decaf_mp(rng).m),
        2 => {
            // non-canonical alias of a small value
            P.m.wadd(&U::small(rng.below(64) as u64)).to_le()
        }
        _ => gen::u448(rng).0.to_le(),
    }
}
pub fn bytes57(rng: &mut Rng) -> [u8; 57] {
    let mut b = [0u8; 57];
    match rng.below(6) {
        0 | 1 | 2 => gen::model_point(rng).enc(),
        3 => {
            let mut e = gen::model_point(rng).enc();
            let k = rng.below(456);
            e[k / 8] ^= 1 << (k % 8);
            e
        }
        4 => rng.bytes::<57>(),
        _ => {
            b[..56].copy_from_slice(&gen::u448(rng).0.to_le());
            b[56] = *rng.pick(&[0, 0x80, 0x01, 0x7f, 0xff, 0x40]);
            b
        }
    }
}
pub struct ByteRng(pub Rng);
impl RngCore for ByteRng {
    fn next_u32(&mut self) -> u32 {
        self.0.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.0.fill(d);
        Ok(())
    }
}
impl CryptoRng for ByteRng {}

/// A string close to `b`: one bit or one byte away, or another member of its class mod `m`.
fn near(rng: &mut Rng, mut b: [u8; 56], m: &U) -> [u8; 56] {
    match rng.below(5) {
        0 | 1 => {
            let k = rng.below(448);
            b[k / 8] ^= 1 << (k % 8);
        }
        2 => b[55] ^= 0x80,
        3 => b[rng.below(56)] = rng.u64() as u8,
        _ => return U::from_le(&b).wadd(m).to_le(),
    }
    b
}
pub type Log = Vec<(&'static str, Vec<u8>)>;
pub const N_OPS: usize = 44;

/// Runs a random program over the whole public API and logs every observable result.
/// Nothing here depends on the back end or the build: equal seeds give equal programs
/// as long as the results agree.
pub fn program(rng: &mut Rng, steps: usize, log: &mut Log, heavy: usize, before: &mut dyn FnMut(&'static str)) {
    let mut s: Vec<Scalar> = vec![Scalar::zero(), Scalar::one()];
    let mut e: Vec<ExtendedPoint> = vec![ExtendedPoint::identity(), ExtendedPoint::generator()];
    let mut m: Vec<MontgomeryPoint> = vec![MontgomeryPoint::generator()];
    let mut d: Vec<DecafPoint> = vec![DecafPoint::identity(), DecafPoint::generator()];
    for _ in 0..3 {
        s.push(sc(&gen::u448(rng).0));
        m.push(MontgomeryPoint(bytes56(rng)));
        if let Some(p) = gen::lift(&gen::model_point(rng).m) {
            e.push(p);
        }
        if let Some(p) = gen::dlift(gen::decaf_mp(rng)) {
            d.push(p.c);
        }
    }
    fn put<T>(rng: &mut Rng, v: &mut Vec<T>, x: T) {
        if v.len() < 8 {
            v.push(x)
        } else {
            let i = rng.below(v.len());
            v[i] = x
        }
    }
    let mut budget = heavy;
    for _ in 0..steps {
        let op = rng.below(N_OPS);
        let (a, mut b) = (s[rng.below(s.len())], s[rng.below(s.len())]);
        let (p, mut q) = (e[rng.below(e.len())], e[rng.below(e.len())]);
        let (u, mut v) = (m[rng.below(m.len())], m[rng.below(m.len())]);
        if rng.below(3) == 0 {
            // second operands that are relatives of the first
            b = Scalar::from_bytes(near(rng, a.to_bytes(), &L.m));
            v = MontgomeryPoint(near(rng, u.0, &P.m));
            q = match rng.below(4) {
                0 => p,
                1 => -p,
                2 => p.torque(),
                _ => q,
            };
        }
        let (di, dj) = (rng.below(d.len()), rng.below(d.len()));
        let ch = Choice::from(rng.below(2) as u8);
        macro_rules! sout {
            ($n:expr, $x:expr) => {{
                before($n);
                let r: Scalar = $x;
                log.push(($n, r.to_bytes().to_vec()));
                put(rng, &mut s, r);
            }};
        }
        macro_rules! eout {
            ($n:expr, $x:expr) => {{
                before($n);
                let r: ExtendedPoint = $x;
                log.push(($n, r.compress().0.to_vec()));
                put(rng, &mut e, r);
            }};
        }
        macro_rules! mout {
            ($n:expr, $x:expr) => {{
                before($n);
                let r: MontgomeryPoint = $x;
                log.push(($n, r.as_bytes().to_vec()));
                put(rng, &mut m, r);
            }};
        }
        macro_rules! dout {
            ($n:expr, $x:expr) => {{
                before($n);
                let r: DecafPoint = $x;
                log.push(($n, r.compress().0.to_vec()));
                put(rng, &mut d, r);
            }};
        }
        macro_rules! bout {
            ($n:expr, $x:expr) => {{
                before($n);
                let r: Vec<u8> = $x;
                log.push(($n, r));
            }};
        }
        let heavy_ok = budget > 0;
        match op {
            0 => sout!("scalar-add", a + b),
            1 => sout!("scalar-sub", a - b),
            2 => sout!("scalar-mul", a * b),
            3 => sout!("scalar-halve", a.halve()),
            4 => sout!("scalar-invert", a.invert()),
            5 => sout!("scalar-from-u32", Scalar::from(rng.u64() as u32)),
            6 => {
                let mut w = [0u8; 114];
                rng.fill(&mut w);
                w[..56].copy_from_slice(&gen::u448(rng).0.to_le());
                sout!("scalar-wide", Scalar::from_bytes_mod_order_wide(&w))
            }
            7 => sout!("scalar-random", Scalar::random(&mut ByteRng(rng.clone()))),
            8 => {
                let mut w = [0u8; 57];
                w[..56].copy_from_slice(&gen::u448(rng).0.to_le());
                if rng.below(4) == 0 {
                    w[56] = rng.u64() as u8;
                }
                if rng.bool() {
                    w[55] &= 0x3f;
                }
                bout!("scalar-strict", match Scalar::from_canonical_bytes(w) {
                    None => vec![0],
                    Some(x) => x.to_bytes_rfc_8032().to_vec(),
                })
            }
            9 => bout!("scalar-bits", a.bits().iter().map(|x| *x as u8).collect()),
            10 => bout!("scalar-eq", vec![(a == b) as u8, a.ct_eq(&b).unwrap_u8(), (a != b) as u8]),
            11 => {
                let i = rng.below(14);
                let mut t = a;
                t[i] = b[13 - i];
                sout!("scalar-index", t)
            }
            12 => sout!("scalar-load", Scalar::from_bytes(bytes56(rng))),
            13 => eout!("edwards-add", p + q),
            14 => eout!("edwards-sub", p - q),
            15 => eout!("edwards-double", p.double()),
            16 => eout!("edwards-neg", -p),
            17 => eout!("edwards-torque", p.torque()),
            18 => eout!("edwards-select", ExtendedPoint::conditional_select(&p, &q, ch)),
            19 => bout!("edwards-eq", vec![(p == q) as u8, p.ct_eq(&q).unwrap_u8()]),
            20 if heavy_ok => {
                budget -= 1;
                eout!("edwards-mul", p * a)
            }
            21 => eout!("edwards-mod-four", p.scalar_mod_four(&a)),
            22 if heavy_ok => {
                budget -= 1;
                bout!("edwards-torsion", vec![p.is_torsion_free() as u8])
            }
            23 => mout!("edwards-to-montgomery", p.to_montgomery()),
            24 | 25 => {
                let b = bytes57(rng);
                before("edwards-decode");
                match CompressedEdwardsY(b).decompress() {
                    None => log.push(("edwards-decode", vec![0])),
                    Some(r) => {
                        log.push(("edwards-decode", r.compress().0.to_vec()));
                        put(rng, &mut e, r);
                    }
                }
            }
            26 => eout!("twist-untwist", p.to_twisted().to_untwisted()),
            27 => {
                let t = p.to_twisted();
                eout!("twisted-ops", {
                    let n = q.to_twisted().to_extensible().to_projective_niels();
                    t.to_extensible().double().add_projective_niels(&n).sub_extended(&t.torque()).to_extended().to_untwisted()
                })
            }
            28 => eout!("edwards-sum", [p, q, p].iter().sum()),
            29 if heavy_ok => {
                budget -= 1;
                mout!("montgomery-mul", &u * &a)
            }
            30 => bout!("montgomery-low", vec![u.is_low_order() as u8]),
            31 => bout!("montgomery-eq", vec![(u == v) as u8]),
            32 => mout!("montgomery-normalise", u.to_projective().to_affine()),
            33 => mout!("montgomery-load", MontgomeryPoint(bytes56(rng))),
            34 => dout!("decaf-add", &d[di] + &d[dj]),
            35 => dout!("decaf-sub", &d[di] - &d[dj]),
            36 => dout!("decaf-neg", -&d[di]),
            37 if heavy_ok => {
                budget -= 1;
                dout!("decaf-mul", &d[di] * &a)
            }
            38 => bout!("decaf-equals", vec![d[di].equals(&d[dj]) as u8]),
            39 | 40 => {
                let b = bytes56(rng);
                before("decaf-decode");
                match CompressedDecaf(b).decompress() {
                    None => log.push(("decaf-decode", vec![0])),
                    Some(r) => {
                        log.push(("decaf-decode", r.compress().0.to_vec()));
                        put(rng, &mut d, r);
                    }
                }
            }
            41 => {
                bout!("debug-format", {
                    // formatting must not fail; its text is not compared
                    let _ = format!("{:?}{:?}{:?}{:?}{:?}", a, p, u, d[di], d[di].compress());
                    let _ = format!("{:?}", CompressedRistretto::identity());
                    vec![RistrettoPoint::identity().equals(&RistrettoPoint::identity()) as u8]
                })
            }
            42 => bout!("montgomery-hash", {
                let mut h1 = std::collections::hash_map::DefaultHasher::new();
                let mut h2 = std::collections::hash_map::DefaultHasher::new();
                u.hash(&mut h1);
                MontgomeryPoint(u.0).hash(&mut h2);
                vec![(h1.finish() == h2.finish()) as u8]
            }),
            43 => {
                let mut t = u;
                zeroize::Zeroize::zeroize(&mut t);
                bout!("montgomery-zeroize", t.0.to_vec())
            }
            _ => {}
        }
    }
}

// ---- C19: event log, compared offline between builds ----

pub fn fnv(h: &mut [u64; 2], b: &[u8]) {
    for x in b {
        h[0] = (h[0] ^ *x as u64).wrapping_mul(0x100000001b3);
        h[1] = (h[1].rotate_left(5) ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
}
pub fn c19_directed() -> u64 {
    0
}
/// Runs one case of another property's monitor, with that monitor's operand generators.
/// Returns what it observed and whether the code under test panicked.
pub fn delegate(seed: u64, case: u64) -> (&'static str, Report, Option<Box<dyn std::any::Any + Send>>) {
    let mut rng = Rng::new(seed ^ 0xDE1E, case);
    // the last three entries of the table are the whole-API programs themselves
    let n = super::PROPS.len() - 3;
    let p = &super::PROPS[if rng.below(5) == 0 { 4 } else { rng.below(n) }];
    let d = (p.directed)();
    let sub = if d > 0 && rng.below(8) == 0 { rng.below(d as usize) as u64 } else { d + (rng.u64() >> 20) };
    let s = seed ^ 0x5EED;
    let mut c = Ctx { case: sub, seed: s, rng: Rng::new(s, sub), r: Report::default() };
    super::LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut c)));
    (p.id, c.r, r.err())
}
/// An error of the monitor itself is passed on; a panic of the code under test is an event.
fn pass_on(p: Box<dyn std::any::Any + Send>) {
    let mine = super::LAST_PANIC.with(|l| l.borrow().as_ref().map_or(false, |(_, loc)| super::ours(loc)));
    if mine {
        std::panic::resume_unwind(p);
    }
}
pub fn c19_log(seed: u64, case: u64) -> (Log, Report) {
    let mut log = Log::new();
    if case % 2 == 1 {
        // verdicts of another monitor: the builds must get the same ones
        let (id, rep, panic) = delegate(seed, case);
        for f in &rep.fails {
            log.push((id, f.what.as_bytes().to_vec()));
        }
        if let Some(p) = panic {
            pass_on(p);
            log.push((id, b"panicked".to_vec()));
        }
        if log.is_empty() {
            log.push((id, b"as specified".to_vec()));
        }
        return (log, rep);
    }
    let mut rng = Rng::new(seed ^ 0x19, case);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program(&mut rng, 60, &mut log, 6, &mut |_| {})));
    if let Err(p) = r {
        pass_on(p);
        log.push(("panicked", vec![]));
    }
    (log, Report::default())
}
pub fn c19(c: &mut Ctx) {
    let (log, mut rep) = c19_log(c.seed, c.case);
    let mut h = [0xcbf29ce484222325u64, 1];
    for (op, out) in &log {
        c.seen(op, &[out]);
        fnv(&mut h, op.as_bytes());
        fnv(&mut h, out);
    }
    rep.fails.clear();
    rep.known.clear();
    c.r.merge(rep);
    c.r.digests.push((c.case, format!("{:016x}{:016x}", h[0], h[1])));
}

// ---- C20: totality ----

pub fn c20_directed() -> u64 {
    2 + gen::edges().len() as u64
}
pub fn c20(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        return stubs(c);
    }
    if i == 1 {
        // all-equal byte strings, everywhere
        for b in 0..=255u8 {
            drive(c, &[b; 56], &[b; 57], &[b; 114]);
        }
        return;
    }
    let e = gen::edges();
    if i - 2 < e.len() {
        c.cov("class:edge");
        let x = e[i - 2].to_le();
        for top in [0u8, 0x80, 0xff, 0x01] {
            let mut y = [top; 57];
            y[..56].copy_from_slice(&x);
            let mut w = [top; 114];
            w[..56].copy_from_slice(&x);
            w[56..112].copy_from_slice(&x);
            drive(c, &x, &y, &w);
        }
        return;
    }
    if c.rng.bool() {
        // another monitor's workload; its verdicts are not this property's business
        let (id, mut rep, panic) = delegate(c.seed, c.case);
        rep.fails.clear();
        rep.known.clear();
        c.r.merge(rep);
        c.cov(format!("workload:{}", id));
        if let Some(p) = panic {
            std::panic::resume_unwind(p);
        }
        return;
    }
    let mut log = Log::new();
    let mut cur = "start";
    let mut rng = c.rng.clone();
    // the name of the operation under way is what a panic report needs
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        program(&mut rng, 60, &mut log, 6, &mut |n| cur = n);
    }));
    for (op, out) in &log {
        c.seen(op, &[out]);
    }
    if let Err(p) = r {
        c.cov(format!("panicked-in:{}", cur));
        std::panic::resume_unwind(p);
    }
    let (a, b) = (bytes56(&mut c.rng), bytes57(&mut c.rng));
    let w = c.rng.bytes::<114>();
    drive(c, &a, &b, &w);
}
/// Every decoder and every function of raw bytes, on one hostile input.
fn drive(c: &mut Ctx, a: &[u8; 56], b: &[u8; 57], w: &[u8; 114]) {
    c.seen("hostile", &[a, b, w]);
    let s = Scalar::from_bytes(*a);
    let t = Scalar::from_bytes_mod_order_wide(w);
    let mut acc = 0u8;
    for r in [s + t, s - t, t - s, s * s, s * t, s.halve(), s + s, s - s, t.halve(), s.invert()] {
        acc ^= r.to_bytes()[0] ^ r.to_bytes_rfc_8032()[56] ^ r.bits()[447] as u8;
    }
    if let Some(x) = Scalar::from_canonical_bytes(*b) {
        acc ^= x[13] as u8;
        c.cov("strict:some");
    }
    let m = MontgomeryPoint(*a);
    acc ^= m.is_low_order() as u8 ^ m.to_projective().to_affine().0[0] ^ (&m * &s).0[0];
    match CompressedEdwardsY(*b).decompress() {
        None => c.cov("edwards:none"),
        Some(p) => {
            c.cov("edwards:some");
            let r = (p * s) + p.torque() - p.double();
            acc ^= r.compress().0[0] ^ r.to_montgomery().0[0] ^ (r == p) as u8 ^ r.is_torsion_free() as u8;
            let tw = r.to_twisted();
            acc ^= tw.to_extensible().add_extended(&tw).sub_extended(&tw.negate()).to_extended().to_untwisted().compress().0[1];
        }
    }
    let g = ExtendedPoint::generator() * s;
    acc ^= g.compress().0[3];
    match CompressedDecaf(*a).decompress() {
        None => c.cov("decaf:none"),
        Some(p) => {
            c.cov("decaf:some");
            let r = &(&p * &s) - &p;
            acc ^= r.compress().0[0] ^ r.equals(&p) as u8;
        }
    }
    let r = &DecafPoint::generator() * &s;
    acc ^= r.compress().0[1];
    std::hint::black_box(acc);
}
/// Public functions that exist but are not implemented; see known_findings.json.
fn stubs(c: &mut Ctx) {
    let mut one = |name: &'static str, f: &dyn Fn()| {
        c.seen(name, &[name.as_bytes()]);
        let r = crate::props::quiet_catch(f);
        if let Err(msg) = r {
            if msg.contains("not yet implemented") {
                c.r.known.push(name.to_string());
            } else {
                c.fail(&format!("{} panicked", name), msg);
            }
        }
    };
    one("MontgomeryPoint::to_edwards", &|| {
        let _ = MontgomeryPoint::generator().to_edwards(0);
    });
    one("RistrettoPoint::encode", &|| {
        let _ = RistrettoPoint::identity().encode();
    });
    one("CompressedRistretto::decode", &|| {
        let _ = CompressedRistretto::identity().decode();
    });
}

// ---- C22: purity ----

/// One call with its operands as plain bytes, so that it can be replayed in a process
/// in which nothing else has ever run.
#[derive(Clone, Copy)]
pub struct Task {
    pub op: u8,
    pub p: usize,
    pub q: usize,
    pub s: usize,
    pub t: usize,
}
pub const N_TASK_OPS: u8 = 32;
const E_OPS: std::ops::RangeInclusive<u8> = 2..=13;
const D_OPS: std::ops::RangeInclusive<u8> = 19..=25;
pub struct Raw {
    pub e: Vec<[u8; 57]>,
    pub d: Vec<[u8; 56]>,
    pub s: Vec<[u8; 56]>,
    pub u: Vec<[u8; 56]>,
}
pub struct Ops {
    pub e: Vec<Option<ExtendedPoint>>,
    pub d: Vec<Option<DecafPoint>>,
    pub s: Vec<Scalar>,
    pub u: Vec<MontgomeryPoint>,
}
const POOL: usize = 10;
const PER_OP: usize = 8;
pub fn c22_tasks(seed: u64, case: u64) -> (Raw, Vec<Task>) {
    let mut rng = Rng::new(seed ^ 0x22, case);
    let mut raw = Raw { e: vec![], d: vec![], s: vec![], u: vec![] };
    // a few operands, most of them related: what a faulty cache would confuse
    let p = gen::model_point(&mut rng);
    raw.e.push(p.enc());
    raw.e.push(p.m.neg().encode());
    raw.e.push(p.m.add(&oracle::torsion(2)).encode());
    raw.e.push(p.m.add(&oracle::torsion(1)).encode());
    raw.e.push(p.m.neg().add(&oracle::torsion(2)).encode());
    raw.e.push(gen::model_point(&mut rng).enc());
    // the generator and its relatives, which a cache may treat specially
    let g = oracle::base();
    raw.e.push(g.encode());
    raw.e.push(g.neg().encode());
    raw.e.push(if rng.bool() { g.add(&oracle::torsion(2)) } else { g.add(g) }.encode());
    raw.e.push(oracle::torsion(rng.below(4)).encode());
    let d = gen::decaf_mp(&mut rng);
    raw.d.push(oracle::decaf_encode(&d.m));
    raw.d.push(oracle::decaf_encode(&d.m.neg()));
    raw.d.push(oracle::decaf_encode(&d.m.add(&d.m)));
    raw.d.push(oracle::decaf_encode(&gen::decaf_mp(&mut rng).m));
    raw.d.push([0; 56]);
    raw.d.push(oracle::decaf_encode(&gen::decaf_mp(&mut rng).m));
    let g = oracle::decaf_base();
    raw.d.push(oracle::decaf_encode(&g));
    raw.d.push(oracle::decaf_encode(&g.neg()));
    raw.d.push(oracle::decaf_encode(&g.add(&g)));
    raw.d.push(oracle::decaf_encode(&g.add(&d.m)));
    let s = gen::u448(&mut rng).0;
    raw.s.push(s.to_le());
    raw.s.push(s.wadd(&U::ONE).to_le());
    for lo in [0usize, 224] {
        // one bit away, once in each half
        let mut x = s;
        let k = lo + rng.below(224);
        x.set_bit(k, !x.bit(k));
        raw.s.push(x.to_le());
    }
    // the other half replaced
    let mut x = gen::u448(&mut rng).0.to_le();
    let half = rng.bool();
    for i in 0..56 {
        if (i < 28) == half {
            x[i] = raw.s[0][i];
        }
    }
    raw.s.push(x);
    raw.s.push(gen::u448(&mut rng).0.to_le());
    raw.s.push(U::small(rng.below(3) as u64).to_le());
    raw.s.push(L.neg(&L.reduce(&s)).to_le());
    raw.s.push(L.m.wsub(&U::small(rng.below(2) as u64)).to_le());
    raw.s.push(s.wadd(&L.m).to_le());
    let u = if rng.bool() { U::small(rng.below(64) as u64) } else { gen::u448(&mut rng).0 };
    raw.u.push(u.to_le());
    raw.u.push(P.neg(&P.reduce(&u)).to_le());
    raw.u.push(bytes56(&mut rng));
    for lo in [0usize, 224] {
        let mut x = u;
        let k = lo + rng.below(224);
        x.set_bit(k, !x.bit(k));
        raw.u.push(x.to_le());
    }
    raw.u.push(u.wadd(&P.m).to_le());
    raw.u.push(U::small(5).to_le());
    raw.u.push(P.m.wsub(&U::small(5)).to_le());
    raw.u.push(P.m.wadd(&U::small(5)).to_le());
    raw.u.push(U::small(rng.below(2) as u64).to_le());
    debug_assert!([raw.e.len(), raw.d.len(), raw.s.len(), raw.u.len()].iter().all(|n| *n == POOL));
    let mut tasks = Vec::new();
    for op in 0..N_TASK_OPS {
        let mut t = Task { op, p: 0, q: 0, s: 0, t: 0 };
        for k in 0..PER_OP {
            if k % 4 == 0 {
                t = Task { op, p: rng.below(POOL), q: rng.below(POOL), s: rng.below(POOL), t: rng.below(POOL) };
                tasks.push(t);
            } else {
                // the previous call with a single operand replaced by a relative
                let mut v = t;
                match (k % 4, rng.bool()) {
                    (1, _) => v.p = (v.p + 1 + rng.below(POOL - 1)) % POOL,
                    (2, _) => v.s = (v.s + 1 + rng.below(POOL - 1)) % POOL,
                    (_, true) => v.q = (v.q + 1 + rng.below(POOL - 1)) % POOL,
                    _ => v.t = (v.t + 1 + rng.below(POOL - 1)) % POOL,
                }
                tasks.push(v);
            }
        }
    }
    (raw, tasks)
}
pub fn c22_decode(raw: &Raw, only: Option<&Task>) -> Ops {
    let want_e = |i: usize| only.map_or(true, |t| E_OPS.contains(&t.op) && (t.p == i || t.q == i));
    let want_d = |i: usize| only.map_or(true, |t| D_OPS.contains(&t.op) && (t.p == i || t.q == i));
    Ops {
        e: raw.e.iter().enumerate().map(|(i, b)| if want_e(i) { CompressedEdwardsY(*b).decompress() } else { None }).collect(),
        d: raw.d.iter().enumerate().map(|(i, b)| if want_d(i) { CompressedDecaf(*b).decompress() } else { None }).collect(),
        s: raw.s.iter().map(|b| Scalar::from_bytes(*b)).collect(),
        u: raw.u.iter().map(|b| MontgomeryPoint(*b)).collect(),
    }
}
pub fn c22_eval(t: &Task, o: &Ops, raw: &Raw) -> Vec<u8> {
    let at = [t.p, t.q, t.s, t.t];
    c22_eval_at(t, o, raw, at)
}
/// The call of task `t`, with operands taken from the places `[p, q, s, t]` of `o`.
#[inline(never)]
fn c22_eval_at(t: &Task, o: &Ops, raw: &Raw, at: [usize; 4]) -> Vec<u8> {
    let (a, b) = (&o.s[at[2]], &o.s[at[3]]);
    let (u, w) = (&o.u[at[0]], &o.u[at[1]]);
    let e = |r: ExtendedPoint| r.compress().0.to_vec();
    let d = |r: DecafPoint| r.compress().0.to_vec();
    let none = vec![0xee];
    match t.op {
        0 => {
            let mut v = (*a * *b).to_bytes().to_vec();
            v.extend((*a + *b).to_bytes());
            v.extend((*a - *b).to_bytes());
            v.push((a == b) as u8);
            v
        }
        1 => {
            let mut v = a.invert().to_bytes().to_vec();
            v.extend(a.halve().to_bytes());
            v
        }
        2..=13 => {
            let (p, q) = match (&o.e[at[0]], &o.e[at[1]]) {
                (Some(p), Some(q)) => (p, q),
                _ => return none,
            };
            match t.op {
                2 => e(p + q),
                3 => e(p - q),
                4 => e(p * a),
                5 => e(b * p),
                6 => p.to_montgomery().0.to_vec(),
                7 => vec![p.is_torsion_free() as u8, (p == q) as u8],
                8 => e(p.to_twisted().to_untwisted()),
                9 => e(p.scalar_mod_four(a)),
                10 => e(p.double() + q.torque()),
                11 => e([*p, *q, *p, -*q, *q].iter().sum()),
                12 => e(ExtendedPoint::conditional_select(p, q, Choice::from((t.s & 1) as u8))),
                _ => {
                    let (x, y) = (p.to_twisted(), q.to_twisted());
                    let n = y.to_extensible().to_projective_niels();
                    e(x.to_extensible().double().add_projective_niels(&n).sub_extended(&y.torque()).add_extended(&x.negate()).to_extended().to_untwisted())
                }
            }
        }
        14 => (u * a).0.to_vec(),
        15 => vec![u.is_low_order() as u8, (u == w) as u8],
        16 => u.to_projective().to_affine().0.to_vec(),
        17 => {
            let mut w = [0u8; 114];
            w[..56].copy_from_slice(&raw.s[t.s]);
            w[56..112].copy_from_slice(&raw.s[t.t]);
            w[112..].copy_from_slice(&raw.s[t.p][..2]);
            let mut v = Scalar::from_bytes_mod_order_wide(&w).to_bytes().to_vec();
            let mut x = [0u8; 57];
            x[..56].copy_from_slice(&raw.s[t.s]);
            x[55] &= 0x3f;
            v.push(Scalar::from_canonical_bytes(x).is_some() as u8);
            v
        }
        18 => Scalar::random(&mut ByteRng(Rng::new(t.s as u64, t.t as u64))).to_bytes().to_vec(),
        19..=25 => {
            let (p, q) = match (&o.d[at[0]], &o.d[at[1]]) {
                (Some(p), Some(q)) => (p, q),
                _ => return none,
            };
            match t.op {
                19 => d(p + q),
                20 => d(p - q),
                21 => d(p * a),
                22 => d(-p),
                23 => vec![p.equals(q) as u8],
                24 => d(b * p),
                _ => d(&(p + q) - &(-p)),
            }
        }
        26 => {
            let mut b = raw.e[t.p];
            match t.t {
                3 => b[t.q] ^= 1 << (t.s % 8),
                4 => b[56] ^= 0x80,
                5 => b[47 + t.q] ^= 1 << (t.s % 8),
                _ => {}
            }
            CompressedEdwardsY(b).decompress().map_or(none, |p| p.compress().0.to_vec())
        }
        27 => {
            let mut b = raw.d[t.p];
            match t.t {
                3 => b[t.q] ^= 2 << (t.s % 7),
                4 => b[28 + t.q] ^= 1 << (t.s % 8),
                5 => b[46 + t.q] ^= 1 << (t.s % 8),
                _ => {}
            }
            CompressedDecaf(b).decompress().map_or(none, |p| p.compress().0.to_vec())
        }
        28 => e(&ExtendedPoint::generator() * a),
        29 => d(&DecafPoint::generator() * b),
        30 => {
            let mut v = (&MontgomeryPoint::generator() * a).0.to_vec();
            v.extend(a.bits().iter().map(|x| *x as u8));
            v
        }
        31 => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            u.hash(&mut h);
            let mut v = h.finish().to_le_bytes().to_vec();
            v.extend(format!("{:?}", w).bytes());
            v
        }
        _ => none,
    }
}
/// The call of a fresh process, written so that the process needs no generator.
pub fn c22_spec(t: &Task, raw: &Raw) -> String {
    let j = |v: &[u8]| hex(v);
    format!(
        "{},{},{},{},{}/{}/{}/{}/{}",
        t.op, t.p, t.q, t.s, t.t,
        raw.e.iter().map(|x| j(x)).collect::<Vec<_>>().join(","),
        raw.d.iter().map(|x| j(x)).collect::<Vec<_>>().join(","),
        raw.s.iter().map(|x| j(x)).collect::<Vec<_>>().join(","),
        raw.u.iter().map(|x| j(x)).collect::<Vec<_>>().join(",")
    )
}
pub fn c22_child(spec: &str) -> Vec<u8> {
    let f: Vec<&str> = spec.split('/').collect();
    let n: Vec<usize> = f[0].split(',').map(|x| x.parse().unwrap()).collect();
    let t = Task { op: n[0] as u8, p: n[1], q: n[2], s: n[3], t: n[4] };
    fn arr<const N: usize>(s: &str) -> Vec<[u8; N]> {
        s.split(',').map(|x| { let v = crate::big::unhex(x); let mut o = [0; N]; o.copy_from_slice(&v); o }).collect()
    }
    let raw = Raw { e: arr(f[1]), d: arr(f[2]), s: arr(f[3]), u: arr(f[4]) };
    let o = c22_decode(&raw, Some(&t));
    c22_eval(&t, &o, &raw)
}
pub fn c22_directed() -> u64 {
    0
}
pub fn c22(c: &mut Ctx) {
    let (raw, tasks) = c22_tasks(c.seed, c.case);
    let o = c22_decode(&raw, None);
    // 1. each call in a fresh process
    let exe = std::env::current_exe().unwrap();
    let mut base: Vec<Vec<u8>> = Vec::new();
    for i in 0..tasks.len() {
        let out = std::process::Command::new(&exe)
            .args(["--task", &c22_spec(&tasks[i], &raw)])
            .output();
        match out {
            Ok(r) if r.status.success() => base.push(crate::big::unhex(String::from_utf8_lossy(&r.stdout).trim())),
            Ok(r) => {
                c.fail("call failed in a fresh process", format!("op {} {}", tasks[i].op, String::from_utf8_lossy(&r.stderr)));
                return;
            }
            Err(e) => panic!("cannot start the reference process: {}", e),
        }
        c.seen("fresh-process", &[&base[i], &[tasks[i].op]]);
    }
    let cmp = |c: &mut Ctx, i: usize, got: &[u8], how: &str| {
        c.seen(how, &[got, &[tasks[i].op]]);
        if got != &base[i][..] {
            c.fail(
                &format!("result depends on history ({})", how),
                format!("op {} operands p{} q{} s{} t{}: fresh process {} here {}", tasks[i].op, tasks[i].p, tasks[i].q, tasks[i].s, tasks[i].t, hex(&base[i]), hex(got)),
            );
        }
    };
    // 2. sequential, reversed, repeated
    for i in 0..tasks.len() {
        let r = c22_eval(&tasks[i], &o, &raw);
        cmp(c, i, &r, "in order");
    }
    for i in (0..tasks.len()).rev() {
        let r = c22_eval(&tasks[i], &o, &raw);
        cmp(c, i, &r, "reversed");
        let r = c22_eval(&tasks[i], &o, &raw);
        cmp(c, i, &r, "repeated");
    }
    // 2b. every call with its operands at the same addresses, each overwriting the last ones
    let mut place = Ops { e: vec![None, None], d: vec![None, None], s: vec![Scalar::zero(); 2], u: vec![MontgomeryPoint([0; 56]); 2] };
    for round in 0..3usize {
        let mut ord: Vec<usize> = (0..tasks.len()).collect();
        if round > 0 {
            for ch in ord.chunks_mut(PER_OP) {
                for i in (1..ch.len()).rev() {
                    let j = c.rng.below(i + 1);
                    ch.swap(i, j);
                }
            }
        }
        for i in ord {
            let t = &tasks[i];
            if E_OPS.contains(&t.op) {
                place.e[0] = o.e[t.p];
                place.e[1] = o.e[t.q];
            }
            if D_OPS.contains(&t.op) {
                place.d[0] = CompressedDecaf(raw.d[t.p]).decompress();
                place.d[1] = CompressedDecaf(raw.d[t.q]).decompress();
            }
            place.s[0] = o.s[t.s];
            place.s[1] = o.s[t.t];
            place.u[0] = o.u[t.p];
            place.u[1] = o.u[t.q];
            let r = c22_eval_at(t, &place, &raw, [0, 1, 0, 1]);
            cmp(c, i, &r, "in place");
        }
    }
    // 3. concurrent on shared operands: every thread its own order, then all threads on
    // the same operation with different operands, in step
    let nthr = 8;
    for round in 0..4usize {
        let order: Vec<Vec<usize>> = (0..nthr)
            .map(|k| {
                let mut v: Vec<usize> = (0..tasks.len()).collect();
                if round % 2 == 0 {
                    for i in (1..v.len()).rev() {
                        let j = c.rng.below(i + 1);
                        v.swap(i, j);
                    }
                } else {
                    // neighbours (same operation) swapped on every second thread
                    for ch in v.chunks_mut(PER_OP) {
                        let n = ch.len();
                        ch.rotate_left((k + round) % n);
                    }
                }
                v
            })
            .collect();
        let how = if round % 2 == 0 { "concurrent, shuffled" } else { "concurrent, same operation" };
        let bar = std::sync::Barrier::new(nthr);
        let (o, raw_ref, tasks_ref, bar_ref) = (&o, &raw, &tasks, &bar);
        let res: Vec<Vec<(usize, Vec<u8>)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = order
                .iter()
                .map(|ord| {
                    sc.spawn(move || {
                        bar_ref.wait();
                        // a panicking call must not leave the others waiting
                        let mut out = Vec::new();
                        let mut boom = None;
                        for i in ord {
                            if round % 2 == 1 {
                                bar_ref.wait();
                            } else if i % 3 == 0 {
                                std::thread::yield_now();
                            }
                            if boom.is_some() {
                                continue;
                            }
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c22_eval(&tasks_ref[*i], o, raw_ref)));
                            match r {
                                Ok(v) => out.push((*i, v)),
                                Err(p) => boom = Some(p),
                            }
                        }
                        if let Some(p) = boom {
                            std::panic::resume_unwind(p);
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| match h.join() { Ok(v) => v, Err(p) => std::panic::resume_unwind(p) }).collect()
        });
        for v in res {
            for (i, r) in v {
                cmp(c, i, &r, how);
            }
        }
    }
    c.cov(format!("threads:{}", nthr));
    // 4. operands are what they were
    for (i, p) in o.e.iter().enumerate() {
        if let Some(p) = p {
            c.same("Edwards operand changed", &p.compress().0, &CompressedEdwardsY(raw.e[i]).decompress().map_or([0; 57], |x| x.compress().0), &[&raw.e[i]]);
        }
    }
    for (i, p) in o.d.iter().enumerate() {
        if let Some(p) = p {
            c.same("Decaf operand changed", &p.compress().0, &raw.d[i], &[&raw.d[i]]);
        }
    }
    for (i, s) in o.s.iter().enumerate() {
        c.same("scalar operand changed", &s.to_bytes(), &raw.s[i], &[]);
    }
    for (i, u) in o.u.iter().enumerate() {
        c.same("Montgomery operand changed", &u.0, &raw.u[i], &[]);
    }
}
