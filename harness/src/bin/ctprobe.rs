//! C21 workload: runs one secret-handling operation again and again on different
//! operand values that sit at the same addresses, with a store to a known marker
//! address right before and right after every call. The tracer (valgrind lackey)
//! sees the instruction and data addresses in between; `tracecmp` compares them.
//!
//!   ctprobe list
//!   ctprobe prep <op> <seed> <n> <file>   writes n adversarial and random operand values
//!   ctprobe run <op> <file>               calls the operation on each of them
//!   ctprobe count <op> <file>             the same, with one callgrind dump per call
//!   ctprobe taint <op> <file>             calls on operands marked undefined (memcheck)
//!   ctprobe scan <op> <seed> <ms> <file> [corpus]  (instrumented build) looks for operand values
//!                                         whose block or address sequence differs; these are
//!                                         candidates, judged by the traced runs of the plain build
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use ed448_monitor::big::{L, P, U};
use ed448_monitor::cov;
use ed448_monitor::gen::{self, Mp};
use ed448_monitor::rng::Rng;
use std::hint::black_box;
use std::ptr::{addr_of, addr_of_mut, read_volatile, write_volatile};
use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};

static mut MARK_BEGIN: u64 = 0;
static mut MARK_END: u64 = 0;
static mut SPIN: u64 = 0;

#[inline(never)]
fn begin() {
    unsafe { write_volatile(addr_of_mut!(MARK_BEGIN), 1) }
}
#[inline(never)]
fn end() {
    unsafe { write_volatile(addr_of_mut!(MARK_END), 1) }
}

/// Valgrind client request (a no-op outside valgrind).
#[cfg(target_arch = "x86_64")]
fn request(code: u64, a1: u64, a2: u64) -> u64 {
    let args: [u64; 6] = [code, a1, a2, 0, 0, 0];
    let mut res: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            inout("rdx") res,
            in("rax") args.as_ptr(),
            inout("rdi") 0u64 => _,
        );
    }
    res
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_code: u64, _a1: u64, _a2: u64) -> u64 {
    0
}
fn set_defined<T>(x: &T, defined: bool) {
    let tool = ((b'M' as u64) << 24) | ((b'C' as u64) << 16);
    let code = tool + if defined { 2 } else { 1 };
    request(code, x as *const T as u64, std::mem::size_of::<T>() as u64);
}

/// One set of operands. Everything a call reads of the secrets is in here.
#[derive(Clone, Copy)]
struct In {
    a: Scalar,
    b: Scalar,
    wide: [u8; 114],
    p: ExtendedPoint,
    q: ExtendedPoint,
    u: MontgomeryPoint,
    bit: u8,
}
/// Decaf points cannot be cloned, so they live in their own slots.
struct DIn {
    d: DecafPoint,
    e: DecafPoint,
}
#[derive(Default)]
struct Out {
    s: Option<Scalar>,
    p: Option<ExtendedPoint>,
    d: Option<DecafPoint>,
    b: Option<[u8; 57]>,
    t: Option<bool>,
}
type Vals = (In, DIn);
type Op = fn(&In, &DIn, &mut Out);

fn b57(x: &[u8]) -> [u8; 57] {
    let mut o = [0; 57];
    o[..x.len()].copy_from_slice(x);
    o
}
/// A by-value operand (plain data without a destructor).
fn own(d: &DecafPoint) -> DecafPoint {
    unsafe { std::ptr::read(d) }
}
macro_rules! op {
    ($f:ident, |$i:ident, $d:ident, $o:ident| $e:expr) => {
        #[inline(never)]
        fn $f($i: &In, $d: &DIn, $o: &mut Out) {
            let _ = ($i, $d);
            $e
        }
    };
}
op!(s_add, |i, d, o| o.s = Some(i.a + i.b));
op!(s_sub, |i, d, o| o.s = Some(i.a - i.b));
op!(s_mul, |i, d, o| o.s = Some(i.a * i.b));
op!(s_halve, |i, d, o| o.s = Some(i.a.halve()));
op!(s_invert, |i, d, o| o.s = Some(i.a.invert()));
op!(s_wide, |i, d, o| o.s = Some(Scalar::from_bytes_mod_order_wide(&i.wide)));
op!(s_load, |i, d, o| {
    let mut b = [0u8; 56];
    b.copy_from_slice(&i.wide[..56]);
    o.s = Some(Scalar::from_bytes(b))
});
op!(s_bytes, |i, d, o| o.b = Some(b57(&i.a.to_bytes())));
op!(s_rfc, |i, d, o| o.b = Some(i.a.to_bytes_rfc_8032()));
op!(s_eq, |i, d, o| o.t = Some(i.a == i.b));
op!(s_cteq, |i, d, o| o.b = Some([i.a.ct_eq(&i.b).unwrap_u8(); 57]));
op!(e_mul, |i, d, o| o.p = Some(&i.p * &i.a));
op!(e_mul_rev, |i, d, o| o.p = Some(&i.a * &i.p));
op!(e_mul_assign, |i, d, o| {
    let mut p = i.p;
    p *= &i.a;
    o.p = Some(p)
});
op!(e_mul_val, |i, d, o| o.p = Some(i.p * i.a));
op!(e_mul_rev_val, |i, d, o| o.p = Some(i.a * i.p));
op!(e_scalar_mul, |i, d, o| o.p = Some(i.p.scalar_mul(&i.a)));
op!(e_mod4, |i, d, o| o.p = Some(i.p.scalar_mod_four(&i.a)));
op!(e_add_assign, |i, d, o| {
    let mut p = i.p;
    p += i.q;
    o.p = Some(p)
});
op!(e_sub_assign, |i, d, o| {
    let mut p = i.p;
    p -= &i.q;
    o.p = Some(p)
});
op!(e_torque, |i, d, o| o.p = Some(i.p.torque()));
op!(s_bits, |i, d, o| {
    let b = i.a.bits();
    let mut r = [0u8; 57];
    for (k, x) in b.iter().enumerate() {
        r[k / 8] ^= (*x as u8) << (k % 8);
    }
    o.b = Some(r)
});
op!(e_mul_gen, |i, d, o| o.p = Some(&ExtendedPoint::generator() * &i.a));
op!(e_add, |i, d, o| o.p = Some(i.p + i.q));
op!(e_add_ref, |i, d, o| o.p = Some(&i.p + &i.q));
op!(e_sub, |i, d, o| o.p = Some(i.p - i.q));
op!(e_neg, |i, d, o| o.p = Some(-i.p));
op!(e_double, |i, d, o| o.p = Some(i.p.double()));
op!(e_sum, |i, d, o| o.p = Some([i.p, i.q, i.p].iter().copied().sum()));
op!(e_compress, |i, d, o| o.b = Some(i.p.compress().0));
op!(e_eq, |i, d, o| o.t = Some(i.p == i.q));
op!(e_cteq, |i, d, o| o.b = Some([i.p.ct_eq(&i.q).unwrap_u8(); 57]));
op!(e_select, |i, d, o| {
    o.p = Some(ExtendedPoint::conditional_select(&i.p, &i.q, Choice::from(i.bit)))
});
op!(e_assign, |i, d, o| {
    let mut p = i.p;
    p.conditional_assign(&i.q, Choice::from(i.bit));
    o.p = Some(p)
});
op!(e_swap, |i, d, o| {
    let (mut p, mut q) = (i.p, i.q);
    ExtendedPoint::conditional_swap(&mut p, &mut q, Choice::from(i.bit));
    o.p = Some(if black_box(true) { p } else { q })
});
op!(e_mont, |i, d, o| o.b = Some(b57(&i.p.to_montgomery().0)));
op!(m_mul, |i, d, o| o.b = Some(b57(&(&i.u * &i.a).0)));
op!(m_mul_rev, |i, d, o| o.b = Some(b57(&(&i.a * &i.u).0)));
op!(m_eq, |i, d, o| {
    let v = MontgomeryPoint(i.a.to_bytes());
    o.t = Some(i.u == v)
});
op!(d_mul, |i, d, o| o.d = Some(&d.d * &i.a));
op!(d_mul_rev, |i, d, o| o.d = Some(&i.a * &d.d));
op!(d_add, |i, d, o| o.d = Some(&d.d + &d.e));
op!(d_sub, |i, d, o| o.d = Some(&d.d - &d.e));
op!(d_neg, |i, d, o| o.d = Some(-&d.d));
op!(d_mul_val, |i, d, o| o.d = Some(own(&d.d) * i.a));
op!(d_mul_rev_val, |i, d, o| o.d = Some(i.a * own(&d.d)));
op!(d_add_val, |i, d, o| o.d = Some(own(&d.d) + own(&d.e)));
op!(d_sub_val, |i, d, o| o.d = Some(own(&d.d) - own(&d.e)));
op!(d_sub_method, |i, d, o| o.d = Some(d.d.sub(&d.e)));
op!(d_compress, |i, d, o| o.b = Some(b57(&d.d.compress().0)));
op!(d_eq, |i, d, o| o.t = Some(d.d.equals(&d.e)));

op!(e_mul_vr, |i, d, o| o.p = Some(i.p * &i.a));
op!(e_mul_rv, |i, d, o| o.p = Some(&i.p * i.a));
op!(e_mul_rev_vr, |i, d, o| o.p = Some(i.a * &i.p));
op!(e_mul_rev_rv, |i, d, o| o.p = Some(&i.a * i.p));
op!(e_mul_assign_val, |i, d, o| {
    let mut p = i.p;
    p *= i.a;
    o.p = Some(p)
});
op!(d_mul_gen, |i, d, o| o.d = Some(&DecafPoint::generator() * &i.a));
op!(m_mul_gen, |i, d, o| o.b = Some(b57(&(&MontgomeryPoint::generator() * &i.a).0)));
op!(e_add_vr, |i, d, o| o.p = Some(i.p + &i.q));
op!(e_add_rv, |i, d, o| o.p = Some(&i.p + i.q));
op!(e_add_method, |i, d, o| o.p = Some(ExtendedPoint::add(&i.p, &i.q)));
op!(e_sub_vr, |i, d, o| o.p = Some(i.p - &i.q));
op!(e_sub_rv, |i, d, o| o.p = Some(&i.p - i.q));
op!(e_sub_ref, |i, d, o| o.p = Some(&i.p - &i.q));
op!(e_add_assign_ref, |i, d, o| {
    let mut p = i.p;
    p += &i.q;
    o.p = Some(p)
});
op!(e_sub_assign_val, |i, d, o| {
    let mut p = i.p;
    p -= i.q;
    o.p = Some(p)
});
op!(e_cond_negate, |i, d, o| {
    let mut p = i.p;
    p.conditional_negate(Choice::from(i.bit));
    o.p = Some(p)
});
op!(m_cteq, |i, d, o| {
    let v = MontgomeryPoint(i.a.to_bytes());
    o.b = Some([i.u.ct_eq(&v).unwrap_u8(); 57])
});
op!(m_select, |i, d, o| {
    let (x, y) = (i.u.to_projective(), MontgomeryPoint(i.a.to_bytes()).to_projective());
    fn sel<T: ConditionallySelectable>(x: &T, y: &T, c: Choice) -> T {
        T::conditional_select(x, y, c)
    }
    let mut r = [0u8; 57];
    r[0] = std::mem::size_of_val(black_box(&sel(&x, &y, Choice::from(i.bit)))) as u8;
    o.b = Some(r)
});
op!(cd_eq, |i, d, o| o.t = Some(CompressedDecaf(i.a.to_bytes()) == CompressedDecaf(i.b.to_bytes())));
/// Hands out the operand.
struct Given<'a>(&'a [u8; 114]);
impl rand_core::RngCore for Given<'_> {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for (k, x) in d.iter_mut().enumerate() {
            *x = self.0[k % 114]
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Given<'_> {}
op!(s_random, |i, d, o| o.s = Some(Scalar::random(&mut Given(&i.wide))));

/// name, function, weight class (heavy operations get fewer values)
const OPS: &[(&str, Op, bool)] = &[
    ("edwards.mul", e_mul, true),
    ("edwards.mul_rev", e_mul_rev, true),
    ("edwards.mul_assign", e_mul_assign, true),
    ("edwards.mul_generator", e_mul_gen, true),
    ("edwards.mul_value", e_mul_val, true),
    ("edwards.mul_rev_value", e_mul_rev_val, true),
    ("edwards.scalar_mul", e_scalar_mul, true),
    ("decaf.mul_value", d_mul_val, true),
    ("decaf.mul_rev_value", d_mul_rev_val, true),
    ("montgomery.mul", m_mul, true),
    ("montgomery.mul_rev", m_mul_rev, true),
    ("decaf.mul", d_mul, true),
    ("decaf.mul_rev", d_mul_rev, true),
    ("edwards.mul_vr", e_mul_vr, true),
    ("edwards.mul_rv", e_mul_rv, true),
    ("edwards.mul_rev_vr", e_mul_rev_vr, true),
    ("edwards.mul_rev_rv", e_mul_rev_rv, true),
    ("edwards.mul_assign_value", e_mul_assign_val, true),
    ("decaf.mul_generator", d_mul_gen, true),
    ("montgomery.mul_generator", m_mul_gen, true),
    ("scalar.invert", s_invert, true),
    ("edwards.compress", e_compress, true),
    ("edwards.to_montgomery", e_mont, true),
    ("decaf.compress", d_compress, true),
    ("scalar.add", s_add, false),
    ("scalar.sub", s_sub, false),
    ("scalar.mul", s_mul, false),
    ("scalar.halve", s_halve, false),
    ("scalar.from_wide", s_wide, false),
    ("scalar.from_bytes", s_load, false),
    ("scalar.to_bytes", s_bytes, false),
    ("scalar.to_bytes_rfc_8032", s_rfc, false),
    ("scalar.eq", s_eq, false),
    ("scalar.ct_eq", s_cteq, false),
    ("edwards.add", e_add, false),
    ("edwards.add_ref", e_add_ref, false),
    ("edwards.sub", e_sub, false),
    ("edwards.neg", e_neg, false),
    ("edwards.double", e_double, false),
    ("edwards.sum", e_sum, false),
    ("edwards.eq", e_eq, false),
    ("edwards.ct_eq", e_cteq, false),
    ("edwards.select", e_select, false),
    ("edwards.assign", e_assign, false),
    ("edwards.swap", e_swap, false),
    ("scalar.bits", s_bits, false),
    ("edwards.add_assign", e_add_assign, false),
    ("edwards.sub_assign", e_sub_assign, false),
    ("edwards.torque", e_torque, false),
    ("edwards.scalar_mod_four", e_mod4, false),
    ("decaf.add_value", d_add_val, false),
    ("decaf.sub_value", d_sub_val, false),
    ("decaf.sub_method", d_sub_method, false),
    ("montgomery.eq", m_eq, false),
    ("edwards.add_vr", e_add_vr, false),
    ("edwards.add_rv", e_add_rv, false),
    ("edwards.add_method", e_add_method, false),
    ("edwards.sub_vr", e_sub_vr, false),
    ("edwards.sub_rv", e_sub_rv, false),
    ("edwards.sub_ref", e_sub_ref, false),
    ("edwards.add_assign_ref", e_add_assign_ref, false),
    ("edwards.sub_assign_value", e_sub_assign_val, false),
    ("edwards.conditional_negate", e_cond_negate, false),
    ("montgomery.ct_eq", m_cteq, false),
    ("montgomery.select", m_select, false),
    ("decaf.compressed_eq", cd_eq, false),
    ("scalar.random", s_random, false),
    ("decaf.add", d_add, false),
    ("decaf.sub", d_sub, false),
    ("decaf.neg", d_neg, false),
    ("decaf.eq", d_eq, false),
];

fn edge(k: usize, modl: bool) -> U {
    let l = L.m;
    let mut top = U::ZERO;
    top.set_bit(447, true);
    let e = [
        U::ZERO,
        U::ONE,
        l.wsub(&U::ONE),
        U::from_le(&[0x88; 56]),
        U::small(4),
        U::from_le(&[0x77; 56]),
        U::small(3),
        l.shr(1),
        U::small(2),
        U::MAX,
        l,
        U::from_le(&[0x80; 56]),
        P.m,
        top,
        U::small(5),
        l.wadd(&U::ONE),
        U::small(8),
        U::from_le(&[0x0f; 56]),
    ];
    let x = e[k % e.len()];
    if modl {
        L.reduce(&x)
    } else {
        x
    }
}
const EDGES: usize = 18;
fn pick_point(rng: &mut Rng, k: usize) -> Mp {
    match k {
        0 => Mp::kt(U::ZERO, 0, "identity"),
        1 => Mp::kt(U::ONE, 0, "base"),
        2 => Mp::kt(U::ZERO, 2, "order2"),
        3 => Mp::kt(U::ZERO, 1, "order4"),
        4 => Mp::kt(U::small(5), 3, "mixed"),
        _ => gen::model_point(rng),
    }
}
/// What an operation reads: scalars and coordinates are always made, points only on demand.
fn wants(name: &str) -> (bool, bool) {
    (name.starts_with("edwards."), name.starts_with("decaf."))
}
fn inputs(name: &str, seed: u64, k: usize) -> (In, DIn) {
    let mut rng = Rng::new(seed ^ 0xc21, k as u64);
    let canon = ["scalar.add", "scalar.sub", "scalar.halve", "scalar.neg"].iter().any(|n| name.starts_with(n));
    let red = |u: U| if canon { L.reduce(&u) } else { u };
    let draw = |rng: &mut Rng, j: usize| red(if j < EDGES { edge(j, canon) } else { gen::u448(rng).0 });
    // first the two operands take edge values in step, then one at a time, then related ones
    let x = draw(&mut rng, k);
    let y = match k % 8 {
        0 | 2 => x,
        4 if k > EDGES => red(L.m.wsub(&L.reduce(&x))),
        6 if k > EDGES => {
            // a result at the edge: y = e - x or x - e
            let e = L.reduce(&gen::u448(&mut rng).0);
            let x = L.reduce(&x);
            if rng.bool() { L.sub(&e, &x) } else { L.sub(&x, &e) }
        }
        _ => draw(&mut rng, (k * 7 + 3) % (EDGES + 4)),
    };
    let (a, b) = (gen::sc(&x), gen::sc(&y));
    let mut wide = [0u8; 114];
    match k {
        0 => {}
        1 => wide = [0xff; 114],
        2 => wide[..56].copy_from_slice(&L.m.to_le()),
        3 => wide[..56].copy_from_slice(&L.m.wsub(&U::ONE).to_le()),
        4 => wide[113] = 0x80,
        5 => wide[56] = 1,
        _ if k % 2 == 0 => wide = rng.bytes::<114>(),
        _ => {
            wide[..56].copy_from_slice(&x.to_le());
            wide[56..112].copy_from_slice(&gen::u448(&mut rng).0.to_le());
            if rng.bool() {
                wide[112] = rng.u64() as u8;
                wide[113] = rng.u64() as u8;
            }
        }
    }
    let (we, wd) = wants(name);
    let lift = |rng: &mut Rng, k: usize| loop {
        if !we {
            return ExtendedPoint::generator();
        }
        let mp = pick_point(rng, k);
        if let Some(p) = gen::realise(rng, mp) {
            return p.c;
        }
        if k < 5 {
            return ExtendedPoint::generator();
        }
    };
    let p = lift(&mut rng, k);
    let q = match k % 4 {
        0 => p,
        1 => -p,
        2 => p.torque(),
        _ => lift(&mut rng, 9),
    };
    let u = MontgomeryPoint(match k {
        0 => [0; 56],
        1 => U::ONE.to_le(),
        2 => P.m.wsub(&U::ONE).to_le(),
        3 => P.m.to_le(),
        4 => [0xff; 56],
        5 => U::small(5).to_le(),
        _ => gen::u448(&mut rng).0.to_le(),
    });
    let du = |rng: &mut Rng, k: usize| {
        if !wd {
            return DecafPoint::generator();
        }
        let mp = match k {
            0 => Mp::dk(U::ZERO, "identity"),
            1 => Mp::dk(U::ONE, "generator"),
            2 => Mp::dk(L.m.wsub(&U::ONE), ""),
            _ => gen::decaf_mp(rng),
        };
        gen::drealise(rng, mp).map(|d| d.c).unwrap_or_else(DecafPoint::generator)
    };
    let d = du(&mut rng, k);
    let e = match k % 3 {
        0 => &d + &DecafPoint::identity(),
        1 => -&d,
        _ => du(&mut rng, 9),
    };
    (In { a, b, wide, p, q, u, bit: (k % 2) as u8 }, DIn { d, e })
}

fn raw(vals: &[Vals]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(vals.as_ptr() as *const u8, std::mem::size_of_val(vals)) }
}
/// Where this build puts the operands, so that another build only takes over what it can read.
fn layout() -> String {
    use std::mem::offset_of as o;
    format!(
        "{:?}",
        [
            std::mem::size_of::<Vals>(), o!(Vals, 0), o!(Vals, 1), o!(In, a), o!(In, b), o!(In, wide), o!(In, p),
            o!(In, q), o!(In, u), o!(In, bit), o!(DIn, d), o!(DIn, e),
        ]
    )
}
struct Slots {
    x: In,
    d: DIn,
    o: Out,
}
#[inline(never)]
fn scan_call(f: Op, s: &mut Slots) -> (u64, u64, u64) {
    s.o = Out::default();
    cov::active(true);
    cov::trace_begin();
    f(black_box(&s.x), black_box(&s.d), black_box(&mut s.o));
    let t = cov::trace_end();
    cov::active(false);
    cov::end_case();
    t
}
/// Further operand sets made from one whose points were costly to make.
fn derived(v: &Vals) -> Vec<Vals> {
    let (i, d) = v;
    let (p, q) = (i.p, i.q);
    let ps = [(q, p), (p + q, p), (q, p + q), (p.double(), q), (p, p + p.torque())];
    let (a, b) = (&d.d, &d.e);
    let ds = [(own(b), own(a)), (a + b, own(a)), (own(b), a + b), (a + a, own(b)), (own(a), a - b)];
    ps.into_iter().zip(ds).map(|((p, q), (d, e))| (In { p, q, bit: 1 - i.bit, ..*i }, DIn { d, e })).collect()
}
/// Calls the operation on as many operand values as fit into the time and keeps those whose
/// sequence of blocks (or, for the usual blocks, of addresses) is a new one.
fn scan(name: &str, f: Op, heavy: bool, seed: u64, ms: u64, out: &str) {
    let f: Op = black_box(f);
    cov::start();
    let (x, d) = inputs(name, seed, 41);
    let mut s = Box::new(Slots { x, d, o: Out::default() });
    scan_call(f, &mut s);
    let reference = scan_call(f, &mut s);
    let stable = scan_call(f, &mut s) == reference;
    let mut paths = std::collections::HashSet::from([reference.0]);
    let mut addrs = std::collections::HashSet::from([reference.1]);
    let (mut np, mut na, mut n, mut k) = (Vec::<Vals>::new(), Vec::<Vals>::new(), 0u64, 0);
    let points = wants(name);
    let t0 = std::time::Instant::now();
    while (t0.elapsed().as_millis() as u64) < ms && n < 2_000_000 {
        let v = inputs(name, seed, k);
        k += 1;
        let more = if !heavy && (points.0 || points.1) { derived(&v) } else { Vec::new() };
        for (x, d) in std::iter::once(v).chain(more) {
            n += 1;
            s.x = x;
            s.d = d;
            let t = scan_call(f, &mut s);
            let copy = || (s.x, DIn { d: own(&s.d.d), e: own(&s.d.e) });
            if t.0 != reference.0 {
                if paths.insert(t.0) && np.len() < 12 {
                    np.push(copy());
                }
            } else if t.1 != reference.1 && stable && addrs.insert(t.1) && na.len() < 4 {
                na.push(copy());
            }
        }
    }
    let c = cov::summary().unwrap_or_default();
    println!(
        "{{\"values\": {}, \"events\": {}, \"stable\": {}, \"paths\": {}, \"address_sequences\": {}, \"path_candidates\": {}, \"address_candidates\": {}, \"blocks_hit\": {}, \"layout\": {:?}}}",
        n, reference.2, stable, paths.len(), addrs.len(), np.len(), na.len(), c.blocks_hit, layout()
    );
    let mut all = raw(&np).to_vec();
    all.extend_from_slice(raw(&na));
    std::fs::write(out, all).unwrap();
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    if v[1] == "list" {
        for (n, _, heavy) in OPS {
            println!("{} {}", n, if *heavy { "heavy" } else { "light" });
        }
        return;
    }
    if v[1] == "layout" {
        println!("{}", layout());
        return;
    }
    let (name, f, heavy) = OPS.iter().find(|o| o.0 == v[2]).expect("operation");
    if v[1] == "prep" {
        if let Some(c) = v.get(6) {
            cov::load_corpus(c);
        }
        let (seed, n): (u64, usize) = (v[3].parse().unwrap(), v[4].parse().unwrap());
        let vals: Vec<Vals> = (0..n + 1).map(|k| inputs(name, seed, if k == 0 { 41 } else { k - 1 })).collect();
        std::fs::write(&v[5], raw(&vals)).unwrap();
        return;
    }
    if v[1] == "scan" {
        if let Some(c) = v.get(6) {
            cov::load_corpus(c);
        }
        scan(name, *f, *heavy, v[3].parse().unwrap(), v[4].parse().unwrap(), &v[5]);
        return;
    }
    let f: Op = black_box(*f);
    // The operand values as this very binary laid them out, made outside the tracer.
    let raw = std::fs::read(&v[3]).unwrap();
    let n = raw.len() / std::mem::size_of::<Vals>();
    let mut vals: Vec<Vals> = Vec::with_capacity(n);
    unsafe {
        std::ptr::copy_nonoverlapping(raw.as_ptr(), vals.as_mut_ptr() as *mut u8, raw.len());
        vals.set_len(n);
    }
    let taint = v[1] == "taint";
    let count = v[1] == "count";
    let callgrind = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);
    println!(
        "markers {:x} {:x}",
        addr_of!(MARK_BEGIN) as usize,
        addr_of!(MARK_END) as usize
    );
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    // long enough for the reader of the trace to have seen the line above
    for _ in 0..if taint || count { 0 } else { 60_000 } {
        unsafe { write_volatile(addr_of_mut!(SPIN), 1) }
    }
    // fixed slots
    let mut vals = vals.into_iter();
    let (first, dfirst) = vals.next().unwrap();
    let mut slot = Box::new(first);
    let mut dslot = Box::new(dfirst);
    let mut out = Box::new(Out::default());
    let mut acc = 0u8;
    // warm-up: lazy binding, allocator caches
    for _ in 0..2 {
        f(black_box(&slot), black_box(&dslot), black_box(&mut out));
    }
    for (x, d) in vals {
        *slot = x;
        *dslot = d;
        *out = Out::default();
        if taint {
            set_defined(&*slot, false);
            set_defined(&*dslot, false);
            // the choice of operation is public
            f(black_box(&slot), black_box(&dslot), black_box(&mut out));
            set_defined(&*slot, true);
            set_defined(&*dslot, true);
            set_defined(&*out, true);
        } else if count {
            request(callgrind + 1, 0, 0); // ZERO_STATS
            f(black_box(&slot), black_box(&dslot), black_box(&mut out));
            request(callgrind, 0, 0); // DUMP_STATS
        } else {
            begin();
            f(black_box(&slot), black_box(&dslot), black_box(&mut out));
            end();
        }
        let o = black_box(&*out);
        let bytes = o as *const Out as *const u8;
        for i in 0..std::mem::size_of::<Out>() {
            acc ^= unsafe { read_volatile(bytes.add(i) as *const std::mem::MaybeUninit<u8>).assume_init() };
        }
    }
    black_box(acc);
    println!("ran {} {}", name, n - 1);
}
