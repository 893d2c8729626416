//! C01-C04: the scalar field.
use crate::big::{hex, L, U};
use crate::gen::{self, sc};
use crate::report::Ctx;
use crate::rng::Rng;
use ed448_goldilocks::Scalar;
use rand_core::{CryptoRng, RngCore};
use std::sync::OnceLock;
use subtle::ConstantTimeEq;

fn canon_edges() -> &'static Vec<U> {
    static V: OnceLock<Vec<U>> = OnceLock::new();
    V.get_or_init(|| gen::edges_mod(&L))
}

fn add_sub(c: &mut Ctx, a: &U, b: &U) {
    let (ab, bb) = (a.to_le(), b.to_le());
    c.seen("add", &[&ab, &bb]);
    c.same("scalar a+b", &(sc(a) + sc(b)).to_bytes(), &L.add(a, b).to_le(), &[&ab, &bb]);
    c.seen("sub", &[&ab, &bb]);
    c.same("scalar a-b", &(sc(a) - sc(b)).to_bytes(), &L.sub(a, b).to_le(), &[&ab, &bb]);
}
fn mul(c: &mut Ctx, a: &U, b: &U) {
    let (ab, bb) = (a.to_le(), b.to_le());
    c.seen("mul", &[&ab, &bb]);
    c.same("scalar a*b", &(sc(a) * sc(b)).to_bytes(), &L.mul(a, b).to_le(), &[&ab, &bb]);
}
fn halve(c: &mut Ctx, a: &U) {
    let ab = a.to_le();
    c.seen("halve", &[&ab]);
    c.same("scalar halve", &sc(a).halve().to_bytes(), &L.half(a).to_le(), &[&ab]);
}
fn invert(c: &mut Ctx, a: &U) {
    let ab = a.to_le();
    c.seen("invert", &[&ab]);
    c.same("scalar invert", &sc(a).invert().to_bytes(), &L.inv(&L.reduce(a)).to_le(), &[&ab]);
}

/// Sum, difference and half of an unreduced scalar: right up to multiples of the order.
fn congruent(c: &mut Ctx, x: &U, y: &U) {
    let (xb, yb) = (x.to_le(), y.to_le());
    let r = |s: Scalar| L.reduce(&U::from_le(&s.to_bytes())).to_le();
    let xr = L.reduce(x);
    c.seen("congruence", &[&xb, &yb]);
    c.same("x+y mod l, x unreduced", &r(sc(x) + sc(y)), &L.add(&xr, y).to_le(), &[&xb, &yb]);
    c.same("y+x mod l, x unreduced", &r(sc(y) + sc(x)), &L.add(&xr, y).to_le(), &[&xb, &yb]);
    c.same("x-y mod l, x unreduced", &r(sc(x) - sc(y)), &L.sub(&xr, y).to_le(), &[&xb, &yb]);
    c.same("x/2 mod l, x unreduced", &r(sc(x).halve()), &L.half(&xr).to_le(), &[&xb]);
}

pub fn c01_directed() -> u64 {
    1 + canon_edges().len() as u64 + gen::edges().len() as u64
}
pub fn c01(c: &mut Ctx) {
    let i = c.case as usize;
    let ce = canon_edges();
    let re = gen::edges();
    if i == 0 {
        c.same("zero", &Scalar::zero().to_bytes(), &U::ZERO.to_le(), &[]);
        c.same("one", &Scalar::one().to_bytes(), &U::ONE.to_le(), &[]);
        c.same("default", &Scalar::default().to_bytes(), &U::ZERO.to_le(), &[]);
        let mut xs = vec![0u32, 1, 2, 3, 7, 8, 15, 16, u32::MAX, u32::MAX - 1, 1 << 31];
        for _ in 0..64 {
            xs.push(c.rng.u64() as u32);
        }
        for x in xs {
            c.seen("from_u32", &[&x.to_le_bytes()]);
            c.same("From<u32>", &Scalar::from(x).to_bytes(), &U::small(x as u64).to_le(), &[&x.to_le_bytes()]);
        }
        return;
    }
    let i = i - 1;
    if i < ce.len() {
        let a = ce[i];
        c.cov("class:edge-row-canonical");
        for b in ce {
            add_sub(c, &a, b);
            mul(c, &a, b);
        }
        halve(c, &a);
        invert(c, &a);
        return;
    }
    let i = i - ce.len();
    if i < re.len() {
        let a = re[i];
        c.cov("class:edge-row-raw");
        for b in re {
            mul(c, &a, b);
        }
        for b in ce {
            congruent(c, &a, b);
        }
        invert(c, &a);
        return;
    }
    for _ in 0..16 {
        let (a, ca) = gen::scalar_canon(&mut c.rng);
        let (mut b, mut cb) = gen::scalar_canon(&mut c.rng);
        match c.rng.below(10) {
            0 => {
                // sum close to a multiple of the order
                b = L.sub(&L.neg(&a), &U::small(c.rng.below(5) as u64));
                cb = "sum-near-l";
            }
            1 => {
                b = L.add(&a, &U::small(c.rng.below(5) as u64));
                cb = "diff-near-0";
            }
            2 => {
                // product with a chosen (edge) value
                let t = *c.rng.pick(ce);
                b = L.mul(&t, &L.inv(&a));
                cb = "product-edge";
            }
            3 => {
                let t = *c.rng.pick(ce);
                b = L.sub(&t, &a);
                cb = "sum-edge";
            }
            4 => {
                let t = *c.rng.pick(ce);
                b = L.sub(&a, &t);
                cb = "diff-edge";
            }
            _ => {}
        }
        c.cov(format!("class:{}x{}", ca, cb));
        add_sub(c, &a, &b);
        mul(c, &a, &b);
        mul(c, &b, &a);
        halve(c, &a);
        let (x, cx) = gen::u448(&mut c.rng);
        let (y, cy) = gen::u448(&mut c.rng);
        c.cov(format!("class:raw:{}x{}", cx, cy));
        mul(c, &x, &y);
        mul(c, &a, &y);
        congruent(c, &x, &a);
        congruent(c, &y, &b);
    }
    let (x, _) = gen::u448(&mut c.rng);
    invert(c, &x);
    let (a, _) = gen::scalar_canon(&mut c.rng);
    invert(c, &a);
    let t = *c.rng.pick(ce);
    invert(c, &L.inv(&t));
    halve(c, &L.add(&t, &t));
    // a longer history: accumulate through all operations
    let mut acc = a;
    let mut s = sc(&a);
    for _ in 0..24 {
        let (b, _) = gen::scalar_canon(&mut c.rng);
        let t = sc(&b);
        match c.rng.below(4) {
            0 => {
                s = s + t;
                acc = L.add(&acc, &b)
            }
            1 => {
                s = s - t;
                acc = L.sub(&acc, &b)
            }
            2 => {
                s = s * t;
                acc = L.mul(&acc, &b)
            }
            _ => {
                s = s.halve();
                acc = L.half(&acc)
            }
        }
    }
    c.seen("chain", &[&acc.to_le()]);
    c.same("scalar operation chain", &s.to_bytes(), &acc.to_le(), &[&a.to_le()]);
}

// ---- C02 ----

fn strict(c: &mut Ctx, b: &[u8; 57]) {
    c.seen("from_canonical_bytes", &[b]);
    let v = U::from_le(&b[..56]);
    let want = b[56] == 0 && v.lt(&L.m);
    c.cov(if want { "strict:accept" } else { "strict:reject" });
    match Scalar::from_canonical_bytes(*b) {
        None => {
            c.ck(!want, "strict decoder refused a canonical scalar", || hex(b));
        }
        Some(s) => {
            if c.ck(want, "strict decoder accepted a non-canonical string", || hex(b)) {
                c.same("strict decode value", &s.to_bytes(), &b[..56], &[b]);
                c.same("strict decode / rfc8032 encode", &s.to_bytes_rfc_8032(), b, &[b]);
            }
        }
    }
}
fn lossless(c: &mut Ctx, u: &U) {
    let b = u.to_le();
    c.seen("codec", &[&b]);
    let s = Scalar::from_bytes(b);
    c.same("from_bytes/to_bytes", &s.to_bytes(), &b, &[&b]);
    let r = s.to_bytes_rfc_8032();
    c.same("to_bytes_rfc_8032", &r[..56], &b, &[&b]);
    c.ck(r[56] == 0, "57th byte not zero", || hex(&b));
    let bits = s.bits();
    c.ck(bits.len() == 448, "bits() length", || format!("{} for {}", bits.len(), hex(&b)));
    for (i, x) in bits.iter().enumerate().take(448) {
        if *x != u.bit(i) {
            c.fail("bits() differs from the encoded integer", format!("bit {} of {}", i, hex(&b)));
            break;
        }
    }
    for i in 0..14 {
        let w = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        if s[i] != w {
            c.fail("index differs from the encoded integer", format!("limb {} of {}", i, hex(&b)));
        }
    }
    // built limb by limb through IndexMut
    let mut t = Scalar::zero();
    for i in 0..14 {
        t[i] = s[i];
    }
    c.same("IndexMut", &t.to_bytes(), &b, &[&b]);
    c.ck(t == s && bool::from(t.ct_eq(&s)), "equal scalars compare unequal", || hex(&b));
}
fn equality(c: &mut Ctx, a: &U, b: &U) {
    let want = a == b;
    let (x, y) = (sc(a), sc(b));
    c.seen("eq", &[&a.to_le(), &b.to_le()]);
    c.ck((x == y) == want, "scalar ==", || format!("{} vs {} expected {}", a.hex(), b.hex(), want));
    c.ck((x != y) != want, "scalar !=", || format!("{} vs {}", a.hex(), b.hex()));
    c.ck(bool::from(x.ct_eq(&y)) == want, "scalar ct_eq", || format!("{} vs {} expected {}", a.hex(), b.hex(), want));
}
fn ext(u: &U, top: u8) -> [u8; 57] {
    let mut b = [0u8; 57];
    b[..56].copy_from_slice(&u.to_le());
    b[56] = top;
    b
}
fn c02_bases() -> Vec<U> {
    let mut h = U::ZERO;
    h.set_bit(446, true);
    vec![
        U::ZERO,
        U::ONE,
        L.m,
        L.m.wsub(&U::ONE),
        L.m.wadd(&U::ONE),
        L.m.wadd(&L.m),
        L.m.shr(1),
        h,
        h.wsub(&U::ONE),
        U::MAX,
    ]
}
pub fn c02_directed() -> u64 {
    (c02_bases().len() + gen::edges().len()) as u64
}
pub fn c02(c: &mut Ctx) {
    let i = c.case as usize;
    let bases = c02_bases();
    if i < bases.len() {
        let b = bases[i];
        c.cov("class:bit-neighbours");
        for top in 0..=255u8 {
            strict(c, &ext(&b, top));
        }
        lossless(c, &b);
        equality(c, &b, &b);
        for k in 0..448 {
            let mut x = b;
            x.set_bit(k, !b.bit(k));
            strict(c, &ext(&x, 0));
            lossless(c, &x);
            equality(c, &b, &x);
            // and one unit up/down at every bit position
            let mut one = U::ZERO;
            one.set_bit(k, true);
            strict(c, &ext(&b.wadd(&one), 0));
            strict(c, &ext(&b.wsub(&one), 0));
        }
        return;
    }
    let i = i - bases.len();
    let e = gen::edges();
    if i < e.len() {
        c.cov("class:edge");
        for top in [0u8, 1, 2, 0x40, 0x80, 0xff] {
            strict(c, &ext(&e[i], top));
        }
        lossless(c, &e[i]);
        for x in e {
            equality(c, &e[i], x);
        }
        return;
    }
    for _ in 0..32 {
        let (u, cls) = gen::u448(&mut c.rng);
        c.cov(format!("class:{}", cls));
        lossless(c, &u);
        let top = if c.rng.below(4) == 0 { c.rng.u64() as u8 } else { 0 };
        strict(c, &ext(&u, top));
        let mut m = u;
        m.set_bit(446, false);
        m.set_bit(447, false);
        strict(c, &ext(&m, 0));
        // values agreeing with l down to some limb
        let w = *c.rng.pick(&[8usize, 16, 32, 64]);
        let cut = c.rng.below(448 / w) * w;
        let mut v = L.m;
        for k in 0..cut {
            v.set_bit(k, u.bit(k));
        }
        c.cov("class:agrees-with-l-above-cut");
        strict(c, &ext(&v, 0));
        // equality: one bit, two bits in different limbs that could cancel, swapped limbs
        let mut x = u;
        let a = c.rng.below(448);
        x.set_bit(a, !x.bit(a));
        equality(c, &u, &x);
        let b = (a + 32 * (1 + c.rng.below(13))) % 448;
        x.set_bit(b, !x.bit(b));
        equality(c, &u, &x);
        let mut bytes = u.to_le();
        let (p, q) = (c.rng.below(14), c.rng.below(14));
        for k in 0..4 {
            bytes.swap(4 * p + k, 4 * q + k);
        }
        equality(c, &u, &U::from_le(&bytes));
        equality(c, &u, &L.reduce(&u));
        equality(c, &u, &u);
    }
}

// ---- C03 ----

fn wide(c: &mut Ctx, b: &[u8; 114]) {
    c.seen("from_bytes_mod_order_wide", &[b]);
    let want = L.reduce_bytes(b).to_le();
    c.same("wide reduction", &Scalar::from_bytes_mod_order_wide(b).to_bytes(), &want, &[b]);
}
fn wide_of(lo: &U, hi: &U, top: u16) -> [u8; 114] {
    let mut b = [0u8; 114];
    b[..56].copy_from_slice(&lo.to_le());
    b[56..112].copy_from_slice(&hi.to_le());
    b[112..].copy_from_slice(&top.to_le_bytes());
    b
}
/// q*l + r as 114 bytes (q < 2^466, r < 2^448), by schoolbook.
fn q_l_plus_r(q: &[u64; 8], r: &U) -> [u8; 114] {
    let mut w = [0u64; 16];
    w[..7].copy_from_slice(&r.0);
    for i in 0..8 {
        let mut cy = 0u128;
        for j in 0..16 - i {
            let t = if j < 7 { q[i] as u128 * L.m.0[j] as u128 } else { 0 };
            cy += t + w[i + j] as u128;
            w[i + j] = cy as u64;
            cy >>= 64;
        }
    }
    let mut o = [0u8; 114];
    for (i, x) in o.iter_mut().enumerate() {
        *x = (w[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}
pub fn c03_directed() -> u64 {
    2 + gen::edges().len() as u64
}
const TOPS: [u16; 10] = [0, 1, 2, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff];
pub fn c03(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        c.cov("class:single-bits");
        for k in 0..912 {
            let mut b = [0u8; 114];
            b[k / 8] = 1 << (k % 8);
            wide(c, &b);
            let mut b = [0xffu8; 114];
            b[k / 8] ^= 1 << (k % 8);
            wide(c, &b);
            let mut b = [0u8; 114];
            for j in 0..k {
                b[j / 8] |= 1 << (j % 8);
            }
            wide(c, &b);
        }
        return;
    }
    if i == 1 {
        c.cov("class:single-bytes");
        for k in 0..114 {
            for v in [0x01u8, 0x7f, 0x80, 0xff, 0xa5] {
                let mut b = [0u8; 114];
                b[k] = v;
                wide(c, &b);
            }
        }
        for t in 0..=u16::MAX {
            if t % 37 == 0 || t < 300 || t > 65200 {
                wide(c, &wide_of(&U::ZERO, &U::ZERO, t));
            }
        }
        return;
    }
    let e = gen::edges();
    let i = i - 2;
    if i < e.len() {
        c.cov("class:edge-rows");
        for (j, x) in e.iter().enumerate() {
            wide(c, &wide_of(&e[i], x, TOPS[(i + j) % TOPS.len()]));
        }
        for t in TOPS {
            wide(c, &wide_of(&e[i], &U::ZERO, t));
            wide(c, &wide_of(&U::ZERO, &e[i], t));
        }
        // q*l + r around the boundaries
        for d in 0..3u64 {
            let mut q = [0u64; 8];
            q[..7].copy_from_slice(&e[i].0);
            wide(c, &q_l_plus_r(&q, &U::small(d)));
            wide(c, &q_l_plus_r(&q, &L.m.wsub(&U::small(d + 1))));
        }
        return;
    }
    for _ in 0..64 {
        let b = wide_bytes(&mut c.rng);
        wide(c, &b);
    }
}
fn wide_bytes(rng: &mut Rng) -> [u8; 114] {
    match rng.below(7) {
        5 => {
            // lo + hi 2^448 close to a multiple of l, arbitrary top
            let hi = gen::u448(rng).0;
            let w = L.reduce_bytes(&wide_of(&U::ZERO, &hi, 0));
            let lo = L.add(&L.neg(&w), &U::small(rng.below(3) as u64));
            let lo = if rng.bool() { lo } else { lo.wadd(&L.m) };
            let t = if rng.bool() { *rng.pick(&TOPS) } else { rng.u64() as u16 };
            wide_of(&lo, &hi, t)
        }
        6 => {
            // the whole value congruent to an edge residue
            let hi = gen::u448(rng).0;
            let t = if rng.bool() { *rng.pick(&TOPS) } else { rng.u64() as u16 };
            let w = L.reduce_bytes(&wide_of(&U::ZERO, &hi, t));
            let e = *rng.pick(canon_edges());
            wide_of(&L.sub(&e, &w), &hi, t)
        }
        0 => rng.bytes::<114>(),
        1 => {
            let mut q = [0u64; 8];
            q[..7].copy_from_slice(&gen::u448(rng).0 .0);
            q[7] = rng.u64() & 0x1fff;
            let d = U::small(rng.below(4) as u64);
            let r = if rng.bool() { d } else { L.m.wsub(&d).wsub(&U::ONE) };
            q_l_plus_r(&q, &r)
        }
        _ => {
            let t = if rng.bool() { *rng.pick(&TOPS) } else { rng.u64() as u16 };
            let (a, b) = (gen::u448(rng).0, gen::u448(rng).0);
            wide_of(&a, &b, t)
        }
    }
}

// ---- C04 ----

/// A generator that is nothing but a byte stream, and records how far it was read.
struct Stream {
    data: Vec<u8>,
    pos: usize,
}
impl Stream {
    fn take(&mut self, n: usize) -> &[u8] {
        let s = &self.data[self.pos..self.pos + n];
        self.pos += n;
        s
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let b = self.take(4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    fn next_u64(&mut self) -> u64 {
        let mut x = [0u8; 8];
        x.copy_from_slice(self.take(8));
        u64::from_le_bytes(x)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let n = dest.len();
        dest.copy_from_slice(self.take(n));
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Stream {}

fn draws(c: &mut Ctx, chunks: &[[u8; 114]]) {
    let mut data: Vec<u8> = Vec::new();
    for ch in chunks {
        data.extend_from_slice(ch);
    }
    // slack so that an over-reading implementation is reported, not panicking in the monitor
    data.extend_from_slice(&[0x5a; 4096]);
    let mut s = Stream { data, pos: 0 };
    for (i, ch) in chunks.iter().enumerate() {
        let got = Scalar::random(&mut s);
        c.seen("random", &[ch]);
        c.same("random scalar value", &got.to_bytes(), &L.reduce_bytes(ch).to_le(), &[ch]);
        let pos = s.pos;
        if !c.ck(pos == 114 * (i + 1), "generator bytes consumed", || {
            format!("draw {} left the stream at {} instead of {}", i, pos, 114 * (i + 1))
        }) {
            return;
        }
    }
}
/// A generator that itself draws a random scalar (from another stream) while it is asked.
struct Nested {
    outer: Stream,
    inner: Stream,
    drawn: Vec<[u8; 56]>,
    /// before, in the middle of and after handing out its own bytes
    when: usize,
    left: usize,
}
impl Nested {
    fn draw(&mut self, now: usize) {
        if self.when == now && self.left > 0 {
            self.left -= 1;
            self.drawn.push(Scalar::random(&mut self.inner).to_bytes());
        }
    }
}
/// A generator that gives up half way.
struct Failing;
/// A generator that lets another thread run, and finish its draw, half way through its own.
struct Slow<'a> {
    s: Stream,
    turn: &'a std::sync::atomic::AtomicUsize,
    me: usize,
}
impl Slow<'_> {
    fn pause(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        // both threads are inside their draw, or the other one is kept out and time runs out
        self.turn.fetch_or(1 << self.me, SeqCst);
        let t = std::time::Instant::now();
        while self.turn.load(SeqCst) & 3 != 3 && t.elapsed().as_millis() < 20 {
            std::thread::yield_now();
        }
    }
}
macro_rules! rng_via_fill {
    ($t:ty) => {
        impl RngCore for $t {
            fn next_u32(&mut self) -> u32 {
                let mut b = [0; 4];
                self.fill_bytes(&mut b);
                u32::from_le_bytes(b)
            }
            fn next_u64(&mut self) -> u64 {
                let mut b = [0; 8];
                self.fill_bytes(&mut b);
                u64::from_le_bytes(b)
            }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                self.fill(dest)
            }
            fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
                self.fill_bytes(dest);
                Ok(())
            }
        }
        impl CryptoRng for $t {}
    };
}
impl Nested {
    fn fill(&mut self, dest: &mut [u8]) {
        self.draw(0);
        let n = dest.len() / 2;
        self.outer.fill_bytes(&mut dest[..n]);
        self.draw(1);
        self.outer.fill_bytes(&mut dest[n..]);
        self.draw(2);
    }
}
impl Failing {
    fn fill(&mut self, dest: &mut [u8]) {
        let n = dest.len() / 2;
        dest[..n].fill(0xa5);
        std::panic::resume_unwind(Box::new("generator failed"));
    }
}
impl Slow<'_> {
    fn fill(&mut self, dest: &mut [u8]) {
        let n = dest.len() / 2;
        self.s.fill_bytes(&mut dest[..n]);
        self.pause();
        self.s.fill_bytes(&mut dest[n..]);
    }
}
rng_via_fill!(Nested);
rng_via_fill!(Failing);
rng_via_fill!(Slow<'_>);
/// Generators that do more than hand out bytes: the draw must not depend on it.
fn busy_generators(c: &mut Ctx) {
    let slack = |v: &[[u8; 114]]| -> Vec<u8> {
        let mut d: Vec<u8> = v.concat();
        d.extend_from_slice(&[0x5a; 1024]);
        d
    };
    let a: Vec<[u8; 114]> = (0..3).map(|_| wide_bytes(&mut c.rng)).collect();
    let b: Vec<[u8; 114]> = (0..3).map(|_| wide_bytes(&mut c.rng)).collect();
    let when = c.rng.below(3);
    let mut n = Nested {
        outer: Stream { data: slack(&a), pos: 0 },
        inner: Stream { data: slack(&b), pos: 0 },
        drawn: Vec::new(),
        when,
        left: 3,
    };
    for w in a.iter() {
        let got = Scalar::random(&mut n);
        c.seen("random, generator draws too", &[w]);
        c.same("random scalar value (generator draws another one meanwhile)", &got.to_bytes(), &L.reduce_bytes(w).to_le(), &[w]);
    }
    for (w, got) in b.iter().zip(n.drawn.iter()) {
        c.same("random scalar value drawn by a generator", got, &L.reduce_bytes(w).to_le(), &[w]);
    }
    // a draw that was abandoned leaves no trace
    let r = std::panic::catch_unwind(|| Scalar::random(&mut Failing));
    c.ck(r.is_err(), "a failing generator yields a scalar", || String::new());
    c.cov("class:failing-generator");
    draws(c, &a);
    // two threads in their draws at the same time
    let turn = std::sync::atomic::AtomicUsize::new(0);
    let res: Vec<[u8; 56]> = std::thread::scope(|sc| {
        let hs: Vec<_> = [&a, &b]
            .iter()
            .enumerate()
            .map(|(me, v)| {
                let s = Stream { data: slack(v), pos: 0 };
                let turn = &turn;
                sc.spawn(move || Scalar::random(&mut Slow { s, turn, me }).to_bytes())
            })
            .collect();
        hs.into_iter().map(|h| match h.join() { Ok(v) => v, Err(p) => std::panic::resume_unwind(p) }).collect()
    });
    for (got, w) in res.iter().zip([&a[0], &b[0]]) {
        c.seen("random, overlapping draws", &[w]);
        c.same("random scalar value (another thread draws meanwhile)", got, &L.reduce_bytes(w).to_le(), &[w]);
    }
}
pub fn c04_directed() -> u64 {
    1 + gen::edges().len() as u64
}
pub fn c04(c: &mut Ctx) {
    let i = c.case as usize;
    if i == 0 {
        c.cov("class:single-bits");
        let mut v = Vec::new();
        for k in 0..912 {
            let mut b = [0u8; 114];
            b[k / 8] = 1 << (k % 8);
            v.push(b);
        }
        for ch in v.chunks(16) {
            draws(c, ch);
        }
        return;
    }
    let e = gen::edges();
    if i - 1 < e.len() {
        c.cov("class:edge");
        let x = e[i - 1];
        let v: Vec<[u8; 114]> = TOPS
            .iter()
            .flat_map(|t| vec![wide_of(&x, &U::ZERO, *t), wide_of(&U::ZERO, &x, *t), wide_of(&x, &x, *t)])
            .collect();
        draws(c, &v);
        return;
    }
    if i % 32 == 0 {
        return busy_generators(c);
    }
    let n = 1 + c.rng.below(20);
    c.cov(format!("draws:{}", n));
    let v: Vec<[u8; 114]> = (0..n).map(|_| wide_bytes(&mut c.rng)).collect();
    draws(c, &v);
}
