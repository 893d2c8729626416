//! Feedback for the workload: which branches of the crate ran and what its comparisons
//! compared. Builds with the `cov` feature get the crate compiled with the compiler's
//! coverage and comparison callbacks (see run.py); operands that reach new code, satisfy a
//! comparison for the first time or come closer to satisfying one are kept and mutated,
//! and constants the code compares with are planted into operands. The values found this
//! way are handed to all other builds as a corpus. The verdicts stay with the monitors.
use crate::big::U;
use crate::rng::Rng;
use std::sync::OnceLock;

static CORPUS: OnceLock<Vec<U>> = OnceLock::new();
pub fn load_corpus(path: &str) {
    let v: Vec<U> = std::fs::read(path)
        .unwrap_or_default()
        .chunks_exact(56)
        .map(U::from_le)
        .collect();
    let _ = CORPUS.set(v);
}
pub fn set_field(u: &mut U, at: usize, bits: usize, v: u64) {
    for j in 0..bits {
        if at + j < 448 {
            u.set_bit(at + j, (v >> j) & 1 == 1);
        }
    }
}
/// An operand from the corpus, sometimes spliced with another one.
pub fn from_corpus(rng: &mut Rng) -> Option<U> {
    let v = CORPUS.get()?;
    if v.is_empty() || rng.below(8) != 0 {
        return None;
    }
    let mut u = *rng.pick(v);
    match rng.below(4) {
        0 | 1 => {}
        2 => {
            let o = *rng.pick(v);
            let (a, b) = (rng.below(449), rng.below(449));
            for i in a.min(b)..a.max(b) {
                u.set_bit(i, o.bit(i));
            }
        }
        _ => {
            let w = *rng.pick(&[8usize, 32, 64]);
            let at = rng.below(448 / w) * w;
            let r = rng.u64();
            set_field(&mut u, at, w, r);
        }
    }
    Some(u)
}

#[derive(Default, Clone, Debug)]
pub struct Summary {
    pub blocks: usize,
    pub blocks_hit: usize,
    pub sites: usize,
    pub sites_satisfied: usize,
    pub kept: usize,
}

#[cfg(not(feature = "cov"))]
mod imp {
    use super::*;
    pub fn start() {}
    pub fn active(_: bool) {}
    pub fn note(_: &U) {}
    pub fn end_case() {}
    pub fn suggest(_: &mut Rng) -> Option<U> {
        None
    }
    pub fn summary() -> Option<Summary> {
        None
    }
    pub fn corpus() -> Vec<U> {
        Vec::new()
    }
    pub fn trace_begin() {}
    pub fn trace_end() -> (u64, u64, u64) {
        (0, 0, 0)
    }
}

#[cfg(feature = "cov")]
#[allow(static_mut_refs)]
mod imp {
    use super::*;
    use std::cell::{Cell, RefCell};
    use std::sync::atomic::{AtomicU32, Ordering};

    const SLOTS: usize = 1 << 16;
    #[derive(Clone, Copy, Default)]
    struct Site {
        key: u64,
        satisfied: bool,
    }
    struct St {
        blocks: usize,
        nhit: usize,
        sites: Vec<Site>,
        nsites: usize,
        nsat: usize,
        /// constants the crate compares with: (width in bytes, value, site)
        consts: Vec<(u8, u64, usize)>,
        /// operands of comparisons between two variables
        dynamic: Vec<(u8, u64)>,
        ndyn: usize,
        recent: Vec<U>,
        pool: Vec<U>,
        npool: usize,
        keep: Vec<U>,
        nkeep: usize,
        progress: u8,
        /// operands in which a compared value was found, with the other side put in its place
        wanted: Vec<U>,
        nwanted: usize,
    }
    static GUARDS: AtomicU32 = AtomicU32::new(0);
    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static ST: RefCell<Option<Box<St>>> = const { RefCell::new(None) };
    }
    fn with<R>(f: impl FnOnce(&mut St) -> R) -> Option<R> {
        ST.with(|s| s.try_borrow_mut().ok().and_then(|mut g| g.as_mut().map(|b| f(b))))
    }
    pub fn start() {
        let n = GUARDS.load(Ordering::Relaxed) as usize + 1;
        ST.with(|s| {
            *s.borrow_mut() = Some(Box::new(St {
                blocks: n - 1,
                nhit: 0,
                sites: vec![Site::default(); SLOTS],
                nsites: 0,
                nsat: 0,
                consts: Vec::new(),
                dynamic: Vec::new(),
                ndyn: 0,
                recent: Vec::new(),
                pool: Vec::new(),
                npool: 0,
                keep: Vec::new(),
                nkeep: 0,
                progress: 0,
                wanted: Vec::new(),
                nwanted: 0,
            }))
        });
    }
    fn ring(v: &mut Vec<U>, n: &mut usize, cap: usize, u: &U) {
        if v.len() < cap {
            v.push(*u);
        } else {
            v[*n % cap] = *u;
        }
        *n += 1;
    }
    fn flush(s: &mut St, take: usize) {
        if s.progress > 0 {
            let from = s.recent.len().saturating_sub(take);
            for i in from..s.recent.len() {
                let u = s.recent[i];
                ring(&mut s.pool, &mut s.npool, 256, &u);
                if s.progress > 1 {
                    ring(&mut s.keep, &mut s.nkeep, 96, &u);
                }
            }
            s.progress = 0;
        }
    }
    pub fn note(u: &U) {
        with(|s| {
            flush(s, 4);
            if s.recent.len() >= 8 {
                s.recent.remove(0);
            }
            s.recent.push(*u);
        });
    }
    pub fn end_case() {
        with(|s| {
            flush(s, 6);
            s.recent.clear();
        });
    }
    pub fn suggest(rng: &mut Rng) -> Option<U> {
        if ST.with(|s| s.try_borrow().map(|g| g.is_none()).unwrap_or(true)) || rng.below(8) < 3 {
            return None;
        }
        with(|s| {
            if !s.wanted.is_empty() && rng.below(4) == 0 {
                return *rng.pick(&s.wanted);
            }
            let mut u = match rng.below(4) {
                0 => U::from_le(&rng.bytes::<56>()),
                _ if s.pool.is_empty() => U::from_le(&rng.bytes::<56>()),
                _ => *rng.pick(&s.pool),
            };
            for _ in 0..1 + rng.below(3) {
                let (w, v) = match rng.below(8) {
                    0..=3 if !s.consts.is_empty() => {
                        // prefer constants that nothing has matched yet
                        let mut k = *rng.pick(&s.consts);
                        for _ in 0..12 {
                            if !s.sites[k.2].satisfied {
                                break;
                            }
                            k = *rng.pick(&s.consts);
                        }
                        (k.0, k.1)
                    }
                    4 if !s.dynamic.is_empty() => *rng.pick(&s.dynamic),
                    5 => {
                        let i = rng.below(448);
                        let b = u.bit(i);
                        u.set_bit(i, !b);
                        continue;
                    }
                    6 if !s.pool.is_empty() => {
                        let o = *rng.pick(&s.pool);
                        let (a, b) = (rng.below(449), rng.below(449));
                        for i in a.min(b)..a.max(b) {
                            u.set_bit(i, o.bit(i));
                        }
                        continue;
                    }
                    _ => (*rng.pick(&[1u8, 4, 8]), *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, u64::MAX, 1 << 31, 1 << 63])),
                };
                let v = match rng.below(6) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => v,
                };
                let bits = 8 * w as usize;
                match rng.below(8) {
                    0 => {
                        // the whole operand
                        u = U::ZERO;
                        set_field(&mut u, 0, bits, v);
                    }
                    1 if w == 4 => set_field(&mut u, 28 * rng.below(16), 28, v),
                    1 if w == 8 => set_field(&mut u, 56 * rng.below(8), 56, v),
                    2 => set_field(&mut u, 8 * rng.below(56), bits, v),
                    3 if w == 1 => set_field(&mut u, 4 * rng.below(112), 4, v),
                    _ => set_field(&mut u, bits * rng.below(448 / bits), bits, v),
                }
            }
            u
        })
    }
    pub fn summary() -> Option<Summary> {
        with(|s| Summary {
            blocks: s.blocks,
            blocks_hit: s.nhit,
            sites: s.nsites,
            sites_satisfied: s.nsat,
            kept: s.keep.len(),
        })
    }
    pub fn corpus() -> Vec<U> {
        with(|s| {
            let mut v = s.keep.clone();
            v.extend(s.pool.iter().take(32));
            v.sort();
            v.dedup();
            v
        })
        .unwrap_or_default()
    }

    // The callbacks run for every block and comparison of the crate, so the common case
    // (nothing new) touches only these plain arrays. Races are harmless: feedback is only
    // collected while one thread runs.
    const CAP: usize = 1 << 14;
    static mut HITS: [bool; CAP] = [false; CAP];
    static mut FAST: [(u64, u8, u16); SLOTS] = [(0, 0, 0); SLOTS];
    static mut LAST: u64 = 0;
    static mut IDX: u64 = 0;
    static mut LIVE: bool = false;
    pub fn active(b: bool) {
        ON.with(|o| o.set(b));
        unsafe { LIVE = b }
    }

    // Fingerprint of one call: the sequence of blocks, the sequence of addresses, and how
    // many of both there were.
    static mut PATH: u64 = 0;
    static mut ADDR: u64 = 0;
    static mut EVENTS: u64 = 0;
    static mut TRACING: bool = false;
    pub fn trace_begin() {
        unsafe {
            (PATH, ADDR, EVENTS) = (0, 0, 0);
            TRACING = true;
        }
    }
    pub fn trace_end() -> (u64, u64, u64) {
        unsafe {
            TRACING = false;
            (PATH, ADDR, EVENTS)
        }
    }
    #[inline(always)]
    fn mix(h: u64, x: u64) -> u64 {
        (h.rotate_left(23) ^ x).wrapping_mul(0x9E3779B97F4A7C15)
    }
    macro_rules! mem {
        ($($n:ident)*) => {$(
            #[no_mangle]
            pub extern "C" fn $n(a: *const u8) {
                unsafe {
                    if TRACING {
                        ADDR = mix(ADDR, a as u64);
                        EVENTS += 1;
                    }
                }
            }
        )*};
    }
    mem! {
        __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
    }

    #[inline(always)]
    fn cmp(w: u8, a: u64, b: u64, konst: bool) {
        unsafe {
            IDX += 1;
            let mut key = (LAST << 20 | (IDX & 0xffff)) << 8 | (w as u64) << 1 | 1;
            if konst {
                key ^= a.wrapping_mul(0x9E3779B97F4A7C15) << 1;
            }
            let i = (key.wrapping_mul(0xD1342543DE82EF95) >> 48) as usize & (SLOTS - 1);
            let d = (a ^ b).count_ones() as u8;
            let e = &mut FAST[i];
            if e.0 != 0 && (e.0 != key || d >= e.1) {
                // an unsatisfied site: now and then look where its value comes from
                if e.0 != key || e.1 == 0 || e.2 >= 8000 {
                    return;
                }
                e.2 += 1;
                if e.2 % 8 != 0 {
                    return;
                }
            }
            slow(w, a, b, konst, key, i, d);
        }
    }
    /// Finds `seen` in a recent operand, at any bit offset, and proposes that operand with
    /// `want` there instead.
    fn trace_back(s: &mut St, w: u8, want: u64, seen: u64) {
        let bits = 8 * w as usize;
        if bits < 64 && seen >> bits != 0 || seen.count_ones() < if w == 1 { 2 } else { 3 } {
            return;
        }
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        for k in (0..s.recent.len()).rev().take(6) {
            let u = s.recent[k];
            let n = 449 - bits;
            let from = (s.nwanted * 61 + k * 97) % n;
            for at in (from..n).chain(0..from) {
                let (q, r) = (at / 64, at % 64);
                let mut x = u.0[q] >> r;
                if r != 0 && q + 1 < 7 {
                    x |= u.0[q + 1] << (64 - r);
                }
                if x & mask == seen {
                    let mut v = u;
                    set_field(&mut v, at, bits, want);
                    if s.wanted.last() != Some(&v) {
                        ring(&mut s.wanted, &mut s.nwanted, 48, &v);
                    }
                    break;
                }
            }
        }
    }
    #[cold]
    #[inline(never)]
    fn slow(w: u8, a: u64, b: u64, konst: bool, key: u64, i: usize, d: u8) {
        if !ON.with(|o| o.get()) {
            return;
        }
        let better = unsafe {
            let f = &mut FAST[i];
            let b = f.0 == 0 || d < f.1;
            if b {
                *f = (key, d, f.2);
            }
            b
        };
        with(|s| {
            if d > 0 {
                trace_back(s, w, a, b);
                if !konst {
                    trace_back(s, w, b, a);
                }
            }
            if !better {
                return;
            }
            let e = &mut s.sites[i];
            if e.key == 0 {
                *e = Site { key, satisfied: false };
                s.nsites += 1;
                if konst && s.consts.len() < 4096 {
                    s.consts.push((w, a, i));
                }
            }
            s.progress = s.progress.max(1);
            if d == 0 {
                e.satisfied = true;
                s.nsat += 1;
                s.progress = 2;
            }
            let ptr = |x: u64| x >> 40 >= 0x50 && x >> 40 < 0x80;
            if !konst && w >= 4 && !ptr(a) && !ptr(b) && a != b && (a > 0xffff || b > 0xffff) {
                for x in [a, b] {
                    if s.dynamic.len() < 64 {
                        s.dynamic.push((w, x));
                    } else {
                        let n = s.ndyn % 64;
                        s.dynamic[n] = (w, x);
                    }
                    s.ndyn += 1;
                }
            }
        });
    }
    macro_rules! cb {
        ($($n:ident $t:ty, $w:expr, $k:expr;)*) => {$(
            #[no_mangle]
            pub extern "C" fn $n(a: $t, b: $t) {
                if unsafe { LIVE } { cmp($w, a as u64, b as u64, $k) }
            }
        )*};
    }
    cb! {
        __sanitizer_cov_trace_const_cmp1 u8, 1, true;
        __sanitizer_cov_trace_const_cmp2 u16, 2, true;
        __sanitizer_cov_trace_const_cmp4 u32, 4, true;
        __sanitizer_cov_trace_const_cmp8 u64, 8, true;
        __sanitizer_cov_trace_cmp1 u8, 1, false;
        __sanitizer_cov_trace_cmp2 u16, 2, false;
        __sanitizer_cov_trace_cmp4 u32, 4, false;
        __sanitizer_cov_trace_cmp8 u64, 8, false;
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
        if LIVE {
            let n = *cases as usize;
            let w = (*cases.add(1) / 8).clamp(1, 8) as u8;
            for i in 0..n.min(64) {
                cmp(w, *cases.add(2 + i), v, true);
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
        let mut p = start;
        if p == stop || *p != 0 {
            return;
        }
        while p < stop {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            p = p.add(1);
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        if TRACING {
            PATH = mix(PATH, *g as u64);
            EVENTS += 1;
        }
        if LIVE {
            let i = *g as usize & (CAP - 1);
            LAST = i as u64;
            IDX = 0;
            if !HITS[i] {
                hit(i);
            }
        }
    }
    #[cold]
    #[inline(never)]
    fn hit(i: usize) {
        if ON.with(|o| o.get()) {
            unsafe { HITS[i] = true }
            with(|s| {
                s.nhit += 1;
                s.progress = 2;
            });
        }
    }
}
pub use imp::*;
