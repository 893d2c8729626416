//! C23: does zeroizing a Montgomery point leave all of its bytes zero in memory?
//! The global allocator of this program looks at every block of the right size at
//! the moment it is freed, which is after anything the optimiser may have removed.
use ed448_goldilocks::curve::MontgomeryPoint;
use ed448_monitor::big::{hex, P, U};
use ed448_monitor::gen;
use ed448_monitor::report::{Ctx, Report};
use ed448_monitor::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use std::ptr::read_volatile;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use zeroize::{Zeroize, Zeroizing};

struct Watch;
static ARMED: AtomicBool = AtomicBool::new(false);
static TARGET: AtomicUsize = AtomicUsize::new(0);
static FREED: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);
static mut SNAP: [u8; 4096] = [0; 4096];

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(Ordering::SeqCst) && p as usize == TARGET.load(Ordering::SeqCst) {
            ARMED.store(false, Ordering::SeqCst);
            let n = l.size().min(4096);
            for i in 0..n {
                let b = read_volatile(p.add(i));
                (std::ptr::addr_of_mut!(SNAP) as *mut u8).add(i).write_volatile(b);
            }
            LEN.store(n, Ordering::SeqCst);
            FREED.fetch_add(1, Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Watch = Watch;

fn arm<T: ?Sized>(p: *const T) {
    TARGET.store(p as *const u8 as usize, Ordering::SeqCst);
    FREED.store(0, Ordering::SeqCst);
    ARMED.store(true, Ordering::SeqCst);
}
fn snapshot() -> Option<Vec<u8>> {
    ARMED.store(false, Ordering::SeqCst);
    if FREED.load(Ordering::SeqCst) == 0 {
        return None;
    }
    let n = LEN.load(Ordering::SeqCst);
    let p = std::ptr::addr_of!(SNAP) as *const u8;
    Some((0..n).map(|i| unsafe { read_volatile(p.add(i)) }).collect())
}
fn live<T>(x: &T) -> Vec<u8> {
    let p = x as *const T as *const u8;
    (0..std::mem::size_of::<T>()).map(|i| unsafe { read_volatile(p.add(i)) }).collect()
}
fn wiped(c: &mut Ctx, what: &str, secret: &[u8], got: &[u8]) {
    c.seen(what, &[secret]);
    c.ck(got.iter().all(|b| *b == 0), what, || {
        format!("held {}, memory afterwards {}", hex(secret), hex(got))
    });
}
fn freed(c: &mut Ctx, what: &str, secret: &[u8]) {
    match snapshot() {
        Some(b) => wiped(c, what, secret, &b),
        None => c.cov(format!("skip:{} not freed", what)),
    }
}

#[inline(never)]
fn boxed(bytes: &[u8; 56]) {
    let mut b = Box::new(MontgomeryPoint(*bytes));
    arm(&*b as *const MontgomeryPoint);
    black_box(&mut *b);
    b.zeroize();
}
#[inline(never)]
fn boxed_zeroizing(bytes: &[u8; 56]) {
    let b = Box::new(Zeroizing::new(MontgomeryPoint(*bytes)));
    arm(&**b as *const MontgomeryPoint);
    drop(b);
}
#[inline(never)]
fn array(bytes: &[u8; 56], k: u8) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..4u8 {
        let mut x = *bytes;
        for b in x.iter_mut() {
            *b = b.rotate_left(i.wrapping_mul(k) as u32 & 7) | 1;
        }
        v.push(MontgomeryPoint(x));
    }
    let mut a: [MontgomeryPoint; 4] = [v[0], v[1], v[2], v[3]];
    a.zeroize();
    live(&a)
}
#[inline(never)]
fn stack_slot(bytes: &[u8; 56], slot: &mut usize) {
    let mut p = MontgomeryPoint(*bytes);
    *slot = &p as *const MontgomeryPoint as usize;
    black_box(&mut p);
    p.zeroize();
}

fn secrets(rng: &mut Rng, case: u64) -> [u8; 56] {
    match case {
        0 => [0xff; 56],
        1 => P.m.to_le(),
        2 => P.m.wsub(&U::ONE).to_le(),
        3 => MontgomeryPoint::generator().0,
        k if k < 60 => {
            let mut b = [0u8; 56];
            b[(k - 4) as usize] = 0x80;
            b
        }
        k if k < 116 => {
            let mut b = [0xa5u8; 56];
            b[(k - 60) as usize] = 0;
            b
        }
        _ => {
            if rng.bool() {
                rng.bytes::<56>()
            } else {
                gen::u448(rng).0.to_le()
            }
        }
    }
}
fn case(c: &mut Ctx) {
    let s = secrets(&mut c.rng, c.case);
    let s = &black_box(s);
    boxed(s);
    freed(c, "boxed point, zeroized then freed", s);
    boxed_zeroizing(s);
    freed(c, "Zeroizing wrapper, freed", s);
    // in place
    let mut p = MontgomeryPoint(*s);
    black_box(&mut p);
    p.zeroize();
    wiped(c, "live point", s, &live(&p));
    // a copy must not be affected
    let q = MontgomeryPoint(*s);
    let mut r = q;
    r.zeroize();
    c.same("copy of a zeroized point", &live(&q), s, &[s]);
    wiped(c, "copied point", s, &live(&r));
    // zeroize is idempotent, and the point is then u = 0
    p.zeroize();
    wiped(c, "zeroized twice", s, &live(&p));
    c.ck(p == MontgomeryPoint([0; 56]), "zeroized point equals u = 0", || hex(s));
    c.ck(p.is_low_order(), "zeroized point is of low order", || hex(s));
    c.same("as_bytes of a zeroized point", p.as_bytes(), &[0; 56], &[s]);
    let k = gen::sc(&gen::u448(&mut c.rng).0);
    c.same("multiple of a zeroized point", &(&p * &k).0, &[0; 56], &[s, &k.to_bytes()]);
    let a = array(s, c.case as u8);
    wiped(c, "array of points", s, &a);
    // a dead stack slot must not hold the value any more
    let mut slot = 0usize;
    stack_slot(s, &mut slot);
    let ptr = black_box(slot) as *const u8;
    let mut residue = [0u8; 56];
    for (i, r) in residue.iter_mut().enumerate() {
        *r = unsafe { read_volatile(ptr.add(i)) };
    }
    if s.iter().filter(|b| **b != 0).count() >= 16 {
        c.seen("stack slot after return", &[s]);
        c.ck(residue != *s, "stack slot after return", || format!("still holds {}", hex(s)));
    }
    // option, and a field of a larger value
    let mut o = Some(MontgomeryPoint(*s));
    if let Some(x) = o.as_mut() {
        x.zeroize();
        let l = live(x);
        wiped(c, "point inside an Option", s, &l);
    }
}
fn main() {
    let v: Vec<String> = std::env::args().collect();
    let get = |k: &str| v.iter().position(|x| x == k).map(|i| v[i + 1].clone());
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let cases: u64 = get("--cases").unwrap().parse().unwrap();
    let only: Option<u64> = get("--only").map(|x| x.parse().unwrap());
    let t0 = std::time::Instant::now();
    let mut r = Report::default();
    for i in 0..cases + 116 {
        if only.is_some() && only != Some(i) {
            continue;
        }
        let mut c = Ctx { case: i, seed, rng: Rng::new(seed ^ 0xc23, i), r };
        c.r.cases += 1;
        case(&mut c);
        r = c.r;
        if !r.fails.is_empty() {
            break;
        }
    }
    let extra = format!(
        ",\"directed_cases\":116,\"debug_assertions\":{},\"wall_s\":{:.3}",
        cfg!(debug_assertions),
        t0.elapsed().as_secs_f64()
    );
    let j = r.to_json("C23", ed448_monitor::BACKEND, seed, &extra);
    match get("--out") {
        Some(o) => std::fs::write(o, j).unwrap(),
        None => println!("{}", j),
    }
    std::process::exit(if r.fails.is_empty() { 0 } else { 1 });
}
