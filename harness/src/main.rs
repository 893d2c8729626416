//! Drives one property's monitor over a seeded workload.
use ed448_monitor::props::{sys, Prop, LAST_PANIC, PROPS};
use ed448_monitor::report::{Ctx, Fail, Report};
use ed448_monitor::rng::Rng;
use ed448_monitor::{big, cov, oracle, BACKEND};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

struct Args {
    prop: String,
    seed: u64,
    cases: u64,
    secs: f64,
    threads: usize,
    out: Option<String>,
    only: Option<u64>,
    task: Option<String>,
    dump: bool,
    specs: bool,
    progress: Option<String>,
    digests: Option<String>,
    corpus: Option<String>,
    corpus_out: Option<String>,
    guided: bool,
}
fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: 1,
        cases: 1000,
        secs: 600.0,
        threads: 8,
        out: None,
        only: None,
        task: None,
        dump: false,
        specs: false,
        progress: None,
        digests: None,
        corpus: None,
        corpus_out: None,
        guided: false,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let val = || v[i + 1].clone();
        match v[i].as_str() {
            "--prop" => a.prop = val(),
            "--seed" => a.seed = val().parse().unwrap(),
            "--cases" => a.cases = val().parse().unwrap(),
            "--secs" => a.secs = val().parse().unwrap(),
            "--threads" => a.threads = val().parse().unwrap(),
            "--out" => a.out = Some(val()),
            "--only" => a.only = Some(val().parse().unwrap()),
            "--task" => a.task = Some(val()),
            "--progress" => a.progress = Some(val()),
            "--digests" => a.digests = Some(val()),
            "--corpus" => a.corpus = Some(val()),
            "--corpus-out" => a.corpus_out = Some(val()),
            "--guided" => {
                a.guided = true;
                i += 1;
                continue;
            }
            "--specs" => {
                a.specs = true;
                i += 1;
                continue;
            }
            "--dump" => {
                a.dump = true;
                i += 1;
                continue;
            }
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    a
}
/// CPU seconds this thread has used so far (Linux).
fn thread_cpu(tid: &str) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 13 {
        return 0.0;
    }
    (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}
fn my_tid() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .unwrap_or_default()
}
fn run_case(p: &Prop, seed: u64, case: u64, r: Report) -> (Report, Option<String>) {
    let mut c = Ctx { case, seed, rng: Rng::new(seed, case), r };
    c.r.cases += 1;
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    cov::active(true);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut c)));
    cov::active(false);
    cov::end_case();
    let mut err = None;
    if res.is_err() {
        let (msg, loc) = LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| ("panic".into(), "on a worker thread".into()));
        if ed448_monitor::props::ours(&loc) {
            err = Some(format!("monitor panicked: {} at {}", msg, loc));
        } else {
            let d = format!("{} at {}", msg, loc);
            c.fail("the code under test panicked", d);
        }
    }
    (c.r, err)
}
/// CPU time a single case may use; ordinary cases take milliseconds.
const CASE_CPU_LIMIT: f64 = 120.0;
/// Looks of the watchdog, 20 ms apart, at a case that got no CPU time at all: it is blocked.
const STALL_LOOKS: u64 = 5000;

fn main() {
    let a = args();
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((msg, loc)));
    }));
    if let Some(f) = &a.corpus {
        cov::load_corpus(f);
    }
    if let Some(t) = &a.task {
        println!("{}", big::hex(&sys::c22_child(t)));
        return;
    }
    if a.specs {
        let (raw, tasks) = sys::c22_tasks(a.seed, a.only.unwrap());
        for t in tasks {
            println!("{} {}", t.op, sys::c22_spec(&t, &raw));
        }
        return;
    }
    if a.dump {
        for (op, out) in sys::c19_log(a.seed, a.only.unwrap()).0 {
            println!("{} {}", op, big::hex(&out));
        }
        return;
    }
    let p = PROPS.iter().find(|p| p.id == a.prop).expect("property");
    // The oracle must be right before anything it says counts.
    let t0 = Instant::now();
    let self_checks = match oracle::selftest() {
        Ok(n) => n,
        Err(e) => {
            eprintln!("ERROR {}", e);
            std::process::exit(3);
        }
    };
    let directed = (p.directed)();
    let total = directed + a.cases;
    let next = AtomicU64::new(if a.guided { directed } else { 0 });
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let deadline = t0 + Duration::from_secs_f64(a.secs);
    let state: Vec<std::sync::Mutex<(u64, String, f64)>> =
        (0..a.threads).map(|_| std::sync::Mutex::new((u64::MAX, String::new(), 0.0))).collect();
    let mut merged = Report::default();
    let mut errs: Vec<String> = Vec::new();
    if let Some(case) = a.only {
        let (r, e) = run_case(p, a.seed, case, Report::default());
        merged = r;
        errs.extend(e);
    } else {
        let results: Vec<(Report, Option<String>)> = std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for t in 0..a.threads {
                let (next, stop, state, done) = (&next, &stop, &state, &done);
                let prog = a.progress.clone();
                let (guided, corpus_out) = (a.guided, a.corpus_out.clone());
                hs.push(sc.spawn(move || {
                    let tid = my_tid();
                    if guided {
                        cov::start();
                    }
                    let mut rep = Report::default();
                    let mut err = None;
                    let mut pf = prog.map(|d| std::fs::File::create(format!("{}/{}", d, t)).unwrap());
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if i >= directed && Instant::now() > deadline {
                            break;
                        }
                        if let Some(f) = pf.as_mut() {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(format!("{:020}", i).as_bytes(), 0);
                        }
                        *state[t].lock().unwrap() = (i, tid.clone(), thread_cpu(&tid));
                        let (r, e) = run_case(p, a.seed, i, rep);
                        rep = r;
                        if e.is_some() {
                            err = e;
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        if !rep.fails.is_empty() {
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    if let Some(f) = pf.as_mut() {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(b"done                ", 0);
                        let _ = f.flush();
                    }
                    state[t].lock().unwrap().0 = u64::MAX;
                    if let (true, Some(f)) = (guided, corpus_out) {
                        let b: Vec<u8> = cov::corpus().iter().flat_map(|u| u.to_le()).collect();
                        std::fs::write(f, b).unwrap();
                    }
                    rep.feedback = cov::summary();
                    done.fetch_add(1, Ordering::SeqCst);
                    (rep, err)
                }));
            }
            // watchdog on consumed CPU time, not on the wall clock
            let mut stalled: Vec<(u64, f64, u64)> = vec![(u64::MAX, 0.0, 0); a.threads as usize];
            while done.load(Ordering::SeqCst) < a.threads as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for (s, st) in state.iter().zip(stalled.iter_mut()) {
                    let (case, tid, start) = s.lock().unwrap().clone();
                    if case == u64::MAX {
                        continue;
                    }
                    let cpu = thread_cpu(&tid);
                    if st.0 != case || cpu - st.1 > 0.05 {
                        *st = (case, cpu, 0);
                    }
                    st.2 += 1;
                    let blocked = st.2 > STALL_LOOKS;
                    if blocked || cpu - start > CASE_CPU_LIMIT {
                        let mut r = Report::default();
                        r.cases = next.load(Ordering::Relaxed);
                        r.fails.push(Fail {
                            case,
                            what: "a call did not return".into(),
                            detail: if blocked {
                                "case is blocked, it got nowhere while the watchdog looked 5000 times".into()
                            } else {
                                format!("case used more than {} s of CPU time", CASE_CPU_LIMIT)
                            },
                        });
                        finish(&a, r, &[], self_checks, directed, t0);
                        std::process::exit(1);
                    }
                }
            }
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (r, e) in results {
            merged.merge(r);
            errs.extend(e);
        }
    }
    let code = if !merged.fails.is_empty() {
        1
    } else if !errs.is_empty() {
        3
    } else {
        0
    };
    finish(&a, merged, &errs, self_checks, directed, t0);
    std::process::exit(code);
}
fn finish(a: &Args, mut r: Report, errs: &[String], self_checks: usize, directed: u64, t0: Instant) {
    r.fails.sort_by_key(|f| f.case);
    for e in errs {
        eprintln!("ERROR {}", e);
    }
    for f in &r.fails {
        eprintln!("FAIL case={} {}: {}", f.case, f.what, f.detail);
    }
    if let Some(d) = &a.digests {
        r.digests.sort();
        let mut s = String::new();
        for (c, h) in &r.digests {
            s.push_str(&format!("{} {}\n", c, h));
        }
        std::fs::write(d, s).unwrap();
    }
    let extra = format!(
        ",\"directed_cases\":{},\"oracle_self_checks\":{},\"hooks\":{},\"debug_assertions\":{},\"wall_s\":{:.3}",
        directed,
        self_checks,
        cfg!(feature = "hooks"),
        cfg!(debug_assertions),
        t0.elapsed().as_secs_f64()
    );
    let extra = match &r.feedback {
        None => extra,
        Some(f) => format!(
            "{},\"feedback\":{{\"blocks\":{},\"blocks_hit\":{},\"comparison_sites\":{},\"comparison_sites_satisfied\":{},\"operands_kept\":{}}}",
            extra, f.blocks, f.blocks_hit, f.sites, f.sites_satisfied, f.kept
        ),
    };
    let j = r.to_json(&a.prop, BACKEND, a.seed, &extra);
    match &a.out {
        Some(o) => std::fs::write(o, j).unwrap(),
        None => println!("{}", j),
    }
}
