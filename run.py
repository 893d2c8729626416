#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's working tree.

  run.py setup                 build everything once
  run.py <Cxx>                 check one property (VERIF_SEED, VERIF_TIER)
  run.py --replay <file>       re-run the case a VIOLATION line points to

Exit 0: held on everything observed. Exit 1: violation. Exit 2: no answer."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7FFFFFFFFFFFFFFF
CPUS = os.cpu_count() or 4
T0 = time.time()
CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo(cfg, hooks, tree):
    """cfg: (backend, profile). Returns (dir with the binaries, error text)."""
    be, prof = cfg
    nightly = prof == "asan"
    tdir = os.path.join(BUILD, f"{be}-{prof}{'' if hooks else '-nohooks'}")
    os.makedirs(tdir, exist_ok=True)
    cov = prof in ("cov", "ct")
    sub = "debug" if prof == "dev" else ("checked" if nightly else prof)
    if nightly:
        sub = "x86_64-unknown-linux-gnu/" + sub
    stamp = os.path.join(tdir, "tree")
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != tree:
        # never trust timestamps: a changed tree is a rebuilt tree
        fp = os.path.join(tdir, sub, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("ed448-goldilocks-", "ed448-monitor-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = tdir
    env["CARGO_INCREMENTAL"] = "0"
    flags = []
    if hooks:
        flags += ["--cfg", "ed448_verif"]
    if nightly:
        flags += ["-Zsanitizer=address"]
    env["RUSTFLAGS"] = " ".join(flags)
    cmd = ["cargo"] + (["+nightly"] if nightly else []) + ["build", "-q", "--offline", "--locked"]
    cmd += ["--target", "x86_64-unknown-linux-gnu"] if nightly else []
    cmd += ["--profile", "checked" if nightly else prof]
    cmd += ["--features", be + (",hooks" if hooks else "") + (",cov" if cov else "")]
    if cov:
        env["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustc-cov.sh")
        env["ED448_TRACE"] = "1" if prof == "ct" else ""
        cmd += ["--bin", "monitor" if prof == "cov" else "ctprobe"]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    with open(stamp, "w") as f:
        f.write(tree)
    return os.path.join(tdir, sub), ""


def build(cfgs):
    """Builds every configuration, with hooks when they compile. {cfg: dir}, hooks."""
    tree = tree_hash()
    for hooks in (True, False):
        with ThreadPoolExecutor(max(1, min(6, len(cfgs)))) as ex:
            res = list(ex.map(lambda c: cargo(c, hooks, tree), cfgs))
        # the feedback builds are an extra: without them the workload is just not steered
        need = [(c, r) for c, r in zip(cfgs, res) if c[1] not in ("cov", "ct")]
        if all(r[0] for _, r in need):
            return {c: r[0] for c, r in zip(cfgs, res) if r[0]}, hooks
        err = next(r[1] for _, r in need if not r[0])
        if hooks:
            log("note: the hooks do not compile against this tree; using the public interface only")
    err = "\n".join(l for l in err.splitlines() if "warning" not in l)[-3000:]
    raise NoAnswer("the harness does not build against this tree:\n" + err)


# ---------------------------------------------------------------- per-property plans
CH = [("fiat", "checked"), ("u32b", "checked")]
RE = [("fiat", "release"), ("u32b", "release")]
ALL4 = CH + RE
COV = [("fiat", "cov"), ("u32b", "cov")]
CT = [("fiat", "ct"), ("u32b", "ct")]
# quick: random cases per checked / per release configuration
CASES = {
    "C01": 40000, "C02": 60000, "C03": 160000, "C04": 400000, "C05": 40000, "C06": 8000, "C07": 2400,
    "C08": 8000, "C09": 7000, "C10": 5000, "C11": 4500, "C12": 2600, "C13": 5000, "C14": 9000,
    "C15": 25000, "C16": 9000, "C17": 4000, "C18": 5500, "C19": 16000, "C20": 10000, "C22": 22,
}
RULE = {
    "C01": "one evaluation = one scalar operation on one operand tuple compared with an independent big-integer model; distinct = different (operation, operands), non-trivial = some operand byte non-zero",
    "C02": "one evaluation = one load/store/bits/index/compare/strict-decode event on one byte string compared with the model; distinct by (operation, bytes), non-trivial = not all zero",
    "C03": "one evaluation = one wide reduction of a 114-byte string compared with schoolbook division; distinct by string, non-trivial = not all zero",
    "C04": "one evaluation = one draw from a recording generator whose output the monitor reduces itself; distinct by generator output",
    "C05": "one evaluation = one field operation (or chain step) compared with integer arithmetic mod p; distinct by (operation, operands)",
    "C06": "one evaluation = one group operation on one pair of points (all operator forms) compared with the affine law; distinct by (operation, encodings)",
    "C07": "one evaluation = one product [s]P (one operator form) compared with the model multiple; distinct by (form, s, P)",
    "C08": "one evaluation = one encode or decode event judged by the RFC 8032 rules; distinct by bytes",
    "C09": "one evaluation = audit of one state (coordinates and denoted point) in a random history of public operations against the shadow history; distinct by state",
    "C10": "one evaluation = one comparison or selection judged by the denoted points; distinct by (operation, operands)",
    "C11": "one evaluation = one torsion test judged by the model's [l]P; distinct by point and representation",
    "C12": "one evaluation = one isogeny or twisted-curve operation compared with the affine law of that curve; distinct by (operation, operands)",
    "C13": "one evaluation = one ladder product compared with the affine x-only model (curve and twist); distinct by (s, u)",
    "C14": "one evaluation = one conversion or commuting square compared with the model; distinct by (P, s)",
    "C15": "one evaluation = one low-order verdict judged by the value mod p (and by the ladder); distinct by bytes",
    "C16": "one evaluation = one decode of a 56-byte string judged by the RFC 9496 decoder; distinct by bytes",
    "C17": "one evaluation = one encoding or comparison of an element reached by some computation, judged by the RFC 9496 encoder; distinct by (route, operands)",
    "C18": "one evaluation = one Decaf operation (one operator form) compared with the model group; distinct by (form, operands)",
    "C19": "one evaluation = one logged result of a random history of public operations, or one event of another monitor run whose verdicts are logged; the logs of all builds are compared byte for byte; distinct by (operation, result)",
    "C20": "one evaluation = one public call on hostile operands that must return normally under overflow checks and debug assertions; distinct by (call, operands)",
    "C21": "one evaluation = one traced call; non-trivial = operand set differing from the reference; equality of per-instruction execution counts (callgrind), of full instruction and data address traces (lackey), taint (memcheck) as guide",
    "C22": "one evaluation = one call whose result is compared with the same call in a fresh process; in order, reversed, repeated and on 8 threads; distinct by (operation, result)",
    "C23": "one evaluation = one inspection of the memory a zeroized point occupied (also at the moment it is freed); distinct by (form, value held)",
}


def plan(pid):
    """[(cfg, cases, seconds, seed offset, threads)]"""
    n = CASES[pid]
    thr = 2 if pid == "C22" else CPUS
    if TIER == "quick":
        if pid == "C19":
            return [(c, n, 25, 0, thr) for c in ALL4] + [(("fiat", "dev"), 120, 25, 0, thr), (("u32b", "dev"), 120, 25, 0, thr)]
        if pid == "C22":
            return [(c, n, 20, 0, thr) for c in CH] + [(c, n // 3, 8, 1, thr) for c in RE]
        # every configuration has its own share of the seeds; the clock ends it, not the count
        return [(c, n * 10, 14, 2 * i, thr) for i, c in enumerate(CH)] + [(c, n * 10, 7, 2 * i + 1, thr) for i, c in enumerate(RE)]
    if pid == "C19":
        return [(c, n * 14, 100, 0, thr) for c in ALL4] + [(("fiat", "dev"), 1500, 60, 0, thr), (("u32b", "dev"), 1500, 60, 0, thr)]
    a, b = (100, 50) if pid == "C20" else (170, 100)  # C20 also goes through the interpreter
    p = [(c, n * 400, a, 2 * i, thr) for i, c in enumerate(CH)] + [(c, n * 400, b, 2 * i + 1, thr) for i, c in enumerate(RE)]
    p += [(("fiat", "dev"), n, 40, 4, thr), (("u32b", "dev"), n, 40, 5, thr)]
    if pid in ("C20", "C09", "C05"):
        p += [(("fiat", "asan"), n * 4, 60, 6, thr), (("u32b", "asan"), n * 4, 60, 7, thr)]
    return p


# ---------------------------------------------------------------- replays, findings, evidence
def replay_file(pid, data):
    os.makedirs(REPLAYS, exist_ok=True)
    data = dict(data, property=pid)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def known_findings(pid):
    """Lines `known: property=<id> call=<name> <text>`."""
    out = {}
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        lines = []
    for l in lines:
        m = re.match(r"known: property=(\S+) call=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def evidence(pid, cov, violations, assumptions=()):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov.setdefault("rule", RULE[pid])
    e = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": cov, "wall_s": round(time.time() - T0, 3), "violations": violations,
    }
    if assumptions:
        e["assumptions"] = list(assumptions)
    tmp = os.path.join(EVIDENCE, f".{pid}.json")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))


# ---------------------------------------------------------------- running the monitor
def run_monitor(exe, pid, cfg, cases, secs, seed, threads, scratch, extra=()):
    tag = "-".join(cfg)
    out = os.path.join(scratch, f"{tag}-{seed}.json")
    prog = os.path.join(scratch, f"progress-{tag}-{seed}")
    os.makedirs(prog, exist_ok=True)
    cmd = [os.path.join(exe, "monitor"), "--prop", pid, "--seed", str(seed), "--cases", str(cases),
           "--secs", str(secs), "--threads", str(threads), "--out", out, "--progress", prog] + list(extra)
    env = dict(os.environ, RUST_BACKTRACE="0", ASAN_OPTIONS="detect_leaks=0")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 400, env=env)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{tag}: the monitor did not end in time")
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    asan = "ERROR: AddressSanitizer" in p.stderr
    if (p.returncode < 0 and -p.returncode in CRASH) or asan:
        cur = []
        for f in os.listdir(prog):
            t = open(os.path.join(prog, f)).read().strip()
            if t.isdigit():
                cur.append(int(t))
        why = "AddressSanitizer report" if asan else f"process died with signal {-p.returncode}"
        # find the case on its own
        for c in sorted(cur):
            q = subprocess.run(cmd[:1] + ["--prop", pid, "--seed", str(seed), "--only", str(c)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=env)
            if q.returncode < 0 or q.returncode == 1 or "ERROR: AddressSanitizer" in q.stderr:
                return rep, [{"case": c, "what": why, "detail": q.stderr[-1500:]}]
        return rep, [{"case": min(cur) if cur else 0, "what": why, "detail": p.stderr[-1500:]}]
    if p.returncode == 1 and rep:
        return rep, rep["fails"]
    if p.returncode != 0 or rep is None:
        raise NoAnswer(f"{tag}: the monitor ended with {p.returncode}: {p.stderr[-1500:]}")
    return rep, []


def merge(reports):
    ev = sum(r["evaluations"] for _, r in reports)
    obs = {}
    for _, r in reports:
        for k, v in r["observed"].items():
            obs[k] = obs.get(k, 0) + v
    samples = []
    for _, r in reports:
        samples += [s for s in r["samples"] if s not in samples]
    return {
        "evaluations": ev,
        # the configurations replay overlapping workloads, so the largest of them is counted
        "distinct_nontrivial": max((r["distinct"] for _, r in reports), default=0),
        "samples": samples[:6],
        "cases": sum(r["cases"] for _, r in reports),
        "observed": obs,
        "skipped": sum(v for k, v in obs.items() if k.startswith("skip:")),
        "oracle_self_checks": max((r.get("oracle_self_checks", 0) for _, r in reports), default=0),
        "configurations": [
            {"config": "-".join(c), "cases": r["cases"], "directed_cases": r.get("directed_cases", 0),
             "evaluations": r["evaluations"], "distinct": r["distinct"],
             "overflow_checks": r["debug_assertions"], "wall_s": r["wall_s"]} for c, r in reports
        ],
    }


def guided(pid, dirs, scratch):
    """Feedback-steered workload on the instrumented builds, one process per core, judged by
    the same monitor. Returns (reports, fails, corpus file)."""
    who = "C20" if pid in ("C19", "C22", "C21") else pid
    secs = 10 if TIER == "quick" else 120
    jobs = []
    for i in range(max(2, CPUS)):
        cfg = COV[1] if i % 3 == 2 else COV[0]
        if cfg in dirs:
            jobs.append((cfg, i, (SEED + (100 + i) * 1000003) & 0x7FFFFFFFFFFFFFFF))
    reports, fails, raw = [], [], []

    def one(j):
        cfg, i, seed = j
        co = os.path.join(scratch, f"corpus-{i}")
        rep, f = run_monitor(dirs[cfg], who, cfg, 1 << 40, secs, seed, 1, scratch, ["--guided", "--corpus-out", co])
        return j, rep, f, (open(co, "rb").read() if os.path.exists(co) else b"")
    with ThreadPoolExecutor(len(jobs) or 1) as ex:
        for (cfg, i, seed), rep, f, co in ex.map(one, jobs):
            if rep:
                reports.append((cfg, rep))
            raw += [co[k:k + 56] for k in range(0, len(co), 56)]
            d = rep["directed_cases"] if rep else 0
            if who == pid:
                fails += [dict(x, config=list(cfg), seed=seed, guided=True, count=x["case"] - d + 1) for x in f]
    vals = sorted(set(raw), key=lambda b: hashlib.sha256(b).digest())[:800]
    path = os.path.join(scratch, "corpus")
    with open(path, "wb") as f:
        f.write(b"".join(vals))
    return reports, fails, path


def feedback_summary(reports):
    out = {}
    for cfg, r in reports:
        fb = r.get("feedback")
        if not fb:
            continue
        o = out.setdefault("-".join(cfg), {"workers": 0, "cases": 0, "evaluations": 0, "blocks": fb["blocks"], "blocks_hit_max": 0,
                                           "comparison_sites_max": 0, "comparison_sites_satisfied_max": 0})
        o["workers"] += 1
        o["cases"] += r["cases"]
        o["evaluations"] += r["evaluations"]
        o["blocks_hit_max"] = max(o["blocks_hit_max"], fb["blocks_hit"])
        o["comparison_sites_max"] = max(o["comparison_sites_max"], fb["comparison_sites"])
        o["comparison_sites_satisfied_max"] = max(o["comparison_sites_satisfied_max"], fb["comparison_sites_satisfied"])
    return out


def miri(dirs, hooks):
    """One call of every operation in the undefined-behaviour interpreter. Returns (summary, fails).
    An extra of the thorough tier: where the interpreter cannot run, the summary says so."""
    jobs = []
    for be in ("fiat", "u32b"):
        for case in (0, 1):
            p = subprocess.run([os.path.join(dirs[(be, "release")], "monitor"), "--specs", "--seed", str(SEED), "--only", str(case)],
                               stdout=subprocess.PIPE, text=True, timeout=120)
            seen = set()
            for l in p.stdout.splitlines():
                op, spec = l.split()
                if op not in seen:
                    seen.add(op)
                    jobs.append((be, spec))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", MIRIFLAGS="-Zmiri-disable-isolation", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)

    def one(j):
        be, spec = j
        e = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, f"{be}-miri"))
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--features", be, "--bin", "monitor", "--", "--task", spec]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return j, None, "", ""
        native = subprocess.run([os.path.join(dirs[(be, "release")], "monitor"), "--task", spec], stdout=subprocess.PIPE, text=True, timeout=120)
        return j, p, p.stdout.strip(), native.stdout.strip()
    shutil.rmtree(os.path.join(BUILD, "fiat-miri"), ignore_errors=True)
    shutil.rmtree(os.path.join(BUILD, "u32b-miri"), ignore_errors=True)
    first = [one(jobs[0]), one(next(j for j in jobs if j[0] == "u32b"))]
    if any(p is None or (p.returncode != 0 and "Undefined Behavior" not in p.stderr) for _, p, *_ in first):
        return {"ran": 0, "note": "the interpreter could not run here"}, []
    ran, fails = 0, []
    with ThreadPoolExecutor(CPUS) as ex:
        for (be, spec), p, got, want in ex.map(one, jobs):
            if p is None:
                continue
            ran += 1
            what = None
            if "Undefined Behavior" in p.stderr:
                what = "undefined behaviour reported by the interpreter"
            elif p.returncode == 0 and got != want:
                what = "the interpreted call gives another result than the compiled one"
            if what:
                fails.append({"case": 0, "what": what, "detail": (p.stderr[-1200:] or f"{got} / {want}") + " task " + spec[:200],
                              "config": [be, "miri"], "seed": SEED, "task": spec})
    return {"ran": ran, "calls": len(jobs)}, fails


ASSUME = [
    "the reference model (harness/src/big.rs, oracle.rs) is right; it checks itself against RFC 7748, RFC 8032 and RFC 9496 vectors and algebraic identities at the start of every run",
    "the properties are judged on the executions listed here, not on all inputs",
]


def check(pid):
    pl = plan(pid)
    dirs, hooks = build(list(dict.fromkeys(c for c, *_ in pl)) + COV)
    reports, fails, known = [], [], []
    t1 = time.time()
    with tempfile.TemporaryDirectory(prefix="ed448-") as scratch:
        greps, fails, corpus = guided(pid, dirs, scratch)
        fb = feedback_summary(greps)
        if pid in ("C19", "C22"):
            greps = []
        for _, r in greps:
            known += [k for k in r["known"] if k not in known]
        for cfg, n, secs, off, thr in ([] if fails else pl):
            extra = ["--corpus", corpus]
            if pid == "C19":
                extra += ["--digests", os.path.join(scratch, "-".join(cfg) + ".dig")]
            seed = (SEED + off * 1000003) & 0x7FFFFFFFFFFFFFFF
            rep, f = run_monitor(dirs[cfg], pid, cfg, n, secs, seed, thr, scratch, extra)
            if rep:
                reports.append((cfg, rep))
                known += [k for k in rep["known"] if k not in known]
            if f:
                fails = [dict(x, config=list(cfg), seed=seed) for x in f]
                break
        dig = None
        if pid == "C19" and not fails:
            fails, dig = compare_logs(pl, dirs, scratch, corpus)
        if fails and not fails[0].get("guided"):
            os.makedirs(REPLAYS, exist_ok=True)
            keep = os.path.join(REPLAYS, f"{pid}-{hashlib.sha256(open(corpus, 'rb').read()).hexdigest()[:10]}.corpus")
            shutil.copyfile(corpus, keep)
            for f in fails:
                f["corpus"] = keep
        reports += greps
        mi = None
        if pid == "C20" and TIER == "thorough" and not fails:
            mi, fails = miri(dirs, hooks)
    cov = merge(reports)
    if mi:
        cov["miri"] = mi
    cov["hooks"] = hooks
    cov["build_s"] = round(t1 - T0, 1)
    cov["feedback"] = fb
    if dig:
        cov["log_comparison"] = dig
    listed = known_findings(pid)
    for k in known:
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {k}: {listed[k]}")
        else:
            fails.append({"case": 0, "what": f"{k} does not return", "detail": "public function panics on every input and is not a listed finding",
                          "config": list(pl[0][0]), "seed": SEED})
    cov["known_findings"] = [k for k in known if k in listed]
    return finish(pid, cov, fails, min_evals=100)


def finish(pid, cov, fails, min_evals):
    if fails:
        cov["first_violation"] = fails[0]
    evidence(pid, cov, len(fails), ASSUME)
    if fails:
        f = fails[0]
        path = replay_file(pid, f)
        print(f"{pid}: {f['what']}: {str(f.get('detail', ''))[:1200]}")
        print(f"  configuration {'-'.join(f.get('config', []))}, seed {f.get('seed')}, case {f.get('case')}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if cov["evaluations"] < min_evals:
        raise NoAnswer(f"only {cov['evaluations']} evaluations were observed")
    print(f"{pid}: held on {cov['evaluations']} observed evaluations ({cov['distinct_nontrivial']} distinct), {round(time.time() - T0, 1)} s")
    return 0


# ---------------------------------------------------------------- C19
def compare_logs(pl, dirs, scratch, corpus):
    logs = {}
    for cfg, *_ in pl:
        d = {}
        for l in open(os.path.join(scratch, "-".join(cfg) + ".dig")):
            c, h = l.split()
            d[int(c)] = h
        logs[cfg] = d
    ref = pl[0][0]
    compared = 0
    for cfg, *_ in pl[1:]:
        for c in sorted(set(logs[ref]) & set(logs[cfg])):
            compared += 1
            if logs[ref][c] != logs[cfg][c]:
                outs = []
                for x in (ref, cfg):
                    p = subprocess.run([os.path.join(dirs[x], "monitor"), "--prop", "C19", "--seed", str(SEED), "--only", str(c), "--dump", "--corpus", corpus],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
                    outs.append(p.stdout.splitlines())
                k = next((i for i, (a, b) in enumerate(zip(*outs)) if a != b), min(len(outs[0]), len(outs[1])))
                get = lambda o: o[k] if k < len(o) else "(log ends)"
                return [{"case": c, "what": f"{'-'.join(ref)} and {'-'.join(cfg)} disagree at event {k}",
                         "detail": f"{'-'.join(ref)}: {get(outs[0])}  {'-'.join(cfg)}: {get(outs[1])}",
                         "config": list(cfg), "reference": list(ref), "seed": SEED}], None
    if compared < 20:
        raise NoAnswer("too few logs to compare")
    return [], {"reference": "-".join(ref), "histories_compared": compared, "builds": ["-".join(c) for c, *_ in pl]}


# ---------------------------------------------------------------- C23
def c23():
    n = 4000 if TIER == "quick" else 60000
    cfgs = ALL4 + ([("fiat", "dev"), ("u32b", "dev")] if TIER == "thorough" else [])
    dirs, hooks = build(cfgs)
    reports, fails = [], []
    with tempfile.TemporaryDirectory(prefix="ed448-") as scratch:
        def one(cfg):
            out = os.path.join(scratch, "-".join(cfg) + ".json")
            m = n if cfg[1] != "dev" else n // 20
            p = subprocess.run([os.path.join(dirs[cfg], "zprobe"), "--seed", str(SEED), "--cases", str(m), "--out", out],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
            return cfg, p, (json.load(open(out)) if os.path.exists(out) else None)
        with ThreadPoolExecutor(len(cfgs)) as ex:
            for cfg, p, rep in ex.map(one, cfgs):
                if rep is None or p.returncode not in (0, 1):
                    raise NoAnswer(f"zprobe {'-'.join(cfg)} ended with {p.returncode}: {p.stderr[-800:]}")
                reports.append((cfg, rep))
                fails += [dict(f, config=list(cfg), seed=SEED) for f in rep["fails"]]
    return finish("C23", dict(merge(reports), hooks=hooks), fails, 1000)


# ---------------------------------------------------------------- C21
VG = ["valgrind", "-q", "--vgdb=no"]


def norm_counts(path):
    out = []
    with open(path) as f:
        for l in f:
            if l.startswith(("part:", "desc:", "pid:", "cmd:", "totals:", "#", "version:", "creator:")):
                continue
            out.append(l)
    return "".join(out)


def vg(cmd, cwd, **kw):
    p = subprocess.run(VG + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800, **kw)
    if p.returncode != 0 or "\nran " not in "\n" + p.stdout:
        raise NoAnswer(f"traced run ended with {p.returncode}: {' '.join(cmd)}: {p.stderr[-800:]}")
    return p


def counts(exe, op, infile, n, scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d)
    vg(["--tool=callgrind", "--dump-instr=yes", "--dump-line=no", "--compress-pos=no", "--compress-strings=no",
        f"--callgrind-out-file={d}/cg", exe, "count", op, infile], d)
    res = [norm_counts(f"{d}/cg.{k}") for k in range(1, n + 1)]
    shutil.rmtree(d)
    return res


CT_FOUND = threading.Event()


class CtStop(Exception):
    """Another operation is known to violate the property, or the time for C21 is used up."""


def ct_stop():
    return CT_FOUND.is_set() or time.time() - T0 > (560 if TIER == "quick" else 5400)


def trace(exe, op, infile, scratch, name):
    if ct_stop():
        raise CtStop
    mk = os.path.join(scratch, name + ".mk")
    tc = os.path.join(os.path.dirname(exe), "tracecmp")
    r, w = os.pipe()
    with open(mk, "w") as mf:
        a = subprocess.Popen(VG + ["--tool=lackey", "--trace-mem=yes", f"--log-fd={w}", exe, "run", op, infile],
                             stdout=mf, stderr=subprocess.DEVNULL, pass_fds=(w,))
        b = subprocess.Popen([tc, mk], stdin=r, stdout=subprocess.PIPE, text=True)
        os.close(r)
        os.close(w)
        while True:
            try:
                out = b.communicate(timeout=1)[0]
                break
            except subprocess.TimeoutExpired:
                if ct_stop():
                    a.kill()
                    b.kill()
                    a.wait()
                    b.communicate()
                    raise CtStop from None
        rc = a.wait(timeout=60)
    if rc != 0 or "ran " not in open(mk).read():
        raise NoAnswer(f"lackey run of {op} ended with {rc}")
    return json.loads(out)


def pick(infile, size, idx, outfile):
    raw = open(infile, "rb").read()
    with open(outfile, "wb") as f:
        for i in idx:
            f.write(raw[i * size:(i + 1) * size])


TRACED = ("edwards.mul", "montgomery.mul", "decaf.mul", "scalar.invert", "edwards.compress", "decaf.compress")


def ct_scan(cfg, scan, exe, op, heavy, scratch, seed, corpus):
    """Operand values whose block or address sequence differs in the instrumented build."""
    quick = TIER == "quick"
    main = not heavy or op in TRACED
    ms = (3500 if heavy else 700) if quick else (60000 if heavy else 10000)
    ms = ms if main else ms // 3
    out = os.path.join(scratch, f"{cfg[0]}-{op}.scan")
    p = subprocess.run([scan, "scan", op, str(seed), str(ms), out, corpus], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=ms / 1000 + 300)
    if p.returncode != 0:
        return None, b"", []
    r = json.loads(p.stdout)
    mine = subprocess.run([exe, "layout"], stdout=subprocess.PIPE, text=True).stdout.strip()
    if r.pop("layout") != mine:
        return dict(r, note="operand layouts differ between the builds"), b"", []
    return r, open(out, "rb").read(), list(range(r["path_candidates"], r["path_candidates"] + r["address_candidates"]))


def confirm(exe, op, sets, how, scratch, tag):
    """The difference must follow the value: reference and value alternate, three times each.
    sets: (warm-up, reference, value)."""
    cf = os.path.join(scratch, tag + ".confirm")

    def put(idx):
        with open(cf, "wb") as f:
            f.write(b"".join(sets[i] for i in idx))
    if how == "counts":
        put([0, 1, 2, 1, 2, 1, 2, 1, 2])
        r = counts(exe, op, cf, 8, scratch, tag + "-confirm")
        a, b = r[2::2], r[3::2]
        return len(set(a)) == 1 and len(set(b)) == 1 and a[0] != b[0]
    for _ in range(2):
        put([0, 1, 1, 2, 2])
        r = trace(exe, op, cf, scratch, tag + "-confirm")
        if r["sections"] != 4 or [d["section"] for d in r["diffs"]] != [2, 3]:
            return False
    return True


def ct_op(args):
    cfg, exe, scan, op, heavy, scratch, seed, corpus = args
    res = {"op": op, "config": cfg, "values": 0, "fails": [], "scan": None, "instructions": 0, "traced": 0,
           "unconfirmed": 0, "taint": {"branch_sites": 0, "address_sites": 0}, "cut_short": True}
    if not ct_stop():
        try:
            ct_watch(args, res)
            res["cut_short"] = False
        except CtStop:
            pass
    if res["fails"]:
        CT_FOUND.set()
    return res


def ct_watch(args, res):
    cfg, exe, scan, op, heavy, scratch, seed, corpus = args
    tag = f"{cfg[0]}-{op}"
    quick = TIER == "quick"
    n = (60 if heavy else 120) if quick else (600 if heavy else 3000)
    if heavy and op not in TRACED:
        n //= 3
    infile = os.path.join(scratch, tag + ".in")
    subprocess.run([exe, "prep", op, str(seed), str(n), infile, corpus], check=True, timeout=600)
    size = os.path.getsize(infile) // (n + 1)
    suspects = []
    if scan:
        res["scan"], extra, addr_idx = ct_scan(cfg, scan, exe, op, heavy, scratch, seed, corpus)
        with open(infile, "ab") as f:
            f.write(extra)
        suspects = [n + 1 + i for i in addr_idx][:4 if quick and heavy else None]
        n += len(extra) // size
    raw = open(infile, "rb").read()
    sets = lambda k: [raw[i * size:(i + 1) * size] for i in (0, 1, k + 1)]
    keep = lambda k: {"operands": [x.hex() for x in sets(k)]}
    # guide: which branches and addresses depend on operand bits at all?
    mc = os.path.join(scratch, tag + ".mc")
    few = os.path.join(scratch, tag + ".few")
    pick(infile, size, [0, min(n, 40), n], few)
    vg(["--tool=memcheck", "--error-limit=no", f"--log-file={mc}", exe, "taint", op, few], scratch)
    t = open(mc).read()
    branch = t.count("Conditional jump or move depends")
    addr = t.count("Use of uninitialised value")
    res["taint"] = {"branch_sites": branch, "address_sites": addr}

    # per-instruction execution counts for every operand value
    if ct_stop():
        raise CtStop
    res["values"] = n
    c = counts(exe, op, infile, n, scratch, tag + "-cg")
    for l in c[0].splitlines():
        if l.startswith("summary:"):
            res["instructions"] = int(l.split()[1])
    bad = [k for k in range(1, n) if c[k] != c[0]]
    unconfirmed = 0
    for k in bad[:3]:
        if confirm(exe, op, sets(k), "counts", scratch, tag):
            da, db = ([l for l in x.splitlines() if not l.startswith("summary:")] for x in (c[0], c[k]))
            i = next((i for i, (x, y) in enumerate(zip(da, db)) if x != y), 0)
            fn = next((x for x in reversed(db[:i + 1]) if x.startswith("fn=")), "")
            res["fails"].append({"case": k, "how": "counts", **keep(k), "what": f"{op}: instructions executed depend on operand values",
                                 "detail": f"operand set {k} against operand set 0; first difference in {fn}: {da[i]!r} against {db[i]!r}"})
            break
        unconfirmed += 1
    res["unconfirmed"] = unconfirmed
    # full address traces
    want = 0
    if not heavy:
        want = min(n, 40 if quick else 200)
    elif addr:
        want = 3 if quick else 24
    elif op in TRACED:
        want = 2 if quick else 16
    elif not quick:
        want = 6
    if (want or suspects) and not res["fails"]:
        tf = os.path.join(scratch, tag + ".tr")
        idx = list(range(1, want + 1)) if want > 2 else [1, n] if not suspects else [1]
        idx += [i for i in suspects if i not in idx]
        pick(infile, size, [0] + idx, tf)
        r = trace(exe, op, tf, scratch, tag)
        if r["sections"] != len(idx):
            raise NoAnswer(f"{tag}: traced {r['sections']} calls instead of {len(idx)}")
        res["traced"] = r["sections"]
        res["events"] = r["reference_events"]
        for d in r["diffs"][:3]:
            k = idx[d["section"]] - 1
            if confirm(exe, op, sets(k), "trace", scratch, tag):
                res["fails"].append({"case": k, "how": "trace", **keep(k), "what": f"{op}: addresses touched depend on operand values",
                                     "detail": f"operand set {k} against operand set 0; {json.dumps(d)}"})
                break
            res["unconfirmed"] += 1
    os.unlink(infile)


def c21():
    if not shutil.which("valgrind"):
        raise NoAnswer("valgrind is not installed")
    dirs, hooks = build(RE + COV + CT)
    jobs = []
    with tempfile.TemporaryDirectory(prefix="ed448-") as scratch:
        _, _, corpus = guided("C21", dirs, scratch)
        for cfg in RE:
            exe = os.path.join(dirs[cfg], "ctprobe")
            sd = dirs.get((cfg[0], "ct"))
            scan = os.path.join(sd, "ctprobe") if sd else None
            for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
                op, w = l.split()
                jobs.append((cfg, exe, scan, op, w == "heavy", scratch, SEED, corpus))
        jobs.sort(key=lambda j: not j[4])
        with ThreadPoolExecutor(CPUS) as ex:
            rs = list(ex.map(ct_op, jobs))
    fails = [dict(f, config=list(r["config"]), seed=SEED, op=r["op"]) for r in rs for f in r["fails"]]
    cov = {
        "evaluations": sum(r["values"] + r["traced"] for r in rs),
        "distinct_nontrivial": sum(max(r["values"] - 1, 0) for r in rs),
        "samples": [{k: r[k] for k in ("op", "config", "values", "instructions", "traced", "taint")} for r in rs[:6]],
        "operations": len(rs),
        "per_operation": {f"{r['config'][0]}:{r['op']}": [r["values"], r["instructions"], r["traced"], r["taint"]["branch_sites"], r["taint"]["address_sites"]] for r in rs},
        "per_operation_fields": ["operand sets", "instructions per call", "calls with full address trace", "branches or cmoves on operand bits", "addresses from operand bits"],
        "instructions_observed": sum(r["values"] * r["instructions"] for r in rs),
        "scan": {"operand_sets": sum((r["scan"] or {}).get("values", 0) for r in rs),
                 "operations": sum(1 for r in rs if r["scan"]),
                 "block_sequences_max": max(((r["scan"] or {}).get("paths", 0) for r in rs), default=0),
                 "address_sequences_max": max(((r["scan"] or {}).get("address_sequences", 0) for r in rs), default=0),
                 "events_observed": sum((r["scan"] or {}).get("values", 0) * (r["scan"] or {}).get("events", 0) for r in rs),
                 "candidates": sum((r["scan"] or {}).get("path_candidates", 0) + (r["scan"] or {}).get("address_candidates", 0) for r in rs)},
        "operations_cut_short": [f"{r['config'][0]}:{r['op']}" for r in rs if r["cut_short"]],
        "differences_not_reproduced": sum(r["unconfirmed"] for r in rs),
        "hooks": hooks,
    }
    return finish("C21", cov, fails, 500)


# ---------------------------------------------------------------- entry
def replay(path):
    d = json.load(open(path))
    pid, cfg = d["property"], tuple(d["config"])
    print(json.dumps(d, indent=1))
    if pid == "C21":
        dirs, _ = build([cfg])
        exe = os.path.join(dirs[cfg], "ctprobe")
        with tempfile.TemporaryDirectory(prefix="ed448-") as s:
            differs = confirm(exe, d["op"], [bytes.fromhex(x) for x in d["operands"]], d["how"], s, "replay")
        print("the traces differ" if differs else "the traces are equal")
        return 1 if differs else 0
    if pid == "C19" and "reference" in d:
        ref = tuple(d["reference"])
        dirs, _ = build([ref, cfg])
        o = [subprocess.run([os.path.join(dirs[c], "monitor"), "--prop", "C19", "--seed", str(d["seed"]), "--only", str(d["case"]), "--dump", "--corpus", d.get("corpus", "")],
                            stdout=subprocess.PIPE, text=True).stdout.splitlines() for c in (ref, cfg)]
        for i, (a, b) in enumerate(zip(*o)):
            if a != b:
                print(f"event {i}\n  {a}\n  {b}")
                return 1
        return 0
    if "task" in d:
        rel = (cfg[0], "release")
        dirs, _ = build([rel])
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--features", cfg[0], "--bin", "monitor", "--", "--task", d["task"]]
        env = dict(os.environ, CARGO_NET_OFFLINE="true", MIRIFLAGS="-Zmiri-disable-isolation", CARGO_TARGET_DIR=os.path.join(BUILD, f"{cfg[0]}-miri"))
        got = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, text=True)
        want = subprocess.run([os.path.join(dirs[rel], "monitor"), "--task", d["task"]], stdout=subprocess.PIPE, text=True)
        return 0 if got.returncode == 0 and got.stdout == want.stdout else 1
    dirs, _ = build([cfg])
    exe = os.path.join(dirs[cfg], "zprobe" if pid == "C23" else "monitor")
    if d.get("guided"):
        args = [exe, "--prop", pid, "--seed", str(d["seed"]), "--guided", "--threads", "1", "--secs", "3600", "--cases", str(d["count"])]
        return 0 if subprocess.run(args).returncode == 0 else 1
    args = [exe, "--seed", str(d["seed"]), "--only", str(d["case"])]
    if d.get("corpus"):
        args += ["--corpus", d["corpus"]]
    args += ["--cases", str(d["case"] + 1)] if pid == "C23" else ["--prop", pid]
    return 0 if subprocess.run(args).returncode == 0 else 1


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    try:
        if a == "setup":
            build(ALL4 + COV + CT)
            return 0
        if a == "--replay":
            return replay(sys.argv[2])
        if a == "C21":
            return c21()
        if a == "C23":
            return c23()
        return check(a)
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"NO ANSWER: {e}")
        return 2


sys.exit(main())
