#!/usr/bin/env python3
"""Runs the runtime monitors for one property and writes evidence/<ID>.json.

exit 0: held on everything explored; exit 1: VIOLATION line printed;
anything else: the check itself could not give an answer.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
EVID = os.path.join(HERE, "evidence")
SEED = os.environ.get("VERIF_SEED", "1")
try:
    int(SEED)
except ValueError:
    SEED = "1"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = os.cpu_count() or 4
FEATS512 = ["vaes", "vpclmulqdq", "avx512f", "avx512bw", "avx512vl"]
CONFIGS = {
    "native": [],
    "noavx512": ["vaes"],
    "nosha": ["sha"],
    "nobmi2": ["bmi2"],
    "min": FEATS512 + ["sha", "bmi2"],
    # the library as users build it: optimised, no debug assertions or overflow checks
    # (the feature toggles do not exist there)
    "rel": [],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["VERIF_SEED"] = SEED
    e["VERIF_TIER"] = TIER
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    for k in list(e):
        if k.startswith("GRAVIOLA_CPU_DISABLE_") or k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
            del e[k]
    return e


def build(crate, target, rustflags='--cfg getrandom_backend="custom"', args=(), env=None, bin="gv", triple=None, profile_dir="debug"):
    """Builds a harness crate from /repo's current tree; returns the binary path."""
    e = base_env()
    e["RUSTFLAGS"] = rustflags
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target", target)
    e.update(env or {})
    cmd = ["cargo", "build", "--offline", "--locked"] + list(args)
    if triple:
        cmd += ["--target", triple]
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("build failed:", " ".join(cmd))
        sys.exit(2)
    p = os.path.join(e["CARGO_TARGET_DIR"], *([triple] if triple else []), profile_dir, bin)
    return p


class Result:
    """What the monitors of one run observed."""

    def __init__(self, prop):
        self.prop = prop
        self.evals = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.classes = {}
        self.samples = []
        self.notes = {}
        self.fails = []  # (key, message, replay command)
        self.errors = []  # reasons for no answer
        self.truncated = []
        self.jobs = []
        self.lock = threading.Lock()

    def add_class(self, k, v):
        self.classes[k] = self.classes.get(k, 0) + v


def cpu_seconds(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


def unesc(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "\\": "\\"}.get(m.group(1), m.group(1)), s)


def run_job(res, binary, prop, section, config, shard, nshards, scratch, extra_env=None, wrapper=(), hang_cpu=150, wall=None, label="", fail_exit=None, attach_err=False):
    """One worker process; its crash, hang or reported failure is attributed to the current case."""
    wall = wall or (7000 if TIER == "thorough" else 700)
    e = base_env()
    for f in CONFIGS[config]:
        e["GRAVIOLA_CPU_DISABLE_" + f] = "1"
    e.update(extra_env or {})
    name = f"{label}{prop}-{section}-{config}-{shard}"
    out = os.path.join(scratch, name)
    if config == "rel":
        binary = os.path.join(os.path.dirname(os.path.dirname(binary)), "rel", os.path.basename(binary))
    cmd = list(wrapper) + [binary, "worker", prop, section, config, str(shard), str(nshards), out]
    envs = " ".join([f"VERIF_SEED={SEED} VERIF_TIER={TIER}"] + [f"GRAVIOLA_CPU_DISABLE_{f}=1" for f in CONFIGS[config]] + [f"{k}={v!r}" for k, v in (extra_env or {}).items()])
    replay = f"{envs} {' '.join(cmd[:-1])}"
    t0 = time.time()
    errf = open(out + ".err", "wb")
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=errf, stdin=subprocess.DEVNULL)
    last, last_cpu, killed = None, 0.0, None
    while True:
        try:
            p.wait(timeout=0.25 if time.time() - t0 < 5 else 1.0)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            cur = open(out + ".crumb", "rb").read(200)
        except OSError:
            cur = None
        cpu = cpu_seconds(p.pid)
        if cur != last:
            last, last_cpu = cur, cpu
        elif cpu - last_cpu > hang_cpu and cur and cur.strip(b"\0"):
            killed = "hang"
        if time.time() - t0 > wall:
            killed = killed or "wall"
        if killed:
            p.kill()
            p.wait()
            break
    errf.close()
    err = open(out + ".err", "rb").read().decode("utf8", "replace")
    crumb = ""
    try:
        crumb = open(out + ".crumb", "rb").read().split(b"\0", 1)[0].decode("utf8", "replace")
    except OSError:
        pass
    job = {"section": section, "config": config, "shard": shard, "wall_s": round(time.time() - t0, 2)}
    done = False
    fails = []
    with res.lock:
        if os.path.exists(out):
            for line in open(out, encoding="utf8", errors="replace"):
                t = line.rstrip("\n").split("\t")
                if t[0] == "E":
                    res.evals += int(t[1])
                    job["evaluations"] = int(t[1])
                elif t[0] == "T" and t[1] == "true":
                    res.truncated.append(name)
                elif t[0] == "C":
                    res.add_class(unesc(t[1]), int(t[2]))
                elif t[0] == "N":
                    res.notes[f"{section}/{config}/{shard}: {unesc(t[1])}"] = unesc(t[2])
                elif t[0] == "S":
                    res.samples.append(f"[{section}/{config}] " + unesc(t[1]))
                elif t[0] == "F":
                    fails.append((unesc(t[1]), f"[{section}/{config}] " + unesc(t[2]), replay))
                elif t[0] == "DONE":
                    done = True
            if os.path.exists(out + ".d"):
                b = open(out + ".d", "rb").read()
                salt = hash((section,)) & 0xFFFF
                res.distinct.update(b[i:i + 8] for i in range(0, len(b), 8))
        res.jobs.append(job)
        if attach_err and fails:
            fails = [(k, m + " | report " + err[-2500:], r) for k, m, r in fails]
        res.fails.extend(fails)
        if killed == "hang":
            res.fails.append(("hang", f"[{section}/{config}] no progress within {hang_cpu} s of CPU time | case {crumb}", replay))
        elif killed == "wall":
            res.errors.append(f"{name}: wall-clock limit; last case {crumb[:300]}")
        elif p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP):
            res.fails.append((f"signal-{-p.returncode}", f"[{section}/{config}] process died of signal {-p.returncode} ({signal.Signals(-p.returncode).name}) | case {crumb} | stderr {err[-1500:]}", replay))
        elif p.returncode in (fail_exit or {}):
            # what a tool wrapped round the worker reports by exit code
            res.fails.append((fail_exit[p.returncode], f"[{section}/{config}] {fail_exit[p.returncode]} | case {crumb} | report {err[-2500:]}", replay))
        elif p.returncode != 0 and not (fails and p.returncode in (0, 1)):
            res.errors.append(f"{name}: exit {p.returncode}: {err[-1500:]}; last case {crumb[:300]}")
        elif not done:
            res.errors.append(f"{name}: no complete result: {err[-500:]}")
    return p.returncode, err, out


def run_jobs(res, binary, prop, scratch, jobs=None, par=None, **kw):
    if jobs is None:
        e = base_env()
        r = subprocess.run([binary, "jobs", prop], env=e, stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            log("cannot list jobs for", prop)
            sys.exit(2)
        jobs = [l.split() for l in r.stdout.splitlines() if l.strip()]
    if any(j[1] == "rel" for j in jobs):
        build("harness", "gv", args=["--profile", "rel"], profile_dir="rel")
    with concurrent.futures.ThreadPoolExecutor(max_workers=par or NCPU) as ex:
        fs = [ex.submit(run_job, res, binary, prop, s, c, int(i), int(n), scratch, **kw) for s, c, i, n in jobs]
        for f in fs:
            f.result()


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) case=<<(.*?)>> (.*)$", line.strip())
            if m:
                out.append({"property": m[1], "key": m[2], "case": m[3], "text": m[4]})
    return out


def finish(res, t0, level, rule, assumptions, extra=None):
    prop = res.prop
    os.makedirs(EVID, exist_ok=True)
    kf = [k for k in known_findings() if k["property"] == prop]
    seen, viol = {}, []
    for f in res.fails:
        k = next((k for k in kf if k["key"] == f[0] and k["case"] in f[1]), None)
        if k:
            seen[k["text"]] = seen.get(k["text"], 0) + 1
        else:
            viol.append(f)
    for t in seen:
        print(f"KNOWN-FINDING: property={prop} {t}")
    # samples: spread over classes
    samples, per = [], {}
    for s in res.samples:
        c = s.split(":", 1)[0]
        if per.get(c, 0) < 2 and len(samples) < 40:
            per[c] = per.get(c, 0) + 1
            samples.append(s)
    cov = {
        "evaluations": res.evals,
        "distinct_nontrivial": len(res.distinct) + res.extra_distinct,
        "rule": rule,
        "samples": samples,
        "observed": dict(sorted(res.classes.items())),
        "jobs": res.jobs,
    }
    if res.notes:
        cov["notes"] = res.notes
    if res.truncated:
        cov["truncated_by_time_budget"] = res.truncated
    if res.errors:
        cov["inconclusive"] = res.errors
    if seen:
        cov["known_findings_seen"] = seen
    cov.update(extra or {})
    ev = {"property": prop, "tier": TIER, "seed": int(SEED), "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    rp = os.path.join(EVID, f"replay-{prop}.txt")
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, "w") as f:
            for k, m, r in viol[:40]:
                f.write(f"property {prop}\nkey {k}\n{m}\nreplay: {r}\n\n")
        for k, m, r in viol[:5]:
            log(f"violation [{k}] {m[:1200]}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.stdout.flush()
        sys.exit(1)
    if res.errors:
        for x in res.errors[:5]:
            log("inconclusive:", x)
        sys.exit(2)
    if res.evals == 0:
        log("nothing was evaluated")
        sys.exit(2)
    log(f"{prop}: held; {res.evals} evaluations, {len(res.distinct) + res.extra_distinct} distinct, {time.time() - t0:.1f} s")
    sys.exit(0)


def main():
    if len(sys.argv) != 2:
        log("usage: check.py PROPERTY")
        sys.exit(2)
    prop = sys.argv[1]
    if prop == "--setup":
        build("harness", "gv")
        build("harness", "gv", args=["--profile", "rel"], profile_dir="rel")
        import props
        props.build_asan(sys.modules["__main__"])
        props.build_vg(sys.modules["__main__"])
        props.build_ct(sys.modules["__main__"])
        props.build_tsan(sys.modules["__main__"])
        props.build_tls(sys.modules["__main__"])
        log("harness builds")
        sys.exit(0)
    import props
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"gv-{prop}-")
    try:
        spec = props.PROPS[prop]
        res = Result(prop)
        runner = spec.get("runner", props.default_runner)
        extra = runner(sys.modules["__main__"], res, prop, scratch)
        finish(res, t0, spec["level"], spec["rule"], spec["assumptions"], extra)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
