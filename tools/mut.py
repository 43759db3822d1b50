#!/usr/bin/env python3
"""Development aid (no check uses it): runs checks against many one-off changes.

mut.py [--slots N] [--only ID,ID] SPEC.py ; SPEC calls m(id, "C01 C02", [(file, old, new[, nth])...])
Each change is tried in a scratch copy (/tmp/mutN); prints CAUGHT / missed per property.
"""
import os, subprocess, sys, runpy, threading, queue, shutil, json
a = sys.argv[1:]; slots = 2; only = None
while a and a[0].startswith("--"):
    o = a.pop(0)
    if o == "--slots": slots = int(a.pop(0))
    elif o == "--only": only = set(a.pop(0).split(","))
Q = queue.Queue(); M = []
def m(id, props, edits): M.append((id, props.split(), edits))
def seed(id, prop, needs, breaks, edits, demo=None, deps="", sh=None): M.append((id, [prop], edits))
for f in a: runpy.run_path(f, {"m": m, "seed": seed})
for x in M:
    if not only or x[0] in only: Q.put(x)
V = "/verif"; lock = threading.Lock(); res = []
def say(*x):
    with lock: print(*x, flush=True)
def work(n):
    S = f"/tmp/mut{n}"; R = S + "/repo"; W = S + "/verif"
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R)
    subprocess.check_call(f"rsync -a --delete --exclude=/target --exclude=/seeded --exclude=/evidence --exclude=/.git {V}/ {W}/", shell=True) if shutil.which("rsync") else subprocess.check_call(f"cd {V} && tar c --exclude=./target --exclude=./seeded --exclude=./evidence --exclude=./.git . | tar x -C {W}", shell=True)
    subprocess.check_call(f"grep -rlE '/repo' --include=*.toml --include=*.py --include=*.rs --include=*.sh {W} --exclude-dir=target | xargs sed -i 's#/repo/#{R}/#g; s#\"/repo\"#\"{R}\"#g'", shell=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith("CARGO")}
    env.update(VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    while True:
        try: id, props, edits = Q.get_nowait()
        except queue.Empty: return
        try:
            subprocess.check_call("git checkout -q -- .", shell=True, cwd=R)
            for e in edits:
                f, old, new = e[:3]; p = f"{R}/{f}"; s = open(p).read()
                c = s.count(old); nth = e[3] if len(e) > 3 else None
                if c == 0 or (c > 1 and nth is None): raise ValueError(f"{f}: {c} matches of {old[:50]!r}")
                if nth == "all": s = s.replace(old, new)
                else:
                    i = -1
                    for _ in range((nth or 0) + 1): i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                open(p, "w").write(s)
            for p in props:
                try:
                    r = subprocess.run(f"python3 check.py {p}", shell=True, cwd=W, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired: rc, o = 124, ""
                v = "CAUGHT" if rc == 1 and f"VIOLATION property={p}" in o else {0: "MISSED"}.get(rc, f"RC={rc}")
                if "could not compile" in o: v = "NOBUILD"
                ls = [l for l in o.splitlines() if l.startswith(("violation", "inconclusive", "error"))]
                say(f"{v:8} {p} {id}: {(ls or [''])[0][:160]}" + ("\n" + o[-1500:] if v in ("NOBUILD",) or v.startswith("RC") else ""))
                res.append((v, p, id))
        except Exception as ex: say("ERROR", id, ex)
T = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
[t.start() for t in T]; [t.join() for t in T]
print("MISSED:", [(i, p) for v, p, i in res if v != "CAUGHT"])
