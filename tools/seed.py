#!/usr/bin/env python3
"""Development aid (no check uses it): tries a planted change in scratch copies.

seed.py [--slot N] [--notest] ID [PROP...]
  copies /repo's HEAD to /tmp/seedN/repo and /verif's tree to /tmp/seedN/verif, applies
  seeded/ID/patch.diff, runs the repository's tests, the demo with and without the change,
  and the checks of the properties given (default: the one in meta.json).
"""
import json, os, re, subprocess, sys, shutil
a = sys.argv[1:]
slot, notest, nodemo = "0", False, False
while a and a[0].startswith("--"):
    o = a.pop(0)
    if o == "--slot": slot = a.pop(0)
    elif o == "--notest": notest = True
    elif o == "--nodemo": nodemo = True
sid, props = a[0], a[1:]
V = "/verif"; S = f"/tmp/seed{slot}"; R = S + "/repo"; W = S + "/verif"
src = f"{V}/seeded/{sid}"
meta = json.load(open(src + "/meta.json"))
props = props or [meta["property"]]
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_TARGET_DIR=R + "/target", SLOW_TESTS="1", VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
def sh(c, cwd=R, e=env, t=1800):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
os.makedirs(S, exist_ok=True)
if not os.path.isdir(R):
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd -e target")
demo_env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF", "CARGO"))}
demo_env["PATH"] = env["PATH"]
demo_env["CARGO_NET_OFFLINE"] = "true"
D = S + "/demo"; shutil.rmtree(D, ignore_errors=True); shutil.copytree(src, D)
out = {"id": sid}
if not nodemo:
    rc, o = sh(f"bash {D}/demo.sh", e=demo_env); out["demo_clean"] = rc
    if rc: print(o[-3000:])
rc, o = sh(f"git apply {src}/patch.diff")
if rc: print(o); sys.exit("patch does not apply")
if not nodemo:
    rc, o = sh(f"bash {D}/demo.sh", e=demo_env); out["demo_bug"] = rc
    out["demo_says"] = [l for l in o.strip().splitlines() if "panicked" in l or "assert" in l or "DEMO" in l][-2:]
    if "could not compile" in o or "error[" in o: print(o[-2500:]); out["demo_bug"] = "BUILD FAILURE"
if not notest:
    rc, o = sh("cargo nextest run --workspace --offline --no-fail-fast")
    o = re.sub(r"\x1b\[[0-9;]*m", "", o)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = {m.group(1).strip() for m in re.finditer(r"PASS \[[^\]]*\]\s*(?:\(\s*\d+/\d+\))?\s*(.*)", o)}
    norm = {re.sub(r"\s+", "::", p) for p in passed}
    lost = [b for b in base if not b.startswith("doc:") and b not in norm]
    out["tests_lost"] = lost[:10]
    if not passed: print(o[-1500:])
if props != ["none"]:
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(f"rsync -a --delete --exclude=/target --exclude=/seeded --exclude=/evidence --exclude=/.git {V}/ {W}/", shell=True) if shutil.which("rsync") else subprocess.check_call(f"cd {V} && tar c --exclude=./target --exclude=./seeded --exclude=./evidence --exclude=./.git . | tar x -C {W}", shell=True)
    subprocess.check_call(f"grep -rlE '/repo' --include=*.toml --include=*.py --include=*.rs --include=*.sh {W} --exclude-dir=target | xargs sed -i 's#/repo/#{R}/#g; s#\"/repo\"#\"{R}\"#g'", shell=True)
    for p in props:
        ce = {k: v for k, v in env.items() if not k.startswith("CARGO")}
        rc, o = sh(f"python3 check.py {p}", cwd=W, e=ce, t=1000)
        out[p] = "CAUGHT" if rc == 1 and f"VIOLATION property={p}" in o else {0: "missed"}.get(rc, f"rc={rc}")
        ls = [l for l in o.splitlines() if l.startswith(("violation", "inconclusive", "error"))]
        print("\n".join(x[:300] for x in ls[:2]))
sh("git checkout -q -- .")
print(json.dumps(out))
