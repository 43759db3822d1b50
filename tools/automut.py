#!/usr/bin/env python3
"""Development aid (no check uses it): systematic small changes to the Rust code of /repo.

automut.py [--slots N] [--per K] [--seed S] [--files RE] [--list]
Each change that builds and passes the repository's baseline tests is shown to the checks that
concern its file, until one reports it.  Prints TESTS / NOBUILD / CAUGHT / SURVIVED per change.
"""
import json, os, queue, random, re, subprocess, sys, threading, argparse
ap = argparse.ArgumentParser()
ap.add_argument("--slots", type=int, default=3); ap.add_argument("--per", type=int, default=12)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default="."); ap.add_argument("--list", action="store_true")
ap.add_argument("--base", default="/tmp/am")
A = ap.parse_args()
V = "/verif"
MAP = [("high/asn1", "C16 C17 C18 C11"), ("high/pkcs8", "C16 C17"), ("high/pkcs1", "C11 C12 C17"), ("high/rsa", "C11 C12 C16 C13 C19 C14"),
       ("high/ecdsa", "C08 C09 C16 C22 C19 C18 C07"), ("high/curve", "C07 C05 C08 C16 C09"), ("high/ed25519", "C10 C16 C19 C22 C07"),
       ("high/hmac_drbg", "C09"), ("high/hmac", "C04 C09"), ("high/hash", "C04 C03 C09"), ("mid/aes_gcm", "C01 C02 C18 C20"),
       ("chacha20poly1305", "C01 C02 C19"), ("mid/p256", "C05 C07 C08 C13 C09 C16 C20 C22"), ("mid/p384", "C05 C07 C08 C13 C09 C16 C20 C22"),
       ("rsa_priv/generate", "C14 C22"), ("mid/rsa_priv", "C12 C13 C16 C19 C14"), ("mid/rsa_pub", "C11 C16 C12"), ("mid/sha", "C03 C15"),
       ("mid/util", "C05 C16 C07"), ("mid/rng", "C22"), ("mid/x25519", "C06 C22 C19"), ("mid/ed25519", "C10 C07 C19"), ("mid/mlkem", "C15 C07 C22 C19"),
       ("low/posint", "C12 C11 C13 C14 C16 C19 C20"), ("generic/blockwise", "C03 C18"), ("generic/poly", "C01"), ("generic/chacha", "C01"),
       ("generic/ghash", "C01 C21"), ("generic/sha", "C03 C21"), ("generic/ct_", "C02 C04 C15 C20"), ("generic/mlkem", "C15"), ("generic/zero", "C19"),
       ("low/entry", "C19 C21"), ("low/ct", "C20"), ("x86_64/aes_gcm", "C01 C18 C02"), ("x86_64/aes", "C01"), ("x86_64/ghash", "C01"), ("x86_64/chacha", "C01 C18"),
       ("x86_64/cpu", "C21 C19 C18"), ("x86_64/sha", "C03 C18"), ("x86_64/mlkem", "C15 C18"), ("x86_64/mod", "C01 C21"), ("x86_64/bignum_", "C05 C08 C12 C14"), ("x86_64/", "C10 C05"),
       ("rustls-graviola/src/aead", "C25"), ("src/hash", "C24"), ("src/hmac", "C24"), ("src/kx", "C24"), ("src/sign", "C27 C24"), ("src/suites", "C24 C25"),
       ("src/ticketer", "C26"), ("src/verify", "C27 C24"), ("src/lib", "C24 C27")]
def props(f):
    for k, p in MAP:
        if k in f: return p.split()
    return []
OPS = [(r"(?<=[\w)\]]) == (?=[\w(&*!\[])", " != "), (r" != ", " == "), (r"(?<=[\w)\]]) < (?=[\w(])", " <= "), (r" <= ", " < "), (r"(?<=[\w)\]]) > (?=[\w(])", " >= "), (r" >= ", " > "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"(?<=[\w)\]]) \+ (?=[\w(])", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" >> ", " << "), (r" \^ ", " | "), (r" \| ", " ^ "), (r"(?<=[\w)\]]) & (?=[\w(])", " | "), (r"(?<![\w.#])(\d+)(?![\w.\]])", "N+1"), (r"(?<=\.\.)(\d+)", "N+1"), (r"(?<=\[)(\d+)(?=\])", "N+1"),
       (r"\.min\(", ".max("), (r"\?;", ";")]
def sites(path):
    s = open(path).read(); out = []; off = 0
    cut = re.search(r"\n#\[cfg\(test\)\]\n(?!.*\nuse)", s)
    end = cut.start() if cut else len(s)
    for line in s.splitlines(True):
        t = line.strip(); o = off; off += len(line)
        if o > end: break
        if not t or t.startswith(("//", "/*", "pub(crate) mod", "mod ", "#", "use ", "pub use", "debug_assert", "Q!(", '"')) or "asm!" in t or re.match(r"^(0x[0-9a-f_]+,? ?)+$", t) or t.count("0x") > 2 or '"' in t: continue
        code = line.split("//")[0]
        for pat, new in OPS:
            for k in re.finditer(pat, code):
                n = new
                if new == "N+1": n = str(int(k.group(1)) + 1)
                out.append((o + k.start(), o + k.end(), n, line))
        if t.endswith(";") and not t.startswith(("let ", "return Ok", "const ", "pub ", "static ", "type ", "mod ", "}", "struct")):
            i = len(line) - len(line.lstrip()); out.append((o + i, o + len(line.rstrip()), "", line))
    return s, out
M = []
rnd = random.Random(A.seed)
for d in ("/repo/graviola/src", "/repo/rustls-graviola/src"):
    for r, _, fs in sorted(os.walk(d)):
        if "aarch64" in r: continue
        for f in sorted(fs):
            p = os.path.join(r, f); rel = p[6:]
            if not f.endswith(".rs") or "precomp" in f or f in ("tests.rs", "inline_assembly_safety.rs", "macros.rs") or not re.search(A.files, rel) or not props(rel): continue
            s, st = sites(p)
            k = A.per if len(st) > 40 else max(2, A.per // 3)
            if "x86_64/bignum" in rel or "x86_64/mlkem" in rel or "x86_64/edw" in rel or "x86_64/p" in rel: k = min(k, 2)
            for x in rnd.sample(st, min(k, len(st))): M.append((rel, x))
rnd.shuffle(M)
print(len(M), "changes", flush=True)
if A.list:
    for f, (a, b, n, l) in M[:60]: print(f, repr(l.strip()[:80]), "->", repr(n))
    sys.exit()
Q = queue.Queue(); [Q.put(x) for x in M]
lock = threading.Lock(); count = {}
def say(k, *x):
    with lock: count[k] = count.get(k, 0) + 1; print(k, *x, flush=True)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def run(c, cwd, env, t):
    try:
        r = subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", c], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout
    except Exception as e: return 124, str(e)
def work(n):
    S = f"{A.base}{n}"; R = S + "/repo"; W = S + "/verif"; os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R)
    subprocess.check_call(f"rsync -a --delete --exclude=/target --exclude=/seeded --exclude=/evidence --exclude=/.git {V}/ {W}/", shell=True)
    subprocess.check_call(f"grep -rlE '/repo' --include=*.toml --include=*.py --include=*.rs --include=*.sh {W} --exclude-dir=target | xargs sed -i 's#/repo/#{R}/#g; s#\"/repo\"#\"{R}\"#g'", shell=True)
    te = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
              CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_TARGET_DIR=R + "/target", CARGO_TERM_COLOR="never")
    ce = {k: v for k, v in os.environ.items() if not k.startswith("CARGO")}; ce.update(VERIF_TIER="quick", VERIF_SEED="1")
    while True:
        try: rel, (a, b, new, line) = Q.get_nowait()
        except queue.Empty: return
        subprocess.check_call("git checkout -q -- .", shell=True, cwd=R)
        p = f"{R}/{rel}"; s = open(p).read(); open(p, "w").write(s[:a] + new + s[b:])
        ln = s.count("\n", 0, a) + 1
        tag = f"{rel}:{ln} {line.strip()[:90]!r} [{s[a:b][:30]!r} -> {new!r}]"
        pk = "-p rustls-graviola" if rel.startswith("rustls") else "-p graviola -p rustls-graviola"
        rc, o = run(f"cargo nextest run --no-run {pk} --offline 2>&1", R, te, 900)
        if "could not compile" in o: say("NOBUILD", tag); continue
        rc, o = run(f"cargo nextest run {pk} --offline --no-fail-fast 2>&1", R, te, 400)
        o = re.sub(r"\x1b\[[0-9;]*m", "", o)
        if "could not compile" in o: say("NOBUILD", tag); continue
        failed = {re.sub(r"\s+", "::", m.group(1).strip()) for m in re.finditer(r"(?:FAIL|SIG\w+|ABORT|TIMEOUT) \[[^\]]*\]\s*(?:\(\s*\d+/\d+\))?\s*(.*)", o)}
        lost = [x for x in base if x in failed]
        if lost or rc == 124: say("TESTS", tag, (lost or ["hang"])[0]); continue
        got = None
        for c in props(rel):
            rc, o = run(f"python3 check.py {c}", W, ce, 900)
            if rc == 1 and f"VIOLATION property={c}" in o: got = c; break
            if rc not in (0, 1): got = f"{c}:rc{rc}"; break
        if got and ":rc" not in got: say("CAUGHT", got, tag)
        elif got: say("ERROR", got, tag, o[-400:].replace("\n", " | "))
        else: say("SURVIVED", tag)
T = [threading.Thread(target=work, args=(i,)) for i in range(A.slots)]
[t.start() for t in T]; [t.join() for t in T]
print(count)
