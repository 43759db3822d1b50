#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from a spec module (see tools/seeds/*.py)."""
import json, os, subprocess, sys, runpy
R = "/tmp/mkseed"
if not os.path.isdir(R):
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
subprocess.check_call("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R)
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: the property is broken
set -e
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
graviola = { path = "$repo/graviola" }
%s
[workspace]
[profile.dev]
opt-level = 1
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t"
export CARGO_TARGET_DIR="$t/target"
cargo build --offline -q
timeout 250 ./target/debug/demo
'''
def seed(id, prop, needs, breaks, edits, demo, deps="", sh=None):
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=R)
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        assert s.count(old) == 1, (id, f, "ambiguous", s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=R, text=True))
    open(d + "/demo.rs", "w").write(demo)
    if sh == "GETRANDOM":
        sh = (DEMO % (deps + 'getrandom = "0.3"')).replace("cargo build", """export RUSTFLAGS='--cfg getrandom_backend="custom"'\ncargo build""")
    open(d + "/demo.sh", "w").write(sh or DEMO % deps)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=R)
for f in sys.argv[1:]:
    runpy.run_path(f, {"seed": seed})
