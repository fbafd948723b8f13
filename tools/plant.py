#!/usr/bin/env python3
"""dev: plant.py SPEC.py [ID..]  -- SPEC defines S(id, prop, needs, breaks, edits, main).
Confirms each planted change (build, tests, demo with and without) in scratch copies of /repo and /verif below $PL (default /tmp/pl),
writes /verif/seeded/<id>/ when it counts, and runs the property's quick check from the copy."""
import sys, os, subprocess, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = os.environ.get("PL", "/tmp/pl")
R = PL + "/repo"
BASE = "1098503"
specs = []
def S(id, prop, needs, breaks, edits, main): specs.append((id, prop, needs, breaks, edits, main))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
def setup():
    sh(f"mkdir -p {PL}/verif; rsync -a --delete --exclude /target-x /repo/ {R}/ 2>/dev/null || (mkdir -p {R}; cp -a /repo/. {R}/)")
    sh(f"git -C {R} checkout -q -- . ; cd {V} && cp -a run.sh known_findings.txt {PL}/verif/ && mkdir -p {PL}/verif/harness {PL}/verif/evidence && rm -r {PL}/verif/harness/src; cp -a harness/src harness/Cargo.toml harness/Cargo.lock {PL}/verif/harness/")
    sh(f"sed -i 's#path = \"/repo\"#path = \"{R}\"#' {PL}/verif/harness/Cargo.toml")
    for f in ("build.sh", "test.sh"):
        sh(f"sed 's#/repo#{R}#g' /opt/vp/{f} > {PL}/{f}")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
rust-3d = { path = "$repo" }
X
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR="$tmp/target"
cargo build -q --offline --manifest-path "$tmp/Cargo.toml" || exit 3
timeout 60 "$tmp/target/debug/demo"
'''
setup()
for id, prop, needs, breaks, edits, main in specs:
    if want and id not in want: continue
    d = f"{PL}/seeded/{id}"
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
    try:
        ok = True
        for f, old, new in edits:
            p = f"{R}/src/{f}"; t = open(p).read()
            if t.count(old) != 1: print(id, "EDIT", f, t.count(old), "matches"); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        diff = sh(f"git -C {R} diff").stdout
        # removed lines must be original
        for f, old, new in edits:
            hunk = sh(f"git -C {R} diff -U0 src/{f}").stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    b = sh(f"git -C {R} blame -s -l -L {a},{a+n-1} HEAD -- src/{f}").stdout
                    for l in b.splitlines():
                        if not l.lstrip("^").startswith(BASE): print(id, "NOT ORIGINAL:", l)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(main)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        b = sh(f"bash {PL}/build.sh")
        if b.returncode: print(id, "BUILD", b.stderr[-1500:]); continue
        t = sh(f"bash {PL}/test.sh {PL}/out.json")
        o = json.load(open(f"{PL}/out.json"))
        if len(o["passed"]) < 29 or o["failed"]: print(id, "TESTS FAIL", o["failed"]); continue
        w = sh(f"bash {d}/demo.sh", cwd=R)
        c = sh(f"bash {PL}/verif/run.sh {prop} quick")
        sh(f"git -C {R} checkout -- .")
        u = sh(f"bash {d}/demo.sh", cwd=R)
        line = [l for l in c.stdout.splitlines() if "sub-check" in l]
        good = u.returncode == 0 and w.returncode not in (0, 3)
        print(id, prop, "demo", w.returncode, "/", u.returncode, "OK" if good else "BAD DEMO " + (u.stderr + w.stderr)[-1500:], "| check", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED " + c.stderr[-300:], (line or [""])[0][:160], flush=True)
        if good: sh(f"mkdir -p {V}/seeded/{id} && cp {d}/* {V}/seeded/{id}/")
    finally:
        sh(f"git -C {R} checkout -- .")
