#!/usr/bin/env python3
"""dev: mutants.py build | cover | run [N [SCALE]] | show -- mutation analysis of the checks, in /tmp/mu"""
import os, re, subprocess, sys, json, random
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/mu"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0", RUSTFLAGS="--cap-lints warn", CARGO_TARGET_DIR=f"{W}/target", CARGO_TERM_COLOR="never")
BIN = f"{W}/target/release/vharness"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, env=ENV, **k)
def mutate():
    r = sh(f"/tmp/mutator-target/release/mutator /repo/src {W}/repo/src {W}/black > {W}/list")
    assert r.returncode == 0, r.stderr
    return r.stderr
def build():
    os.makedirs(W, exist_ok=True)
    sh(f"mkdir -p {W}/repo {W}/harness; cp /repo/Cargo.toml /repo/Cargo.lock {W}/repo/; cp -r /repo/benches {W}/repo/; rm -rf {W}/harness/src; cp -r /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {W}/harness/; sed -i 's#/repo#{W}/repo#' {W}/harness/Cargo.toml; cp /verif/known_findings.txt {W}/")
    black = set(open(f"{W}/black").read().split()) if os.path.exists(f"{W}/black") else set()
    open(f"{W}/black", "w").write(" ".join(black))
    for rnd in range(60):
        print(mutate().strip(), flush=True)
        r = sh(f"cargo build --release --offline --manifest-path {W}/harness/Cargo.toml --message-format json")
        if r.returncode == 0: print("built"); break
        new = set(); n = 0
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            m = m.get("message")
            if not m or m.get("level") != "error": continue
            moved = (m.get("code") or {}).get("code") in ("E0382", "E0381", "E0505", "E0506", "E0499")
            if moved: new |= set(re.findall(r"if !crate::mu::on\((\d+)\)", m["rendered"]))
            for sp in m["spans"]:
                if not sp["is_primary"] and not moved: continue
                n += 1
                f = sp["file_name"]
                if not f.startswith("/"): f = f"{W}/repo/{f}"
                t = open(f, "rb").read()
                a, b = sp["byte_start"], sp["byte_end"]
                # innermost mutant text containing the error, else all whose original part lies around it
                ids = []
                for x in re.finditer(rb"if (!?)crate::mu::on\((\d+)\)", t):
                    if x.start() > b: break
                    ids.append((x.start(), x.group(2).decode(), x.end()))
                inner = None
                for st, i, en in ids:
                    # extent of the mutated block
                    d = 0; k = t.index(b"{", en)
                    j = k
                    while True:
                        c = t[j:j+1]
                        if c == b"{": d += 1
                        if c == b"}":
                            d -= 1
                            if d == 0: break
                        j += 1
                    if k <= a < j: inner = i
                if moved:
                    # a deleted jump: the one whose region holds the place, or the next ones
                    near = [i for st, i, en in ids if t[st:st+4] == b"if !"][-1:]
                    near += [x.group(1).decode() for x in re.finditer(rb"if !crate::mu::on\((\d+)\) \{ (?:return|break|continue)", t[b:b+1500])][:1]
                    if inner: near.append(inner)
                    new |= set(near)
                    continue
                if inner is None:
                    c = [i for st, i, en in ids if st >= a] or [i for st, i, en in ids][-3:]
                    new |= set(c)
                else: new.add(inner)
        if not (new - black): print([json.loads(l)['message']['rendered'] for l in r.stdout.splitlines() if '"level":"error"' in l][:3]); break
        black |= new
        open(f"{W}/black", "w").write(" ".join(sorted(black, key=int)))
        print(n, "errors", len(new), "new", flush=True)
def props(): return sorted(l.split()[0] for l in sh(f"{BIN} list").stdout.splitlines())
def cover():
    for p in props():
        e = dict(ENV, MU_COVER=f"{W}/cover-{p}", VERIF_ROOT=W)
        r = subprocess.run([BIN, "run", p, "quick", "--scale", "0.05"], env=e, capture_output=True, text=True)
        print(p, r.returncode, len(open(f"{W}/cover-{p}").read().split()), flush=True)
def load():
    ms = {}
    for l in open(f"{W}/list"):
        q = l.rstrip("\n").split("\t")
        if len(q) >= 4 and q[0].isdigit(): ms[int(q[0])] = q[1:]
    cov = {p: set(map(int, open(f"{W}/cover-{p}").read().split())) for p in props()}
    return ms, cov
def one(id, cov, scale):
    ps = sorted([p for p in cov if id in cov[p]], key=lambda p: len(cov[p]))
    if not ps: return "UNREACHED"
    root = f"{W}/roots/{id}"
    os.makedirs(root, exist_ok=True)
    sh(f"cp {W}/known_findings.txt {root}/")
    try:
        for sc in (scale / 10, scale):
            for p in ps:
                e = dict(ENV, MU=str(id), VERIF_ROOT=root, VH_THREADS="1", VH_HANG="20", VH_NOSHRINK="1")
                try: r = subprocess.run([BIN, "run", p, "quick", "--scale", str(sc)], env=e, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired: return f"TIMEOUT {p}"
                if r.returncode == 1: return f"CAUGHT {p}"
                if r.returncode: return f"EXIT{r.returncode} {p}"
    finally:
        sh(f"rm -rf {W}/roots/{id}")
    return "SURVIVED " + ",".join(ps)
def run(n, scale, filt=None):
    ms, cov = load()
    done = {}
    if os.path.exists(f"{W}/results"):
        for l in open(f"{W}/results"): done[int(l.split("\t")[0])] = l
    ids = [i for i in ms if i not in done and (not filt or re.search(filt, ms[i][0]))]
    random.Random(1).shuffle(ids)
    ids = ids[:n]
    out = open(f"{W}/results", "a")
    with ThreadPoolExecutor(8) as ex:
        for i, r in zip(ids, ex.map(lambda i: one(i, cov, scale), ids)):
            out.write(f"{i}\t{r}\t" + "\t".join(ms[i]) + "\n"); out.flush()
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "build": build()
    elif c == "cover": cover()
    elif c == "run": run(int(sys.argv[2]), float(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else None)
