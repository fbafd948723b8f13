#!/usr/bin/env python3
"""recheck.py WORKERS OUT.json [IDs]: applies every seeded change to a scratch copy of /repo, builds a copy of the
harness against it and runs the quick check of its property there; writes which change is caught by which sub-check.
Development tool; no registered check uses it."""
import json, os, subprocess, sys, threading, queue, shutil, re, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("RC", "/tmp/rc")
def sh(c, cwd=None, env=None, t=1200):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors="replace")
    return p.returncode, p.stdout
q, out, lock = queue.Queue(), {}, threading.Lock()
def original(patch):
    """some removed line of the patch belongs to the repository's first commit"""
    first = sh("git rev-list --max-parents=0 HEAD", "/repo")[1].strip()
    base = sh("git log --format=%H --reverse", "/repo")[1].split()[0]
    f, ln, ok = None, 0, False
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(f"git blame -l -s -L {ln},{ln} HEAD -- {f}", "/repo")[1].split()[0].lstrip("^")
            if base.startswith(b) or first.startswith(b): ok = ok or l[1:].strip() not in ("", "}", "{")
            ln += 1
        elif l.startswith(" "): ln += 1
    return ok
def work(n):
    d = f"{SCR}/w{n}"; os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {d}/repo && mkdir {d}/repo && git -C /repo archive HEAD | tar x -C {d}/repo && mkdir -p {d}/verif/evidence {d}/verif/replays")
    sh(f"rsync -a --exclude target --exclude target-cov {ROOT}/harness/ {d}/verif/harness/; cp {ROOT}/run.sh {ROOT}/known_findings.txt {d}/verif/; sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        s = f"{ROOT}/seeded/{i}"
        prop = json.load(open(s + "/meta.json"))["property"]
        sh(f"patch -p1 -s < {s}/patch.diff", d + "/repo")
        t = time.time()
        rc, o = sh(f"timeout 900 bash run.sh {prop} quick", d + "/verif", {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
        sh(f"patch -R -p1 -s < {s}/patch.diff", d + "/repo")
        caught = rc == 1 and f"VIOLATION property={prop}" in o
        subs = sorted(set(re.findall(r"sub-check (\S+)", o)))
        with lock:
            out[i] = dict(property=prop, caught=caught, rc=rc, subs=subs, original=original(s + "/patch.diff"), s=round(time.time() - t))
            print(i, prop, "CAUGHT" if caught else f"MISSED rc={rc}", subs, "" if out[i]["original"] else "NOT ORIGINAL", flush=True)
            json.dump(out, open(sys.argv[2], "w"), indent=1, sort_keys=True)
for i in (sys.argv[3:] or sorted(os.listdir(ROOT + "/seeded"))): q.put(i)
ts = [threading.Thread(target=work, args=(n,)) for n in range(int(sys.argv[1]))]
[t.start() for t in ts]; [t.join() for t in ts]
print("caught", sum(x["caught"] for x in out.values()), "of", len(out))
