#!/usr/bin/env python3
"""mutate.py <file>: tries changes to /repo in private copies (own mount namespace) and reports which checks notice.
Blocks named 'seeded:<id>' need no edits.
File: blocks '=== name | C01 C05' followed by 'FILE path' / '<<<<' old '====' new '>>>>' edits."""
import sys, subprocess, os, re, shutil, threading, queue, time
S = os.environ.get("MUT_DIR", "/tmp/mut"); SLOTS = int(os.environ.get("SLOTS", "3")); ENV = os.environ.get("MUT_ENV", "")
text = open(sys.argv[1]).read()
only = sys.argv[2:]
jobs = queue.Queue()
for name, checks, body in re.findall(r"^=== (\S+) \| ([^\n]*)\n(.*?)(?=^=== |\Z)", text, re.S | re.M):
    if not only or name in only: jobs.put((name, checks.split(), re.findall(r"^FILE (\S+)\n<<<<\n(.*?)====\n(.*?)>>>>\n", body, re.S | re.M)))
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
lock = threading.Lock()
def worker(k):
    d = f"{S}/{k}"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {d}/repo; cp -a /repo {d}/repo; rm -rf {d}/repo/target; mkdir -p {d}/verif; rsync -a --delete --exclude target --exclude .git /verif/ {d}/verif/ || (rm -rf {d}/verif && mkdir {d}/verif && cd /verif && tar c --exclude=./target --exclude=./.git . | tar x -C {d}/verif)")
    if not os.path.exists(f"{d}/verif/target"): sh(f"cp -a /verif/target {d}/verif/target")
    while True:
        try: name, checks, edits = jobs.get_nowait()
        except queue.Empty: return
        sh(f"git -C {d}/repo checkout -q -- .")
        bad = None
        for f, old, new in edits:
            p = f"{d}/repo/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = f"edit in {f} matches {s.count(old)} times"; break
            open(p, "w").write(s.replace(old, new))
        if name.startswith("seeded:"):  # a planted bug, by its folder's name
            bad = sh(f"git -C {d}/repo apply /verif/seeded/{name[7:]}/patch.diff").stderr or None
        elif not edits: bad = "no edits"
        out = []
        if bad: out.append(bad)
        else:
            for c in checks:
                t = time.time()
                r = sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; cd /verif; {ENV} ./check.sh {c} quick'")
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                key = ""
                if r.returncode == 1:
                    m = [l for l in r.stdout.splitlines() if l.strip()]
                    key = " / ".join(m)[:230]
                elif r.returncode != 0:
                    key = (r.stderr + r.stdout)[-600:]
                out.append(f"{c}:{'CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'RC%d' % r.returncode} ({time.time()-t:.0f}s) {key}")
        with lock: print(f"{name}: " + "\n    ".join(out), flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
