#!/usr/bin/env python3
"""mkpatch.py <id> <property> <needs> <what_it_breaks>  (edits read from stdin: blocks FILE / <<<< old ==== new >>>>)
Makes the change in a scratch worktree of /repo, confirms build, stable tests and the demonstration with and without it."""
import sys, subprocess, os, json, tempfile, shutil, re
bid, prop, needs, what = sys.argv[1:5]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "seeded", bid)
text = sys.stdin.read()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
try:
    for f, old, new in re.findall(r"^FILE (\S+)\n<<<<\n(.*?)====\n(.*?)>>>>\n", text, re.S | re.M):
        p = os.path.join("/repo", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    assert diff.strip()
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "--nodemo" not in sys.argv:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stderr[-2000:]
        r = sh("bash /opt/vp/test.sh /tmp/mkpatch-out.json"); print("tests", r.returncode, open("/tmp/mkpatch-out.json").read()[:300])
        t = sh(f"bash {d}/demo.sh", cwd="/repo"); print("with patch:", t.returncode, t.stdout[-600:])
        assert t.returncode != 0 and "could not compile" not in t.stdout
finally:
    sh("git -C /repo checkout -- .")
if "--nodemo" not in sys.argv:
    sh("bash /opt/vp/build.sh")
    t = sh(f"bash {d}/demo.sh", cwd="/repo"); print("without:", t.returncode, t.stdout[-600:])
    assert t.returncode == 0
print("kept", bid)
