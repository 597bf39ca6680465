"""trymut.py LIST.py [ID...]: LIST.py defines M = [(id, "Cxx Cyy", file, old, new), ...] (or a list of (file, old, new) as third).
Applies each to a scratch clone, runs the repository's tests, then the named checks; prints who noticed."""
import json
import os
import re
import subprocess
import sys

W = os.environ.get("WD", "/tmp/sw") + "0"
VD = os.environ.get("VDIR", "/verif")


def sh(c, cwd=None, env=None, timeout=1500):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


ns = {}
exec(open(sys.argv[1]).read(), ns)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for m in ns["M"]:
    if sys.argv[2:] and m[0] not in sys.argv[2:]:
        continue
    ed = m[2] if isinstance(m[2], list) else [m[2:5]]
    sh("git checkout -q -f . && git fetch -q && git checkout -q -f origin/main", W)
    bad = ""
    for f, a, b in ed:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(a) != 1:
            bad = "%s: %d matches of %r" % (f, t.count(a), a[:50])
            break
        open(p, "w").write(t.replace(a, b))
    if bad:
        print(m[0], "NOEDIT", bad, flush=True)
        continue
    if not os.environ.get("NOTEST"):
        if os.path.exists(W + ".json"):
            os.remove(W + ".json")
        try:
            r = sh("bash /verif/tools/scratch_test.sh %s %s.json" % (W, W), W, timeout=400)
            miss = base - set(json.load(open(W + ".json"))["passed"])
        except Exception as e:
            miss = [str(e)]
        if miss:
            print(m[0], "TESTS", sorted(miss)[:3] if len(miss) < 60 else "build? " + (r.stdout + r.stderr)[-300:], flush=True)
            continue
    by = None
    for c in m[1].split():
        r = sh("timeout 900 python3 check.py " + c, VD, dict(os.environ, VERIF_REPO=W))
        if r.returncode:
            by = "%s rc=%d %s" % (c, r.returncode, re.findall(r"^--- (\S+)", r.stdout, re.M)[:3] or (r.stdout + r.stderr)[-300:])
            break
    print(m[0], "caught " + by if by else "MISSED by " + m[1], flush=True)
sh("git checkout -q -f .", W)
