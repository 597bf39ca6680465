"""mkseed.py SPEC.py... : make and confirm planted bugs from specs (in scratch clones under /tmp), store them in /verif/seeded.
A spec defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo=python text or sh=shell text, files={})]"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

V = "/verif/seeded"
NW = 3
pool = queue.Queue()
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/_build/python PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec timeout 200 /usr/bin/python3 "$D/demo.py"
'''


def sh(c, cwd=None, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def one(s):
    W = pool.get()
    try:
        sh("git checkout -q -f . && git fetch -q && git checkout -q -f origin/main", W)
        for f, a, b in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(a) != 1:
                return s["id"], "edit of %s matches %d times: %r" % (f, t.count(a), a[:60])
            open(p, "w").write(t.replace(a, b))
        d = os.path.join("/tmp/seeds/out", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git diff", W).stdout)
        open(d + "/demo.sh", "w").write(s.get("sh", SH))
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in s:
            open(d + "/demo.py", "w").write(s["demo"])
        for k, v in s.get("files", {}).items():
            open(os.path.join(d, k), "w").write(v)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, "/repo", 300)
        if r.returncode:
            return s["id"], "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:]
        out = W + ".json"
        r = sh("bash /verif/tools/scratch_test.sh %s %s" % (W, out), W)
        b = json.load(open("/opt/vp/BASELINE.json"))
        miss = sorted(set(b["stable"]) - set(json.load(open(out))["passed"]))
        if miss:
            return s["id"], "tests fail: %s %s" % (miss[:4], r.stderr[-300:] if len(miss) > 60 else "")
        r = sh("bash %s/demo.sh" % d, W, 300)
        if r.returncode == 0:
            return s["id"], "demo passes with the change"
        open(d + ".log", "w").write(r.stdout + r.stderr)
        shutil.rmtree(os.path.join(V, s["id"]), ignore_errors=True)
        shutil.copytree(d, os.path.join(V, s["id"]))
        return s["id"], "ok: " + (r.stdout + r.stderr).strip()[-200:]
    finally:
        sh("git checkout -q -f .", W)
        pool.put(W)


def main():
    os.makedirs("/tmp/seeds/out", exist_ok=True)
    for k in range(NW):
        W = "/tmp/sw%d" % k
        if not os.path.isdir(W):
            sh("git clone -q /repo " + W)
            sh("bash /verif/tools/scratch_test.sh %s %s.json" % (W, W))
        pool.put(W)
    S = []
    for p in sys.argv[1:]:
        g = {}
        exec(open(p).read(), g)
        S += g["SEEDS"]
    only = os.environ.get("ONLY")
    S = [s for s in S if not only or s["id"] in only.split(",")]
    with ThreadPoolExecutor(NW) as ex:
        for r in ex.map(one, S):
            print(*r, flush=True)


main()
