"""mutate.py N SEED OUT.jsonl [FILE...]: random small changes to the library's sources, in scratch clones.
Those that build and pass the repository's tests are given to the checks of the file's properties; the ones no
check reports are written out for triage (most are equivalent to the original)."""
import json
import os
import queue
import random
import re
import subprocess
import sys
import threading

MAP = {
    "src/base.cpp": "C06 C07 C12 C11 C25 C20 C24", "src/flame/base.h": "C06 C07 C12 C11 C25 C20",
    "src/config.cpp": "C05 C04 C24", "src/flame/config.h": "C05 C04 C06",
    "src/moment.cpp": "C15 C16 C13 C14 C08 C10 C09 C11 C20", "src/flame/moment.h": "C16 C15 C08 C10 C11",
    "src/moment_sup.cpp": "C15 C20", "src/rf_cavity.cpp": "C17 C10 C13 C14 C09 C20", "src/flame/rf_cavity.h": "C17 C10 C13 C14 C08 C09",
    "src/chg_stripper.cpp": "C18 C13 C14 C20 C16", "src/flame/chg_stripper.h": "C18 C09 C08 C20",
    "src/linear.cpp": "C19 C11 C07 C06", "src/util.cpp": "C21 C20 C15",
    "src/glps_parser.cpp": "C02 C03 C01", "src/glps_ops.cpp": "C02 C03 C01", "src/glps.y": "C02 C03 C01", "src/glps.l": "C02 C03 C01",
    "src/h5writer.cpp": "C22 C24", "src/h5loader.cpp": "C22 C20", "tools/cli.cpp": "C24",
    "python/flame/modconfig.cpp": "C23 C04 C06", "python/flame/modmachine.cpp": "C23 C12 C06 C07 C09", "python/flame/modstate.cpp": "C23 C11 C12", "python/flame/modmain.cpp": "C23",
}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>=!-])<(?![<=])", ["<="]), (r"(?<![<>=-])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w)\]] )\+(?= )|(?<=[\w)\]])\+(?=[\w(])", ["-"]), (r"(?<=[\w)\]])-(?=[\w(])", ["+"]), (r"(?<=[\w)\]])\*(?=[\w(])", ["/"]), (r"(?<=[\w)\]])/(?=[\w(])", ["*"]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2e0\b", ["1e0"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
       (r"\bPS_X\b", ["PS_Y"]), (r"\bPS_PX\b", ["PS_PY"]), (r"\bref\b", ["real[0]"]), (r"\.begin\(\)", [".end()"]), (r"\bif\s*\((.*)\)", ["if(!(\\1))", "if(true||(\\1))", "if(false&&(\\1))"]),
       (r"\breal\[i\]", ["real[0]", "ref"]), (r"\breal\[k\]", ["real[0]", "ref"]), (r"\[i\]", ["[0]"]), (r"\[k\]", ["[0]"]), (r"\bfabs\b", ["(double)"]), (r"sqr\(", ["("])]


def lines(f, rnd):
    L = open(f).read().split("\n")
    ok = []
    c = False
    for n, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"):
            c = True
        if not c and s and not s.startswith(("//", "#", "*", "template", "typedef", "namespace", "struct", "class", "catch", "%", "using")) and "FLAME_LOG" not in s and "assert" not in s and "strm<<" not in s and "strm <<" not in s and len(s) > 6:
            ok.append(n)
        if "*/" in s:
            c = False
    return L, ok


def mutant(W, rnd, files):
    for _ in range(500):
        f = rnd.choice(files)
        L, ok = lines(os.path.join(W, f), rnd)
        n = rnd.choice(ok)
        l = L[n]
        code = l.split("//")[0]
        c = []
        for a, bs in OPS:
            for m in re.finditer(a, code):
                for b in bs:
                    c.append(code[:m.start()] + m.expand(b) + code[m.end():])
        s = code.strip()
        if s.endswith(";") and not re.match(r"(const|double|int|unsigned|bool|size_t|std::|return|break|case|static|virtual|boost::|typename|value_t|else)", s) and s.count("(") == s.count(")") and "=" in s or re.match(r"[\w.>-]+\(.*\);$", s):
            c += [re.match(r"\s*", code).group() + ";"] * 2
        c = [x for x in c if x.strip() != s]
        if c:
            return f, n, l, rnd.choice(c)
    raise SystemExit("no mutant")


def sh(c, cwd=None, env=None, timeout=1500):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def main():
    N, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or list(MAP)
    rnd = random.Random(seed)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    todo, alive = queue.Queue(), queue.Queue()
    lock = threading.Lock()

    def note(**k):
        with lock:
            open(out, "a").write(json.dumps(k) + "\n")
            print(k.get("res"), k["f"], k["n"] + 1, repr(k["new"].strip())[:110], k.get("by", ""), flush=True)

    def tester(W):
        while True:
            m = todo.get()
            if m is None:
                alive.put(None)
                return
            f, n, old, new = m
            sh("git checkout -q -f . && git fetch -q && git checkout -q -f origin/main", W)
            p = os.path.join(W, f)
            L = open(p).read().split("\n")
            L[n] = new
            open(p, "w").write("\n".join(L))
            if os.path.exists(W + ".json"):
                os.remove(W + ".json")
            try:
                sh("bash /verif/tools/scratch_test.sh %s %s.json" % (W, W), W, timeout=300)
                got = set(json.load(open(W + ".json"))["passed"])
            except Exception:
                got = set()
            if base - got:
                note(res="tests" if got else "build", f=f, n=n, old=old, new=new)
            else:
                alive.put((m, sh("git diff -- src python tools", W).stdout))

    def checker(W):
        ends = 0
        while ends < NT:
            x = alive.get()
            if x is None:
                ends += 1
                continue
            (f, n, old, new), diff = x
            sh("git checkout -q -f . && git fetch -q && git checkout -q -f origin/main", W)
            open(W + ".diff", "w").write(diff)
            r = sh("git apply %s.diff" % W, W)
            by = None
            for c in MAP[f].split():
                r = sh("timeout 900 python3 check.py " + c, os.environ.get("VDIR", "/verif"), dict(os.environ, VERIF_REPO=W))
                if r.returncode:
                    k = re.findall(r"^--- (\S+)", r.stdout, re.M)
                    by = "%s rc=%d %s" % (c, r.returncode, k[:3] if k else r.stdout[-300:])
                    break
            note(res="caught" if by else "MISSED", f=f, n=n, old=old, new=new, by=by)

    rnd2 = random.Random(seed)
    seen = set()
    while len(seen) < N:
        m = mutant("/repo", rnd2, files)
        if m not in seen:
            seen.add(m)
            todo.put(m)
    Ws = [os.environ.get("WD", "/tmp/sw") + "1", os.environ.get("WD", "/tmp/sw") + "2"]
    NT = len(Ws)
    for _ in Ws:
        todo.put(None)
    T = [threading.Thread(target=tester, args=(w,)) for w in Ws] + [threading.Thread(target=checker, args=(os.environ.get("WD", "/tmp/sw") + "0",))]
    for t in T:
        t.start()
    for t in T:
        t.join()


main()
