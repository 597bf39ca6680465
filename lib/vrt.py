"""Check runner: builds, launches sharded workers under sanitizers, collects what the monitors saw,
matches violations against the known-findings file, writes evidence and replays, decides the exit code.

exit 0: held on everything explored      exit 1: VIOLATION line printed      exit 3: the check itself failed
"""
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "props"))
import build as B  # noqa: E402

NSHARD = min(8, os.cpu_count() or 4)
MAX_RESTART = 6          # crashed shards are resumed after the crashing case, this often
HANG_S = 60              # no progress for this long => the case is re-run alone
HANG_CONFIRM_S = 120
T0 = time.time()
STOP_VIOL_S = 300        # quick: with a violation in hand, stop here
STOP_S = 760             # quick: stop here in any case; the minimum counts then decide whether enough was seen


class HarnessError(Exception):
    pass


def gccfile(n):
    return subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()


def san_env(kind, logbase=None):
    e = dict(os.environ)
    for k in ("LD_PRELOAD", "PYTHONPATH"):
        e.pop(k, None)
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3200:detect_stack_use_after_return=0:symbolize=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:detect_deadlocks=1"
    if kind == "py":
        e["LD_PRELOAD"] = ":".join([gccfile("libasan.so"), gccfile("libubsan.so"),
                                    "/usr/lib/x86_64-linux-gnu/libstdc++.so.6"])
        e["PYTHONMALLOC"] = "malloc"
        e["PYTHONPATH"] = os.path.join(B.OUT, "pyroot") + ":" + os.path.join(VERIF, "lib") + ":" + os.path.join(VERIF, "props")
    return e


def crash_key(rc, err):
    """A stable short name for a sanitizer report / crash."""
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    if "hard rss limit exhausted" in err:
        kind = "memory-exhausted"
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
    if m:
        kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: (.*)", err)
    if not kind and m:
        kind = "ubsan-" + re.sub(r"[0-9.+-]+(e[+-]?\d+)?|0x[0-9a-f]+", "N", m.group(1))[:70].strip()
    if not kind and "terminate called" in err:
        m = re.search(r"instance of '([^']+)'", err)
        kind = "terminate-" + (m.group(1) if m else "unknown")
    if not kind and "Assertion '" in err:
        kind = "glibcxx-assertion"
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    fn = "?"
    for fr in re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+)", err):
        name, loc = fr
        if "/repo/" in loc or "/verif/build/gen" in loc or "glps" in loc:
            fn = re.sub(r"\(.*", "", name)
            break
    return "crash:%s:%s" % (kind, fn)


class Shard:
    def __init__(self, spec, idx, todo, tmp):
        self.spec, self.idx, self.todo, self.tmp = spec, idx, list(todo), tmp
        self.gen = 0
        self.restarts = 0
        self.proc = None

    def start(self, only=None):
        self.gen += 1
        b = os.path.join(self.tmp, "s%d.%d" % (self.idx, self.gen))
        self.casef, self.prog, self.out, self.errf, self.scratch = b + ".cases", b + ".prog", b + ".out", b + ".err", b + ".d"
        with open(self.casef, "w") as f:
            f.write("\n".join(map(str, self.todo)) + "\n")
        with open(self.prog, "w") as f:
            f.write("-1")
        os.makedirs(self.scratch, exist_ok=True)
        self.err = open(self.errf, "wb")
        self.proc = subprocess.Popen(self.spec.cmd(self), env=self.spec.env(self), stdout=self.err,
                                     stderr=self.err, stdin=subprocess.DEVNULL, cwd=self.scratch, start_new_session=True)
        self.last, self.last_t = "-1", time.time()

    def progress(self):
        try:
            with open(self.prog) as f:
                p = f.read().strip()
        except OSError:
            p = self.last
        if p != self.last:
            self.last, self.last_t = p, time.time()
        return time.time() - self.last_t

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def stderr(self):
        try:
            with open(self.errf, "rb") as f:
                return f.read()[-200000:].decode("utf-8", "replace")
        except OSError:
            return ""


class Spec:
    """One workload of a property: a python module or a native driver mode."""

    def __init__(self, prop, name, kind, n, mode=None, arg="", hang=HANG_S, nshard=None, prep=0):
        self.prop, self.name, self.kind, self.n, self.mode, self.arg, self.hang = prop, name, kind, n, mode, arg, hang
        self.nshard = nshard or NSHARD
        self.prep = prep        # number of lattice files to write for the native workload

    def env(self, sh):
        e = san_env("py" if self.kind == "py" else "native")
        e["VERIF_SEED"], e["VERIF_TIER"] = str(self.seed), self.tier
        e["VERIF_SCRATCH"] = sh.scratch
        e["TMPDIR"] = sh.scratch
        return e

    def cmd(self, sh):
        if self.kind == "py":
            return ["/usr/bin/python3", os.path.join(VERIF, "lib", "worker.py"), self.name, str(self.seed), self.tier,
                    sh.casef, sh.prog, sh.out]
        exe = {"drv": os.path.join(B.OUT, "drv"), "thr": os.path.join(B.OUT, "thr")}[self.kind]
        pre = ["setarch", "x86_64", "-R"] if self.kind == "thr" and shutil.which("setarch") else []
        return pre + [exe, self.mode, str(self.seed), self.tier, sh.casef, sh.prog, sh.out, self.arg]


class Result:
    def __init__(self):
        self.counts, self.distinct, self.samples, self.viol = {}, set(), [], []
        self.inconclusive = []
        self.cases = 0
        self.known_seen = {}
        self.error = None

    def merge_file(self, path, spec):
        done = False
        if not os.path.exists(path):
            return False
        with open(path, errors="replace") as f:
            for line in f:
                if not line.endswith("\n"):
                    break       # torn last line of a crashed worker
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                t = r.get("t")
                if t == "count":
                    self.counts[r["k"]] = self.counts.get(r["k"], 0) + r["n"]
                elif t == "distinct":
                    self.distinct.add(r["k"])
                elif t == "sample":
                    if len(self.samples) < 12:
                        self.samples.append(r["v"])
                elif t == "case":
                    self.cases += r["n"]
                elif t == "viol":
                    self.viol.append(dict(spec=spec.name, kind=spec.kind, mode=spec.mode, case=r["case"], key=r["key"], detail=r["detail"]))
                elif t == "end":
                    done = True
        return done


def run_spec(spec, res, tmp, log):
    cases = list(range(spec.n)) if isinstance(spec.n, int) else list(spec.n)
    ns = max(1, min(spec.nshard, len(cases)))
    if spec.prep:
        spec.arg = os.path.join(tmp, "prep")
        subprocess.run(["/usr/bin/python3", os.path.join(VERIF, "lib", "prep.py"), spec.arg, str(spec.seed), str(spec.prep)], check=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    shards = spec.shards = [Shard(spec, i, cases[i::ns], tmp) for i in range(ns)]
    for s in shards:
        s.start()
    live = list(shards)
    known = {k for k, _ in load_known(spec.prop)}
    while live:
        time.sleep(0.05)
        age = time.time() - T0
        new = any(v["key"] not in known for v in res.viol)
        hung = any(v["key"].startswith("hang:") for v in res.viol)
        if hung or spec.tier == "quick" and (age > STOP_S or new and age > STOP_VIOL_S):
            for s in live:
                s.kill()
                s.err.close()
                res.merge_file(s.out, spec)
            res.inconclusive.append("%s was stopped after %ds" % (spec.name, age))
            return
        for s in list(live):
            rc = s.proc.poll()
            idle = s.progress()
            if rc is None and idle <= spec.hang:
                continue
            if rc is None:
                # no progress: a hang candidate; confirm alone with a longer limit before believing it
                s.kill()
                s.err.close()
                cur = int(s.last or -1)
                res.merge_file(s.out, spec)
                if cur < 0:
                    raise HarnessError("%s worker made no progress before its first case:\n%s" % (spec.name, s.stderr()[-3000:]))
                hung = confirm_hang(spec, cur, tmp, res)
                if hung:
                    res.viol.append(dict(spec=spec.name, kind=spec.kind, mode=spec.mode, case=cur, key="hang:" + spec.name,
                                         detail="no progress for %ds in case %d, twice" % (HANG_CONFIRM_S, cur)))
                else:
                    res.inconclusive.append("case %d of %s was slow once, fine when re-run" % (cur, spec.name))
                finish(s, spec, live, cur)
                continue
            s.err.close()
            done = res.merge_file(s.out, spec)
            if rc == 0 and done:
                live.remove(s)
                continue
            cur = int(s.last or -1)
            err = s.stderr()
            if cur < 0 or rc in (3, 4):
                raise HarnessError("%s worker failed (rc=%s) case %s:\n%s" % (spec.name, rc, cur, err[-4000:]))
            if rc == -9:
                raise HarnessError("%s worker was killed (out of memory?) in case %d" % (spec.name, cur))
            res.viol.append(dict(spec=spec.name, kind=spec.kind, mode=spec.mode, case=cur, key=crash_key(rc, err), detail=err[-6000:]))
            finish(s, spec, live, cur)


def finish(s, spec, live, cur):
    if cur in s.todo:
        s.todo = s.todo[s.todo.index(cur) + 1:]
    s.restarts += 1
    if s.todo and s.restarts <= MAX_RESTART:
        s.start()
    else:
        live.remove(s)


def cputime(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def confirm_hang(spec, case, tmp, res):
    """the case alone: spinning means so many seconds of processor time, waiting so many without using any"""
    s = Shard(spec, 900 + case % 50, [case], tmp)
    s.start()
    t = moved = time.time()
    cpu = 0.0
    while cpu < HANG_CONFIRM_S and time.time() - moved < HANG_CONFIRM_S and time.time() - t < 3 * HANG_CONFIRM_S:
        if s.proc.poll() is not None:
            s.err.close()
            return False
        time.sleep(0.1)
        c = cputime(s.proc.pid)
        if c > cpu + 0.5:
            cpu, moved = c, time.time()
    s.kill()
    s.err.close()
    return True


# ---------------------------------------------------------------- known findings
def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def known_match(known, key):
    for k, what in known:
        if key == k:
            return (k, what)
    return None


def main(prop, replay=None):
    t0 = time.time()
    live = []

    def ended(*a):
        for s in live:
            for sh in getattr(s, "shards", []):
                if sh.proc and sh.proc.poll() is None:
                    sh.kill()
        sys.exit(3)
    signal.signal(signal.SIGTERM, ended)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("plan")
    plan = mod.PLAN[prop]
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        seed, tier = rp["seed"], rp["tier"]
    specs = plan["specs"](tier)
    B.build(sorted({{"py": "py", "drv": "drv", "thr": "tsan"}[s.kind] for s in specs} | set(plan.get("targets", []))))
    t_build = time.time() - t0
    res = Result()
    base = os.path.join(VERIF, "build", "tmp")
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + ".", dir=base)
    try:
        for s in specs:
            s.seed, s.tier = seed, tier
            live.append(s)
            if replay:
                if s.name != rp["spec"]:
                    continue
                s.n = [rp["case"]]
            before = res.cases
            try:
                run_spec(s, res, tmp, print)
            except HarnessError as e:
                res.error = e           # what was seen until then still counts
                for sh in s.shards:
                    if sh.proc and sh.proc.poll() is None:
                        sh.kill()
                        res.merge_file(sh.out, s)
                break
            res.counts["cases:" + s.name] = res.cases - before
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = load_known(prop)
    new, seen = [], {}
    for v in res.viol:
        k = known_match(known, v["key"])
        if k:
            seen[k[0]] = k[1]
        else:
            new.append(v)
    for k, what in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        elif not replay:
            print("note: known finding %s did not show up in this run" % k)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=res.cases, distinct_nontrivial=len(res.distinct), rule=plan["rule"],
                            samples=res.samples or ["(none)"], monitors=res.counts,
                            known_findings_seen=sorted(seen), inconclusive=res.inconclusive),
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        keys = {}
        for v in new:
            keys.setdefault(v["key"], []).append(v)
        for key, vs in list(keys.items())[:8]:
            v = vs[0]
            h = hashlib.sha1(key.encode()).hexdigest()[:8]
            rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            with open(rp, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, spec=v["spec"], case=v["case"], key=key, times=len(vs),
                               detail=v["detail"], how="python3 check.py %s --replay %s" % (prop, rp)), f, indent=1)
            print("--- %s (%d times), workload %s case %d" % (key, len(vs), v["spec"], v["case"]))
            print(str(v["detail"])[-1500:])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if res.error:
        raise res.error
    mins = plan.get("min", {})
    if not replay:
        low = ["%s=%d<%d" % (k, res.counts.get(k, 0), n) for k, n in mins.items() if res.counts.get(k, 0) < n]
        if low or res.cases == 0 or len(res.distinct) < 2:
            raise HarnessError("the monitors observed too little: %s (cases %d, distinct %d)" % (low, res.cases, len(res.distinct)))
    print("%s: held on %d cases (%d distinct non-trivial), %.1fs (build %.1fs)" %
          (prop, res.cases, len(res.distinct), time.time() - t0, t_build))
    return 0


def cli(argv):
    prop = argv[1]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    try:
        rc = main(prop, replay)
    except B.BuildError as e:
        sys.stderr.write("BUILD ERROR (no verdict): %s\n" % e)
        rc = 3
    except HarnessError as e:
        sys.stderr.write("HARNESS ERROR (no verdict): %s\n" % e)
        rc = 3
    sys.stdout.flush()
    return rc
