"""Runs cases of one python workload inside the sanitized interpreter."""
import hashlib
import importlib
import json
import os
import sys
import traceback
import numpy as np


class Monitor:
    def __init__(self, out, seed, tier):
        self.f, self.seed, self.tier = out, seed, tier
        self.counts, self.dist, self.nsample, self.nviol = {}, set(), 0, {}
        self.case = -1

    def emit(self, **kw):
        self.f.write(json.dumps(kw, default=str) + "\n")

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def distinct(self, *key):
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        if h not in self.dist:
            self.dist.add(h)
            self.emit(t="distinct", k=h)

    def sample(self, v, every=1):
        if self.nsample < 2:
            self.nsample += 1
            self.emit(t="sample", v=v)

    def violate(self, key, detail):
        n = self.nviol[key] = self.nviol.get(key, 0) + 1
        if n <= 30 and len(self.nviol) <= 400:      # per key: a known finding must not crowd out others
            self.emit(t="viol", case=self.case, key=key, detail=str(detail)[:4000])
            self.f.flush()

    def check(self, ok, key, detail=""):
        self.count("assertions")
        if not ok:
            self.violate(key, detail() if callable(detail) else detail)
        return ok

    def flush_counts(self):
        for k, n in self.counts.items():
            self.emit(t="count", k=k, n=n)
        self.counts = {}


def main():
    name, seed, tier, casef, progf, outf = sys.argv[1:7]
    seed = int(seed)
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    try:
        mod = importlib.import_module(name)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    cases = [int(x) for x in open(casef).read().split()]
    out = open(outf, "w", buffering=1 << 16)
    mon = Monitor(out, seed, tier)
    pf = os.open(progf, os.O_WRONLY)
    tag = int(hashlib.sha1(name.encode()).hexdigest()[:8], 16)
    if hasattr(mod, "setup"):
        mod.setup(mon)
    n = 0
    for c in cases:
        os.pwrite(pf, b"%-12d" % c, 0)
        out.flush()
        mon.case = c
        rng = np.random.default_rng([seed, tag, c])
        try:
            mod.run_case(c, rng, mon)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            # on a correct tree no call made here outside a try block may fail
            mon.violate("unexpected-exception:%s" % type(e).__name__, traceback.format_exc()[-2500:])
        n += 1
        if n % 64 == 0:
            mon.emit(t="case", n=64)
            mon.flush_counts()
    mon.emit(t="case", n=n % 64)
    if hasattr(mod, "teardown"):
        mod.teardown(mon)
    mon.flush_counts()
    mon.emit(t="end")
    out.close()


main()
