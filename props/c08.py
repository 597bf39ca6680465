"""C08: what a machine computed before never shows in a result."""
import numpy as np
import fl
import gen

SCAL = ("ref_IonEk", "ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_SampleFreq", "ref_phis", "pos", "last_caviphi0")
ARR = ("IonEk", "IonZ", "IonQ", "IonEs", "SampleFreq", "phis", "moment0", "moment1")


def tweak(rng, S):
    """change one thing of a state, by much or by little"""
    big = rng.random() < 0.6
    if rng.random() < 0.4:
        k = str(rng.choice(SCAL))
        v = getattr(S, k)
        setattr(S, k, float(new(rng, k[4:] if k.startswith("ref_") else k, v, big)))
    else:
        k = str(rng.choice(ARR))
        a = np.array(getattr(S, k))
        if k in ("moment0", "moment1"):
            a = a * (1 + 0.1 * rng.normal(size=a.shape)) if k == "moment0" else a * (1 + 0.2 * rng.random())
            if k == "moment0":
                a[6] = 1
        else:
            j = int(rng.integers(0, len(a)))
            if rng.random() < 0.3:
                a = np.array([new(rng, k, x, big) for x in a])
            else:
                a[j] = new(rng, k, a[j], big)
        setattr(S, k, a)
    return k


def new(rng, k, v, big):
    if k in ("phis", "last_caviphi0"):
        return v + rng.normal() * (1.0 if big else 1e-9)
    if k == "pos":
        return v + rng.normal()
    if k == "SampleFreq":
        return v * (rng.choice([0.5, 2.0]) if big else 1 + 1e-12)
    if k == "IonEs":
        return v * (1 + (1e-3 if big else 1e-13) * rng.normal())
    return v * (1 + (0.03 if big else 1e-12) * rng.normal())


def run_case(i, rng, mon):
    Ek = float(np.exp(rng.uniform(np.log(2e6), np.log(1.2e8))))
    nc = int(rng.integers(1, 4))
    b = gen.beam(rng, n=nc, Ek=Ek)
    n = int(rng.integers(1, 6))
    es = gen.lattice(rng, n, Ek, src=False, cav=0.3, strip=0.05 if Ek > 1e7 else 0, misp=0.4)
    conf = gen.conf(b, es)
    nocache = gen.conf(b, es, skipcache=1.0)
    M = fl.Machine(conf)
    other = fl.Machine(dict(sim_type="Vector", elements=[dict(type="marker", name="x")]))
    mon.count("machines")
    pool = [M.allocState(gen.clean(b))]
    hist = []
    ended = []                  # (state after a forward pass, start, count)
    long = rng.random() < 0.012
    mon.count("long-histories", long)
    for step in range(int(rng.integers(4, 10)) if not long else int(rng.integers(50, 150))):
        r = rng.random()
        if len(pool) > 12:
            del pool[1:4]
        if len(ended) > 12:
            del ended[:4]
        if r < 0.12:
            # another beam, with another number of charge states
            if rng.random() < 0.4:
                b2 = gen.beam(rng, n=int(rng.integers(1, 5)), Ek=Ek)
            else:
                b2 = gen.subbeam(rng, b)
                mon.count("similar-beams")
            pool += [M.allocState(gen.clean(b2))] * 2
            hist.append("newbeam")
        elif r < 0.16:
            # a pass that fails half way or at once
            if rng.random() < 0.5:
                bad = other.allocState({})
            else:
                bad = pool[int(rng.integers(0, len(pool)))].clone()
                bad.IonEk = np.array(bad.IonEk) * 0 + float(rng.choice([-2e9, 10.0, 0.0]))
            o = fl.outcome(M.propagate, bad)
            hist.append("failing:%s" % o[0])
            mon.count("failing-passes", o[0] == "err")
            continue
        elif r < 0.3 and ended:
            # back through what was just passed
            S, a, k = ended[int(rng.integers(0, len(ended)))]
            S = S.clone()
            o = fl.outcome(M.propagate, S, start=a + k - 1, max=-k)
            hist.append("back:%s" % o[0])
            mon.count("backward-" + o[0])
            continue
        S = pool[int(rng.integers(0, len(pool)))].clone()
        if rng.random() < 0.7:
            hist.append("tweak:" + tweak(rng, S))
            if rng.random() < 0.3:
                tweak(rng, S)
        if rng.random() < 0.5:
            pool.append(S.clone())
        a = int(rng.integers(0, n))
        k = int(rng.integers(1, n - a + 1)) if rng.random() < 0.5 else n - a
        if rng.random() < 0.5:
            a, k = 0, n
        res = []
        for m in (M, fl.Machine(conf), fl.Machine(nocache)):
            T = S.clone()
            o = fl.outcome(m.propagate, T, start=a, max=k)
            res.append((o[0], o[2] if o[0] == "err" else None, fl.full(T)))
        hist.append("fwd[%d,%d)" % (a, a + k))
        for x, what in ((1, "fresh"), (2, "nocache")):
            if res[0][0] != res[x][0]:
                mon.violate("outcome-differs:" + what, "history %r: %r vs %r\n%r" % (hist, res[0][:2], res[x][:2], es))
                return
            d = fl.same(res[0][2], res[x][2])
            if not mon.check(not d, "stale:" + what, lambda: "history %r: %s\n%r" % (hist, d[:5], es)):
                return
        mon.count("compared-passes")
        if res[0][0] == "ok":
            T = S.clone()
            M.propagate(T, start=a, max=k)      # again: served from the cache
            d = fl.same(res[1][2], fl.full(T))
            mon.check(not d, "repeat-differs", lambda: "history %r: %s\n%r" % (hist, d[:5], es))
            ended.append((T, a, k))
            # backward over elements without cavities is itself independent of history
            if rng.random() < 0.3 and not any(e["type"] == "rfcavity" for e in es[a:a + k]):
                rb = []
                for m in (M, fl.Machine(conf), fl.Machine(nocache)):
                    U = T.clone()
                    if rng.random() < 2:
                        o = fl.outcome(m.propagate, U, start=a + k - 1, max=-k)
                    rb.append((o[0], fl.full(U)))
                for x in (1, 2):
                    d = fl.same(rb[0][1], rb[x][1])
                    mon.check(rb[0][0] == rb[x][0] and not d, "stale-backward", lambda: "history %r: %s\n%r" % (hist, d[:5], es))
                mon.count("compared-backward")
    mon.distinct(tuple(hist[:40]), tuple(e["type"] for e in es))
    mon.sample(dict(types=[e["type"] for e in es], history=hist))
