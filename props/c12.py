"""C12: observers see every requested visit once, in order, without side effects."""
import numpy as np
import fl
import gen
import walk

NEW = ("next_elem",)


def diff(a, b):
    return [x for x in fl.same(a, b) if not x.startswith(NEW)]


def run_case(i, rng, mon):
    sim = str(rng.choice(["MomentMatrix", "MomentMatrix", "Vector", "TransferMatrix"]))
    if sim == "MomentMatrix":
        if rng.random() < 0.03:
            Ek, b, es, M, conf = walk.case(rng, cav=0.0, strip=0.0, n=(70, 160))
            mon.count("long-lattices")
        else:
            Ek, b, es, M, conf = walk.case(rng, cav=0.15, strip=0.1, n=(1, 7))
        c = gen.clean(b)
    else:
        long = rng.random() < 0.05
        if long:
            mon.count("long-lattices")
        es = fl.lin_lattice(rng, int(rng.integers(70, 400) if long else rng.integers(1, 8)), src=rng.random() < 0.5)
        c = dict(initial=fl.lin_initial(rng, sim))
        conf = dict(sim_type=sim, elements=gen.cleanl(es), **c)
        M = fl.Machine(conf)
    n = len(es)
    M2 = fl.Machine(conf)
    for rep in range(int(rng.integers(2, 5))):
        start = int(rng.integers(0, n)) if rng.random() < 0.6 else 0
        if rng.random() < 0.05:
            start = n + int(rng.integers(0, 3))
        cnt = None if rng.random() < 0.4 else int(rng.integers(0, n + 2))
        back = sim == "MomentMatrix" and rng.random() < 0.2
        if back:
            start = min(start, n - 1)
            cnt = -int(rng.integers(1, n + 2))
        k = int(rng.integers(0, n + 1))
        obs = [int(x) for x in rng.integers(0, n, k)]
        if rng.random() < 0.3:
            obs = list(range(n))
        form = [obs, tuple(obs), iter(obs), set(obs), np.array(obs, int), (x for x in obs), {x: 1 for x in obs}][int(rng.integers(0, 7))]
        S, T, U = M.allocState(c), M.allocState(c), M2.allocState(c)
        kw = {} if cnt is None else dict(max=cnt)
        o = fl.outcome(M.propagate, S, start=start, observe=form, **kw)
        p = fl.outcome(M.propagate, T, start=start, **kw)
        mon.check(o[0] == p[0] and (o[0] == "ok" or o == p), "observing-changes-outcome", lambda: "%s %s" % (o, p))
        d = fl.same(fl.full(S), fl.full(T))
        mon.check(not d, "observing-changes-result", lambda: d)
        if p[0] == "ok":
            mon.check(p[1] == [] or p[1] is None, "observer-stays", lambda: "a later pass without observers delivered %d states" % len(p[1]))
        # what is visited, stepwise on another machine
        if cnt is None:
            visit = list(range(start, n))
        elif cnt >= 0:
            visit = list(range(start, min(n, start + cnt)))
        else:
            visit = list(range(start, max(-1, start + cnt), -1)) if start < n else []
        if o[0] == "ok":
            want = [x for x in visit if x in set(obs)]
            got = o[1]
            ok = mon.check([g[0] for g in got] == want, "visits", lambda: "got %s want %s (start %s max %s)" % ([g[0] for g in got], want, start, cnt))
            full = [fl.full(g[1]) for g in got]
            j = 0
            for x in visit:
                q = fl.outcome(M2.propagate, U, start=x, max=-1 if back else 1)
                if q[0] != "ok":
                    break
                if ok and x in set(obs):
                    d = diff(fl.full(U), full[j])
                    mon.check(not d, "snapshot:" + es[x]["type"], lambda: "element %d: %s" % (x, d))
                    mon.count("snapshots")
                    j += 1
            # snapshots stay what they are
            fl.outcome(M.propagate, S)
            fl.outcome(M.propagate, T, observe=range(n))
            if got:
                g = got[int(rng.integers(0, len(got)))]
                before = [fl.full(x[1]) for x in got]
                fl.outcome(M.propagate, g[1])
                for x, y, f in zip(got, before, full):
                    if x is not g:
                        mon.check(not fl.same(fl.full(x[1]), y), "snapshots-linked", "")
                    mon.check(not fl.same(y, f), "snapshot-changed-later", lambda: fl.same(y, f))
            mon.distinct(sim, tuple(e["type"] for e in es), start, cnt, tuple(obs))
        else:
            mon.count("failed-passes")
            S = M.allocState(c)
            q = fl.outcome(M.propagate, S, start=0, max=1)
            if q[0] == "ok":
                mon.check(not q[1], "observer-stays-after-failure", "")
        # refused observe lists leave nothing behind
        if rng.random() < 0.3:
            badl = [[0, n], [0, -1], [0, "a"], [0, None], 5, [0, 2 ** 70], [0, 1.5]][int(rng.integers(0, 7))]
            S = M.allocState(c)
            f = fl.full(S)
            q = fl.outcome(M.propagate, S, observe=badl)
            mon.check(q[0] == "err", "bad-observe-accepted", lambda: repr(badl))
            mon.check(not fl.same(f, fl.full(S)), "bad-observe-changed-state", "")
            q = fl.outcome(M.propagate, M.allocState(c))
            if q[0] == "ok":
                mon.check(not q[1], "observer-stays-after-bad-list", lambda: q)
            mon.count("bad-lists")
        mon.count("passes")
    mon.sample(dict(sim=sim, types=[e["type"] for e in es]))
