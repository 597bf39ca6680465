"""C07: every split of a propagation gives the same state; exactly the requested elements are visited."""
import numpy as np
import fl
import gen
import refm

BIG = 2 ** 31 - 1


def long_line(mon, n):
    """more elements than fit 16 bits: still every one is visited"""
    conf = dict(sim_type="Vector", initial=np.ones(6), elements=[dict(name="d%d" % k, type="drift", L=0.5) if k % 2 else dict(name="m%d" % k, type="marker") for k in range(n)])
    M = fl.Machine(conf)
    S = M.allocState(dict(initial=np.ones(6)))
    M.propagate(S)
    mon.check(S.next_elem == n and abs(S.pos - 0.5 * (n // 2)) < 1e-6, "long-line", lambda: "next %d of %d, pos %r" % (S.next_elem, n, S.pos))
    mon.check(abs(np.array(S.state)[0] - (1 + 500.0 * (n // 2))) < 1e-2, "long-line-state", lambda: "%s" % S.state)
    T = M.allocState({})
    for a in (0, 3, n // 2, n - 5):
        out = M.propagate(T, start=a, max=4, observe=list(range(n - 10, n)) + [0, 1, 2, 3, 4, 5])
        v = [k for k in range(a, min(n, a + 4)) if k >= n - 10 or k < 6]
        mon.check([k for k, _ in out] == v and T.next_elem == a + 4, "long-line-visits", lambda: "%s %s" % ([k for k, _ in out], v))
    mon.count("long-lines")


def backward(rng, mon):
    """requests in the other direction: the same rules"""
    Ek = float(np.exp(rng.uniform(np.log(1e6), np.log(1.5e8))))
    b = gen.beam(rng, Ek=Ek)
    es = gen.lattice(rng, int(rng.integers(1, 10)), Ek, types=[t for t in gen.LIN_TYPES if t != "sextupole"], src=bool(rng.random() < 0.6), cav=0.12)
    conf = gen.conf(b, es)
    N = len(es)
    M = fl.Machine(conf)
    S0 = M.allocState(gen.clean(b))
    try:
        M.propagate(S0)
        start = int(rng.integers(0, N))
        if start + 1 < N:       # the state before the next element, so that a cavity accepts it
            S0 = M.allocState(gen.clean(b))
            M.propagate(S0, max=start + 1)
    except RuntimeError:
        mon.count("stopped-beams")
        return
    n = int(rng.choice([rng.integers(0, start + 2), start + 1, start + 2, start + 5, N + 7, 2 ** 31 - 1, 2 ** 31]))
    visit = list(range(start, max(-1, start - n), -1))
    S1 = S0.clone()
    o = fl.outcome(M.propagate, S1, start=start, max=-n, observe=list(range(N)))
    if o[0] != "ok":
        mon.count("backward-failed")
        return
    mon.check([k for k, _ in o[1]] == visit, "backward-visits", lambda: "visited %r want %r" % ([k for k, _ in o[1]], visit))
    if not n:
        mon.check(S1.next_elem == start, "backward-next", lambda: S1.next_elem)
    elif visit[-1]:
        mon.check(S1.next_elem == visit[-1] - 1, "backward-next", lambda: "%d after %s" % (S1.next_elem, visit))
    else:                       # past the first element: no element is next
        mon.check(S1.next_elem >= N, "backward-next-past", lambda: "%d after %s" % (S1.next_elem, visit))
    p0 = float(S0.pos)
    for k in visit:
        p0 -= refm.length(es[k])
    mon.check(abs(S1.pos - p0) <= 1e-12 * max(1, abs(p0)), "backward-pos", lambda: "%r vs %r" % (S1.pos, p0))
    ref = fl.full(S1)
    for _ in range(2):
        S2, at, left, cuts = S0.clone(), start, min(n, start + 9), []
        while left > 0:
            k = min(left, int(rng.choice([1, 1, 2, 3, 5])))
            M.propagate(S2, start=at, max=-k)
            cuts.append(k)
            at = S2.next_elem
            left -= k
        d = [x for x in fl.same(ref, fl.full(S2)) if n or not x.startswith("next_elem")]
        mon.check(not d, "backward-split-differs", lambda: "cuts %r of [%d,-%d): %s" % (cuts, start, n, d[:5]))
        mon.count("backward-splits")
    mon.distinct("back", N, start, n, tuple(e["type"] for e in es))


def run_case(i, rng, mon):
    if i in (0, 1):
        return long_line(mon, 70001 if i else 66000)
    if i % 10 == 5:
        return backward(rng, mon)
    lin = i % 4 == 3
    if lin:
        sim = ["Vector", "TransferMatrix"][(i // 4) % 2]
        es = fl.lin_lattice(rng, int(rng.integers(0, 10)), src=bool(rng.random() < 0.7))
        if not es:
            es = [dict(type="marker", name="m0")]
        conf = dict(sim_type=sim, initial=fl.lin_initial(rng, sim), elements=gen.cleanl(es))
        M = fl.Machine(conf)
        mk = lambda: fl.Machine(conf)
        alloc = lambda m: m.allocState(dict(initial=conf["initial"]))
        length = lambda e: float(e.get("L", 0.0))
        where = list(range(len(es)))
    else:
        Ek = float(np.exp(rng.uniform(np.log(1e6), np.log(1.5e8))))
        b = gen.beam(rng, Ek=Ek)
        n = int(rng.integers(1, 12))
        es = gen.lattice(rng, n, Ek, src=bool(rng.random() < 0.7), cav=0.12, strip=0.06 if Ek > 1e7 else 0)
        if rng.random() < 0.12:      # a second source further on starts the beam anew
            es.insert(int(rng.integers(0, len(es) + 1)), dict(type="source", name="again"))
        conf = gen.conf(b, es)
        mk = lambda: fl.Machine(conf)
        M = mk()
        alloc = lambda m: m.allocState(gen.clean(b))
        length = refm.length
    N = len(es)
    mon.count("machines")
    start = int(rng.integers(0, N))
    # one pass, all at once
    S0 = alloc(M)
    if rng.random() < 0.4:          # any starting state: one that has been somewhere
        try:
            M.propagate(S0, start=int(rng.integers(0, N)), max=int(rng.integers(1, N + 1)))
            mon.count("used-states")
        except RuntimeError:
            S0 = alloc(M)
    want_n = int(rng.integers(0, N - start + 3))
    visit = list(range(start, min(N, start + want_n)))
    S1 = S0.clone()
    p0 = float(S1.pos)
    try:
        log = M.propagate(S1, start=start, max=want_n, observe=list(range(N)))
    except RuntimeError as e:
        mon.count("stopped-beams")       # e.g. a particle that the cavity decelerates to a stop: the split pass must fail, too
        S2 = S0.clone()
        try:
            for k in range(want_n):
                M.propagate(S2, start=start + k, max=1)
            mon.violate("split-of-failing-pass-succeeds", "%r\n%r" % (e, es))
        except RuntimeError:
            pass
        return
    mon.check([k for k, _ in log] == visit, "visits", lambda: "visited %r want %r" % ([k for k, _ in log], visit))
    mon.check(S1.next_elem == start + len(visit), "next_elem", lambda: "%d after start %d max %d of %d" % (S1.next_elem, start, want_n, N))
    for k in visit:
        p0 = 0.0 if es[k]["type"] == "source" else p0 + length(es[k])
    mon.check(abs(S1.pos - p0) <= 1e-12 * max(1, abs(p0)), "pos", lambda: "%r vs %r" % (S1.pos, p0))
    ref = fl.full(S1)
    mon.count("visited", len(visit))
    mon.distinct(lin, N, start, want_n, tuple(e["type"] for e in es))

    # the same range, split at random places; on the same machine, and on a fresh one
    for m, tag in ((M, "same-machine"), (mk(), "fresh-machine")):
        for _ in range(2):
            S2, at = S0.clone(), start
            cuts = []
            left = want_n
            while left > 0:
                k = min(left, int(rng.choice([1, 1, 2, 3, 5, N + 1])))
                if rng.random() < 0.15:
                    m.propagate(S2, start=at, max=0)
                m.propagate(S2, start=at, max=k)
                cuts.append(k)
                at = S2.next_elem
                left -= k
            m.propagate(S2, start=at, max=0)
            d = fl.same(ref, fl.full(S2))
            mon.check(not d, "split-differs:" + tag, lambda: "cuts %r of [%d,+%d): %s\n%r" % (cuts, start, want_n, d[:5], es))
            mon.count("splits")
    # each observed intermediate state continues to the same end
    for k, St in log:
        if rng.random() < 0.3:
            T = St.clone()
            M.propagate(T, start=k + 1, max=len(visit) - (k + 1 - start))
            d = fl.same(ref, fl.full(T))
            mon.check(not d, "resume-differs", lambda: "from %d: %s" % (k, d[:5]))
            mon.count("resumes")

    # requests that reach beyond the end, or are empty
    S3 = S0.clone()
    M.propagate(S3, start=start)                      # no max: to the end
    S4 = S0.clone()
    M.propagate(S4, start=start, max=int(rng.choice([N - start, N - start + 1, N + 5, BIG, BIG - 1])))
    d = fl.same(fl.full(S3), fl.full(S4))
    mon.check(not d, "to-end-differs", lambda: d[:5])
    mon.check(S3.next_elem == N, "next_elem-at-end", lambda: S3.next_elem)
    before = fl.full(S3)
    for s, n in ((start, 0), (N, 3), (N + 1, BIG), (2 ** 40, 1), (2 ** 63, 7), (N, 0)):
        out = M.propagate(S3, start=s, max=n, observe=range(N))
        after = fl.full(S3)
        mon.check(out == [] and after["next_elem"] == s, "empty-request", lambda: "start %d max %d: next_elem %r visits %r" % (s, n, after["next_elem"], out))
        d = [x for x in fl.same(before, after) if not x.startswith("next_elem")]
        mon.check(not d, "empty-request-changes-state", lambda: "start %d max %d: %s" % (s, n, d[:3]))
        mon.count("empty-requests")
    mon.sample(dict(sim=conf["sim_type"], types=[e["type"] for e in es], start=start, max=want_n, visited=len(visit)))
