"""C09: a reconfigured machine is indistinguishable from one built from the edited configuration."""
import numpy as np
import fl
import gen


def confeq(a, b):
    out = []
    if set(a) != set(b):
        out.append("keys %s" % sorted(set(a) ^ set(b)))
    for k in set(a) & set(b):
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(np.asarray(x), np.asarray(y)):
                out.append(k)
        elif k != "elements" and x != y:
            out.append("%s: %r vs %r" % (k, x, y))
    return out


def run_case(i, rng, mon):
    lin = i % 5 == 4
    if lin:
        sim = ["Vector", "TransferMatrix"][(i // 5) % 2]
        n = int(rng.integers(1, 6))
        es = fl.lin_lattice(rng, n, src=True)
        es[0]["initial"] = [float(x) for x in fl.lin_initial(rng, sim)]
        b = {}
        newelem = lambda t: (dict(type="source", initial=[float(x) for x in fl.lin_initial(rng, sim)]) if t == "source" else fl.lin_elem(rng, t))
    else:
        sim = "MomentMatrix"
        Ek = float(np.exp(rng.uniform(np.log(2e6), np.log(1.2e8))))
        b = gen.beam(rng, n=int(rng.integers(1, 4)), Ek=Ek)
        n = int(rng.integers(1, 6))
        src = rng.random() < 0.5
        es = gen.lattice(rng, n, Ek, src=src, cav=0.25, strip=0.1 if Ek > 1e7 else 0.0)
        newelem = lambda t: (gen.beam(rng, n=int(rng.integers(1, 4)), Ek=Ek) | dict(type="source") if t == "source" else gen.elem(rng, t, Ek))
    if rng.random() < 0.3:
        for e in es:
            if rng.random() < 0.4:
                e["name"] = "dup"
    N = len(es)
    conf = lambda l: gen.conf(b, l, sim)
    M = fl.Machine(conf(es))
    start_conf = M.conf()
    cur = [dict(e) for e in es]
    mon.count("machines")
    hist = []

    def compare(tag):
        R = fl.Machine(conf(cur))
        for k in range(N):
            d = confeq(M.conf(k), R.conf(k))
            mon.check(not d, "conf-differs", lambda: "%s element %d: %s" % (hist, k, d))
        for nm in {e["name"] for e in es} | {e["name"] for e in cur} | {"absent"}:
            mon.check(M.find(name=nm) == R.find(name=nm), "find-name", lambda: "%s %s: %r vs %r" % (hist, nm, M.find(name=nm), R.find(name=nm)))
        for t in {e["type"] for e in es} | {"marker"}:
            mon.check(M.find(type=t) == R.find(type=t), "find-type", lambda: (hist, t))
        mon.check(len(M) == N and M.find() == R.find(), "all", lambda: hist)
        for a, k in ((0, N), (int(rng.integers(0, N)), 2)):
            out = []
            for m in (M, R):
                S = m.allocState(gen.clean(b)) if not lin else m.allocState(dict(initial=np.arange(1.0, 7.0)))
                o = fl.outcome(m.propagate, S, start=a, max=k, observe=range(N))
                out.append((o[0] + (o[2] if o[0] == "err" else ""), fl.full(S), [(x, fl.full(s)) for x, s in o[1]] if o[0] == "ok" else []))
            d = fl.same(out[0][1], out[1][1])
            ok = out[0][0] == out[1][0] and not d
            mon.check(ok, "result-differs", lambda: "%s [%d,+%d): %s %s\n%s\n%s" % (hist, a, k, out[0][0], d[:4], cur, out[1][0]))
            for (x, s), (y, t) in zip(out[0][2], out[1][2]):
                if x != y or fl.same(s, t):
                    mon.violate("observed-differs", "%s at %d" % (hist, x))
                    break
        mon.count("compared-" + tag)

    # warm the caches
    S = M.allocState(gen.clean(b)) if not lin else M.allocState({})
    fl.outcome(M.propagate, S)
    long = rng.random() < 0.012
    mon.count("long-histories", long)
    for step in range(int(rng.integers(1, 7)) if not long else int(rng.integers(40, 100))):
        k = int(rng.integers(0, N))
        e = cur[k]
        r = rng.random()
        if r < 0.12:
            # must be refused
            what = str(rng.choice(["index", "type", "unknowntype", "badname", "listvalue"]))
            if what == "index":
                o = fl.outcome(M.reconfigure, N + int(rng.integers(0, 3)), dict(L=1.0))
            elif what == "type":
                t = str(rng.choice([x for x in (fl.LTYPES if lin else gen.LIN_TYPES + ("rfcavity", "stripper")) if x != e["type"]]))
                ne = newelem(t)
                o = fl.outcome(M.reconfigure, k, gen.clean(dict(ne, type=t, name=e["name"])))
            elif what == "unknowntype":
                o = fl.outcome(M.reconfigure, k, dict(type="nosuchtype"))
            elif what == "badname":
                o = fl.outcome(M.reconfigure, k, dict(name=3.0))
            else:
                o = fl.outcome(M.reconfigure, k, dict(L=[dict(a=1.0)]))
            hist.append((k, e["type"], "refused:" + what))
            mon.check(o[0] == "err", "not-refused:" + what, lambda: (hist, e))
            mon.count("refused")
            if rng.random() < 0.5:
                compare("after-refusal")
            continue
        if r < 0.2:
            bad = dict(e, **{str(rng.choice(["L", "dx", "HdipoleFitMode", "cavtype", "f", "matrix", "transfer", "initial", "initial0", "IonChargeStates", "ncurve", "syncflag", "MpoleLevel"])):
                             rng.choice(np.array(["x", -1.0, 0.5, np.ones(3)], dtype=object))})
            ne = bad
            key = [x for x in bad if x not in e or bad[x] is not e[x]]
            upd = {x: bad[x] for x in key}
            hist.append((k, e["type"], "odd", {x: str(y) for x, y in upd.items()}))
        else:
            ne = newelem(e["type"])
            ne["name"] = e["name"]
            keys = [x for x in ne if x not in ("type", "name")]
            if rng.random() < 0.6 and keys:
                keep = set(rng.choice(keys, max(1, len(keys) // 2), replace=False)) if rng.random() < 0.7 else {keys[int(rng.integers(0, len(keys)))]}
                if "__generic__" in ne or "__curvefile__" in ne or "ncurve" in ne or any(x.startswith("IonCh") for x in keys):
                    keep = set(keys)
                upd = {x: ne[x] for x in keep}
            else:
                upd = {x: ne[x] for x in keys}
            if rng.random() < 0.2:
                upd["name"] = str(rng.choice(["dup", "renamed", "r%d" % step, e["name"]]))
            hist.append((k, e["type"], sorted(x for x in upd if not x.startswith("__"))[:6]))
        merged = dict(e, **upd)
        nxt = list(cur)
        nxt[k] = merged
        want = fl.outcome(fl.Machine, conf(nxt))
        if rng.random() < 0.25:
            glob = {x: y for x, y in gen.conf(b, [], sim).items() if x != "elements"}
            o = fl.outcome(M.reconfigure, k, dict(glob, **gen.clean(merged)), replace=True)
            mon.count("replace")
        else:
            o = fl.outcome(M.reconfigure, k, gen.clean(upd))
        mon.check(o[0] == want[0], "refusal-differs", lambda: "%s: rebuilt %r reconfigured %r" % (hist, want, o))
        if want[0] == "ok":
            cur = nxt
            mon.count("edits")
        else:
            mon.count("refused-edits")
        if rng.random() < (0.6 if not long else 0.15):
            compare("edit")
    compare("final")
    d = confeq(start_conf, M.conf())
    mon.check(not d, "machine-conf-changed", lambda: (hist, d))
    mon.distinct(tuple(map(str, hist)))
    mon.sample(dict(sim=sim, types=[e["type"] for e in es], history=hist[:4]))
