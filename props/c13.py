"""C13: mean, rms and overall second moments always match the charge states."""
import numpy as np
import fl
import gen
import walk


def stats(s):
    q = s["IonQ"]
    t = q.sum()
    m0 = (s["moment0"] * q).sum(axis=1) / t
    m1 = np.zeros((7, 7))
    for i in range(len(q)):
        d = s["moment0"][:, i] - m0
        m1[:6, :6] += q[i] * (s["moment1"][:, :, i] + np.outer(d, d))[:6, :6]
    m1 /= t
    return m0, m1


def match(mon, s, where):
    if not np.all(np.isfinite(s["moment1"])) or not np.sum(s["IonQ"]) > 1e-250:
        return False
    m0, m1 = stats(s)
    D = gen.scales(s, s)
    mon.count("states-checked")
    ok = mon.check(np.all(np.abs(m0 - s["moment0_env"]) <= 1e-11 * D), "mean:" + where, lambda: "%s vs %s" % (s["moment0_env"], m0))
    ok &= mon.check(np.all(np.abs(m1 - s["moment1_env"]) <= 1e-11 * np.outer(D, D)), "second-moments:" + where,
                    lambda: "worst %s" % np.max(np.abs(m1 - s["moment1_env"]) / np.outer(D, D)))
    e = np.diag(s["moment1_env"])
    r = s["moment0_rms"]
    with np.errstate(all="ignore"):
        good = np.all((np.abs(r * r - e) <= 1e-12 * np.abs(e) + 1e-300) | (np.isnan(r) & (e < 0))) and np.all(~(r < 0))
    ok &= mon.check(bool(good), "rms:" + where, lambda: "%s vs diag %s" % (r, e))
    return bool(ok)


def psd(mon, s, where):
    D = gen.scales(s, s)
    for name, ms in (("moment1", [s["moment1"][:, :, i] for i in range(len(s["IonQ"]))]), ("moment1_env", [s["moment1_env"]])):
        for m in ms:
            a = m[:6, :6] / np.outer(D[:6], D[:6])
            mon.check(np.max(np.abs(a - a.T)) <= 1e-9, "not-symmetric:%s:%s" % (name, where), lambda: np.max(np.abs(a - a.T)))
            w = np.linalg.eigvalsh((a + a.T) / 2)
            mon.check(w[0] >= -1e-9 * max(1, abs(w[-1])), "not-psd:%s:%s" % (name, where), lambda: w)


def run_case(i, rng, mon):
    Ek, b, es, M, conf = walk.case(rng)
    types = tuple(e["type"] for e in es)
    # newly allocated, in each way
    for S in (M.allocState(), M.allocState({}), M.allocState(gen.clean(b)), M.allocState({}, inherit=True)):
        s = gen.snap(S)
        if s["IonQ"][0] == 1.0 and len(s["IonQ"]) == 1 and not np.any(s["moment0"]):
            continue
        match(mon, s, "allocated")
    if rng.random() < 0.3:
        sb = gen.single_beam(rng, Ek)
        match(mon, gen.snap(M.allocState(gen.clean(sb))), "allocated-single")
        c = dict(gen.clean(b), cstate=float(rng.integers(0, len(b["NCharge"]))))
        match(mon, gen.snap(M.allocState(c)), "allocated-cstate")
    S = M.allocState(gen.clean(b))
    for k, e, a, z in walk.steps(M, es, S, mon):
        if not match(mon, z, e["type"]):
            return
        psd(mon, z, e["type"])
        match(mon, gen.snap(S.clone()), "clone")
        mon.count("type:" + e["type"])
    # edited by hand between elements: the next element brings the statistics up to date
    S = M.allocState(gen.clean(b))
    for k, e in enumerate(es[:1] + [es[int(j)] for j in rng.integers(0, len(es), 4)]):
        k = es.index(e)
        if rng.random() < 0.8 and e["type"] != "source":
            w = str(rng.choice(["moment0", "moment1", "IonQ"]))
            v = np.array(getattr(S, w))
            v = v * rng.uniform(0.5, 2.0, v.shape[-1])
            if w == "IonQ" and rng.random() < 0.2 and e["type"] != "stripper":
                x = v.copy()
                x[np.argmin(np.abs(x))] *= -1
                if x.sum() > 0.2 * np.abs(x).sum():
                    v = x
                    mon.count("negative-weight", bool(x.min() < 0))
            setattr(S, w, v)
        if fl.outcome(M.propagate, S, start=k, max=1)[0] != "ok":
            break
        z = gen.snap(S)
        if not np.all(np.isfinite(z["moment0"])) or not match(mon, z, "edited:" + e["type"]):
            break
        mon.count("edited")
    # one observed pass
    S = M.allocState(gen.clean(b))
    o = fl.outcome(M.propagate, S, observe=range(len(es)))
    if o[0] == "ok":
        for k, st in o[1]:
            match(mon, gen.snap(st), "observed")
        # and back again, element by element: the statistics follow there too
        if rng.random() < 0.6:
            for k in range(len(es) - 1, -1, -1):
                if fl.outcome(M.propagate, S, start=k, max=-1)[0] != "ok":
                    break
                z = gen.snap(S)
                if not match(mon, z, "backward:" + es[k]["type"]):
                    break
                mon.count("backward:" + es[k]["type"])
    # reordering and weight scaling
    n = len(b["NCharge"])
    if n > 1 and es[0]["type"] == "source" and "stripper" not in types:
        vn, mn = b.get("vector_variable", "moment0"), b.get("matrix_variable", "initial")
        perm = rng.permutation(n)
        b.setdefault("IonZ", b["IonChargeStates"][0])
        b.setdefault("IonQ", b["NCharge"][0])
        c = dict(b)
        f = float(rng.uniform(0.1, 50))
        for x, y in enumerate(perm):
            c[vn + str(x)], c[mn + str(x)] = b[vn + str(y)], b[mn + str(y)]
        c["IonChargeStates"] = [b["IonChargeStates"][y] for y in perm]
        c["NCharge"] = [b["NCharge"][y] * f for y in perm]
        res = []
        for cc in (b, c):
            m = fl.Machine(gen.conf(cc, es))
            st = m.allocState({})
            res.append((fl.outcome(m.propagate, st)[0], gen.snap(st)))
        if res[0][0] == "ok" and res[1][0] == "ok" and np.all(np.isfinite(res[0][1]["moment1"])):
            d = gen.close(res[0][1], res[1][1], 1e-9, ("moment0_env", "moment1_env", "moment0_rms", "pos", "ref_IonEk", "ref_phis"), D=gen.scales(res[0][1], res[0][1]))
            mon.check(not d, "order-or-scale-matters", lambda: "perm %s factor %g: %s\n%s" % (perm, f, d, es))
            mon.count("permuted")
    mon.distinct(types, n)
    mon.sample(dict(types=types, charge_states=n))
