"""C18: charge stripping against the documented law."""
import math
import numpy as np
import fl
import gen
import model
import refm
import walk


def run_case(i, rng, mon):
    Ek = float(np.exp(rng.uniform(np.log(9e6), np.log(5e7))))
    b = gen.beam(rng, n=int(rng.integers(1, 7)), Ek=Ek)
    es = [dict(type="source")]
    for t in (["drift", "quadrupole"] if rng.random() < 0.5 else []):
        es.append(gen.elem(rng, t, Ek))
    n = int(rng.integers(1, 3))
    for _ in range(n):
        es.append(gen.elem(rng, "stripper", Ek))
        if rng.random() < 0.5:
            es.append(gen.elem(rng, str(rng.choice(["quadrupole", "sbend", "drift"])), Ek))
    if rng.random() < 0.2:
        for e in es:
            if e["type"] == "stripper" and rng.random() < 0.5:
                b2 = e          # parameters given at file level are inherited
                for k in [k for k in e if k.startswith("Stripper_")]:
                    b.setdefault(k, e.pop(k))
                break
    gen.add_names(rng, es)
    M, conf = fl.mk(b, es)
    S = M.allocState({})
    for k, e, a, z in walk.steps(M, es, S, mon, conf, ("stripper",)):
        if e["type"] != "stripper":
            continue
        c = {**{k: v for k, v in conf.items() if k != "elements"}, **e}
        nz = len(c["IonChargeStates"])
        off = c.get("charge_model", "baron") == "off"
        mon.check(np.array_equal(z["IonZ"], c["IonChargeStates"]), "charges", lambda: "%s" % z["IonZ"])
        if off:
            mon.check(np.array_equal(z["IonQ"], c["NCharge"]), "weights", lambda: "%s vs %s" % (z["IonQ"], c["NCharge"]))
        mon.check(z["pos"] == a["pos"], "position", "")
        d = model.compare(mon, conf, e, a, z, 1e-10)
        if d is None:
            break
        mon.check(not d, "model", lambda: "%s\n%s" % (d[:6], model.brief(e)))
        # laws stated directly
        q = a["IonQ"] / a["IonQ"].sum()
        mean = a["moment0"] @ q
        for j in range(nz):
            mon.check(np.array_equal(z["moment1"][:, :, j], z["moment1"][:, :, 0], equal_nan=True) and np.array_equal(z["moment0"][:, j], z["moment0"][:, 0], equal_nan=True)
                      and z["IonEk"][j] == z["IonEk"][0] and z["phis"][j] == z["phis"][0], "not-alike", lambda: j)
        D = np.maximum(gen.scales(a, a), gen.scales(z, z))
        mon.check(bool(np.all(np.abs(z["moment0"][:, 0] - mean) <= 1e-11 * D)), "mean", lambda: "%s" % (z["moment0"][:, 0] - mean))
        old = a["moment1_env"][:6, :6]
        new = z["moment1"][:6, :6, 0]
        so, sn = np.sqrt(np.diag(old)), np.sqrt(np.diag(new))
        mon.check(bool(np.all(np.abs(old / np.outer(so, so) - new / np.outer(sn, sn)) <= 1e-9)), "correlations", "")
        mon.check(bool(np.all(np.abs(so[[0, 2, 4]] - sn[[0, 2, 4]]) <= 1e-10 * so[[0, 2, 4]])), "sizes", "")
        mon.check(bool(np.all(sn[[1, 3, 5]] >= so[[1, 3, 5]] * (1 - 1e-12))), "spreads-shrink", "")
        mon.count("strips")
        mon.count("grow" if nz > len(q) else "shrink" if nz < len(q) else "equal")
        mon.count("model:" + ("off" if off else "baron"))
        mon.distinct(len(q), nz, off, tuple(sorted(k for k in e if k.startswith("Str"))))
    # from a state set by hand: what counts are the charge states, not the statistics of before
    k = next(j for j, e in enumerate(es) if e["type"] == "stripper")
    S = M.allocState(gen.clean(b))
    m = len(S.IonQ)
    if rng.random() < 0.6:
        S.IonQ = np.array(S.IonQ) * rng.uniform(0.2, 5.0, m)
    if rng.random() < 0.6:
        S.moment0 = np.array(S.moment0) * np.append(rng.uniform(0.5, 2.0, 6), 1.0)[:, None]
    if rng.random() < 0.4:
        S.moment1 = np.array(S.moment1) * rng.uniform(0.5, 2.0, m)
    if rng.random() < 0.3:
        S.moment0_env = np.array(S.moment0_env) * 0.5
    a = gen.snap(S)
    if fl.outcome(M.propagate, S, start=k, max=1)[0] == "ok":
        z = gen.snap(S)
        if np.all(np.isfinite(z["moment1"])):
            d = model.compare(mon, conf, es[k], a, z, 1e-10)
            if d is not None:
                mon.check(not d, "edited-model", lambda: "%s\n%s" % (d[:6], model.brief(es[k])))
                mon.count("edited")
    mon.sample(dict(es=[model.brief(e) for e in es]))
