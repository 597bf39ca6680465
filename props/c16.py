"""C16: derived kinematics are exact functions of the independent ones, and phases, position and energies move as they must."""
import math
import numpy as np
import fl
import gen
import model
import refm
import walk

C0 = 2.99792458e8
KEEP = ("IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq")
REFKEEP = tuple("ref_" + k for k in KEEP)
SRC = ("ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_IonEk", "ref_SampleFreq", "ref_phis", "IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq", "phis",
       "moment0", "moment1", "pos")


def kin(mon, s, where):
    """gamma, beta, ... of the reference and of each charge state"""
    for pre in ("ref_", ""):
        g = lambda k: np.atleast_1d(s[pre + k])
        W = g("IonEs") + g("IonEk")
        gam = W / g("IonEs")
        beta = np.sqrt(1 - 1 / gam ** 2)
        bg = beta * gam
        K = 2 * math.pi / (beta * C0 / g("SampleFreq") * 1e3)
        # 1-1/gamma^2 loses digits for slow beams
        r = 4e-16 * gam ** 2 / (gam ** 2 - 1) * 8 + 1e-14
        ok = True
        for k, v, t in (("IonW", W, 1e-15), ("gamma", gam, 1e-15), ("beta", beta, r), ("bg", bg, r), ("SampleIonK", K, r)):
            ok &= mon.check(bool(np.all(np.abs(g(k) - v) <= t * np.abs(v))), "kinematics:%s%s:%s" % (pre, k, where), lambda: "%s vs %s" % (g(k), v))
        # gamma through bg, independently of the formula above
        mon.check(bool(np.all(np.abs(np.hypot(1, g("bg")) - g("gamma")) <= 1e-9 * gam)), "gamma-bg:%s:%s" % (pre, where), lambda: "%s %s" % (g("bg"), g("gamma")))
    mon.count("kinematics-checks")


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def run_case(i, rng, mon):
    Ek, b, es, M, conf = walk.case(rng, cav=0.2, strip=0.08, neg=0.08, nq=int(rng.integers(10, 21)) if rng.random() < 0.06 else None)
    n = len(b["NCharge"])
    # allocated states
    sel = None
    c = gen.clean(b)
    if rng.random() < 0.3:
        sel = int(rng.integers(0, n))
        c["cstate"] = float(sel)
    S = M.allocState(c)
    s, m = gen.snap(S), gen.psnap(refm.from_conf(c))
    d = gen.close(m, s, 1e-15, SRC) + gen.close(m, s, 1e-12, ("moment0_env", "moment1_env"))
    mon.check(not d, "allocated", lambda: "%s cstate=%s" % (d, sel))
    kin(mon, s, "allocated")
    mon.count("allocated")
    # taken over from the machine, in whole or with some settings given anew
    x = {}
    if rng.random() < 0.7:
        if rng.random() < 0.5:
            x["IonEk"] = float(Ek * rng.uniform(0.8, 1.2))
        if rng.random() < 0.3:
            x["NCharge"] = rng.uniform(1, 9, n)
        if rng.random() < 0.3:
            x["SampleFreq"] = float(rng.uniform(4e7, 2e8))
        if rng.random() < 0.3:
            x["cstate"] = float(rng.integers(0, n))
    g = dict(conf)
    if rng.random() < 0.4:
        g["cstate"] = float(rng.integers(0, n))
        M2 = fl.Machine(g)
    else:
        M2 = M
    for how, T, c in (("inherit", M2.allocState(x, inherit=True), dict(g, **x)), ("whole", M2.allocState(), g)):
        s, m = gen.snap(T), gen.psnap(refm.from_conf(c))
        d = gen.close(m, s, 1e-15, SRC)
        mon.check(not d, "allocated-" + how, lambda: "%s %s" % (d, x))
        mon.count("allocated-" + how)
    if rng.random() < 0.3 and len(es) > 1:
        # the state does not depend on the beamline
        M3, _ = fl.mk(b, es[1:])
        for c in (gen.clean(b), dict(gen.clean(b), cstate=float(rng.integers(0, n)))):
            T = M3.allocState(c)
            d = gen.close(gen.psnap(refm.from_conf(c)), gen.snap(T), 1e-15, SRC)
            mon.check(not d and T.next_elem == 0, "allocated-no-source", lambda: "%s %s" % (d, T.next_elem))
            mon.count("allocated-no-source")
    sb = gen.single_beam(rng, Ek)
    if rng.random() < 0.5:
        for k in list(sb):
            if k in ("IonQ", "moment0", "initial", "IonZ") and rng.random() < 0.2:
                del sb[k]
    s, m = gen.snap(M.allocState(gen.clean(sb))), gen.psnap(refm.from_conf(sb))
    d = gen.close(m, s, 1e-15, SRC)
    mon.check(not d, "allocated-single", lambda: "%s\n%s" % (d, sb))
    if rng.random() < 0.2:      # a source further on, with settings of its own
        x = dict(type="source", name="again")
        if rng.random() < 0.5:
            x["IonEk"] = float(Ek * rng.uniform(0.8, 1.2))
        if rng.random() < 0.3:
            x["NCharge"] = [float(v) for v in rng.uniform(1, 9, n)]
        if rng.random() < 0.3:
            x["cstate"] = float(rng.integers(0, n))
        es.insert(int(rng.integers(1, len(es) + 1)), x)
        M, conf = fl.mk(b, es)
    S = M.allocState({}) if es[0]["type"] == "source" else M.allocState(gen.clean(b))
    if rng.random() < 0.5:      # a source sets the state whatever it was
        fl.outcome(M.propagate, S)
        if es[0]["type"] != "source":
            S = M.allocState(gen.clean(b))
        mon.count("used-states")
    for k, e, a, z in walk.steps(M, es, S, mon, conf, gen.LIN_TYPES):
        t = e["type"]
        if not np.all(np.isfinite(z["IonEk"])) or z["ref_IonEk"] <= 0 or np.any(z["IonEk"] <= 0):
            break
        kin(mon, z, t)
        mon.count("type:" + t)
        if t == "source":
            d = gen.close(gen.psnap(refm.from_conf(dict(conf, **e))), z, 1e-15, SRC)
            mon.check(not d, "source", lambda: d)
            # nothing is left of what the state was before
            F = M.allocState({})
            M.propagate(F, start=k, max=1)
            d = fl.same(fl.full(F), fl.full(S))
            mon.check(not d, "source-leaves-remains", lambda: d)
            mon.count("sources")
            continue
        if t in ("rfcavity", "stripper"):
            # still: charge-state identity (cavity), rest energy and frequency
            keep = [x for x in ("IonEs", "SampleFreq") ] + (["IonZ", "IonQ"] if t == "rfcavity" else [])
            if t == "rfcavity":
                bad = [x for x in keep if not same(a[x], z[x])] + [x for x in ("ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_SampleFreq") if not same(a[x], z[x])]
                mon.check(not bad, "changed:" + t, lambda: bad)
            else:
                mon.check(same(a["ref_IonEs"], z["ref_IonEs"]) and same(a["ref_SampleFreq"], z["ref_SampleFreq"]) and bool(np.all(z["IonEs"] == z["ref_IonEs"])) and bool(np.all(z["SampleFreq"] == z["ref_SampleFreq"])), "changed:" + t, "")
        else:
            bad = [x for x in KEEP + REFKEEP if not same(a[x], z[x])]
            mon.check(not bad, "changed:" + t, lambda: "%s\n%s" % (bad, model.brief(e)))
            L = refm.length(e) * 1e3
            dp = z["phis"] - a["phis"] - z["SampleIonK"] * L
            if t == "sbend":
                dp = dp - (z["moment0"][4] - a["moment0"][4])
            tol = 1e-12 * (np.abs(a["phis"]) + np.abs(z["phis"]) + np.abs(z["SampleIonK"] * L) + np.abs(z["moment0"][4]) + np.abs(a["moment0"][4]))
            mon.check(bool(np.all(np.abs(dp) <= tol + 1e-300)), "phase:" + t, lambda: "%s\n%s" % (dp, model.brief(e)))
            dr = z["ref_phis"] - a["ref_phis"] - z["ref_SampleIonK"] * L
            mon.check(abs(dr) <= 1e-12 * (abs(a["ref_phis"]) + abs(z["ref_phis"])) + 1e-300, "ref-phase:" + t, lambda: "%s" % dr)
        L = refm.length(e)
        mon.check(abs(z["pos"] - a["pos"] - L) <= 1e-14 * max(1, abs(z["pos"])), "position:" + t, lambda: "%s %s %s" % (a["pos"], z["pos"], L))
    # user writes kinetic energies, charges, frequencies: the next pass makes all derived values follow
    if rng.random() < 0.5:
        S = M.allocState(gen.clean(b))
        S.ref_IonEk = float(S.ref_IonEk * rng.uniform(0.9, 1.1))
        S.IonEk = np.array(S.IonEk) * rng.uniform(0.95, 1.05, n)
        if rng.random() < 0.5:
            f = float(rng.uniform(4e7, 2e8))
            S.ref_SampleFreq, S.SampleFreq = f, np.full(n, f)
        j = [x for x, e in enumerate(es) if e["type"] not in ("source", "stripper", "rfcavity")]
        if j:
            j = j[int(rng.integers(0, len(j)))]
            a = gen.snap(S)
            M.propagate(S, start=j, max=1)
            z = gen.snap(S)
            kin(mon, z, "written")
            mon.check(same(a["ref_IonEk"], z["ref_IonEk"]) and same(a["IonEk"], z["IonEk"]) and same(a["SampleFreq"], z["SampleFreq"]), "written-energy-lost", "")
            mon.count("written")
    mon.distinct(tuple(e["type"] for e in es), n, int(math.log10(Ek) * 2), sel is None)
    mon.sample(dict(types=[e["type"] for e in es], Ek=Ek, n=n))
