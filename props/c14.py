"""C14: each element acts on each charge state by its reported transfer matrix, on its own."""
import numpy as np
import fl
import gen
import walk

J = np.zeros((4, 4))
J[0, 1] = J[2, 3] = 1
J[1, 0] = J[3, 2] = -1
SYMP = ("drift", "marker", "bpm", "quadrupole", "solenoid", "equad", "orbtrim", "sbend", "sextupole")
PER = ("IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq", "phis", "beta", "gamma", "IonW", "bg", "SampleIonK")


def run_case(i, rng, mon):
    Ek, b, es, M, conf = walk.case(rng, strip=0.0)
    n = len(b["NCharge"])
    types = tuple(e["type"] for e in es)
    S = M.allocState(gen.clean(b))
    for k, e, a, z in walk.steps(M, es, S, mon):
        t = e["type"]
        if t == "source":
            continue
        for j in range(z["moment0"].shape[1]):
            T = z["transmat"][:, :, j]
            D = np.maximum(gen.scales(a, a), gen.scales(z, z))
            v = T @ a["moment0"][:, j]
            tol = 1e-10 * (np.abs(T) @ D + D)
            mon.check(np.all(np.abs(v - z["moment0"][:, j]) <= tol), "centroid:" + t, lambda: "%s vs %s\n%s" % (z["moment0"][:, j], v, e))
            if not (t == "rfcavity" and e.get("EmitGrowth")):
                m = T @ a["moment1"][:, :, j] @ T.T
                w = np.abs(T) @ D + D
                mon.check(np.all(np.abs(m - z["moment1"][:, :, j]) <= 1e-10 * np.outer(w, w)), "second-moments:" + t, lambda: "worst %g\n%s" % (np.max(np.abs(m - z["moment1"][:, :, j]) / np.outer(w, w)), e))
            if t != "tmatrix":
                mon.check(np.all(T[6, :6] == 0) and abs(T[6, 6] - 1) < 1e-12, "last-row:" + t, lambda: T[6])
            if t in SYMP and not (t == "sextupole" and not e.get("thinlens")) and not (t == "sbend" and e.get("roll")) and not any(e.get(x) for x in ("pitch", "yaw")):
                # with pitch and yaw the change of coordinates mixes in the longitudinal plane
                X = T[:4, :4]
                sc = np.array([1e3, 1.0, 1e3, 1.0])          # mm against rad
                X = X * sc[None, :] / sc[:, None]
                r = X.T @ J @ X - J
                mon.check(np.max(np.abs(r)) <= 1e-8 * max(1, np.max(np.abs(X)) ** 2), "not-symplectic:" + t, lambda: "%g %s" % (np.max(np.abs(r)), e))
                mon.count("symplectic")
            mon.count("matrix-checks")
        mon.count("type:" + t)
    # alone or in company: the same motion
    if n > 1:
        perm = rng.permutation(n)
        keep = perm[:int(rng.integers(1, n + 1))]
        vn, mn = b.get("vector_variable", "moment0"), b.get("matrix_variable", "initial")
        base = dict(b)
        base.setdefault("IonZ", b["IonChargeStates"][0])
        base.setdefault("IonQ", b["NCharge"][0])
        c = {x: y for x, y in base.items() if not (x.startswith(vn) or x.startswith(mn))}
        for x, y in enumerate(keep):
            c[vn + str(x)], c[mn + str(x)] = b[vn + str(y)], b[mn + str(y)]
        c["IonChargeStates"] = [b["IonChargeStates"][y] for y in keep]
        c["NCharge"] = [float(rng.uniform(1, 1e3)) for y in keep]
        M1, M2 = fl.Machine(gen.conf(base, es)), fl.Machine(gen.conf(c, es))
        s1, s2 = M1.allocState(gen.clean(base)), M2.allocState(gen.clean(c))
        for k, e in enumerate(es):
            o1, o2 = fl.outcome(M1.propagate, s1, start=k, max=1), fl.outcome(M2.propagate, s2, start=k, max=1)
            if o1[0] != "ok" or o2[0] != "ok":
                break
            a, z = gen.snap(s1), gen.snap(s2)
            if not np.all(np.isfinite(a["moment1"])):
                break
            bad = [x for x in gen.IND if x.startswith("ref_") and not np.array_equal(a[x], z[x], equal_nan=True)]
            for x in PER:
                if x != "IonQ" and not np.array_equal(a[x][keep], z[x], equal_nan=True):
                    bad.append(x)
            for x in ("moment0", "moment1", "transmat"):
                if not np.array_equal(a[x][..., keep], z[x], equal_nan=True):
                    bad.append(x)
            if not mon.check(not bad, "depends-on-others:" + e["type"], lambda: "keep %s: %s\n%s" % (keep, bad, e)):
                break
            mon.count("company-checks")
    mon.distinct(types, n)
    mon.sample(dict(types=types, charge_states=n))
