"""C15: every magnet and static element against the documented optics, plus the relations that follow from them."""
import os
import numpy as np
import fl
import gen
import model
import refm
import walk

HASL = ("drift", "quadrupole", "solenoid", "equad", "sbend", "edipole", "sextupole")
MIS = ("dx", "dy", "pitch", "yaw", "roll")


def one(mon, conf, e, a, z):
    t = e["type"]
    d = model.compare(mon, conf, e, a, z)
    if d is None:
        return
    mon.count("compared")
    mon.count("type:" + t)
    if d and t == "sextupole" and not e.get("thinlens"):
        refm.PINNED = True
        try:
            q = model.compare(mon, conf, e, a, z)
        finally:
            refm.PINNED = False
        if not q:
            mon.violate("sextupole-thicklens-dr", "%s\n%s" % (d, model.brief(e)))
            return
        d = q
    mon.check(not d, "optics:" + t, lambda: "%s\n%s" % (d[:6], model.brief(e)))
    for k in e:
        if k not in ("type", "name") and not k.startswith("__"):
            mon.distinct(t, k, int(np.sign(e[k])) if isinstance(e[k], float) else "v", tuple(sorted(x for x in MIS if e.get(x))))


def run1(b, es):
    M = fl.Machine(gen.conf(b, [dict(type="source", name="S")] + es))
    S = M.allocState({})
    o = fl.outcome(M.propagate, S)
    return gen.snap(S) if o[0] == "ok" else None


def relation(mon, b, x, y, key, names=("moment0", "moment1", "phis", "ref_phis", "pos", "IonEk"), tol=1e-9):
    p, q = run1(b, x), run1(b, y)
    bad = [x is None or not np.all(np.isfinite(x["moment1"])) for x in (p, q)]
    if any(bad):
        mon.check(all(bad), "relation-one-sided:" + key, lambda: "%s\n%s\n%s" % (bad, [model.brief(e) for e in x], [model.brief(e) for e in y]))
        mon.count("relation-skipped")
        return
    big = min(np.max(np.abs(p["transmat"])), np.max(np.abs(q["transmat"])))
    if big > 1e9:
        return
    d = gen.close(p, q, tol, names)
    mon.check(not d, "relation:" + key, lambda: "%s\n%s\n%s" % (d, [model.brief(e) for e in x], [model.brief(e) for e in y]))
    mon.count("relations")
    mon.count("relation:" + key)


def relations(rng, mon, Ek):
    b = gen.beam(rng, Ek=Ek)
    t = str(rng.choice(["quadrupole", "solenoid", "equad", "orbtrim", "sbend", "edipole", "sextupole", "marker", "bpm"]))
    e = gen.elem(rng, t, Ek, misp=0.0, curvep=0.0)
    e["name"] = "e"
    L = e.get("L", 0.0)
    dr = dict(type="drift", L=L, name="d")
    # unpowered is a drift
    off = dict(quadrupole=dict(B2=0.0), solenoid=dict(B=0.0), equad=dict(V=0.0), sextupole=dict(B3=0.0)).get(t)
    if off:
        relation(mon, b, [dict(e, **off)], [dr], "unpowered-is-drift:" + t)
        # (misalignment moves the longitudinal frame by a constant, so only the transverse plane is a plain drift then)
    if t in ("marker", "bpm"):
        relation(mon, b, [e], [], "marker-is-identity")
    if t == "orbtrim":
        relation(mon, b, [dict(type="orbtrim", name="o", theta_x=0.0, theta_y=0.0)], [], "zero-trim-is-identity")
        s = float(rng.uniform(0.2, 0.8))
        if "theta_x" in e and "xyrotate" not in e:
            relation(mon, b, [e], [dict(e, theta_x=e["theta_x"] * s, theta_y=e["theta_y"] * s), dict(e, theta_x=e["theta_x"] * (1 - s), theta_y=e["theta_y"] * (1 - s))], "split:orbtrim")
    if t in ("quadrupole", "solenoid", "equad") or t == "sbend" and e["phi1"] == 0 == e["phi2"]:
        s = float(rng.uniform(0.1, 0.9))
        relation(mon, b, [e], [dict(e, L=L * s), dict(e, L=L * (1 - s), name="f")], "split:" + t)
        # a constant curve is the plain element
        key = dict(quadrupole="B2", solenoid="B", equad="V")[t]
        v = e[key] / (e["radius"] ** 2 if t == "equad" else 1)
        n = int(rng.integers(1, 7))
        c = {k: x for k, x in e.items() if k != key}
        c.update(ncurve=1.0, curve0=[1.0] * n, scl_fac0=v)
        relation(mon, b, [e], [c], "constant-curve:" + t)
        cs = [float(x) for x in rng.normal(size=n)]
        parts = [dict(e, name="p%d" % i, L=L / n, **{key: x * e[key]}) for i, x in enumerate(cs)]
        relation(mon, b, [dict(c, curve0=cs)], parts, "curve-is-slices:" + t)
        a, z = sorted(rng.choice(n + 1, 2, replace=False))
        relation(mon, b, [dict(c, curve0=cs, use_range=[float(a), float(z)])], [dict(c, curve0=cs[a:z])], "use_range:" + t)
        # quarter turn about the axis reverses a quadrupole, and leaves a solenoid alone
    if t == "sbend":
        s = float(rng.uniform(0.1, 0.9))
        relation(mon, b, [e], [dict(e, L=L * s, phi=e["phi"] * s, phi2=0.0), dict(e, L=L * (1 - s), phi=e["phi"] * (1 - s), phi1=0.0, name="f")], "split:sbend", ("moment0", "moment1", "pos", "IonEk"))
        # switched off: transversely a drift, or a plain quadrupole (longitudinally it is linear around the reference particle)
        for K in (0.0, float(rng.normal() * 5)):
            x = run1(b, [dict(e, phi=0.0, K=K)])
            if not mon.check(x is not None, "relation-one-sided:unpowered-is-drift:sbend", lambda: model.brief(e)):
                continue
            M0 = x["transmat"]
            want = np.eye(7)
            want[0:2, 0:2], want[2:4, 2:4] = refm.foc(L * 1e3, K * 1e-6), refm.foc(L * 1e3, -K * 1e-6)
            for k in range(M0.shape[-1]):
                g = M0[:4, :, k]
                mon.check(bool(np.all(np.abs(g - want[:4]) <= 1e-9 * (1 + np.max(np.abs(want[:4]))))), "relation:unpowered-is-drift:sbend", lambda: "%s\n%s" % (g - want[:4], model.brief(dict(e, phi=0.0, K=K))))
            mon.count("relations")
            mon.count("relation:unpowered-is-drift:sbend")
        relation(mon, b, [dict(e, HdipoleFitMode=1.0)], [{k: v for k, v in e.items() if k not in ("HdipoleFitMode", "bg")}], "default-fit-mode:sbend")
    if t == "edipole":
        relation(mon, b, [dict(e, HdipoleFitMode=1.0)], [{k: v for k, v in e.items() if k not in ("HdipoleFitMode", "beta")}], "default-fit-mode:edipole")
    # transverse misalignment of a straight element: shift in, element, shift out
    if t in ("quadrupole", "equad", "solenoid"):
        dx, dy = float(rng.normal() * 2e-3), float(rng.normal() * 2e-3)
        m = np.eye(7)
        m[0, 6], m[2, 6] = -dx * 1e3, -dy * 1e3
        i = np.eye(7)
        i[0, 6], i[2, 6] = dx * 1e3, dy * 1e3
        tm = lambda x, n: dict(type="tmatrix", name=n, matrix=[float(v) for v in x.ravel()])
        relation(mon, b, [dict(e, dx=dx, dy=dy)], [tm(m, "a"), e, tm(i, "b")], "offset:" + t)
        r = float(rng.normal() * 0.5)
        R = np.eye(7)
        R[0, 0] = R[1, 1] = R[2, 2] = R[3, 3] = np.cos(r)
        R[0, 2] = R[1, 3] = np.sin(r)
        R[2, 0] = R[3, 1] = -np.sin(r)
        relation(mon, b, [dict(e, roll=r)], [tm(R, "a"), e, tm(R.T, "b")], "roll:" + t)
        relation(mon, b, [dict(e, dx=dx, dy=dy, roll=r)], [tm(R @ m, "a"), e, tm(np.linalg.inv(R @ m), "b")], "offset-roll:" + t)


def edited(rng, mon):
    """a curve file replaced between machines is read anew"""
    Ek = walk.energies(rng)
    b = gen.beam(rng, Ek=Ek)
    t = str(rng.choice(["quadrupole", "solenoid", "equad"]))
    p, used = gen.scratch(".lat"), set()
    when = 1500000000 + int(rng.integers(0, 1000000))
    e = gen.elem(rng, t, Ek, curvep=0.0)
    for k in ("B2", "B", "V"):
        e.pop(k, None)
    e["name"] = "m"
    for rep in range(int(rng.integers(2, 5))):
        gen.curves(rng, e, {"quadrupole": 3.0, "solenoid": 2.0, "equad": 1e4}[t], filep=1.0)
        if rng.random() < 0.7:
            e.pop("use_range", None)
        gen.write_curves(p, e["__curvefile__"])
        e["CurveFile"], e["Eng_Data_Dir"] = os.path.basename(p), os.path.dirname(p)
        while when in used:
            when += int(rng.choice([-5, -1, 1, 3600]))
        used.add(when)
        os.utime(p, (when, when))
        conf = gen.conf(b, [dict(type="source", name="S"), e])
        M = fl.Machine(conf)
        S = M.allocState({})
        M.propagate(S, max=1)
        a = gen.snap(S)
        o = fl.outcome(M.propagate, S, start=1)
        if o[0] == "ok" and walk.should(conf, e, a):
            d = model.compare(mon, conf, e, a, gen.snap(S), 1e-8)
            mon.check(not d, "edited-curve-file:" + t, lambda: "contents %d: %s" % (rep, d))
            mon.count("edited-curve-file")
        for k in [k for k in e if k.startswith("scl_fac")] + ["use_range"]:
            e.pop(k, None)


def run_case(i, rng, mon):
    if i % 100 == 99:
        return edited(rng, mon)
    if i % 4 == 3:
        relations(rng, mon, walk.energies(rng))
        return
    if i % 4 == 0:         # one element at a time, every type in turn
        t = gen.LIN_TYPES[(i // 4) % len(gen.LIN_TYPES)]
        Ek, b, es, M, conf = walk.case(rng, n=(1, 2), cav=0, strip=0, types=[t], misp=0.7, neg=0.08)
    else:
        Ek, b, es, M, conf = walk.case(rng, cav=0, strip=0, misp=0.5, neg=0.08)
    S = M.allocState(gen.clean(b))
    ed = walk.edit(rng, S)
    mon.count("edited-states", ed)
    for k, e, a, z in walk.steps(M, es, S, mon, conf, gen.LIN_TYPES, 1 if ed else 0):
        if e["type"] == "source":
            continue
        if not walk.should(conf, e, a):
            break
        one(mon, conf, e, a, z)
    mon.sample(dict(types=[e["type"] for e in es]))
