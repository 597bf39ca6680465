"""C17: rf cavities against the documented thin-lens model, plus the relations that follow from it."""
import os
import shutil
import numpy as np
import fl
import gen
import model
import refm
import walk

_n = [0]


def setup(mon):
    pass


def cav_case(rng, nq=None):
    Ek = walk.energies(rng)
    b = gen.beam(rng, n=nq, Ek=Ek)
    es = [dict(type="source")]
    for _ in range(int(rng.integers(1, 4))):
        es.append(gen.elem(rng, "rfcavity", Ek, 0.3))
        if rng.random() < 0.5:
            es.append(gen.elem(rng, "drift", Ek))
    gen.add_names(rng, es)
    return Ek, b, es


LIM = {"0.041QWR": ((0.025, 0.08), (0.025, 0.055)), "0.085QWR": ((0.05, 0.25), (0.006, 0.035)),
       "0.29HWR": ((0.15, 0.4), (0.01687155, 0.0449908)), "0.53HWR": ((0.3, 0.6), (0.0112477, 0.0224954))}


def range_case(rng):
    """a built-in cavity entered near, inside or outside the range of its transit-time fits"""
    typ = str(rng.choice(sorted(LIM)))
    (b0, b1), (k0, k1) = LIM[typ]
    f = gen.CAV[typ][0]
    w = 2 * np.pi * f / 2.99792458e11
    if rng.random() < 0.7:
        beta = float(rng.choice([b0, b1, w / k0, w / k1])) * float(rng.uniform(0.9, 1.1))
    else:
        beta = float(rng.uniform(b0 * 0.8, b1 * 1.2))
    Ek = gen.ES * (1 / np.sqrt(1 - beta ** 2) - 1)
    b = gen.beam(rng, Ek=Ek)
    es = [dict(type="source"), gen.cavity(rng, Ek, 0.2, typ=typ)]
    es[1].pop("forcettfcalc", 0)
    gen.add_names(rng, es)
    return Ek, b, es


def run(b, es):
    M = fl.Machine(gen.conf(b, es))
    S = M.allocState({})
    o = fl.outcome(M.propagate, S)
    return gen.snap(S) if o[0] == "ok" else None


def stage(mon, e):
    mon.distinct(e["cavtype"], e.get("syncflag", "-"), str(e.get("MpoleLevel", "-")), bool(e.get("EmitGrowth")), bool(e.get("forcettfcalc")),
                 tuple(k for k in ("dx", "dy", "pitch", "yaw", "roll") if e.get(k)), int(np.sign(e["phi"])), e["scl_fac"] == 0)


def relations(rng, mon):
    Ek = walk.energies(rng)
    b = gen.beam(rng, Ek=Ek)
    c = gen.cavity(rng, Ek, 0.0)
    c["name"] = "c"
    src = dict(type="source", name="S")
    key = c["cavtype"]
    # zero field: the energies stay, the transverse motion is a drift
    z = run(b, [src, dict(c, scl_fac=0.0)])
    a = run(b, [src])
    if z is not None:
        L = c["L"] * 1e3
        if key == "Generic":
            g = c["__generic__"]
            fm, lat = g["fm"], sum(x[1] for x in g["lat"])
        else:
            fm = refm.cav_data(c)[2]
            lat = sum(x[1] for x in refm.cav_data(c)[4])
        mon.check(bool(np.all(np.abs(z["IonEk"] - a["IonEk"]) <= 1e-12 * a["IonEk"] * 50) and abs(z["ref_IonEk"] - a["ref_IonEk"]) <= 1e-10 * a["ref_IonEk"]), "zero-field-energy:" + key, "")
        d = fm[-1, 0] - fm[0, 0]
        dp = z["phis"] - a["phis"] - a["SampleIonK"] * d
        mon.check(bool(np.all(np.abs(dp) <= 1e-8 * np.abs(a["SampleIonK"] * d))), "zero-field-phase:" + key, lambda: dp)
        for j in range(z["moment0"].shape[1]):
            T = z["transmat"][:4, :4, j]
            E = np.eye(4)
            E[0, 1] = E[2, 3] = lat
            mon.check(np.allclose(T, E, rtol=1e-9, atol=1e-9), "zero-field-drift:" + key, lambda: "%s\n%s" % (T, model.brief(c)))
        mon.count("zero-field")
    # a whole turn of the drive phase
    x, y = run(b, [src, c]), run(b, [src, dict(c, phi=c["phi"] + 360.0 * float(rng.choice([-2, -1, 1, 2])))])
    if x is not None and y is not None and np.all(np.isfinite(x["moment1"])):
        if not c.get("EmitGrowth") or abs(np.cos(np.radians(c["phi"]))) > 1e-2:
            d = gen.close(x, y, 1e-7, ("ref_IonEk", "IonEk", "phis", "ref_phis", "moment0"))
            d += gen.close(x, y, 1e-3 if c.get("EmitGrowth") else 1e-7, ("moment1",))      # the growth formula cancels
            mon.check(not d, "full-turn:" + key, lambda: "%s\n%s" % (d, model.brief(c)))
            mon.count("full-turn")
    # centroid follows its own charge state
    if x is not None:
        mon.check(bool(np.all(np.abs(x["moment0"][5] - (x["IonEk"] - x["ref_IonEk"]) / 1e6) <= 1e-12 * (np.abs(x["IonEk"]) / 1e6))), "centroid-energy:" + key, lambda: model.brief(c))
        mon.check(bool(np.all(np.abs(x["moment0"][4] - (x["phis"] - x["ref_phis"])) <= 1e-12 * (np.abs(x["phis"]) + 1))), "centroid-phase:" + key, lambda: model.brief(c))
        mon.count("centroid")
        # twice the charge in half the field does the same (all voltages scale with charge times field)
        c2 = dict(c, scl_fac=c["scl_fac"] / 2)
        b2 = dict(b, IonChargeStates=[2 * q for q in b["IonChargeStates"]])
        b2.setdefault("IonZ", b["IonChargeStates"][0])
        b2["IonZ"] = 2 * b2["IonZ"]
        y = run(b2, [src, c2])
        if y is not None and not c.get("EmitGrowth"):
            d = gen.close(x, y, 1e-9, ("ref_IonEk", "IonEk", "phis", "ref_phis", "moment0", "moment1"))
            mon.check(not d, "charge-times-field:" + key, lambda: "%s\n%s" % (d, model.brief(c)))
            mon.count("charge-times-field")
    # fewer multipoles: same energies
    y = run(b, [src, dict(c, MpoleLevel=0.0)])
    if x is not None and y is not None:
        mon.check(np.array_equal(x["IonEk"], y["IonEk"], equal_nan=True) and np.array_equal(x["phis"], y["phis"], equal_nan=True), "multipoles-change-energy:" + key, "")


def edited(rng, mon):
    """a data file replaced between machines is read anew, the older machine keeps what it read"""
    Ek = walk.energies(rng)
    b = gen.beam(rng, Ek=Ek)
    src = dict(type="source", name="S")
    p = gen.scratch(".lat")
    seen, used = [], set()
    t = 1500000000 + int(rng.integers(0, 1000000))
    for k in range(int(rng.integers(2, 5))):
        g, _ = gen.generic(rng, Ek, path=p)
        os.utime(p, (t, t))
        used.add(t)
        t += int(rng.choice([-5, -1, 1, 3600]))
        while t in used:
            t += 1
        used.add(t)
        c = dict(type="rfcavity", name="c", cavtype="Generic", datafile=os.path.basename(p), Eng_Data_Dir=os.path.dirname(p), __generic__=g,
                 f=g["f"], L=g["len"], scl_fac=float(rng.uniform(0.1, 1)), phi=float(rng.uniform(-90, 90)), syncflag=0.0, Rm=g["Rm"])
        conf = gen.conf(b, [src, c])
        M = fl.Machine(conf)
        seen.append((M, conf, c))
        for M, conf, c in seen:
            S = M.allocState({})
            M.propagate(S, max=1)
            a = gen.snap(S)
            o = fl.outcome(M.propagate, S, start=1)
            if o[0] == "ok":
                d = model.compare(mon, conf, c, a, gen.snap(S), 1e-8)
                mon.check(not d, "edited-file", lambda: "machine %d of %d: %s" % (len(seen), k, d))
                mon.count("edited-file")
    os.remove(p)


def edited_builtin(rng, mon):
    ok = [t for t in gen.CAV]
    typ = str(rng.choice(ok))
    f, lo, hi, L = gen.CAV[typ]
    Ek = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    b = gen.beam(rng, Ek=Ek)
    lab = refm.BUILTIN[typ][1]
    d = gen.scratch("")
    os.makedirs(d + "/Multipole%d" % lab)
    files = ["axisData_%d.txt" % lab, "Multipole%d/CaviMlp_%d.txt" % (lab, lab), "Multipole%d/thinlenlon_%d.txt" % (lab, lab)]
    for x in files:
        shutil.copy(os.path.join(gen.DATA, x), os.path.join(d, x))
        os.utime(os.path.join(d, x), (1.4e9, 1.4e9))
    t = int(1.4e9)
    src = dict(type="source", name="S")
    for k in range(2):
        c = dict(gen.cavity(rng, Ek, 0.2, typ=typ), name="c", Eng_Data_Dir=d)
        if rng.random() < 0.5:
            c["forcettfcalc"] = 1.0
        conf = gen.conf(b, [src, c])
        M = fl.Machine(conf)
        S = M.allocState({})
        M.propagate(S, max=1)
        a = gen.snap(S)
        if fl.outcome(M.propagate, S, start=1)[0] == "ok":
            df = model.compare(mon, conf, c, a, gen.snap(S), 1e-8)
            mon.check(not df, "edited-builtin:" + typ, lambda: "round %d: %s\n%s" % (k, df, model.brief(c)))
            mon.count("edited-builtin")
        # edit one of the files: the field, or a multipole table
        t += int(rng.choice([-7, 1, 60]))
        if rng.random() < 0.6:
            p = os.path.join(d, files[0])
            s = float(rng.uniform(0.3, 1.5))
            rows = [ln.split() for ln in open(p) if ln.strip() and not ln.startswith("%")]
            if rng.random() < 0.6:
                # another number of points
                rows = rows[int(rng.integers(0, 2)):len(rows) - int(rng.integers(0, 3))]
                rows = rows[::int(rng.choice([1, 1, 2, 3]))]
                mon.count("axis-rows:%s" % ("odd" if len(rows) % 2 else "even"))
            with open(p, "w") as o:
                for r in rows:
                    o.write("%s %.17g\n" % (r[0], float(r[1]) * s))
        else:
            p = os.path.join(d, files[1])
            rows = [ln.split() for ln in open(p) if ln.strip() and not ln.startswith("%")]
            s = rng.uniform(0.3, 1.5, len(rows[0]))
            s[0] = 1
            with open(p, "w") as o:
                for r in rows:
                    o.write(" ".join("%.17g" % (float(x) * y) for x, y in zip(r, s)) + "\n")
        os.utime(p, (t, t))
        refm._tab.clear()
    shutil.rmtree(d)


def run_case(i, rng, mon):
    if i % 4 == 3:
        return relations(rng, mon)
    if i % 16 == 0:
        return edited(rng, mon)
    if i % 16 == 8:
        return edited_builtin(rng, mon)
    Ek, b, es = range_case(rng) if i % 4 == 1 else cav_case(rng)
    mon.count("range-cases", i % 4 == 1)
    conf = gen.conf(b, es)
    M = fl.Machine(conf)
    S = M.allocState({})
    if es[0]["type"] != "source" or rng.random() < 0.3:
        S = M.allocState(gen.clean(b))
        if walk.edit(rng, S, 0.8):
            es = [dict(type="marker", name="m0")] + es[1:] if es[0]["type"] == "source" else es
            conf = gen.conf(b, es)
            M = fl.Machine(conf)
            mon.count("edited-states")
    for k, e, a, z in walk.steps(M, es, S, mon, conf, ("rfcavity",)):
        if e["type"] != "rfcavity":
            continue
        d = model.compare(mon, conf, e, a, z, 1e-8)
        if d is None:
            break
        mon.count("compared")
        mon.count("cav:" + e["cavtype"])
        mon.check(not d, "cavity:" + e["cavtype"], lambda: "%s\n%s" % (d[:6], model.brief(e)))
        stage(mon, e)
    mon.sample(dict(es=[model.brief(e) for e in es]))
