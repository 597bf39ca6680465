"""C06: a machine represents exactly the configuration it was built from."""
import io
import os
import numpy as np
import fl
import gen
from flame import Machine, GLPSPrinter

POOL = ["a", "ab", "abc", "a1", "a10", "a2", "A", "b", "b:a", "a:b", "a_b", "Zz", "zz", "aa", "aaa", "drift", "marker", "source", "quadrupole", "a9", "_x"[1:]]
MT = ("marker", "bpm", "drift", "orbtrim", "sbend", "quadrupole", "sextupole", "solenoid", "edipole", "equad", "tmatrix")
BUILD_MAND = {"rfcavity": ("f", "phi", "cavtype")}
RUN_MAND = {"rfcavity": ("scl_fac",), "stripper": ("IonChargeStates", "NCharge"), "sbend": ("L", "phi", "phi1", "phi2"), "quadrupole": ("L", "B2"),
            "sextupole": ("L", "B3"), "solenoid": ("L", "B"), "edipole": ("ver", "L", "phi", "spher"), "equad": ("L", "V", "radius")}
LIN_MAND = {"sbend": ("phi",), "generic": ("transfer",)}


def veq(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) or isinstance(x, list) or isinstance(y, list):
        return np.array_equal(np.asarray(x, float), np.asarray(y, float))
    return type(x) is type(y) and x == y or (isinstance(x, (int, float)) and isinstance(y, (int, float)) and float(x) == float(y))


def text(v):
    if isinstance(v, (float, int)):
        return ("-" if v < 0 else "") + "%.17g" % abs(v)
    if isinstance(v, str):
        return '"%s"' % v
    return "[" + ", ".join(text(float(x)) for x in np.ravel(v)) + "]"


def build(rng, conf, form, mon):
    """the same configuration in another form; returns a machine (elements of equal name must be equal for texts)"""
    top = {k: v for k, v in conf.items() if k != "elements"}
    if form == "dict":
        return Machine(conf)
    if form == "pairs":
        l = list(top.items()) + [("elements", [list(e.items()) for e in conf["elements"]])]
        return Machine(l if rng.random() < 0.5 else l[::-1])
    t = "".join("%s = %s;\n" % (k, text(v)) for k, v in top.items() if k not in ("name",))
    seen = set()
    for e in conf["elements"]:
        if e["name"] not in seen:
            seen.add(e["name"])
            t += "%s: %s%s;\n" % (e["name"], e["type"], "".join(", %s = %s" % (k, text(v)) for k, v in e.items() if k not in ("name", "type")))
    t += "%s: LINE = (%s);\n" % (conf.get("name", "beamline"), ", ".join(e["name"] for e in conf["elements"]))
    if form == "text":
        return Machine(t.encode() if rng.random() < 0.7 else t)
    if form == "file":
        p = gen.scratch(".lat")
        with open(p, "w") as f:
            f.write(t)
        with open(p, "rb") as f:
            M = Machine(f)
        os.unlink(p)
        return M
    return Machine(io.BytesIO(t.encode()))


def elements(rng, sim, n, Ek):
    es = []
    for _ in range(n):
        if sim == "MomentMatrix":
            r = rng.random()
            t = "rfcavity" if r < 0.1 else "stripper" if r < 0.15 else "source" if r < 0.2 else str(rng.choice(MT))
            e = gen.elem(rng, t, Ek) if t != "source" else dict(type="source")
        else:
            e = fl.lin_elem(rng) if rng.random() < 0.95 else dict(type="source", initial=[1.0, 2.0])
        es.append(e)
    return es


def names(rng, es, dup):
    k = int(rng.integers(1, len(POOL)))
    pool = list(rng.choice(POOL, k, replace=False))
    used = {}
    for i, e in enumerate(es):
        nm = str(rng.choice(pool))
        e["name"] = nm
    return es


def verify(mon, M, conf, key, rng):
    es = conf["elements"]
    mon.check(len(M) == len(es), key + ":len", lambda: "%d vs %d" % (len(M), len(es)))
    top = {k: v for k, v in conf.items() if k != "elements"}
    c = M.conf()
    mon.check(set(c) - {"name"} == set(conf) - {"name"}, key + ":conf-keys", lambda: sorted(set(c) ^ set(conf)))
    for k, v in top.items():
        mon.check(k in c and veq(v, c[k]), key + ":conf-value", lambda: "%s %r %r" % (k, v, c.get(k)))
    ce = c["elements"]
    mon.check(len(ce) == len(es), key + ":conf-elements", lambda: len(ce))
    st = fl.outcome(str, M)
    for i, e in enumerate(es):
        d = M.conf(i)
        want = dict(top, **e)
        want.pop("name"), want.pop("type")
        ok = d.get("name") == e["name"] and d.get("type") == e["type"] and all(k in d and veq(v, d[k]) for k, v in want.items())
        mon.check(ok, key + ":element-conf", lambda: "%d: %s\n%s" % (i, e, d))
        q = dict(ce[i])
        mon.check(all(k in q and veq(v, q[k]) for k, v in e.items()), key + ":conf-element", lambda: "%d: %s\n%s" % (i, e, q))
        mon.count("elements")
    mon.check(st[0] == "ok" and all("Element %d: %s (%s)" % (i, e["name"], e["type"]) in st[1] for i, e in enumerate(es)), key + ":str", lambda: st)
    for nm in set(POOL) | {e["name"] + "x" for e in es} | {e["name"][:-1] for e in es} | {""}:
        w = [i for i, e in enumerate(es) if e["name"] == nm]
        g = M.find(name=nm)
        mon.check(g == w, key + ":find-name", lambda: "%r: %s, should be %s; names %s" % (nm, g, w, [e["name"] for e in es]))
        mon.count("lookups")
    for t in set(MT) | {"rfcavity", "stripper", "source", "generic", "", "dri", "sbendx"}:
        w = [i for i, e in enumerate(es) if e["type"] == t]
        g = M.find(type=t)
        mon.check(g == w, key + ":find-type", lambda: "%r: %s, should be %s; types %s" % (t, g, w, [e["type"] for e in es]))
        mon.count("lookups")
    mon.check(sorted(M.find()) == list(range(len(es))), key + ":find-all", lambda: M.find())
    for bad in (len(es), len(es) + 5, -1, -len(es) - 1):
        o = fl.outcome(M.conf, bad)
        mon.check(o[0] == "err" and o[1] == "IndexError", key + ":conf-out-of-range", lambda: "%d: %s" % (bad, o))


def huge(rng, mon):
    """more elements than 16 bits can count"""
    n = int(rng.integers(66000, 70000))
    sim = str(rng.choice(["MomentMatrix", "Vector", "TransferMatrix"]))
    ns = ["n%d" % (x % 11) for x in range(n)]
    ts = ["drift" if x % 5 == 2 else "marker" for x in range(n)]
    mk = lambda k: dict(name=ns[k], type=ts[k], L=1.0 + k) if ts[k] == "drift" else dict(name=ns[k], type=ts[k])
    M = Machine(dict(sim_type=sim, elements=[mk(k) for k in range(n)]))
    mon.check(len(M) == n and sorted(M.find()) == list(range(n)), "huge:all", lambda: "%d" % len(M))
    for nm in set(ns) | {"n"}:
        mon.check(M.find(name=nm) == [k for k in range(n) if ns[k] == nm], "huge:find-name", lambda: nm)
    for t in ("marker", "drift", "source"):
        mon.check(M.find(type=t) == [k for k in range(n) if ts[k] == t], "huge:find-type", lambda: t)
    for k in [0, 32767, 32768, 65535, 65536, n - 1] + [int(x) for x in rng.integers(0, n, 20)]:
        c = M.conf(k)
        mon.check(c["name"] == ns[k] and c["type"] == ts[k] and c.get("L") == mk(k).get("L"), "huge:conf", lambda: "%d: %s" % (k, c))
        r = M.propagate(M.allocState({}), start=k, max=3, observe=range(k, min(k + 3, n)))
        mon.check([x for x, _ in r] == list(range(k, min(k + 3, n))), "huge:observed", lambda: "%d: %s" % (k, [x for x, _ in r]))
        M.reconfigure(k, dict(mark=float(k)))
        mon.check(M.conf(k).get("mark") == k, "huge:reconfigure", lambda: k)
    mon.count("huge")


def run_case(i, rng, mon):
    if i % 1500 == 11:
        return huge(rng, mon)
    sim = ["MomentMatrix", "Vector", "MomentMatrix", "TransferMatrix"][i % 4]
    Ek = float(np.exp(rng.uniform(np.log(2e6), np.log(1.2e8))))
    n = int(rng.integers(0, 12)) if rng.random() < 0.9 else int(rng.integers(12, 60))
    es = gen.cleanl(names(rng, elements(rng, sim, n, Ek), True))
    if sim == "MomentMatrix":
        conf = gen.clean(gen.beam(rng, Ek=Ek))
    else:
        conf = dict(initial=fl.lin_initial(rng, sim))
    conf["sim_type"] = sim
    if rng.random() < 0.4:
        conf["extra"] = float(rng.normal())
        conf["note"] = "some text, 1; {x}"
        conf["vec"] = rng.normal(size=int(rng.integers(1, 5)))
    form = str(rng.choice(["dict", "pairs", "text", "file", "stream"]))
    if form in ("text", "file", "stream"):
        conf["name"] = "bl"
        first = {}
        es = [first.setdefault(e["name"], e) for e in es]
        if not es:
            es = [dict(type="marker", name="m")]
    elif rng.random() < 0.5:
        conf["name"] = "bl"
    conf["elements"] = es
    o = fl.outcome(build, rng, conf, form, mon)
    if not mon.check(o[0] == "ok", "refused:" + form, lambda: "%s\n%s" % (o, conf)):
        return
    M = o[1]
    verify(mon, M, conf, form, rng)
    mon.count("machines:" + form)
    mon.count("sim:" + sim)
    # the machine keeps its own copy
    if form == "dict" and es:
        c0 = M.conf(0)
        es[0]["name"] = "changed"
        conf["sim_type"] = "other"
        for v in conf.values():
            if isinstance(v, np.ndarray):
                v += 1
        c1 = M.conf(0)
        mon.check(c0["name"] == c1["name"] and all(veq(c0[k], c1[k]) for k in c0), "not-a-copy", lambda: "%s %s" % (c0, c1))
        conf["sim_type"] = sim
        for v in conf.values():
            if isinstance(v, np.ndarray):
                v -= 1
    # what an element needs only when a beam passes is asked for then
    if sim == "MomentMatrix" and i % 3 == 0:
        t = str(rng.choice(list(RUN_MAND)))
        e = gen.clean(gen.elem(rng, t, Ek, curvep=0.0))
        e["name"] = "needy"
        p = str(rng.choice(RUN_MAND[t]))
        if p in e and "ncurve" not in e:
            e.pop(p)
            if rng.random() < 0.5:
                e[p] = "text" if p not in ("IonChargeStates", "NCharge") else 1.0
            b = gen.clean(gen.beam(rng, Ek=Ek))
            o = fl.outcome(Machine, dict(sim_type=sim, elements=[e]))
            if o[0] == "ok":
                o = fl.outcome(lambda: o[1].propagate(o[1].allocState(b)))
            mon.check(o[0] == "err", "accepted-at-run:" + t, lambda: "%s without %s" % (t, p))
            mon.count("faults-at-run")
            mon.distinct("run-fault", t, p)
    # faulty configurations are refused
    es = [dict(e) for e in es] or [dict(type="marker", name="m")]
    for k, e in enumerate(es):
        e["name"] = "el%dx" % k
    for _ in range(3):
        bad = [dict(e) for e in es]
        top = dict(conf)
        k = int(rng.integers(0, len(bad)))
        e = bad[k]
        what = str(rng.choice(["simtype", "no-simtype", "num-simtype", "type", "no-type", "num-type", "no-name", "num-name", "mand", "mand-type", "elements", "no-elements"]))
        names_it = True
        if what == "simtype":
            top["sim_type"] = str(rng.choice(["momentmatrix", "MomentMatrix2", "", "Vecto", "Moment", "vector"]))
        elif what == "no-simtype":
            top.pop("sim_type")
        elif what == "num-simtype":
            top["sim_type"] = 3.0
        elif what == "type":
            e["type"] = str(rng.choice(["Drift", "drif", "driftx", "", "unknown", "LINE"] + (["rfcavity", "stripper", "bpm"] if sim != "MomentMatrix" else [])))
        elif what == "no-type":
            e.pop("type")
        elif what == "num-type":
            e["type"] = 1.0
        elif what == "no-name":
            e.pop("name")
            top.pop("name", None)
        elif what == "num-name":
            e["name"] = 4.0
        elif what in ("mand", "mand-type"):
            tab = BUILD_MAND if sim == "MomentMatrix" else LIN_MAND
            cand = [(j, p) for j, x in enumerate(bad) for p in tab.get(x["type"], ())]
            if not cand:
                x = gen.clean(gen.elem(rng, "rfcavity", Ek)) if sim == "MomentMatrix" else gen.clean(fl.lin_elem(rng, str(rng.choice(["sbend", "generic"]))))
                x["name"] = "el%dx" % len(bad)
                bad.append(x)
                cand = [(len(bad) - 1, p) for p in tab[x["type"]]]
            k, p = cand[int(rng.integers(0, len(cand)))]
            e = bad[k]
            e.pop(p)
            if what == "mand":
                top.pop(p, None)
            else:
                e[p] = {"cavtype": 3.0, "IonChargeStates": "x", "NCharge": "y", "transfer": 1.0}.get(p, "text")
        elif what == "elements":
            top["elements"] = 3.0
        bc = dict(top)
        if what != "elements" and what != "no-elements":
            bc["elements"] = bad
        elif what == "no-elements":
            bc.pop("elements")
        o = fl.outcome(Machine, bc)
        mon.check(o[0] == "err", "accepted:" + what, lambda: "%s in %s" % (what, bc))
        if o[0] == "err" and what in ("type", "mand", "mand-type"):
            ident = [e["name"], str(k)] + ([str(e["type"])] if e.get("type") else [])
            mon.check(any(x in o[2] for x in ident) or e.get("type") == "", "unidentified:" + what, lambda: "%s: %s" % (ident, o))
        mon.count("faults")
        mon.count("fault:" + what)
        mon.distinct("fault", sim, what, e.get("type"), k)
    mon.distinct(sim, form, tuple((e["type"], e["name"]) for e in conf["elements"]) if isinstance(conf.get("elements"), list) else ())
    mon.sample(dict(sim=sim, form=form, n=len(es)))
