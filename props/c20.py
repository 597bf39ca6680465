"""C20: failures are reported as errors and leave everything usable and unleaked."""
import os
import shutil
import numpy as np
import fl
import gen
import walk
from flame import Machine

BUILTIN = {"0.041QWR": "41", "0.085QWR": "85", "0.29HWR": "29", "0.53HWR": "53"}
EK = {"0.041QWR": 1e6, "0.085QWR": 5e6, "0.29HWR": 3e7, "0.53HWR": 1e8}
_n = [0]


def newdir():
    _n[0] += 1
    d = os.path.join(gen.SCRATCH, "f%d" % _n[0])
    os.makedirs(d)
    return d


# ------------------------------------------------------------------ requests that must be refused
# each returns (label, function to call); the function runs the whole failing request
WRONG = []     # what the same machine did differently when asked again
ASKED = [0]


def run(conf):
    M = Machine(conf)
    S = M.allocState({})
    n = min(2, len(conf.get("elements", ()))) if isinstance(conf, dict) else 0
    head = []

    def part():
        # the part in front of the planted fault
        T = M.allocState({})
        return fl.outcome(M.propagate, T, max=n)[:1] + (fl.full(T),)
    if n:
        head.append(part())
    o = fl.outcome(M.propagate, S)
    if o[0] == "err":
        ASKED[0] += 1
        for _ in range(2):
            T = M.allocState({})
            q = fl.outcome(M.propagate, T)
            if q != o:
                WRONG.append(("asked again", o, q[:3]))
        if n:
            h = part()
            if h[0] != head[0][0] or h[0] == "ok" and fl.same(h[1], head[0][1]):
                WRONG.append(("valid part", head[0][0], h[0], fl.same(h[1], head[0][1])))
    else:
        return fl.full(S)
    M.propagate(M.allocState({}))


def one(rng, e, b=None, Ek=2e7, **top):
    b = gen.clean(gen.beam(rng, Ek=Ek)) if b is None else gen.clean(b)
    es = gen.cleanl([dict(type="source", name="src"), dict(type="drift", name="dr", L=0.1), dict(e, name="bad"), dict(type="drift", name="dr2", L=0.1)])
    c = dict(b, sim_type="MomentMatrix", elements=es)
    c.update(top)
    return c


def f_mandatory(rng):
    t, ps = [("rfcavity", ("f", "phi", "cavtype", "scl_fac")), ("stripper", ("IonChargeStates", "NCharge")), ("sbend", ("L", "phi", "phi1", "phi2")),
             ("quadrupole", ("L", "B2")), ("sextupole", ("L", "B3")), ("solenoid", ("L", "B")), ("edipole", ("L", "phi", "spher", "ver")),
             ("equad", ("L", "V", "radius"))][int(rng.integers(0, 8))]
    Ek = 2e7
    e = gen.elem(rng, t, Ek, curvep=0.0)
    p = str(rng.choice(ps))
    vec = p in ("IonChargeStates", "NCharge")
    if p in e:
        e.pop(p)
    how = int(rng.integers(0, 3)) if not vec else 1     # a stripper without them finds the beam's own
    if how == 1:
        e[p] = "text" if not vec else 2.0
    elif how == 2:
        e[p] = [1.0, 2.0]
    if p == "cavtype" and how == 1:
        e[p] = 1.0
    c = one(rng, e, Ek=Ek)
    return "mandatory:%s:%s:%d" % (t, p, how), lambda: run(c)


def f_sizes(rng):
    b = gen.beam(rng, n=int(rng.integers(2, 5)), Ek=2e7)
    vn, mn = b.get("vector_variable", "moment0"), b.get("matrix_variable", "initial")
    k = int(rng.integers(0, 12))
    e = dict(type="marker")
    if k == 0:
        b[vn + "0"] = b[vn + "0"][:-1]
    elif k == 1:
        b[vn + "1"] = b[vn + "1"] + [0.0]
    elif k == 2:
        b[mn + "1"] = b[mn + "1"][:int(rng.integers(0, 49))]
    elif k == 3:
        b["NCharge"] = b["NCharge"][:-1]
    elif k == 4:
        b["IonChargeStates"] = b["IonChargeStates"] + [0.3]
    elif k == 5:
        e = gen.elem(rng, "tmatrix")
        e["matrix"] = e["matrix"][:int(rng.integers(0, 49))] if rng.random() < 0.7 else e["matrix"] + [1.0]
    elif k == 6:
        e = gen.elem(rng, "stripper", 2e7)
        e["NCharge"] = e["NCharge"] + [1.0]
        e["charge_model"] = "off"
    elif k == 7:
        e = gen.elem(rng, "stripper", 2e7)
        e[str(rng.choice(["Stripper_Para", "Stripper_E0Para"]))] = [1.0, 2.0][:int(rng.integers(0, 3))]
    elif k == 8:
        b["cstate"] = float(len(b["IonChargeStates"]) + int(rng.integers(0, 3)))
    elif k == 9:
        b["IonChargeStates"], b["NCharge"] = np.zeros(0), np.zeros(0)
    elif k == 10:
        b.pop("IonChargeStates")
        b["cstate"] = 0.0
    else:
        e = gen.elem(rng, "stripper", 2e7)
        e["IonChargeStates"], e["NCharge"] = np.zeros(0), np.zeros(0)
        e["charge_model"] = str(rng.choice(["off", "baron"]))
    c = one(rng, e, b)
    if k == 5:
        c["elements"][2]["matrix"] = np.array(e["matrix"], float)
    return "sizes:%d" % k, lambda: run(c)


def f_linear(rng):
    sim = str(rng.choice(["Vector", "TransferMatrix"]))
    k = int(rng.integers(0, 4))
    ini = fl.lin_initial(rng, sim)
    es = fl.lin_lattice(rng, 3)
    if k == 0:
        ini = rng.normal(size=(7 if sim == "Vector" else 37) + int(rng.integers(0, 9)))
    elif k == 1:
        es.append(dict(type="generic", name="g", transfer=[float(x) for x in rng.normal(size=37 + int(rng.integers(0, 40)))]))
    elif k == 2:
        es.append(dict(type="sbend", name="g", L=1.0))
    else:
        es.append(dict(type=str(rng.choice(["stripper", "rfcavity", "tmatrix", "nosuch"])), name="g"))
    c = dict(sim_type=sim, elements=gen.cleanl(es), initial=ini)
    return "linear:%d" % k, lambda: run(c)


def f_curve(rng):
    t = str(rng.choice(["quadrupole", "solenoid", "equad"]))
    e = gen.elem(rng, t, 2e7, curvep=0.0)
    for k in ("B2", "B", "V"):
        e.pop(k, None)
    m = int(rng.integers(2, 8))
    src = {"curve%d" % i: [float(x) for x in rng.normal(size=m)] for i in range(3)}
    e.update({"scl_fac%d" % i: 1.0 for i in range(3)})
    e["ncurve"] = 3.0
    infile = rng.random() < 0.6
    d = newdir()
    k = str(rng.choice(["missing", "length", "empty", "scalar", "range-size", "range-order", "range-end", "range-neg", "range-nan"] +
                       (["nofile", "isdir", "syntax", "unreadable-dir"] if infile else ["ncurve-text", "ncurve-neg"])))
    if k == "missing":
        src.pop("curve%d" % rng.integers(0, 3))
    elif k == "length":
        src["curve%d" % rng.integers(0, 3)].append(1.0)
    elif k == "empty":
        src["curve%d" % rng.integers(0, 3)] = []
    elif k == "scalar":
        src["curve%d" % rng.integers(0, 3)] = 3.0
    elif k == "range-size":
        e["use_range"] = [0.0, 1.0, 2.0][:int(rng.choice([1, 3]))]
    elif k == "range-order":
        e["use_range"] = [1.0, float(rng.choice([0.0, 1.0]))]
    elif k == "range-end":
        e["use_range"] = [0.0, m + float(rng.choice([1, 2, 1e9, 1e300]))]
    elif k == "range-neg":
        e["use_range"] = [-float(rng.choice([1, 2, 1e9, 1e300])), float(m)]
    elif k == "range-nan":
        e["use_range"] = [float("nan"), float(m)] if rng.random() < 0.5 else [0.0, float("nan")]
    elif k == "ncurve-text":
        e["ncurve"] = "many"
    elif k == "ncurve-neg":
        e["ncurve"] = -1.0
    if infile:
        p = os.path.join(d, "c.lat")
        e["CurveFile"], e["Eng_Data_Dir"] = "c.lat", d
        if k == "isdir":
            os.makedirs(p)
        elif k == "unreadable-dir":
            e["Eng_Data_Dir"] = os.path.join(d, "absent")
        elif k != "nofile":
            with open(p, "w") as f:
                for a, v in src.items():
                    f.write("%s = %s;\n" % (a, gen.lat_val(v)))
                f.write("X: marker;\nL: LINE=(X);\n" if k != "syntax" else str(rng.choice(["x = ;", "q = [1,,2];", "@", "X: marker, ="])))
        c = one(rng, e)
    else:
        c = one(rng, dict(e, **src))
        for a, v in src.items():
            c["elements"][2][a] = np.array(v, float) if isinstance(v, list) else v
    return "curve:%s:%s" % (k, "file" if infile else "lattice"), lambda: run(c)


def f_generic(rng):
    Ek = 2e7
    e = gen.cavity(rng, Ek, typ="Generic")
    d = newdir()
    p = os.path.join(e["Eng_Data_Dir"], e["datafile"])
    t = open(p).read()
    k = str(rng.choice(["nofile", "noname", "syntax", "no-Ez", "odd-Ez", "short-Ez", "attr", "attr-gap", "no-L", "no-V0", "no-gap", "limits", "Rm",
                        "text-Ez", "numeric-name", "SyncFit", "type", "empty"]))
    import re
    e2 = dict(e)
    e2["Eng_Data_Dir"], e2["datafile"] = d, "g.lat"
    if k == "no-Ez":
        t = re.sub(r"Ez = \[.*?\];", "", t, flags=re.S)
    elif k == "odd-Ez":
        t = re.sub(r"Ez = \[", "Ez = [1.0, ", t)
    elif k == "short-Ez":
        t = re.sub(r"Ez = \[.*?\];", "Ez = [%s];" % ("1, 2" if rng.random() < 0.5 else ""), t, flags=re.S)
    elif k == "text-Ez":
        t = re.sub(r"Ez = \[.*?\];", "Ez = \"field\";", t, flags=re.S)
    elif k == "attr":
        ms = list(re.finditer(r"attr = \[(.*?)\]", t))
        m = ms[int(rng.integers(0, len(ms)))]
        v = m.group(1).split(", ")[:int(rng.integers(0, 20))]
        t = t[:m.start(1)] + ", ".join(v) + t[m.end(1):]
    elif k == "attr-gap":
        ms = list(re.finditer(r"AccGap, .*?attr = \[(.*?)\]", t))
        m = ms[int(rng.integers(0, len(ms)))]
        v = m.group(1).split(", ")[:int(rng.integers(20, 23))]
        t = t[:m.start(1)] + ", ".join(v) + t[m.end(1):]
    elif k == "no-L":
        t = re.sub(r": drift, L = [^;]*;", ": drift;", t, count=1)
    elif k == "no-V0":
        t = re.sub(r", V0 = [^,]*,", ",", t, count=1)
    elif k == "no-gap":
        t = re.sub(r": AccGap, (L = [^,]*),[^;]*;", r": drift, \1;", t)
        e2["syncflag"] = 2.0        # the fit of the synchronous phase needs a gap
    elif k == "limits":
        t = 'EnergyLimit = [1];\nNormLimit = [1,2];\n' + re.sub(r"(EnergyLimit|NormLimit) = .*?;", "", t)
        if "SyncFit" not in t:
            t = "RefNorm = 0.5;\nSyncFit = [1,2,3,4,5];\n" + t
        e2["syncflag"] = 1.0
    elif k == "Rm":
        t = re.sub(r"Rm = [^;]*;", "", t)
        e2["Rm"] = float(rng.choice([0.0, -3.0, float("nan")]))
        if rng.random() < 0.3:
            e2.pop("Rm")
    elif k == "SyncFit":
        t = re.sub(r"(SyncFit|RefNorm) = .*?;", "", t)
        t = "RefNorm = 0.5;\nSyncFit = [%s];\n" % ", ".join(["1"] * int(rng.choice([1, 2, 3, 4, 6, 7, 9]))) + t
        e2["syncflag"] = 1.0
    elif k == "type":
        t = re.sub(r"(e\d+): AccGap", r"\1: Nosuch", t, count=1)
    elif k == "syntax":
        i = int(rng.integers(0, len(t) // 2))
        t = t[:i] + str(rng.choice(["\x01", " ]]", "= ;=", "@"])) + t[i:]
    elif k == "empty":
        t = ""
    elif k == "noname":
        e2.pop("datafile")
    elif k == "numeric-name":
        e2["datafile"] = 3.0
    if k not in ("nofile",):
        with open(os.path.join(d, "g.lat"), "w") as f:
            f.write(t)
    c = one(rng, e2, gen.beam(rng, Ek=Ek), Ek)
    return "generic:" + k, lambda: run(c)


def copy_builtin(d, num):
    for f in os.listdir(gen.DATA):
        q = os.path.join(gen.DATA, f)
        if f == "axisData_%s.txt" % num:
            shutil.copy(q, d)
        elif f == "Multipole" + num:
            shutil.copytree(q, os.path.join(d, f))


def f_builtin(rng):
    typ = str(rng.choice(list(BUILTIN)))
    num = BUILTIN[typ]
    Ek = EK[typ]
    e = gen.cavity(rng, Ek, typ=typ)
    e["forcettfcalc"] = float(rng.choice([0.0, 1.0]))
    d = newdir()
    copy_builtin(d, num)
    e["Eng_Data_Dir"] = d
    which = str(rng.choice(["axis", "mlp", "thin"]))
    p = {"axis": d + "/axisData_%s.txt" % num, "mlp": d + "/Multipole%s/CaviMlp_%s.txt" % (num, num), "thin": d + "/Multipole%s/thinlenlon_%s.txt" % (num, num)}[which]
    k = str(rng.choice(["absent", "garbage", "ragged", "isdir", "short-line", "blank"]))
    L = open(p).read().splitlines()
    data = [i for i, l in enumerate(L) if l.strip() and not l.strip().startswith("%")]
    i = data[int(rng.integers(0, len(data)))]
    if k == "absent":
        os.unlink(p)
    elif k == "isdir":
        os.unlink(p)
        os.makedirs(p)
    else:
        w = L[i].split()
        if which == "thin":
            if k == "garbage":
                w[2] = "x1"
            elif k == "ragged":
                w = w[:2]
            elif k == "short-line":
                w = w[:int(rng.integers(1, 4))]
            else:
                L, w = ["%"], ["%"]
                i = 0
        else:
            if k == "garbage":
                w[int(rng.integers(0, len(w)))] = "1.2.3"
            elif k == "ragged":
                w.append("1.0")
            elif k == "short-line":
                w = w[:-1] if len(w) > 1 else w * 2
            else:
                L, w = ["%"], ["%"]
                i = 0
        L[i] = " ".join(w)
        with open(p, "w") as f:
            f.write("\n".join(L) + "\n")
    if len(data) == 1 and k in ("ragged", "short-line") and which != "thin":
        os.unlink(p)
        k = "absent"
    b = gen.beam(rng, Ek=Ek)
    c = one(rng, e, b, Ek)
    return "builtin:%s:%s" % (which, k), lambda: run(c)


def f_flags(rng):
    t, p, v = [("rfcavity", "MpoleLevel", 3.0), ("rfcavity", "EmitGrowth", 2.0), ("sbend", "HdipoleFitMode", 2.0),
               ("edipole", "HdipoleFitMode", 2.0), ("rfcavity", "cavtype", "nosuch"), ("stripper", "charge_model", "nosuch"),
               ("edipole", "HdipoleFitMode", -1.0), ("rfcavity", "MpoleLevel", -1.0)][int(rng.integers(0, 8))]
    Ek = float(rng.uniform(1.2e7, 2e7))
    e = gen.elem(rng, t, Ek)
    e[p] = v
    c = one(rng, e, Ek=Ek)
    return "flag:%s:%s:%s" % (t, p, v), lambda: run(c)


def f_request(rng):
    """a good machine and a bad request"""
    Ek, b, es, M, conf = walk.case(rng, n=(1, 5))
    k = str(rng.choice(["reconf-index", "reconf-type", "reconf-missing", "alloc", "other-sim", "back", "conf-index", "attr-shape", "no-such-attr"]))
    if k == "reconf-index":
        f = lambda: M.reconfigure(len(es) + 3, {"L": 1.0})
    elif k == "reconf-type":
        f = lambda: M.reconfigure(0, dict(type="drift" if es[0]["type"] != "drift" else "marker", name="x"), replace=True)
    elif k == "reconf-missing":
        f = lambda: M.reconfigure(0, dict(name="only"), replace=True)
    elif k == "alloc":
        bb = gen.clean(dict(b))
        bb["NCharge"] = np.ones(len(b["NCharge"]) + 1)
        f = lambda: M.allocState(bb)
    elif k == "other-sim":
        V = Machine(dict(sim_type="Vector", elements=[dict(type="marker", name="m")]))
        W = V.allocState({})
        f = lambda: M.propagate(W)
    elif k == "back":
        e2 = [gen.elem(rng, str(rng.choice(["sextupole", "stripper"])), Ek)]
        M2, _ = fl.mk(b, gen.add_names(rng, e2))
        f = lambda: M2.propagate(M2.allocState(gen.clean(b)), start=0, max=-1)
    elif k == "conf-index":
        f = lambda: M.conf(len(es))
    elif k == "attr-shape":
        S = M.allocState(gen.clean(b))

        def f():
            S.moment0 = np.zeros((3, 3))
    else:
        S = M.allocState(gen.clean(b))

        def f():
            return S.nosuch
    return "request:" + k, f, M, gen.clean(b), conf


MUST = [f_mandatory, f_sizes, f_linear, f_curve, f_generic, f_generic, f_builtin, f_builtin, f_flags, f_request]


# ------------------------------------------------------------------ random corruption: any answer but a crash
def weird(rng):
    k = int(rng.integers(0, 12))
    return [float("nan"), float("inf"), -float("inf"), 0.0, -1.0, 1e300, -1e300, 1e-300, "", "text", np.zeros(0), rng.normal(size=int(rng.integers(1, 60)))][k]


def fuzz_conf(rng):
    if rng.random() < 0.25:
        sim = str(rng.choice(["Vector", "TransferMatrix"]))
        es = gen.cleanl(fl.lin_lattice(rng, 4))
        c = dict(sim_type=sim, elements=es, initial=fl.lin_initial(rng, sim))
    else:
        Ek = walk.energies(rng)
        c = gen.conf(gen.beam(rng, Ek=Ek), gen.lattice(rng, 4, Ek, cav=0.3, strip=0.1))
    lab = []
    for _ in range(int(rng.integers(1, 4))):
        t = c if rng.random() < 0.3 else c["elements"][int(rng.integers(0, len(c["elements"])))]
        ks = [k for k in t if k not in ("elements", "sim_type", "type", "Eng_Data_Dir")]
        if not ks:
            continue
        k = ks[int(rng.integers(0, len(ks)))]
        r = rng.random()
        if r < 0.15:
            t.pop(k)
        elif r < 0.4 and isinstance(t[k], np.ndarray) and len(t[k]):
            a = t[k].copy()
            a[int(rng.integers(0, len(a)))] = [float("nan"), float("inf"), 1e300, -1e300, 0.0, -1.0][int(rng.integers(0, 6))]
            t[k] = a
        else:
            t[k] = weird(rng)
        lab.append("%s.%s" % (t.get("type", "top"), k))
    return "fuzz-conf:" + ",".join(lab), lambda: run(c)


def corrupt(rng, t):
    t = bytearray(t)
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(0, 7))
        i = int(rng.integers(0, max(1, len(t))))
        if k == 0 and t:
            t[i] = int(rng.integers(0, 256))
        elif k == 1:
            del t[i:i + int(rng.integers(1, 60))]
        elif k == 2:
            del t[i:]
        elif k == 3:
            t[i:i] = t[i:i + int(rng.integers(1, 80))]
        elif k == 4:
            t[i:i] = [b"nan", b"1e999", b"-", b"\n", b"%", b" 0 ", b"\x00", b"1e300 ", b"[", b",", b"\"", b";"][int(rng.integers(0, 12))]
        elif k == 5:
            L = bytes(t).split(b"\n")
            j = int(rng.integers(0, len(L)))
            if rng.random() < 0.5:
                del L[j]
            else:
                L[j:j] = [L[int(rng.integers(0, len(L)))]]
            t = bytearray(b"\n".join(L))
        else:
            j = t.find(b"0", i)
            if j >= 0:
                t[j:j + 1] = b"9e9"
    return bytes(t)


def fuzz_file(rng):
    d = newdir()
    k = int(rng.integers(0, 3))
    if k == 0:
        typ = str(rng.choice(list(BUILTIN)))
        num, Ek = BUILTIN[typ], EK[typ]
        e = gen.cavity(rng, Ek, typ=typ)
        e["forcettfcalc"] = float(rng.choice([0.0, 1.0]))
        copy_builtin(d, num)
        e["Eng_Data_Dir"] = d
        p = d + str(rng.choice(["/axisData_%s.txt" % num, "/Multipole%s/CaviMlp_%s.txt" % (num, num), "/Multipole%s/thinlenlon_%s.txt" % (num, num)]))
    elif k == 1:
        Ek = walk.energies(rng)
        e = gen.cavity(rng, Ek, typ="Generic")
        q = os.path.join(e["Eng_Data_Dir"], e["datafile"])
        p = os.path.join(d, "g.lat")
        shutil.copy(q, p)
        e["Eng_Data_Dir"], e["datafile"] = d, "g.lat"
    else:
        Ek = 2e7
        e = gen.elem(rng, "quadrupole", Ek, curvep=0.0)
        e.pop("B2")
        gen.curves(rng, e, 1.0, filep=1.0)
        p = os.path.join(d, "c.lat")
        shutil.copy(os.path.join(e["Eng_Data_Dir"], e["CurveFile"]), p)
        e["Eng_Data_Dir"], e["CurveFile"] = d, "c.lat"
    t = corrupt(rng, open(p, "rb").read())
    with open(p, "wb") as f:
        f.write(t)
    c = one(rng, e, gen.beam(rng, Ek=Ek), Ek)
    return "fuzz-file:%s" % os.path.basename(p), lambda: run(c)


# ------------------------------------------------------------------ the case
_ref = {}


def reference(rng):
    """a machine that lives through other cases' failures, with its known result"""
    k = int(rng.integers(0, 4))
    if k not in _ref:
        r2 = np.random.default_rng([77, k])
        for _ in range(50):
            Ek, b, es, M, conf = walk.case(r2, n=(4, 9), cav=0.3)
            S = M.allocState({})
            if fl.outcome(M.propagate, S)[0] == "ok":
                break
        held = M.allocState(gen.clean(b))
        _ref[k] = (M, fl.full(S), held, fl.full(held), conf)
    return _ref[k]


def run_case(i, rng, mon):
    R = reference(rng)
    aft = None
    r = rng.random()
    if r < 0.6:
        f = MUST[int(rng.integers(0, len(MUST)))](rng)
        must = True
        if len(f) > 2:
            aft = f[2:]
        lab, f = f[0], f[1]
    else:
        lab, f = (fuzz_conf if r < 0.8 else fuzz_file)(rng)
        must = False
    mon.sample(lab)
    before = None
    if aft:
        S = aft[0].allocState(aft[1])
        before = (fl.outcome(aft[0].propagate, S)[:1], fl.full(S))
    del WRONG[:]
    o = fl.outcome(f)
    kind = lab.split(",")[0]
    mon.check(not WRONG, "same-machine-again:" + kind, lambda: "%s: %s" % (lab, WRONG[:2]))
    mon.distinct(kind, o[0], o[1] if o[0] == "err" else "")
    if must:
        mon.count("must-refuse")
        mon.count("fault:" + ":".join(lab.split(":")[:2]))
        if not mon.check(o[0] == "err", "accepted:" + lab, lambda: "%s was accepted" % lab):
            return
    mon.count("refused" if o[0] == "err" else "survived")
    o2 = fl.outcome(f)
    if o[0] == "err":
        mon.check(o2 == o, "different-second-time:" + kind, lambda: "%s\n%s" % (o, o2))
        mon.check(o[2] != "" or o[1] in ("IndexError", "AttributeError"), "no-message:" + kind, lambda: "%s" % (o,))
        if rng.random() < 0.35:
            g = fl.grows(lambda: fl.outcome(f), n=6, warm=2)
            mon.check(g == 0, "leak:" + kind, lambda: "%s: %d bytes per failure, %s" % (lab, g, o))
            mon.count("heap-checks")
    else:
        mon.check(o2[0] == "ok" and (o[1] is None or not fl.same(o[1], o2[1])), "different-second-time:" + kind, lambda: "%s" % (o2,))
    # nobody else noticed
    M, want, held, hwant, conf = R
    S = M.allocState({})
    q = fl.outcome(M.propagate, S)
    mon.check(q[0] == "ok" and not fl.same(fl.full(S), want), "other-machine-changed", lambda: "after %s: %s %s" % (lab, q, fl.same(fl.full(S), want)))
    mon.check(not fl.same(fl.full(held), hwant), "other-state-changed", lambda: lab)
    if rng.random() < 0.2:
        S2 = Machine(conf).allocState({})
        M2 = Machine(conf)
        M2.propagate(S2)
        mon.check(not fl.same(fl.full(S2), want), "new-machine-differs", lambda: "after %s: %s" % (lab, fl.same(fl.full(S2), want)))
    if aft:
        S = aft[0].allocState(aft[1])
        now = (fl.outcome(aft[0].propagate, S)[:1], fl.full(S))
        mon.check(now[0] == before[0] and not fl.same(now[1], before[1]), "machine-changed:" + kind, lambda: fl.same(now[1], before[1]))
        mon.count("aftermath")
    mon.count("bystander-checks")
    mon.count("asked-again", ASKED[0])
    ASKED[0] = 0
    for x in os.listdir(gen.SCRATCH):
        p = os.path.join(gen.SCRATCH, x)
        if x.startswith("f") and os.path.isdir(p):
            shutil.rmtree(p)
