"""Random beams, elements and lattices for the MomentMatrix simulation, and comparison helpers."""
import math
import os
import numpy as np

DATA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python", "flame", "test", "data")
ES = 931.49432e6
SCRATCH = os.environ.get("VERIF_SCRATCH", ".")
_n = [0]


def fl(x):
    return float(x)


def scratch(suffix):
    _n[0] += 1
    return os.path.join(SCRATCH, "g%d%s" % (_n[0], suffix))


def clean(c):
    """what FLAME is given: without the model-only keys, vectors as arrays"""
    return {k: (np.array(v, float) if isinstance(v, list) else v) for k, v in c.items() if not k.startswith("__")}


def conf(b, es, sim="MomentMatrix", **kw):
    c = clean(b)
    c.update(sim_type=sim, elements=cleanl(es), **kw)
    return c


def cleanl(cs):
    return [clean(c) for c in cs]


# ------------------------------------------------------------------ beams
def moments(rng, Ek, big=1.0):
    s = np.array([3.0, 3e-3, 3.0, 3e-3, 0.05, Ek / 1e6 * 2e-3]) * big
    v = np.zeros(7)
    v[:6] = rng.normal(size=6) * s
    v[6] = 1.0
    A = rng.normal(size=(6, 6)) * (s[:, None])
    m = np.zeros((7, 7))
    m[:6, :6] = A @ A.T * 0.3
    m[:6, :6] += np.diag(s ** 2) * 0.05
    return v, m


def beam(rng, n=None, Ek=None, offset=True, freq=True):
    """configuration entries that describe a beam of n charge states"""
    n = (int(rng.integers(1, 5)) if rng.random() < 0.94 else int(rng.integers(5, 13))) if n is None else n
    Ek = math.exp(rng.uniform(math.log(5e5), math.log(2e8))) if Ek is None else Ek
    A = int(rng.choice([238, 197, 124, 40]))
    z0 = A * rng.uniform(0.15, 0.4)
    c = dict(IonEs=ES, IonEk=fl(Ek))
    c["IonChargeStates"] = [fl(z) for z in (z0 + rng.choice(np.arange(-4, 5) if n < 9 else np.arange(-12, 13), n, replace=False)) / A]
    c["NCharge"] = [fl(x) for x in rng.uniform(1, 1e4, n)]
    if n > 1 and rng.random() < 0.12:       # no particles, few, or many in one of the states
        c["NCharge"][int(rng.integers(0, n))] = fl(rng.choice([0.0, 0.0, 1e-9, 1e9]))
    if rng.random() < 0.4:
        c["IonZ"] = fl(c["IonChargeStates"][0] * rng.uniform(0.95, 1.05))
    if rng.random() < 0.3:
        c["IonQ"] = fl(rng.uniform(1, 100))
    if freq and rng.random() < 0.3:
        c["SampleFreq"] = fl(rng.choice([80.5e6, 40.25e6, 161e6, 100e6]))
    if rng.random() < 0.3:
        c["vector_variable"], c["matrix_variable"] = "VV", "MM"
    vn, mn = c.get("vector_variable", "moment0"), c.get("matrix_variable", "initial")
    for i in range(n):
        v, m = moments(rng, Ek)
        if not offset:
            v[4:6] = 0
        c[vn + str(i)], c[mn + str(i)] = [fl(x) for x in v], [fl(x) for x in m.ravel()]
    return c


def subbeam(rng, b):
    """the same beam with some charge states left out, added or in another order: every remaining particle is as before"""
    n = len(b["NCharge"])
    vn, mn = b.get("vector_variable", "moment0"), b.get("matrix_variable", "initial")
    r = rng.random()
    if r < 0.4 and n > 1:
        pick = list(range(int(rng.integers(1, n))))                     # a leading part
    elif r < 0.7:
        pick = list(range(n)) + [int(x) for x in rng.integers(0, n, int(rng.integers(1, 3)))]      # more of them
    else:
        pick = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    c = {k: v for k, v in b.items() if not any(k == x + str(i) for x in (vn, mn) for i in range(n))}
    c.setdefault("IonZ", b["IonChargeStates"][0])
    c.setdefault("IonQ", b["NCharge"][0])
    for j, i in enumerate(pick):
        c[vn + str(j)], c[mn + str(j)] = b[vn + str(i)], b[mn + str(i)]
    c["IonChargeStates"] = [b["IonChargeStates"][i] for i in pick]
    c["NCharge"] = [b["NCharge"][i] for i in pick]
    return c


def single_beam(rng, Ek=None):
    """a beam without IonChargeStates"""
    Ek = math.exp(rng.uniform(math.log(5e5), math.log(2e8))) if Ek is None else Ek
    v, m = moments(rng, Ek)
    return dict(IonEs=ES, IonEk=fl(Ek), IonZ=fl(rng.uniform(0.15, 0.4)), IonQ=fl(rng.uniform(1, 10)),
                moment0=[fl(x) for x in v], initial=[fl(x) for x in m.ravel()])


# ------------------------------------------------------------------ elements
def mis(rng, c, p=0.5):
    """misalignment, each kind alone or together"""
    if rng.random() < p:
        for k, s in (("dx", 2e-3), ("dy", 2e-3), ("pitch", 5e-3), ("yaw", 5e-3), ("roll", 0.05)):
            if rng.random() < 0.5:
                c[k] = fl(rng.normal() * s)
    return c


def curves(rng, c, scale, filep=0.4):
    n, m = int(rng.integers(1, 4)), int(rng.integers(2, 9))
    src = {}
    for i in range(n):
        src["curve%d" % i] = [fl(x) for x in rng.normal(size=m)]
        if rng.random() < 0.8:
            c["scl_fac%d" % i] = fl(rng.normal() * scale)
    c["ncurve"] = float(n) if rng.random() < 0.7 else str(n)
    if rng.random() < filep:
        p = scratch(".lat")
        write_curves(p, src)
        c["CurveFile"], c["__curvefile__"] = os.path.basename(p), src
        c["Eng_Data_Dir"] = os.path.dirname(p)
    else:
        c.update(src)
    if rng.random() < 0.4:
        a = int(rng.integers(0, m - 1))
        c["use_range"] = [float(a), float(rng.integers(a + 1, m + 1))]
    return c


def write_curves(p, src):
    with open(p, "w") as f:
        for k, v in src.items():
            f.write("%s = [%s];\n" % (k, ", ".join("%.17g" % x for x in v)))
        f.write("X: marker;\nL: LINE=(X);\nUSE: L;\n")


LIN_TYPES = ("drift", "marker", "bpm", "quadrupole", "solenoid", "equad", "orbtrim", "sbend", "edipole", "tmatrix", "sextupole")


def elem(rng, typ, Ek=2e7, misp=0.5, curvep=0.25):
    c = dict(type=typ)
    L = fl(rng.uniform(0.02, 0.6))
    if rng.random() < 0.02 and typ in ("drift", "sbend", "edipole"):
        L0 = True
    else:
        L0 = False
    # field scale that makes the phase advance of order one, for the beam's rigidity (Z~0.25)
    g = 1 + Ek / ES
    bg = math.sqrt(g * g - 1)
    Brho = bg * ES / (2.99792458e8 * 0.25)
    if typ in ("marker", "bpm"):
        return c
    if typ == "drift":
        r = rng.random()
        c["L"] = -L if r < 0.06 else 0.0 if r < 0.09 else L
    elif typ in ("quadrupole", "solenoid", "equad"):
        c["L"] = L
        kk = fl(rng.normal() * 2.0 / L)            # sqrt-ish strength 1/m
        if typ == "quadrupole":
            v = kk * abs(kk) * Brho * 0.3
            key = "B2"
        elif typ == "solenoid":
            v = kk * Brho * 0.4
            key = "B"
        else:
            beta = bg / g
            c["radius"] = fl(rng.uniform(0.02, 0.1))
            v = kk * abs(kk) * Brho * 0.05 * 2.99792458e8 * beta * c["radius"] ** 2
            key = "V"
        if rng.random() < 0.06:
            v = 0.0
        if rng.random() < curvep:
            curves(rng, c, v if typ != "equad" else v / c["radius"] ** 2)
        else:
            c[key] = fl(v)
        mis(rng, c, misp)
    elif typ == "orbtrim":
        if rng.random() < 0.5:
            c["theta_x"], c["theta_y"] = fl(rng.normal() * 2e-3), fl(rng.normal() * 2e-3)
        else:
            c["realpara"] = 1.0
            if rng.random() < 0.8:
                c["tm_xkick"] = fl(rng.normal() * 2e-3)
            if rng.random() < 0.8:
                c["tm_ykick"] = fl(rng.normal() * 2e-3)
        if rng.random() < 0.3:
            c["xyrotate"] = fl(rng.normal() * 20)
        mis(rng, c, misp)
    elif typ == "sbend":
        c["L"] = L
        c["phi"] = fl(rng.choice([-1, 1]) * rng.uniform(2, 40))
        c["phi1"], c["phi2"] = fl(rng.normal() * 10), fl(rng.normal() * 10)
        rho = L / math.radians(c["phi"])
        if rng.random() < 0.05:     # switched off: a drift or a plain quadrupole
            c["phi"] = 0.0
        r = rng.random()
        if r < 0.25:
            c["K"] = fl(rng.uniform(0, 6))
        elif r < 0.4:
            c["K"] = fl(-rng.uniform(0, 0.9) / rho ** 2)
        elif r < 0.5:
            c["K"] = fl(-rng.uniform(1.2, 3) / rho ** 2)
        if rng.random() < 0.4:
            c["HdipoleFitMode"] = 0.0 if rng.random() < 0.7 else str(rng.choice(["0", "0.0", "0e5"]))
            c["bg"] = fl(bg * rng.uniform(0.97, 1.03))
        mis(rng, c, misp)
    elif typ == "edipole":
        c["L"] = L
        c["phi"] = fl(rng.choice([-1, 1]) * rng.uniform(5, 60))
        c["spher"] = fl(rng.choice([0.0, 1.0, 0.3]))
        if rng.random() < 0.12:         # toroidal, also without horizontal focusing
            c["spher"] = fl(rng.uniform(-1, 4.5))
        c["ver"] = fl(rng.choice([0.0, 1.0]))
        if rng.random() < 0.5:
            c["fringe_x"], c["fringe_y"] = fl(rng.normal() * 0.5), fl(rng.normal() * 0.5)
        if rng.random() < 0.4:
            c["asym_fac"] = fl(rng.normal() * 0.02)
        if rng.random() < 0.4:
            c["HdipoleFitMode"] = 0.0
            if rng.random() < 0.8:
                c["beta"] = fl(bg / g * rng.uniform(0.97, 1.03))
            if rng.random() < 0.06:     # gamma of 1.25: the horizontal focusing vanishes exactly
                c["beta"], c["spher"] = 0.6, 2.5625
        mis(rng, c, misp)
    elif typ == "sextupole":
        c["L"] = L
        c["B3"] = fl(rng.normal() * Brho * 20 / L)
        if rng.random() < 0.06:
            c["B3"] = 0.0
        if rng.random() < 0.6:
            c["step"] = fl(rng.integers(1, 6) + (rng.uniform(0, 0.99) if rng.random() < 0.15 else 0))
        if rng.random() < 0.4:
            c["thinlens"] = fl(rng.choice([0.0, 1.0]))
        if rng.random() < 0.4:
            c["dstkick"] = fl(rng.choice([0.0, 1.0]))
        mis(rng, c, misp)
    elif typ == "tmatrix":
        m = np.eye(7)
        m[:6, :6] += rng.normal(size=(6, 6)) * 0.05
        m[:6, 6] = rng.normal(size=6) * 0.01
        c["matrix"] = [fl(x) for x in m.ravel()]
        if rng.random() < 0.5:
            c["L"] = L
    elif typ == "stripper":
        n = int(rng.integers(1, 6)) if rng.random() < 0.9 else int(rng.integers(6, 13))
        A = 238.0
        c["IonChargeStates"] = [fl(z) for z in (rng.choice(np.arange(70, 84), n, replace=False) / A)]
        if rng.random() < 0.15:     # not of whole charge numbers
            c["IonChargeStates"] = [fl(z * rng.uniform(0.99, 1.01)) for z in c["IonChargeStates"]]
        c["NCharge"] = [fl(x) for x in rng.uniform(1, 100, n)]
        if n > 1 and rng.random() < 0.08:       # a charge state nobody has
            c["NCharge"][int(rng.integers(0, n))] = 0.0
        if rng.random() < 0.5:
            c["charge_model"] = str(rng.choice(["off", "baron"]))
        for k, v in (("Stripper_IonZ", 78 / 238 * rng.uniform(0.95, 1.05)), ("Stripper_IonMass", 238.0 if rng.random() < 0.4 else rng.uniform(230, 245)), ("Stripper_IonProton", fl(rng.integers(80, 95))),
                     ("Stripper_E1Para", 2.8874e-3 * rng.uniform(0.5, 2)), ("Stripper_lambda", rng.uniform(4, 7)), ("Stripper_upara", rng.uniform(1, 4))):
            if rng.random() < 0.4:
                c[k] = fl(v)
        if rng.random() < 0.4:
            c["Stripper_Para"] = [fl(x) for x in (rng.uniform(1, 5), rng.uniform(5, 30), Ek * rng.uniform(0.8, 1.2))]
        if rng.random() < 0.4 or Ek < 12e6:
            c["Stripper_E0Para"] = [fl(x) for x in (Ek * rng.uniform(0.9, 1.1), rng.uniform(0.9, 1.1), rng.normal() * 0.1)]
            c.setdefault("Stripper_Para", [3.0, 20.0, fl(Ek)])
    elif typ == "rfcavity":
        return cavity(rng, Ek, misp)
    else:
        raise ValueError(typ)
    if L0:
        c["L"] = 0.0
    return c


CAV = {"0.041QWR": (80.5e6, 0.4e6, 4e6, 0.24), "0.085QWR": (80.5e6, 1e6, 25e6, 0.32),
       "0.29HWR": (322e6, 10e6, 90e6, 0.272), "0.53HWR": (322e6, 40e6, 250e6, 0.421)}


def cavity(rng, Ek, misp=0.3, typ=None, z=0.25):
    ok = [t for t, (f, a, b, L) in CAV.items() if a <= Ek <= b]
    if typ is None:
        typ = "Generic" if rng.random() < 0.4 or not ok else str(rng.choice(ok))
    c = dict(type="rfcavity", cavtype=typ)
    if typ == "Generic":
        g, p = generic(rng, Ek)
        c["datafile"], c["Eng_Data_Dir"] = os.path.basename(p), os.path.dirname(p)
        c["__generic__"] = g
        c["f"], c["L"] = fl(g["f"]), fl(g["len"])
        if g.get("Rm_in_file") is False:
            c["Rm"] = g["Rm"]
        c["scl_fac"] = fl(rng.uniform(0.1, 1.0))
    else:
        f, a, b, L = CAV[typ]
        c.update(f=f, L=L, Eng_Data_Dir=DATA, scl_fac=fl(rng.uniform(0.05, 0.7)))
        if rng.random() < 0.2:
            c["Rm"] = 17.0
        if rng.random() < 0.25:
            c["forcettfcalc"] = 1.0
    if rng.random() < 0.06:
        c["scl_fac"] = 0.0
    c["phi"] = fl(rng.uniform(-90, 60)) if rng.random() < 0.6 else fl(rng.uniform(-720, 720))
    r = rng.random()
    if r < 0.3:
        c["syncflag"] = 0.0
    elif r < 0.45:
        c["syncflag"] = 1.0
    elif r < 0.6 and typ == "Generic":
        c["syncflag"] = 2.0
    if rng.random() < 0.4:
        c["MpoleLevel"] = fl(rng.integers(0, 3)) if rng.random() < 0.5 else str(rng.integers(0, 3))
    if rng.random() < 0.3:
        c["EmitGrowth"] = 1.0
    mis(rng, c, misp)
    return c


def generic(rng, Ek, path=None):
    """write a Generic cavity data file; returns what it describes"""
    f = fl(rng.choice([80.5e6, 161e6, 322e6]))
    g0 = 1 + Ek / ES
    beta = math.sqrt(1 - 1 / g0 ** 2)
    lam = 2.99792458e8 / f * 1e3
    half = beta * lam / 2 * rng.uniform(0.9, 1.1)          # gap distance [mm]
    tot = 2 * half
    n = int(rng.integers(21, 60))
    z = np.linspace(-tot / 2, tot / 2, n)
    w = half * 0.15
    V = Ek / 1e6 * rng.uniform(0.02, 0.15) / 0.25          # MV per gap
    amp = V * 1e6 / (w * math.sqrt(2 * math.pi)) * 1e3      # V/m
    E = amp * (np.exp(-(z + half / 2) ** 2 / 2 / w ** 2) - np.exp(-(z - half / 2) ** 2 / 2 / w ** 2))
    k0 = 2 * math.pi / (beta * lam)

    def fit(lead, jit=0.1):
        # polynomial in k with highest order first: a smooth function of order `lead` near k0
        a = np.zeros(10)
        a[9] = lead
        a[8] = lead * rng.normal() * jit / k0
        a[7] = lead * rng.normal() * jit / k0 ** 2
        a[6] = lead * rng.normal() * jit / k0 ** 3
        return [fl(x) for x in a]
    lat, txt = [], []
    order = []

    def add(t, L, V0=0.0, T=None, S=None, tab=None):
        nm = "e%d" % len(lat)
        lat.append((t, fl(L), fl(V0), T, S))
        order.append(nm)
        if t == "drift":
            txt.append("%s: drift, L = %.17g;" % (nm, L))
        else:
            attr = T + S + (tab or [])
            txt.append("%s: %s, L = %.17g, V0 = %.17g, attr = [%s];" % (nm, t, L, V0, ", ".join("%.17g" % x for x in attr)))
    tab = [fl(rng.uniform(2, 6)), fl(-rng.uniform(0.4, 0.6)), fl(rng.uniform(-3, 3))]
    d = half / 2
    tabs = None
    for gap in range(2):
        kinds = [k for k in ("EFocus", "EDipole", "EQuad", "HMono", "HDipole", "HQuad") if rng.random() < 0.6]
        cut = int(rng.integers(0, len(kinds) + 1))
        add("drift", d * 0.6)
        for k in kinds[:cut]:
            add(k, 0.0, V * rng.normal() * (0.3 if k[0] == "E" else 1e-3), fit(rng.uniform(-1, 1)), fit(rng.uniform(-1, 1)))
        add("drift", d * 0.4)
        t = [fl(x) for x in (rng.uniform(2, 6), -rng.uniform(0.4, 0.6), rng.uniform(-3, 3))]
        tabs = tabs or t
        sg = 1 if gap == 0 else -1
        add("AccGap", 0.0, V, fit(sg * rng.uniform(0.6, 0.95)), fit(rng.normal() * 0.1), t)
        add("drift", d * 0.4)
        for k in kinds[cut:]:
            add(k, 0.0, V * rng.normal() * (0.3 if k[0] == "E" else 1e-3), fit(rng.uniform(-1, 1)), fit(rng.uniform(-1, 1)))
        add("drift", d * 0.6)
    g = dict(f=f, len=tot / 1e3, fm=np.stack([z, E], 1), lat=lat, Rm=fl(rng.uniform(10, 30)), SynAccTab=tabs)
    head = []
    if rng.random() < 0.7:
        head.append("Rm = %.17g;" % g["Rm"])
        g["Rm_in_file"] = True
    else:
        g["Rm_in_file"] = False
    if rng.random() < 0.4:
        g["RefNorm"] = fl(rng.uniform(0.1, 1))
        k = int(rng.integers(1, 4))
        g["SyncFit"] = [fl(x) for x in rng.normal(size=5 * k) * np.tile([1, 0.3, 0.3, 0.3, 1.0], k)]
        head += ["RefNorm = %.17g;" % g["RefNorm"], "SyncFit = [%s];" % ", ".join("%.17g" % x for x in g["SyncFit"])]
        if rng.random() < 0.3:
            if rng.random() < 0.5:
                head += ["EnergyLimit = [0, 1e9];", "NormLimit = [0, 1e9];"]
            else:       # out of range: warned about, no more
                head += ["EnergyLimit = [1e-9, 2e-9];", "NormLimit = [1e8, 1e9];"][:int(rng.integers(1, 3))]
    head.append("Ez = [%s];" % ",\n".join("%.17g, %.17g" % (a, b) for a, b in g["fm"]))
    p = path or scratch(".lat")
    with open(p, "w") as fo:
        fo.write("\n".join(head + txt + ["cell: LINE = (%s);" % ", ".join(order), "USE: cell;"]) + "\n")
    return g, p


def add_names(rng, es, uniq=True):
    for i, e in enumerate(es):
        e["name"] = "%s_%d" % (e["type"][:3], i if uniq else int(rng.integers(0, 4)))
    return es


def lattice(rng, n, Ek=2e7, types=None, src=True, cav=0.15, strip=0.0, misp=0.4):
    types = list(types or LIN_TYPES)
    es = [dict(type="source")] if src else []
    for _ in range(n):
        r = rng.random()
        t = "rfcavity" if r < cav else "stripper" if r < cav + strip else str(rng.choice(types))
        es.append(elem(rng, t, Ek, misp))
    return add_names(rng, es)


# ------------------------------------------------------------------ lattice files
def lat_val(v):
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple, np.ndarray)):
        return "[%s]" % ", ".join("%.17g" % x for x in np.ravel(v))
    return "%.17g" % v


def lat_text(b, es, sim, line=None, skip=()):
    """a lattice file with these elements; line: the order they are used in"""
    out = ['sim_type = "%s";' % sim] if "sim_type" not in skip else []
    for k, v in clean(b).items():
        if k not in skip:
            out.append("%s = %s;" % (k, lat_val(v)))
    for e in es:
        c = {k: v for k, v in clean(e).items() if k not in ("name", "type")}
        out.append("%s: %s%s;" % (e["name"], e["type"], "".join(", %s = %s" % (k, lat_val(v)) for k, v in c.items())))
    out.append("cell: LINE = (%s);" % ", ".join(line or [e["name"] for e in es]))
    out.append("USE: cell;")
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ comparing states
IND = ("pos", "last_caviphi0", "ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_IonEk", "ref_SampleFreq", "ref_phis",
       "IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq", "phis", "moment0", "moment1")
DEP = ("moment0_env", "moment0_rms", "moment1_env", "transmat", "ref_IonW", "ref_gamma", "ref_beta", "ref_bg", "ref_SampleIonK",
       "IonW", "gamma", "beta", "bg", "SampleIonK")
ALL = IND + DEP


def snap(S, names=ALL):
    return {k: np.array(getattr(S, k), float, copy=True) for k in names}


def same(a, b, names=None):
    """bitwise equal (NaN equals NaN); returns the names that differ"""
    out = []
    for k in names or a:
        x, y = a[k], b[k]
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            out.append(k)
    return out


def scales(a, b, extra=None):
    m0 = np.maximum(np.abs(a["moment0"]), np.abs(b["moment0"]))
    d = np.sqrt(np.abs(np.einsum("iik->ik", a["moment1"])))
    D = np.maximum(m0, d).max(axis=1)
    if extra is not None:
        D = np.maximum(D, extra)
    return np.maximum(D, 1e-12)


def close(a, b, rtol=1e-9, names=None, D=None, phis_abs=None):
    """attributes of a and b that differ by more than rounding; a, b from snap()"""
    out = []
    names = names or [k for k in a if k in b]
    for k in names:
        if a[k].shape != b[k].shape:
            return ["%s: shape %s vs %s" % (k, a[k].shape, b[k].shape)]
    if D is None and "moment0" in a and "moment1" in a:
        D = scales(a, b)
    for k in names:
        x, y = a[k], b[k]
        if k in ("moment0", "moment0_env", "moment0_rms"):
            t = D if x.ndim == 1 else D[:, None]
            if k == "moment0_rms":
                t = t * 30           # square root of a difference
        elif k in ("moment1", "moment1_env"):
            t = np.outer(D, D)
            t = t if x.ndim == 2 else t[:, :, None]
        elif k == "transmat":
            t = D[:, None, None] / D[None, :, None] + np.abs(x)
        elif k == "pos":
            t = np.maximum(np.abs(x), 1.0)
        elif k in ("phis", "ref_phis"):
            t = np.maximum(np.abs(x), 10.0 if phis_abs is None else phis_abs)
        elif k in ("last_caviphi0",):
            t = 360.0
        elif k in ("beta", "bg", "ref_beta", "ref_bg", "SampleIonK", "ref_SampleIonK"):
            t = np.abs(x) * 1e3      # 1-1/gamma^2 cancels for slow beams
        elif k in ("gamma", "ref_gamma"):
            t = np.abs(x)
        else:
            t = np.maximum(np.abs(x), 1e-300)
        bad = ~((np.abs(x - y) <= rtol * t) | (np.isnan(x) & np.isnan(y)) | (x == y))
        if np.any(bad):
            r = np.abs(x - y) / np.maximum(t, 1e-300)
            r = np.where(np.isnan(r), np.inf, r)
            i = np.unravel_index(np.argmax(np.where(bad, r, -1)), r.shape) if r.shape else ()
            out.append("%s%s: %.17g vs %.17g (scaled %.3g)" % (k, list(map(int, i)), x[i], y[i], r[i]))
    return out


def psnap(s):
    """snap() of a reference-model state"""
    import refm
    o = dict(pos=np.array(s.pos), last_caviphi0=np.array(s.last_caviphi0))
    for k in ("IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq", "phis", "IonW", "gamma", "beta", "bg", "SampleIonK"):
        o["ref_" + k] = np.array(getattr(s.ref, k), float)
        o[k] = np.array([getattr(p, k) for p in s.real], float)
    o["moment0"] = np.stack(s.m0, -1)
    o["moment1"] = np.stack(s.m1, -1)
    o["transmat"] = np.stack(s.tm, -1)
    e = refm.env(s)
    o["moment0_env"], o["moment1_env"], o["moment0_rms"] = e
    return o
