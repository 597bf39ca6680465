"""Independent reference model of the moment simulation, written with numpy from the documented optics.

It shares no code with FLAME: it is the oracle the runtime monitors compare the real library against.
State: Ref(ref particle, real particles, m0[n][7], m1[n][7,7], pos).  Coordinates x[mm] x' y[mm] y' phi[rad] dE[MeV/u] 1.
"""
import copy
import math
import os
import numpy as np
from cavtab import MLP

MM, MEV, C0, AU = 1e3, 1e6, 2.99792458e8, 931.49432
MU0 = 4.0 * math.pi * 1e-7
FREQ = 80.5e6
PI = math.pi
INDEP = ("IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq", "phis")


class P:
    def __init__(self, **k):
        self.phis = 0.0
        self.__dict__.update(k)

    def recalc(self):
        self.IonW = self.IonEs + self.IonEk
        self.gamma = self.IonW / self.IonEs if self.IonEs != 0 else 1.0
        b2 = 1 - 1 / (self.gamma * self.gamma) if self.gamma != 0 else float("nan")
        self.beta = math.sqrt(b2) if b2 >= 0 else float("nan")
        self.bg = self.beta * self.gamma if self.beta != 0 else 1.0
        self.lam = C0 / self.SampleFreq * MM
        self.SampleIonK = 2 * PI / (self.beta * self.lam) if self.beta != 0 else float("inf")
        return self

    @property
    def Brho(self):
        return self.beta * self.IonW / (C0 * self.IonZ)

    def copy(self):
        return copy.copy(self)


class St:
    pass


def get(c, k, *d):
    if k in c:
        return c[k]
    if d:
        return d[0]
    raise KeyError(k)


def from_conf(c):
    """The state a configuration describes."""
    s = St()
    s.pos, s.last_caviphi0 = 0.0, 0.0
    s.ref = P(IonEs=float(get(c, "IonEs", 0.0)), IonEk=float(get(c, "IonEk", 0.0)), SampleFreq=float(get(c, "SampleFreq", FREQ)))
    vn, mn = get(c, "vector_variable", "moment0"), get(c, "matrix_variable", "initial")
    s.real, s.m0, s.m1 = [], [], []
    if "IonChargeStates" in c:
        z, q = list(c["IonChargeStates"]), list(c["NCharge"])
        s.ref.IonZ, s.ref.IonQ = float(get(c, "IonZ", z[0])), float(get(c, "IonQ", q[0]))
        s.ref.recalc()
        ids = range(len(z)) if "cstate" not in c else [int(c["cstate"])]
        for i in ids:
            v = np.array(c[vn + str(i)], float)
            p = s.ref.copy()
            p.IonZ, p.IonQ = float(z[i]), float(q[i])
            p.phis = v[4]
            p.IonEk += v[5] * MEV
            s.real.append(p.recalc())
            s.m0.append(v)
            s.m1.append(np.array(c[mn + str(i)], float).reshape(7, 7))
    else:
        s.ref.IonZ, s.ref.IonQ = float(get(c, "IonZ", 0.0)), float(get(c, "IonQ", 1.0))
        s.ref.recalc()
        s.real = [s.ref.copy()]
        s.m0 = [np.array(get(c, vn, np.zeros(7)), float)]
        s.m1 = [np.array(get(c, mn, np.zeros(49)), float).reshape(7, 7)]
    s.tm = [np.eye(7) for _ in s.real]
    return s


def from_state(S):
    """The reference state that corresponds to a FLAME State (read through its public attributes)."""
    s = St()
    s.pos, s.last_caviphi0 = S.pos, S.last_caviphi0
    s.ref = P(**{k: getattr(S, "ref_" + k) for k in INDEP}).recalc()
    cols = {k: getattr(S, k) for k in INDEP}
    n = len(cols["IonZ"])
    s.real = [P(**{k: float(cols[k][i]) for k in INDEP}).recalc() for i in range(n)]
    m0, m1 = S.moment0, S.moment1
    s.m0 = [m0[:, i].copy() for i in range(n)]
    s.m1 = [m1[:, :, i].copy() for i in range(n)]
    s.tm = [np.eye(7) for _ in s.real]
    return s


def from_state_snap(a):
    """as from_state(), from a dict of attribute values"""
    class W:
        pass
    w = W()
    for k, v in a.items():
        setattr(w, k, v if v.ndim else float(v))
    return from_state(w)


def env(s):
    q = np.array([p.IonQ for p in s.real])
    tot = q.sum()
    m0 = sum(a * b for a, b in zip(q, s.m0)) / tot
    m1 = np.zeros((7, 7))
    for a, v, m in zip(q, s.m0, s.m1):
        d = v - m0
        m1[:6, :6] += a * (m + np.outer(d, d))[:6, :6]
    m1 /= tot
    return m0, m1, np.sqrt(np.diag(m1))


# ------------------------------------------------------------------ matrices
def foc(L, K):
    if K > 0:
        r = math.sqrt(K)
        return np.array([[math.cos(r * L), math.sin(r * L) / r], [-r * math.sin(r * L), math.cos(r * L)]])
    if K < 0:
        r = math.sqrt(-K)
        return np.array([[math.cosh(r * L), math.sinh(r * L) / r], [r * math.sinh(r * L), math.cosh(r * L)]])
    return np.array([[1.0, L], [0.0, 1.0]])


def slip(p, L):
    return -2 * PI / (p.lam * p.IonEs / MEV * p.bg ** 3) * L


def quad(p, L, K):
    M = np.eye(7)
    M[0:2, 0:2], M[2:4, 2:4] = foc(L, K), foc(L, -K)
    M[4, 5] = slip(p, L)
    return M


def drift(p, L):
    M = np.eye(7)
    M[0, 1] = M[2, 3] = L
    M[4, 5] = slip(p, L)
    return M


def sol(p, L, K):
    """Solenoid: rotation by KL times focusing of strength K in both planes."""
    c, s = math.cos(K * L), math.sin(K * L)
    f = foc(L, K * K)
    R = np.zeros((4, 4))
    R[0, 0] = R[1, 1] = R[2, 2] = R[3, 3] = c
    R[0, 2] = R[1, 3] = s
    R[2, 0] = R[3, 1] = -s
    F = np.zeros((4, 4))
    F[:2, :2] = F[2:, 2:] = f
    M = np.eye(7)
    M[:4, :4] = F @ R
    M[4, 5] = slip(p, L)
    return M


def rot(dx, dy, tx, ty, tz):
    ty = -ty
    c, s = math.cos, math.sin
    m = np.array([[c(ty) * c(tz), s(tx) * s(ty) * c(tz) + c(tx) * s(tz), -c(tx) * s(ty) * c(tz) + s(tx) * s(tz)],
                  [-c(ty) * s(tz), -s(tx) * s(ty) * s(tz) + c(tx) * c(tz), c(tx) * s(ty) * s(tz) + s(tx) * c(tz)],
                  [s(ty), -s(tx) * c(ty), c(tx) * c(ty)]])
    R = np.eye(7)
    for a in range(3):
        for b in range(3):
            R[2 * a, 2 * b] = R[2 * a + 1, 2 * b + 1] = m[a, b]
    T = np.eye(7)
    T[0, 6], T[2, 6] = -dx, -dy
    return R @ T


def misalign(c, p, refEs, L, K=None):
    """entrance and exit change of coordinates; L in m, of the element."""
    dx, dy = float(get(c, "dx", 0.0)) * MM, float(get(c, "dy", 0.0)) * MM
    R = rot(dx, dy, float(get(c, "pitch", 0.0)), float(get(c, "yaw", 0.0)), float(get(c, "roll", 0.0)))
    k = p.SampleIonK if K is None else K
    scl = np.ones(7)
    scl[4] = -1 / k
    scl[5] = 1 / (p.beta ** 2 * p.gamma * refEs / MEV)
    A, Ai = np.diag(scl), np.diag(1 / scl)
    T = np.eye(7)
    T[4, 6], T[5, 6] = -L / 2 * MM, 1.0
    Ti = np.eye(7)
    Ti[4, 6], Ti[5, 6] = L / 2 * MM, -1.0
    M = Ai @ Ti @ R @ T @ A
    T[4, 6], Ti[4, 6] = L / 2 * MM, -L / 2 * MM
    IM = Ai @ Ti @ np.linalg.inv(R) @ T @ A
    return M, IM


def sbend(L, phi, e1, e2, K, Es, gref, qm, db, dg, d, dK):
    rho = L / phi if phi else math.inf
    Kx, Ky = K + 1 / rho ** 2, -K
    M = np.eye(7)
    M[0:2, 0:2], M[2:4, 2:4] = foc(L, Kx), foc(L, Ky)
    if Kx > 0:
        r = math.sqrt(Kx)
        dx, sx = (1 - math.cos(r * L)) / (rho * Kx), math.sin(r * L) / (rho * r)
    elif Kx < 0:
        r = math.sqrt(-Kx)
        dx, sx = (1 - math.cosh(r * L)) / (rho * Kx), math.sinh(r * L) / (rho * r)
    else:
        dx, sx = L * L / (2 * rho), L / rho
    u = (L / rho - sx) / (Kx * rho) if Kx != 0 else L ** 3 / (6 * rho * rho)
    w = db ** 2 * dg * Es / MEV
    M[0, 5], M[1, 5] = dx / w, sx / w
    M[4, 0], M[4, 1] = sx * dK, dx * dK
    M[4, 5] = (u - L / gref ** 2) * dK / w
    M[4, 6] = (u * d - L / gref ** 2 * (d + qm)) * dK
    M[0, 6], M[1, 6] = dx * d, sx * d
    E1, E2 = np.eye(7), np.eye(7)
    E1[1, 0], E1[3, 2] = math.tan(e1) / rho, -math.tan(e1) / rho
    E2[1, 0], E2[3, 2] = math.tan(e2) / rho, -math.tan(e2) / rho
    return E2 @ M @ E1


def ebend(L, phi, fx, fy, kap, Kx, Ky, Es, g, eta, h, dK, dKZ, ik):
    rho, scl = L / phi, (g - 1) * Es / MEV
    M = np.eye(7)
    M[0:2, 0:2], M[2:4, 2:4] = foc(L, Kx), foc(L, Ky)
    if Kx == 0:
        dx, sx, lx = L ** 2 / (2 * rho), L, L ** 3 / 6
    else:
        m = foc(L, Kx)
        dx, sx = (1 - m[0, 0]) / (rho * Kx), m[0, 1]
        lx = (L - sx) / Kx
    e1, e2 = 1 + eta, 1 + 2 * eta
    Nk, Nt, CT = (e2 ** 2 + h) / (2 * e1 * e2), 1 + h / e2 ** 2, -g / (1 + g)
    M[0, 5], M[1, 5] = dx * Nk / scl, sx / rho * Nk / scl
    M[4, 0], M[4, 1] = -sx / rho * Nt * CT * ik, -dx * Nt * CT * ik
    M[4, 5] = -(-L / (2 * e1 * e2) + (lx / rho ** 2) * Nk * Nt) * CT * ik / scl
    Nz = (e2 - h) / (2 * e1 * e2)
    M[0, 6], M[1, 6] = dx * (Nk * dK + Nz * dKZ), sx / rho * (Nk * dK + Nz * dKZ)
    E = np.eye(7)
    E[1, 0], E[1, 1], E[3, 2], E[5, 5] = fx, math.sqrt(1 + kap), fy, 1 + kap
    return E @ M @ E


def curve_sum(c, n):
    """field value per slice"""
    src = c.get("__curvefile__", c)       # contents of CurveFile, given by the generator
    tot = 0
    for i in range(n):
        v = np.array(src["curve%d" % i], float)
        if "use_range" in c:
            a, b = c["use_range"]
            v = v[int(a):int(b)]
        tot = tot + float(get(c, "scl_fac%d" % i, 0.0)) * v
    return tot


def flag(c, k, d):
    return int(float(get(c, k, d)))


NOLEN = ("marker", "bpm", "orbtrim", "stripper")


def length(c):
    return 0.0 if c["type"] in NOLEN else float(get(c, "L", 0.0))


def matrix(c, s, i):
    """Transfer matrix of element c for charge state i of state s (kinematics up to date)."""
    t, p, ref = c["type"], s.real[i], s.ref
    L = length(c) * MM
    if t in ("marker", "bpm"):
        return np.eye(7)
    if t == "drift":
        return drift(p, L)
    if t == "tmatrix":
        return np.array(c["matrix"], float).reshape(7, 7)
    if t == "orbtrim":
        tx, ty = float(get(c, "theta_x", 0.0)), float(get(c, "theta_y", 0.0))
        if float(get(c, "realpara", 0.0)) == 1.0:
            e = ref.IonZ * C0 / math.sqrt(ref.IonW ** 2 - ref.IonEs ** 2)
            tx, ty = float(get(c, "tm_xkick", 0.0)) * e, float(get(c, "tm_ykick", 0.0)) * e
        M = np.eye(7)
        M[1, 6], M[3, 6] = tx * p.IonZ / ref.IonZ, ty * p.IonZ / ref.IonZ
        A, B = misalign(c, p, ref.IonEs, 0.0)
        M = B @ M @ A
        xy = float(get(c, "xyrotate", 0.0)) * PI / 180
        return M @ rot(0, 0, 0, 0, xy) if xy != 0 else M
    if t in ("quadrupole", "solenoid", "equad"):
        n = flag(c, "ncurve", 0)
        if t == "quadrupole":
            f, k = quad, lambda v: v / p.Brho / MM ** 2
            v0 = None if n else c["B2"]
        elif t == "solenoid":
            f, k = sol, lambda v: v / (2 * p.Brho) / MM
            v0 = None if n else c["B"]
        else:
            f, k = quad, lambda v: 2 * v / (C0 * p.beta) / p.Brho / MM ** 2
            v0 = None if n else c["V"] / c["radius"] ** 2
        if n:
            b = curve_sum(c, n)
            M = np.eye(7)
            for x in b:
                M = f(p, L / len(b), k(x)) @ M
        else:
            M = f(p, L, k(v0))
    elif t == "sbend":
        if L == 0:
            return np.eye(7)
        r = PI / 180
        phi, e1, e2, K = c["phi"] * r, c["phi1"] * r, c["phi2"] * r, float(get(c, "K", 0.0)) / MM ** 2
        qm = (p.IonZ - ref.IonZ) / ref.IonZ
        if flag(c, "HdipoleFitMode", 1) == 0:
            bg = c["bg"]
            dg = math.sqrt(bg * bg + 1)
            db = bg / dg
            d = (ref.gamma - dg) / (db * db * dg) - qm
            M = sbend(L, phi, e1, e2, K, ref.IonEs, ref.gamma, qm, db, dg, d, 2 * PI / (db * ref.lam))
        else:
            M = sbend(L, phi, e1, e2, K, ref.IonEs, ref.gamma, qm, ref.beta, ref.gamma, -qm, ref.SampleIonK)
    elif t == "edipole":
        if L == 0:
            return np.eye(7)
        phi = c["phi"] * PI / 180
        db = ref.beta if flag(c, "HdipoleFitMode", 1) else float(get(c, "beta", ref.beta))
        eta = (1 / math.sqrt(1 - db * db) - 1) / 2
        er = (p.beta ** 2 / p.IonZ) / (db ** 2 / ref.IonZ)
        eL = er * L
        rho = eL / phi
        M = ebend(eL, phi, float(get(c, "fringe_x", 0.0)) / MM, float(get(c, "fringe_y", 0.0)) / MM, float(get(c, "asym_fac", 0.0)),
                  (1 - c["spher"] + (1 + 2 * eta) ** 2) / rho ** 2, c["spher"] / rho ** 2, ref.IonEs, p.gamma, eta, 1.0,
                  (er - 1) - (p.IonEk - ref.IonEk) / p.IonEk, ref.IonZ / p.IonZ - 1, p.SampleIonK)
        if c["ver"] == 1:
            R = np.eye(7)
            R[:4, :4] = 0
            R[0, 2] = R[1, 3] = -1
            R[2, 0] = R[3, 1] = 1
            M = R @ M @ R.T
    else:
        raise KeyError(t)
    A, B = misalign(c, p, ref.IonEs, length(c))
    return B @ M @ A


PINNED = False        # see known-findings.txt, key sextupole-thicklens-dr


def sext_pinned(L, K, x, y):
    """the thick lens as the suite pins it: sqrt(2)|x| where the distance sqrt(x^2+y^2) is meant"""
    B = np.eye(4)
    dr = math.sqrt(x * x + x * x)
    r = math.sqrt(abs(K) * dr)
    if r == 0:
        B[0, 1] = B[2, 3] = L
        return B
    x, y = math.copysign(1, K) * x, math.copysign(1, K) * y
    f, d = foc(L, r * r), foc(L, -r * r)
    B[:2, :2] = ((dr + x) * f + (dr - x) * d) / (2 * dr)
    B[2:, 2:] = ((dr - x) * f + (dr + x) * d) / (2 * dr)
    B[:2, 2:] = B[2:, :2] = y * (d - f) / (2 * dr)
    return B


def sext_step(p, L, K, m0, m1, thin, kick):
    x, y = m0[0], m0[2]
    M = np.eye(7)
    # linearised about the centroid: x'' = -K (x0 x - y0 y), y'' = +K (x0 y + y0 x)
    G = np.array([[-K * x, K * y], [K * y, K * x]])
    if thin:
        D, Q = np.eye(4), np.eye(4)
        D[0, 1] = D[2, 3] = L / 2
        Q[1, 0], Q[1, 2], Q[3, 0], Q[3, 2] = G[0, 0] * L, G[0, 1] * L, G[1, 0] * L, G[1, 1] * L
        M[:4, :4] = D @ Q @ D
    elif PINNED:
        M[:4, :4] = sext_pinned(L, K, x, y)
    else:
        w, V = np.linalg.eigh(G)
        B = np.zeros((4, 4))
        F = [foc(L, -v) for v in w]
        for a in range(2):
            for b in range(2):
                blk = sum(V[a, k] * V[b, k] * F[k] for k in range(2))
                B[2 * a:2 * a + 2, 2 * b:2 * b + 2] = blk
        M[:4, :4] = B
    if kick:
        M[1, 6] = -K * L * (m1[0, 0] - m1[2, 2])
        M[3, 6] = 2 * K * L * m1[0, 2]
    M[4, 5] = slip(p, L)
    return M


# ------------------------------------------------------------------ cavities
_tab = {}


def table(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _tab:
        _tab[k] = np.array([[float(x) for x in ln.split()] for ln in open(path) if ln.strip() and not ln.startswith("%")])
    return _tab[k]


def thin_list(path):
    out = []
    for ln in open(path):
        f = ln.split()
        if not f or f[0].startswith("%"):
            continue
        out.append((f[0], float(f[2]), float(f[4]) if f[0] not in ("drift", "AccGap") else 0.0, None, None))
    return out


BUILTIN = {"0.041QWR": (1, 41, 17.0), "0.085QWR": (2, 85, 17.0), "0.29HWR": (3, 29, 20.0), "0.53HWR": (4, 53, 20.0)}
FYC = {1: (4.394, -0.4965, -4.731), 2: (5.428, -0.5008, 1.6), 3: (22.35, -0.5348, 2.026), 4: (41.43, -0.5775, 2.59839)}
COL = dict(EFocus1=3, EFocus2=4, EDipole=2, EQuad=5, HMono=7, HDipole=6, HQuad=8)


def ttf(fm, col, gap, k, half):
    """Electric centre, transit-time factors T, T', S, S' and gap voltage of an on-axis field table."""
    z, E = fm[:, 0].copy(), fm[:, col - 1]
    n = len(z)
    length_ = z[-1]
    if half:
        n = int(math.floor((n - 1) / 2.0 + 0.5))
    z, E = z[:n], E[:n]
    dz = (z[-1] - z[0]) / (n - 1)
    z = z - z[0]
    zm, em = (z[1:] + z[:-1]) / 2, (E[1:] + E[:-1]) / 2
    ab = (np.abs(E[1:]) + np.abs(E[:-1])) / 2
    eml = ab.sum() * dz
    cen = (zm * ab).sum() * dz / eml
    zc = zm - cen
    T = (em * np.cos(k * zc)).sum() * dz / eml
    Tp = -(zc * em * np.sin(k * zc)).sum() * dz / eml
    S = (em * np.sin(k * zc) * np.diff(z)).sum() / eml
    Sp = (zc * em * np.cos(k * zc)).sum() * dz / eml
    V0 = eml / MEV / MM
    if gap == 2:
        cen, T, Tp = length_ - cen, -T, -Tp
    return cen, T, Tp, S, Sp, V0


def ps(b, *a):
    return sum(x * b ** i for i, x in enumerate(a))


def gapfit(label, b, k, gap, fm, force):
    lim = {41: (0.025, 0.08), 85: (0.05, 0.25), 29: (0.15, 0.4), 53: (0.3, 0.6)}[label]
    if force or b < lim[0] or b > lim[1]:
        return ttf(fm, 2, gap, k, True)
    sg = 1 if gap == 1 else -1
    if label == 41:
        return (sg * 0.0006384 * b ** -1.884 + (86.69 if gap == 1 else 33.31),
                sg * ps(b, 0.9232, -123.2, 3570, -5.476e4, 4.316e5, -1.377e6), sg * ps(b, 1.699, 924.7, -4.062e4, 7.528e5, -6.631e6, 2.277e7),
                0.0, ps(b, -1.571, 25.59, 806.6, -2.98e4, 3.385e5, -1.335e6), 0.492385)
    if label == 85:
        return (sg * 0.0002838 * b ** -2.13 + (76.5 if gap == 1 else 73.5), sg * (0.0009467 * b ** -1.855 - 1.002),
                sg * ps(b, 24.44, -334, 2468, -1.017e4, 2.195e4, -1.928e4), 0.0, -0.0009751 * b ** -1.898 + 0.001568, 0.9838574)
    if label == 29:
        return (sg * 0.01163 * b ** -2.001 + (91.77 if gap == 1 else 58.23), sg * (0.02166 * b ** -1.618 - 1.022),
                sg * ps(b, -11.25, 534.7, -3917, 1.313e4, -2.147e4, 1.389e4), 0.0, ps(b, -0.8283, -4.409, 78.77, -343.9, 645.1, -454.4), 1.242518)
    return (sg * 0.01219 * b ** -2.348 + (137.8 if gap == 1 else 112.2), sg * (0.04856 * b ** -1.68 - 1.018),
            sg * ps(b, -3.612, 422.8, -1973, 4081, -4109, 1641), 0.0, -0.03969 * b ** -1.775 + 0.009034, 2.12878493)


def mlpfit(cavi, what, k, mt, force):
    lim = {1: (0.025, 0.055), 2: (0.006, 0.035), 3: (0.01687155, 0.0449908), 4: (0.0112477, 0.0224954)}[cavi]
    if force or k < lim[0] or k > lim[1]:
        r = ttf(mt, COL[what], 0, k, False)
        return r[1], r[3]
    T, S = MLP[("CaviMlp_" + what, cavi)]
    return ps(k, *T), ps(k, *S)


def boost(fm, p, fy0, scl, f):
    """Tracks one particle through the on-axis field; returns (total energy, cavity phase)."""
    n = len(fm)
    dz = (fm[-1, 0] - fm[0, 0]) / (n - 1)
    lam = C0 / f * MM
    k = 2 * PI * f / (p.beta * C0 * MM)
    fy, W = fy0, p.IonW
    Ea = ((fm[1:, 1] + fm[:-1, 1]) / 2).tolist()
    a, Es = p.IonZ * scl * dz / MM, p.IonEs
    cos, sqrt = math.cos, math.sqrt
    for e in Ea:
        last = fy
        fy += k * dz
        W += a * e * cos((last + fy) / 2)
        g = W / Es
        if W < Es:
            raise ValueError("stopped")
        k = 2 * PI / (sqrt(1 - 1 / (g * g)) * lam)
    return W, fy


def cav_data(c):
    d = c["Eng_Data_Dir"]
    if c["cavtype"] == "Generic":
        g = c["__generic__"]                 # parsed data file, given by the generator
        return 0, None, g["fm"], None, g["lat"], g["Rm"], g
    cavi, lab, Rm = BUILTIN[c["cavtype"]]
    return cavi, lab, table("%s/axisData_%d.txt" % (d, lab)), table("%s/Multipole%d/CaviMlp_%d.txt" % (d, lab, lab)), \
        thin_list("%s/Multipole%d/thinlenlon_%d.txt" % (d, lab, lab)), Rm, None


def kick(T, S, fy):
    return T * math.cos(fy) - S * math.sin(fy)


def cav_matrix(c, p, fy0, Ek0, data):
    cavi, lab, fm, mt, lat, Rm, gen = data
    f, scl = float(c["f"]), float(c["scl_fac"])
    lam = C0 / f * MM
    level = flag(c, "MpoleLevel", 2)
    force = float(get(c, "forcettfcalc", 0.0)) != 0
    Z, Es = p.IonZ, p.IonEs
    need = dict(EDipole=1, HDipole=1, EQuad=2, HMono=2, HQuad=2)

    def gb(W):
        g = W / Es
        return g, math.sqrt(1 - 1 / (g * g))

    Mt, Ml = np.eye(7), np.eye(7)
    if cavi == 0:
        W = Ek0 + Es
        g, b = gb(W)
        fy, k = fy0, 2 * PI / (b * lam)
        pw = lambda co: sum(a * k ** (len(co) - 1 - i) for i, a in enumerate(co))
        for typ, L, V, Tf, Sf in lat:
            A, B = np.eye(7), np.eye(7)
            if typ == "drift":
                fy += k * L
                A[0, 1] = A[2, 3] = L
                B[4, 5] = -2 * PI / lam * L / (b * g) ** 3 * MEV / Es
            elif typ == "AccGap":
                V0, T, S = V * scl, pw(Tf), pw(Sf)
                W += Z * V0 * MEV * kick(T, S, fy)
                g2, b2 = gb(W)
                k = 2 * PI / (b2 * lam)
                A[1, 1] = A[3, 3] = b * g / (b2 * g2)
                B[5, 4] = -Z * V0 * (T * math.sin(fy) + S * math.cos(fy))
                g, b = g2, b2
            elif level >= need.get(typ, 0):
                V0, T, S = V * scl, pw(Tf), pw(Sf)
                e = Z * V0 / b ** 2 / g / AU * kick(T, S, fy)
                h = -MU0 * C0 * Z * V0 / b / g / AU * kick(T, S, fy + PI / 2)
                apply_mp(A, typ, e, h, Rm)
            Mt, Ml = A @ Mt, B @ Ml
    else:
        dis = (fm[-1, 0] - fm[0, 0]) / 2
        Ws, fys = [Ek0 + Es], [fy0]
        gs, bs = [gb(Ws[0])[0]], [gb(Ws[0])[1]]
        ks = [2 * PI / (bs[0] * lam)]
        tf = []
        for gap in (1, 2):
            cen, T, Tp, S, Sp, V0 = gapfit(lab, bs[-1], ks[-1], gap, fm, force)
            V0 *= scl
            tf.append((cen, T, Tp, S, Sp, V0))
            a = fys[-1] + ks[-1] * cen
            W = Ws[-1] + Z * V0 * MEV * kick(T, S, a)
            g, b = gb(W)
            k = 2 * PI / (b * lam)
            fys.append(a + k * (dis - cen) + Z * V0 * ks[-1] * (Tp * math.sin(a) + Sp * math.cos(a)) / (2 * (Ws[-1] - Es) / MEV))
            Ws.append(W), gs.append(g), bs.append(b), ks.append(k)
        km = ((ks[0] + ks[1]) / 2, (ks[1] + ks[2]) / 2)
        # longitudinal: drift, gap, drift, gap, drift
        c1, c2 = tf[0][0] - dis, tf[1][0]
        dl = lambda i, L: -2 * PI / lam * L / (bs[i] * gs[i]) ** 3 * MEV / Es
        D1, K1, D2, K2, D3 = [np.eye(7) for _ in range(5)]
        L1 = dis + c1
        D1[4, 5], D2[4, 5], D3[4, 5] = dl(0, L1), dl(1, c2 - c1), dl(2, dis - c2)
        a1, a2 = fys[0] + km[0] * L1, fys[1] + km[1] * c2
        K1[5, 4] = -Z * tf[0][5] * (tf[0][1] * math.sin(a1) + tf[0][3] * math.cos(a1))
        K2[5, 4] = -Z * tf[1][5] * (tf[1][1] * math.sin(a2) + tf[1][3] * math.cos(a2))
        Ml = D3 @ K2 @ D2 @ K1 @ D1
        s, seg, fy, k, b, g = fm[0, 0], 0, fys[0], ks[0], bs[0], gs[0]
        for typ, L, V, _, _ in lat:
            s += L
            first = s < 0
            A = np.eye(7)
            if typ == "drift":
                fy += k * L
                A[0, 1] = A[2, 3] = L
            elif typ == "AccGap":
                acc = bs[0] * gs[0] / (bs[1] * gs[1]) if first else bs[1] * gs[1] / (bs[2] * gs[2])
                seg += 1
                b, g = bs[seg], gs[seg]
                k = 2 * PI / (b * lam)
                A[1, 1] = A[3, 3] = acc
            elif level >= need.get(typ, 0):
                what = typ
                if first and typ in ("EFocus1", "EFocus2"):
                    what = {"EFocus1": "EFocus2", "EFocus2": "EFocus1"}[typ]
                T, S = mlpfit(cavi, what, km[0] if first else km[1], mt, force)
                if first:
                    if typ[0] == "E":
                        S = -S
                    else:
                        T = -T
                if typ == "HQuad":
                    i = 0 if first else 1
                    b, g = (bs[i] + bs[i + 1]) / 2, (gs[i] + gs[i + 1]) / 2
                V0 = V * scl
                e = Z * V0 / b ** 2 / g / AU * kick(T, S, fy)
                h = -MU0 * C0 * Z * V0 / b / g / AU * kick(T, S, fy + PI / 2)
                apply_mp(A, "EFocus" if typ.startswith("EFocus") else typ, e, h, Rm)
            Mt = A @ Mt
    M = Mt.copy()
    M[4:6, 4:6] = Ml[4:6, 4:6]
    m = f / p.SampleFreq
    if m != 1:
        M[:, 4] *= m
        M[4, :] /= m
    return M


def apply_mp(A, typ, e, h, Rm):
    if typ == "EFocus":
        A[1, 0] = A[3, 2] = e / Rm
    elif typ == "EDipole":
        A[3, 6] = e
    elif typ == "EQuad":
        A[1, 0], A[3, 2] = e / Rm, -e / Rm
    elif typ == "HMono":
        A[1, 0] = A[3, 2] = h / Rm
    elif typ == "HDipole":
        A[3, 6] = h
    elif typ == "HQuad":
        A[1, 0], A[3, 2] = h / Rm, -h / Rm
    else:
        raise KeyError(typ)


def drive_phase(c, ref, data):
    cavi, gen = data[0], data[6]
    f = float(c["f"])
    m = f / ref.SampleFreq
    phi = float(c["phi"]) * PI / 180
    sync = float(get(c, "syncflag", 1.0))
    if sync < 1:
        return phi
    Ek = ref.IonEk / MEV
    if cavi == 0 and sync == 1 and gen.get("RefNorm") is not None and gen.get("SyncFit") is not None:
        nrm = float(c["scl_fac"]) * ref.IonZ / gen["RefNorm"]
        q = gen["SyncFit"]
        fyc = sum((q[i] * Ek ** q[i + 1] + q[i + 2] * math.log(Ek) + q[i + 3] * math.exp(-Ek) + q[i + 4]) * nrm ** (i // 5)
                  for i in range(0, len(q), 5))
    elif cavi == 0:
        t = gen["SynAccTab"]
        fyc = t[0] * Ek ** t[1] - t[2]
    else:
        t = FYC[cavi]
        fyc = t[0] * Ek ** t[1] + t[2]
    return phi - fyc - ref.phis * m


NOISE = [0.0]


def emit_growth(c, m, refp, pin, pout, x2, x0, y2, y0):
    """documented emittance growth in the (misaligned) frame of the cavity"""
    f, phi = float(c["f"]), float(c["phi"]) * PI / 180
    lam = C0 / f * MM
    dW = pout.IonW - pin.IonW
    b, g = (pout.beta + pin.beta) / 2, (pout.gamma + pin.gamma) / 2
    cs, sn = math.cos(phi), math.sin(phi)
    E0TL = 0.0 if -0.0001 < cs < 0.0001 else dW / cs / refp.IonZ
    d = math.sqrt(m[4, 4])
    F = lambda x: 15 / x ** 2 * (3 / x ** 2 * (math.sin(x) / x - math.cos(x)) - math.sin(x) / x)
    G = 0.5 * (1 + (sn ** 2 - cs ** 2) * F(2 * d))
    kp = -PI * abs(refp.IonZ) * E0TL / refp.IonEs / (b * g) ** 2 / pout.beta / pout.gamma / lam
    W = G - (sn * F(d)) ** 2
    # rounding of W: F(x) cancels like 1/x^4
    NOISE[0] = max(NOISE[0], kp * kp * max((x2 + x0 * x0) / m[1, 1], (y2 + y0 * y0) / m[3, 3]) * 1e-13 / min(d, 1) ** 4)
    fac = np.ones(7)
    ax = kp * kp * W * (x2 + x0 * x0)
    ay = kp * kp * W * (y2 + y0 * y0)
    if ax + m[1, 1] > 0:
        fac[1] = math.sqrt((ax + m[1, 1]) / m[1, 1])
    if ay + m[3, 3] > 0:
        fac[3] = math.sqrt((ay + m[3, 3]) / m[3, 3])
    kz = -2 * kp * g * g
    z2 = d * d / (2 * PI / (b * lam)) ** 2
    az = (kz * d) ** 2 * z2 * (cs ** 2 / 8 + d * sn / 576)
    lt = (1 / (g - 1) / refp.IonEs * MEV) ** 2
    if az + m[5, 5] * lt > 0:
        fac[5] = math.sqrt((az + m[5, 5] * lt) / (m[5, 5] * lt))
    return m * np.outer(fac, fac)


def cavity(c, s):
    data = cav_data(c)
    f, scl = float(c["f"]), float(c["scl_fac"])
    fm = data[2]
    m = f / s.ref.SampleFreq
    drive = drive_phase(c, s.ref, data)
    fy = m * s.ref.phis + drive
    W, fo = boost(fm, s.ref, fy, scl, f)
    s.ref = s.ref.copy()
    s.ref.IonEk = W - s.ref.IonEs
    s.ref.phis += (fo - fy) / m
    s.ref.recalc()
    s.last_caviphi0 = math.fmod(drive * 180 / PI, 360)
    L = length(c)
    s.pos += L
    for i in range(len(s.real)):
        pin = s.real[i]
        mi = f / pin.SampleFreq
        fy = mi * pin.phis + drive
        W, fo = boost(fm, pin, fy, scl, f)
        p = pin.copy()
        p.IonEk = W - p.IonEs
        p.phis += (fo - fy) / mi
        p.recalc()
        T = cav_matrix(c, pin, fy, pin.IonEk, data)
        # the exit frame uses the outgoing velocity with the incoming wave number (kept from the thin-lens code)
        A, B = misalign(c, p, s.ref.IonEs, L, K=pin.SampleIonK)
        v = A @ s.m0[i]
        x2, y2, x0, y0 = s.m1[i][0, 0], s.m1[i][2, 2], v[0], v[2]
        T[4, 6] = T[5, 6] = 0.0
        w = T @ v
        n4, n5 = p.phis - s.ref.phis, (p.IonEk - s.ref.IonEk) / MEV
        T[4, 6], T[5, 6] = n4 - w[4], n5 - w[5]
        w[4], w[5] = n4, n5
        s.m0[i] = B @ w
        q = T @ A @ s.m1[i] @ A.T @ T.T
        if flag(c, "EmitGrowth", 0):
            q = emit_growth(c, q, s.ref, pin, p, x2, x0, y2, y0)
        s.m1[i] = B @ q @ B.T
        s.tm[i] = B @ T @ A
        s.real[i] = p
    return s


# ------------------------------------------------------------------ stripper
STR_DEF = dict(Stripper_IonZ=78.0 / 238.0, Stripper_IonMass=238.0, Stripper_IonProton=92.0, Stripper_E1Para=2.8874e-3,
               Stripper_lambda=5.5740, Stripper_upara=2.6903, Stripper_Para=[3.0, 20.0, 16.623e6],
               Stripper_E0Para=[16.348e6, 1.00547, -0.10681])


def stripper(c, s):
    g = lambda k: c.get(k, STR_DEF[k])
    z = list(c["IonChargeStates"])
    para, e0 = list(g("Stripper_Para")), list(g("Stripper_E0Para"))
    if c.get("charge_model", "baron") == "off":
        w = list(c["NCharge"])
    else:
        b, Zp = s.real[0].beta, g("Stripper_IonProton")
        q1 = Zp * (1 - math.exp(-83.275 * (b / Zp ** 0.447)))
        qa = q1 * (1 - math.exp(-12.905 + 0.2124 * Zp - 0.00122 * Zp ** 2))
        Y = q1 / Zp
        d = math.sqrt(q1 * (0.07535 + 0.19 * Y - 0.2654 * Y * Y))
        w = [1 / math.sqrt(2 * PI) / d * math.exp(-0.5 * (x * g("Stripper_IonMass") - qa) ** 2 / d ** 2) for x in z]
    q = np.array([p.IonQ for p in s.real])
    tot = q.sum()
    mean = sum(a * b for a, b in zip(q, s.m0)) / tot
    phis = sum(a * p.phis for a, p in zip(q, s.real)) / tot
    Ek = sum(a * p.IonEk for a, p in zip(q, s.real)) / tot
    M = sum(a * (m + np.outer(v - mean, v - mean)) for a, m, v in zip(q, s.m1, s.m0)) / tot
    law = lambda e: (e - para[2]) * e0[1] + e0[0]
    foil = math.sqrt(1 / 3.0) * para[1] / 100 * para[0] * e0[2]
    fac = np.ones(7)
    ang = g("Stripper_upara") / g("Stripper_lambda") ** 2 * 1e-6
    fac[5] = math.sqrt((M[5, 5] + g("Stripper_E1Para") ** 2 + foil ** 2) / M[5, 5])
    fac[1] = math.sqrt((M[1, 1] + ang) / M[1, 1])
    fac[3] = math.sqrt((M[3, 3] + ang) / M[3, 3])
    F = np.outer(fac, fac)
    F[6, :] = F[:, 6] = 1.0
    M = M * F
    s.ref = s.ref.copy()
    s.ref.IonZ = float(g("Stripper_IonZ"))
    s.ref.IonEk = law(s.ref.IonEk)
    s.ref.recalc()
    s.real = [P(IonZ=float(a), IonQ=float(b), IonEs=s.ref.IonEs, IonEk=law(Ek), SampleFreq=s.ref.SampleFreq, phis=phis).recalc() for a, b in zip(z, w)]
    s.m0 = [mean.copy() for _ in z]
    s.m1 = [M.copy() for _ in z]
    s.tm = [np.eye(7) for _ in z]
    return s


# ------------------------------------------------------------------ one element, forward
def advance(c, s):
    t = c["type"]
    NOISE[0] = 0.0
    if t == "source":
        return from_conf(c)
    s.ref = s.ref.copy().recalc()
    s.real = [p.copy().recalc() for p in s.real]
    if t == "stripper":
        return stripper(c, s)
    if t == "rfcavity":
        return cavity(c, s)
    L = length(c)
    if t == "sextupole":
        n, K3 = int(float(get(c, "step", 1.0))), None
        thin, kk = float(get(c, "thinlens", 0.0)) == 1, float(get(c, "dstkick", 1.0)) == 1
        for i, p in enumerate(s.real):
            K3 = c["B3"] / p.Brho / MM ** 3
            A, B = misalign(c, p, s.ref.IonEs, L)
            v, m, T = A @ s.m0[i], A @ s.m1[i] @ A.T, np.eye(7)
            for _ in range(n):
                S = sext_step(p, L * MM / n, K3, v, m, thin, kk)
                v, m, T = S @ v, S @ m @ S.T, S @ T
            s.m0[i], s.m1[i], s.tm[i] = B @ v, B @ m @ B.T, B @ T @ A
    else:
        Ts = [matrix(c, s, i) for i in range(len(s.real))]
        for i, T in enumerate(Ts):
            old = s.m0[i][4]
            s.m0[i], s.m1[i], s.tm[i] = T @ s.m0[i], T @ s.m1[i] @ T.T, T
            if t == "sbend":
                s.real[i].phis += s.m0[i][4] - old
    s.ref.phis += s.ref.SampleIonK * L * MM
    for p in s.real:
        p.phis += p.SampleIonK * L * MM
    s.pos += L
    return s
