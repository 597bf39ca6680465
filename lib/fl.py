"""Small helpers around flame.Machine shared by the Python workloads."""
import ctypes
import gc
import math
import numpy as np
import gen
from flame import Machine

ERR = (RuntimeError, ValueError, KeyError, TypeError, OverflowError, IndexError, AttributeError)


def mk(b, es, sim="MomentMatrix", **kw):
    c = gen.conf(b, es, sim, **kw)
    return Machine(c), c


def go(M, S=None, start=0, n=None, observe=None):
    S = M.allocState({}) if S is None else S
    kw = {} if n is None else dict(max=n)
    if observe is not None:
        kw["observe"] = observe
    r = M.propagate(S, start=start, **kw)
    return (S, r) if observe is not None else S


def full(S):
    """every attribute a state has, copied"""
    return {k: np.array(getattr(S, k), copy=True) for k in S}


def same(a, b):
    out = []
    if set(a) != set(b):
        return ["attribute sets differ: %s" % sorted(set(a) ^ set(b))]
    for k in a:
        if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f"):
            out.append("%s: %s vs %s" % (k, str(a[k].ravel()[:4]), str(b[k].ravel()[:4])))
    return out


def outcome(f, *a, **k):
    """('ok', value) or ('err', type name, text)"""
    try:
        return ("ok", f(*a, **k))
    except ERR as e:
        return ("err", type(e).__name__, str(e))


# ------------------------------------------------------------------ linear simulations
LTYPES = ("marker", "drift", "sbend", "quadrupole", "solenoid", "generic")


def lin_elem(rng, t=None):
    t = t or str(rng.choice(LTYPES))
    e = dict(type=t)
    if t in ("marker",):
        return e
    if t == "generic":
        n = int(rng.choice([36, 36, 36, 7, 13, 1]))
        e["transfer"] = [float(x) for x in (np.eye(6).ravel() + rng.normal(size=36) * 0.1)[:n]]
        if rng.random() < 0.4:
            e["L"] = float(rng.uniform(0, 2))
        return e
    e["L"] = float(rng.uniform(0.01, 1.5)) if rng.random() < 0.9 else 0.0
    if t == "drift" and rng.random() < 0.1:
        e["L"] = -e["L"]
    if t == "sbend":
        e["L"] = max(e["L"], 0.1)
        e["phi"] = float(rng.choice([-1, 1]) * rng.uniform(0.05, 1.2))
        if rng.random() < 0.06:
            e["phi"] = 0.0
    if t in ("sbend", "quadrupole"):
        r = rng.random()
        if r < 0.75:
            e["K"] = float(rng.normal() * 4)
        elif r < 0.85:
            e["K"] = 0.0
    if t == "solenoid":
        r = rng.random()
        if r < 0.75:
            e["K"] = float(rng.normal() * 2)
        elif r < 0.85:
            e["K"] = 0.0
    return e


def lin_ref(e):
    """documented 6x6 matrix of a linear element"""
    from refm import foc
    M = np.eye(6)
    L, t = float(e.get("L", 0.0)) * 1e3, e["type"]
    if t == "drift":
        M[0, 1] = M[2, 3] = L
    elif t == "quadrupole":
        K = float(e.get("K", 0.0)) * 1e-6
        M[0:2, 0:2], M[2:4, 2:4] = foc(L, K), foc(L, -K)
    elif t == "sbend":
        K = float(e.get("K", 0.0)) * 1e-6
        M[0:2, 0:2], M[2:4, 2:4] = foc(L, K + (e["phi"] / L) ** 2), foc(L, -K)
    elif t == "solenoid":
        K = float(e.get("K", 0.0)) * 1e-3
        c, s = math.cos(K * L), math.sin(K * L)
        F = foc(L, K * K)
        M[:2, :2], M[:2, 2:4], M[2:4, :2], M[2:4, 2:4] = c * F, s * F, -s * F, c * F
    elif t == "generic":
        v = M.ravel()
        v[:len(e["transfer"])] = e["transfer"]
        M = v.reshape(6, 6)
    return M


def lin_lattice(rng, n, src=True):
    es = ([dict(type="source")] if src else []) + [lin_elem(rng) for _ in range(n)]
    return gen.add_names(rng, es)


def lin_initial(rng, sim):
    n = 6 if sim == "Vector" else 36
    k = n if rng.random() < 0.8 else int(rng.integers(1, n + 1))
    return rng.normal(size=k)


# ------------------------------------------------------------------ heap monitor
_h = None


def heap():
    """bytes live in the (ASan) heap, as the allocator itself reports"""
    global _h
    if _h is None:
        _h = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        _h.restype = ctypes.c_size_t
    return _h()


def grows(f, n=12, warm=4):
    """does repeating f() leave memory behind?  Blocks of n calls are compared; a growth that shows in every
    block must persist, at 16 bytes a call or more, in blocks of 64 and then of 512 calls (the interpreter's own
    free lists fill up meanwhile).  Returns bytes per call, else 0."""
    for _ in range(warm):
        f()
    for k in (n, 64, 512):
        d = []
        for _ in range(3):
            gc.collect()
            a = heap()
            for _ in range(k):
                f()
            gc.collect()
            d.append(heap() - a)
            if d[-1] < 8 * k:
                return 0
        if k >= 64 and min(d) < 16 * k:
            return 0
    return min(d) / k
