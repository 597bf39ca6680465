"""Random beams through random beamlines, one element at a time."""
import numpy as np
import fl
import gen


def brief(e):
    import model
    return model.brief(e)


def energies(rng):
    return float(np.exp(rng.uniform(np.log(5e5), np.log(2e8))))


def case(rng, n=(1, 7), cav=0.15, strip=0.08, types=None, misp=0.4, src=True, offset=True, nq=None, neg=0.0):
    Ek = energies(rng)
    b = gen.beam(rng, n=nq, Ek=Ek, offset=offset)
    es = gen.lattice(rng, int(rng.integers(*n)), Ek, types=types, src=src, cav=cav, strip=strip if Ek > 8e6 else 0.0, misp=misp)
    if neg and rng.random() < neg:
        for e in es:          # lengths of either sign
            if e["type"] in ("quadrupole", "solenoid", "equad", "tmatrix") and e.get("L"):
                e["L"] = -e["L"]
    M, conf = fl.mk(b, es)
    return Ek, b, es, M, conf


def should(conf, e, a):
    """whether the reference model passes the state a through e without trouble"""
    import model
    if not all(np.all(np.isfinite(v)) for k, v in a.items() if isinstance(v, (float, np.ndarray))):
        return False
    p = model.expect(conf, e, a)
    return p is not None and model.finite(p) and np.max(np.abs(p["transmat"])) < 1e7 and np.max(np.abs(p["moment1"])) < 1e100 \
        and p["ref_IonEk"] > 1e3 and np.min(p["IonEk"]) > 1e3 and np.sum(p["IonQ"]) > 1e-200


def steps(M, es, S, mon=None, conf=None, judge=(), first=0):
    """yields (index, element, before, after) for each element in turn.  For the element types in judge, a pass that fails or has no finite
    result where the model has one is a violation."""
    for k, e in list(enumerate(es))[first:]:
        a = gen.snap(S)
        try:
            M.propagate(S, start=k, max=1)
        except RuntimeError as x:
            # the only documented reason to stop: the beam is slower than rest, or a stripper without spread
            if mon:
                mon.count("stopped-beams")
                if e["type"] in judge:
                    mon.check(not should(conf, e, a), "refused-pass:" + e["type"], lambda: "%s\n%s" % (x, brief(e)))
            return
        z = gen.snap(S)
        if not np.all(np.isfinite(z["moment0"])) or not np.all(np.isfinite(z["moment1"])) and e["type"] in judge or not np.sum(z["IonQ"]) > 1e-250:
            if e["type"] in judge:
                mon.check(not should(conf, e, a), "no-finite-result:" + e["type"], lambda: "%s" % brief(e))
            return          # e.g. Baron weights that are all zero: no beam left
        yield k, e, a, z


def edit(rng, S, p=0.25):
    """sometimes the user sets things of the state by hand before it is sent off: charge states that differ in more than charge"""
    if rng.random() >= p:
        return False
    n = len(S.IonZ)
    for k, w in (("IonEs", 2e-2), ("IonEk", 0.05), ("SampleFreq", 0.3), ("IonZ", 0.05), ("IonQ", 0.5), ("phis", 0.5)):
        if rng.random() < 0.4:
            setattr(S, k, np.array(getattr(S, k)) * (1 + w * rng.uniform(-1, 1, n)))
        if rng.random() < 0.3:
            setattr(S, "ref_" + k, float(getattr(S, "ref_" + k) * (1 + w * rng.uniform(-1, 1))))
    return True
