"""One element of the real library against the reference model, from the state the library itself had before it."""
import numpy as np
import gen
import refm

NAMES = gen.ALL


def expect(conf, e, a):
    """what the model says element e does to the state snapshot a; None where the beam stops"""
    s = refm.from_state_snap(a)
    try:
        return gen.psnap(refm.advance(dict({k: v for k, v in conf.items() if k != "elements"}, **e), s))
    except (ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
        return None


def finite(p):
    return all(np.all(np.isfinite(p[k])) for k in ("moment0", "moment1", "transmat", "IonEk", "phis"))


def compare(mon, conf, e, a, z, rtol=1e-9, names=NAMES):
    """list of differences, or None if there is nothing to compare"""
    p = expect(conf, e, a)
    if p is None or not finite(p):
        mon.count("outside-model")
        return None
    D = np.maximum(gen.scales(a, a), gen.scales(p, p))
    grow = e["type"] == "rfcavity" and refm.flag(e, "EmitGrowth", 0)
    if not grow:
        return gen.close(p, z, rtol, names, D=D)
    mom = ("moment1", "moment1_env", "moment0_rms")
    return gen.close(p, z, rtol, [k for k in names if k not in mom], D=D) + gen.close(p, z, max(rtol, refm.NOISE[0]), mom, D=D)


def brief(e):
    return {k: (v if not isinstance(v, (list, dict)) or len(str(v)) < 300 else "...") for k, v in e.items() if not k.startswith("__")}
