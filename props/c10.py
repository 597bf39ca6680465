"""C10: going back over a range restores the state from which the forward pass started."""
import numpy as np
import fl
import gen
import refm

TYPES = ("drift", "marker", "bpm", "quadrupole", "solenoid", "equad", "orbtrim", "sbend", "edipole", "tmatrix")
NAMES = ("pos", "ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_IonEk", "ref_SampleFreq", "ref_phis", "IonZ", "IonQ", "IonEs", "IonEk",
         "SampleFreq", "phis", "moment0", "moment1", "moment0_env", "moment1_env", "ref_beta", "beta", "SampleIonK", "IonW")


def cav(rng, Ek):
    e = gen.cavity(rng, Ek, misp=0.0)
    e.pop("EmitGrowth", None)
    return e


def run_case(i, rng, mon):
    if i % 16 == 0:
        return known(rng, mon)
    if i % 8 == 1:
        return refuse(i, rng, mon)
    Ek = float(np.exp(rng.uniform(np.log(1e6), np.log(1.5e8))))
    b = gen.beam(rng, Ek=Ek)
    n = int(rng.integers(1, 8))
    es = []
    if rng.random() < 0.3:
        es.append(dict(type="source"))
    for _ in range(n):
        es.append(cav(rng, Ek) if rng.random() < 0.2 else gen.elem(rng, str(rng.choice(TYPES)), Ek, misp=0.5))
    gen.add_names(rng, es)
    N = len(es)
    M, conf = fl.mk(b, es)
    S = M.allocState(gen.clean(b))
    if rng.random() < 0.4:
        S.ref_phis = float(rng.normal() * 20)
        S.phis = np.array(S.phis) + rng.normal(size=len(S.phis))
        S.pos = float(rng.uniform(-5, 50))
    if es[0]["type"] == "source":
        M.propagate(S, max=1)
    a = 0 if es[0]["type"] == "source" and rng.random() < 0.3 else int(es[0]["type"] == "source")
    a = a if rng.random() < 0.5 else int(rng.integers(a, N))
    k = int(rng.integers(1, N - a + 1))
    s0 = gen.snap(S)
    try:
        log = M.propagate(S, start=a, max=k, observe=range(N))
    except RuntimeError:
        mon.count("stopped-beams")
        return
    traj = {a - 1: s0}
    for idx, st in log:
        traj[idx] = gen.snap(st)
    end = S
    if not all(np.all(np.isfinite(t["moment0"])) for t in traj.values()):
        return
    D = np.max([gen.scales(t, t) for t in traj.values()], axis=0)
    # the transverse map may blow up: its inverse loses as many digits
    amp = max(1.0, float(np.max(D[:4] / gen.scales(s0, s0)[:4])))
    if amp > 1e4:
        mon.count("skipped-unstable")
        return
    # all the way back, and in pieces
    for pieces in (1, int(rng.integers(1, k + 1))):
        T = end.clone()
        at, left = a + k - 1, k
        while left:
            m = left if pieces == 1 else min(left, int(rng.integers(1, pieces + 1)))
            M.propagate(T, start=at, max=-m)
            mon.count("backward-elements", m)
            at -= m
            left -= m
            want = traj[at] if at in traj else s0
            d = gen.close(want, gen.snap(T), 1e-8 * amp, NAMES, D=D)
            if not mon.check(not d, "not-restored", lambda: "[%d,%d) back to %d: %s\n%s\n%s" % (a, a + k, at + 1, d[:5], [e["type"] for e in es], es)):
                return
            mon.count("compared")
            exp = at % 2 ** 64
            mon.check(T.next_elem == exp, "next_elem", lambda: "%d want %d" % (T.next_elem, exp))
    # asking for more than there is: stops at the first element
    if a == 0:
        T = end.clone()
        M.propagate(T, start=a + k - 1, max=int(rng.choice([-(k + 7), -2**31, 1 - 2**31])))
        d = gen.close(s0, gen.snap(T), 1e-8 * amp, NAMES, D=D)
        mon.check(not d, "past-begin", lambda: d[:5])
    # forward again from the restored state
    M.propagate(T, start=a, max=k)
    d = gen.close(traj[a + k - 1], gen.snap(T), 1e-7 * amp, NAMES, D=D)
    mon.check(not d, "forward-again", lambda: "%s\n%s" % (d[:5], es))
    mon.distinct(tuple(e["type"] for e in es), a, k)
    mon.sample(dict(types=[e["type"] for e in es], range=[a, a + k]))


def refuse(i, rng, mon):
    """elements that cannot be reversed"""
    Ek = 2e7
    t = ["sextupole", "stripper", "linear", "cavity-first", "cavity-other", "cavity-other"][(i // 8) % 6]
    if t == "linear":
        sim = str(rng.choice(["Vector", "TransferMatrix"]))
        es = fl.lin_lattice(rng, 3)
        M = fl.Machine(dict(sim_type=sim, elements=gen.cleanl(es)))
        S = M.allocState({})
        k = int(rng.integers(0, 4))
        M.propagate(S)
        before = fl.full(S)
        o = fl.outcome(M.propagate, S, start=k, max=-1)
    elif t == "cavity-first":
        b = gen.beam(rng, Ek=Ek)
        M, conf = fl.mk(b, gen.add_names(rng, [cav(rng, Ek)]))
        S = M.allocState(gen.clean(b))
        before = fl.full(S)
        o = fl.outcome(M.propagate, S, start=0, max=-1)       # no forward pass to undo
    elif t == "cavity-other":
        # a state that the last forward pass did not produce
        b = gen.beam(rng, Ek=Ek)
        M, conf = fl.mk(b, gen.add_names(rng, [cav(rng, Ek)]))
        S = M.allocState(gen.clean(b))
        try:
            M.propagate(S)
        except RuntimeError:
            return
        good = S.clone()
        k = str(rng.choice(["n", "IonEk", "IonEs", "IonZ", "IonQ", "SampleFreq", "ref_IonEk", "ref_IonEs", "ref_IonZ", "ref_IonQ", "ref_SampleFreq"]))
        if k == "n":
            b2 = gen.subbeam(rng, b)
            while len(b2["NCharge"]) == len(b["NCharge"]):
                b2 = gen.subbeam(rng, b)
            S = M.allocState(gen.clean(b2))
            m = min(len(b["NCharge"]), len(b2["NCharge"]))
            for x in ("IonEk", "IonEs", "IonZ", "IonQ", "SampleFreq"):
                setattr(S, "ref_" + x, getattr(good, "ref_" + x))
                v = np.array(getattr(S, x))
                v[:m] = getattr(good, x)[:m]
                setattr(S, x, v)
        else:
            f = float(1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -1))
            if k.startswith("ref_"):
                setattr(S, k, float(getattr(S, k) * f))
            else:
                v = np.array(getattr(S, k))
                v[int(rng.integers(0, len(v)))] *= f
                setattr(S, k, v)
            if np.array_equal(getattr(S, k), getattr(good, k)):
                return          # a weight of zero
        before = fl.full(S)
        o = fl.outcome(M.propagate, S, start=0, max=-1)
        mon.count("other-states:" + k)
        t += ":" + k
        # the one it produced is still accepted
        g = fl.outcome(M.propagate, good, start=0, max=-1)
        mon.check(g[0] == "ok", "own-refused", lambda: "%s after %s" % (g, k))
    else:
        b = gen.beam(rng, Ek=Ek)
        es = gen.add_names(rng, [gen.elem(rng, "drift", Ek), gen.elem(rng, t, Ek), gen.elem(rng, "drift", Ek)])
        M, conf = fl.mk(b, es)
        S = M.allocState(gen.clean(b))
        M.propagate(S)
        before = None
        end = S.clone()
        o = fl.outcome(M.propagate, S, start=2, max=-3)
        mon.check(abs(S.pos - (end.pos - es[2]["L"])) < 1e-9, "refusal-position", lambda: (S.pos, end.pos))
    mon.check(o[0] == "err", "not-refused:" + t, lambda: o)
    if before is not None:
        # values that follow from others may be brought up to date
        d = [x for x in fl.same(before, fl.full(S)) if x.split(":")[0] in gen.IND + ("state",)]
        mon.check(not d, "refusal-changes-state:" + t, lambda: d)
    mon.count("refused")
    mon.distinct("refuse", t, i)


def known(rng, mon):
    """an rf cavity with alignment errors"""
    Ek = 2e7
    b = gen.beam(rng, Ek=Ek)
    e = cav(rng, Ek)
    e.update(dx=1e-3, pitch=2e-3, yaw=-1e-3, roll=0.01)
    M, conf = fl.mk(b, gen.add_names(rng, [e]))
    S = M.allocState(gen.clean(b))
    s0 = gen.snap(S)
    try:
        M.propagate(S)
        s1 = gen.snap(S)
        M.propagate(S, start=0, max=-1)
    except RuntimeError:
        return
    s2 = gen.snap(S)
    d = gen.close(s0, s2, 1e-8, NAMES)
    # the finding concerns the alignment change of coordinates: centroid and second moments only
    core = [x for x in d if not x.startswith("moment")]
    mon.check(not core, "misaligned-cavity-kinematics", lambda: core)
    if d and not core:
        # exactly this finding: the way back uses the outgoing wave number where the way in used the incoming one
        r = refm.from_state_snap(s1)
        want = dict(s0)
        m0, m1 = s0["moment0"].copy(), s0["moment1"].copy()
        for i, p in enumerate(r.real):
            A, B = refm.misalign(e, p, r.ref.IonEs, e["L"], K=float(s0["SampleIonK"][i]))
            A2, B2 = refm.misalign(e, p, r.ref.IonEs, e["L"])
            T = np.linalg.inv(B) @ s1["transmat"][:, :, i] @ np.linalg.inv(A)
            W = np.linalg.inv(B2 @ T @ A2)
            m0[:, i], m1[:, :, i] = W @ s1["moment0"][:, i], W @ s1["moment1"][:, :, i] @ W.T
        want["moment0"], want["moment1"] = m0, m1
        x = gen.close(want, s2, 1e-7, ("moment0", "moment1"))
        mon.check(not x, "misaligned-cavity-other", lambda: "%s %s" % (x, e))
        if not x:
            mon.violate("cavity-misalign-backward", d[:3])
    mon.count("misaligned-cavity")
