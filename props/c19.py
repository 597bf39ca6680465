"""C19: the vector and the matrix simulation are one linear map."""
import numpy as np
import fl
import gen

J = np.zeros((4, 4))
J[0, 1] = J[2, 3] = 1
J[1, 0] = J[3, 2] = -1


def prod(es):
    M = np.eye(6)
    for e in es:
        if e["type"] != "source":
            M = fl.lin_ref(e) @ M
    return M


def near(a, b, sc):
    return bool(np.all(np.abs(a - b) <= 1e-9 * sc + 1e-300))


def run_case(i, rng, mon):
    n = int(rng.integers(1, 8))
    es = [fl.lin_elem(rng) for _ in range(n)]
    x = rng.normal(size=6)
    m0 = rng.normal(size=36) if rng.random() < 0.5 else np.eye(6).ravel()
    if rng.random() < 0.3:
        x[rng.random(6) < 0.5] = 0
    src = dict(type="source")
    if rng.random() < 0.5:
        es = [src] + es
    gen.add_names(rng, es)
    V = fl.Machine(dict(sim_type="Vector", elements=gen.cleanl(es), initial=x))
    T = fl.Machine(dict(sim_type="TransferMatrix", elements=gen.cleanl(es), initial=m0))
    if es[0] is src:
        v, t = V.allocState({}), T.allocState({})
    else:
        v, t = V.allocState(dict(initial=x)), T.allocState(dict(initial=m0))
    A, pos = m0.reshape(6, 6), 0.0
    big = np.abs(A)
    xv = np.abs(x)
    P = np.eye(6)
    for k, e in enumerate(es):
        V.propagate(v, start=k, max=1)
        T.propagate(t, start=k, max=1)
        if e["type"] != "source":
            R = fl.lin_ref(e)
            A, big, P, xv = R @ A, np.abs(R) @ big, R @ P, np.abs(R) @ xv
            pos += float(e.get("L", 0.0))
        if np.max(big) > 1e12:
            break
        mv, mt = np.array(v.state), np.array(t.state)
        mon.check(mv.shape == (6,) and mt.shape == (6, 6), "shape", lambda: "%s %s" % (mv.shape, mt.shape))
        mon.check(near(mt, A, big), "matrix:" + e["type"], lambda: "%s\n%s\n%s" % (mt - A, e, es))
        mon.check(near(mv, P @ x, xv), "vector:" + e["type"], lambda: "%s\n%s" % (mv - P @ x, e))
        mon.check(abs(v.pos - pos) < 1e-12 * max(1, pos) and abs(t.pos - pos) < 1e-12 * max(1, pos), "position:" + e["type"], lambda: "%s %s %s" % (v.pos, t.pos, pos))
        mon.count("steps")
        mon.count("type:" + e["type"])
    # start from the unit matrix: the accumulated matrix applied to a vector is the vector simulation
    t = T.allocState(dict(initial=np.eye(6).ravel()))
    v = V.allocState(dict(initial=x))
    k = 1 if es[0] is src else 0
    if k < len(es):
        T.propagate(t, start=k)
        V.propagate(v, start=k)
        Mx = np.array(t.state)
        sc = np.abs(Mx) @ np.abs(x) + np.max(big) * np.max(np.abs(x))
        mon.check(near(Mx @ x, np.array(v.state), sc), "one-map", lambda: es)
        mon.count("one-map")
    # relations on single elements
    e = fl.lin_elem(rng)
    e["name"] = "e"

    def mat(*els):
        m = fl.Machine(dict(sim_type="TransferMatrix", elements=gen.cleanl(els)))
        s = m.allocState(dict(initial=np.eye(6).ravel()))
        m.propagate(s)
        return np.array(s.state)
    Q = mat(e)
    sc = np.max(np.abs(Q)) ** 2 + 1
    if e["type"] != "generic" and sc < 1e10:
        s = np.array([1e3, 1, 1e3, 1])
        X = Q[:4, :4] * s[None, :] / s[:, None]
        w = np.max(np.abs(X)) ** 2 + 1
        mon.check(bool(np.max(np.abs(X.T @ J @ X - J)) <= 1e-9 * w), "not-symplectic:" + e["type"], lambda: e)
        mon.check(abs(np.linalg.det(X) - 1) <= 1e-8 * w * w, "determinant:" + e["type"], lambda: "%s %s" % (np.linalg.det(X), e))
        f = float(rng.uniform(0.1, 0.9))
        if e["type"] in ("drift", "quadrupole", "solenoid"):
            H = mat(dict(e, L=e["L"] * f), dict(e, L=e["L"] * (1 - f), name="f"))
            mon.check(near(H, Q, np.maximum(np.max(np.abs(Q)) , 1) ** 2), "split:" + e["type"], lambda: "%s\n%s" % (H - Q, e))
            mon.count("split")
        if e["type"] == "sbend":
            H = mat(dict(e, L=e["L"] * f, phi=e["phi"] * f), dict(e, L=e["L"] * (1 - f), phi=e["phi"] * (1 - f), name="f"))
            mon.check(near(H, Q, np.maximum(np.max(np.abs(Q)), 1) ** 2), "split:sbend", lambda: "%s\n%s" % (H - Q, e))
            mon.count("split")
        if e["type"] in ("quadrupole", "solenoid"):
            mon.check(near(mat(dict(e, K=0.0)), mat(dict(type="drift", name="d", L=e["L"])), np.ones((6, 6)) * 1e3), "zero-is-drift:" + e["type"], lambda: e)
            mon.count("zero-is-drift")
        if e["type"] == "marker":
            mon.check(np.array_equal(Q, np.eye(6)), "marker-is-identity", lambda: Q)
        mon.count("relations")
    elif e["type"] == "generic":
        G = np.eye(6).ravel()
        G[:len(e["transfer"])] = e["transfer"]
        mon.check(np.array_equal(Q, G.reshape(6, 6)), "given-matrix", lambda: "%s %s" % (Q, G))
        mon.count("given-matrix")
    mon.distinct(tuple((e["type"], int(np.sign(e.get("K", 9)))) for e in es))
    mon.sample(dict(es=es))
