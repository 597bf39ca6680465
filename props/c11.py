"""C11: states are independent objects with exact attribute access."""
import gc
import numpy as np
import fl
import gen
import walk

SCAL = ("ref_IonEk", "ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_SampleFreq", "ref_phis", "pos", "last_caviphi0")


def forms(rng, v):
    """the same values as another kind of Python object"""
    v = np.array(v, float)
    r = int(rng.integers(0, 9))
    if r == 0:
        return v.tolist(), v
    if r == 1:
        return np.asfortranarray(v), v
    if r == 2:
        w = np.zeros(tuple(2 * d for d in v.shape))
        w[tuple(slice(None, None, 2) for _ in v.shape)] = v
        return w[tuple(slice(None, None, 2) for _ in v.shape)], v
    if r == 3:
        w = v.astype(np.float32)
        return w, w.astype(float)
    if r == 4:
        w = v.copy()
        w.setflags(write=False)
        return w, v
    if r == 5:
        w = np.round(v).astype(int)
        return w, w.astype(float)
    if r == 6:
        return v[::-1].copy()[::-1], v
    if r == 7:
        return v.astype(">f8"), v
    return v, v


def bad(rng, cur):
    """values that can not be stored in this attribute"""
    if cur.ndim == 0 and cur.dtype.kind in "iu" and rng.random() < 0.6:
        return [-1, 2 ** 64, 1e30, float("nan"), -1.0, float("inf"), -2 ** 63, 10 ** 30, -5e-1, float(2 ** 64)][int(rng.integers(0, 10))]
    if cur.ndim == 0:
        return [None, "x", [1.0], {}, object(), 1j, "1.0", np.zeros(3), b"1", 10 ** 400][int(rng.integers(0, 10))]
    sh = cur.shape
    c = [None, "abc", np.zeros(tuple(d + 1 for d in sh)), np.zeros(sh + (1,)), np.zeros(sh[:-1] + (sh[-1] + 1,)), 1.0, np.zeros(0), [], object(),
         np.zeros(sh[1:]) if len(sh) > 1 else np.zeros((1, 1)), [["a"] * 2] * 2, {}, np.zeros((1,) + sh)]
    v = c[int(rng.integers(0, len(c)))]
    if isinstance(v, np.ndarray) and v.shape == sh:
        return None
    return v


def value(rng, k, cur, dtype):
    if dtype in "iu":
        return int(rng.integers(0, 2 ** 40)) if rng.random() < 0.7 else [0, 1, 2 ** 31, 2 ** 32 + 5, 2 ** 63, 2 ** 64 - 1][int(rng.integers(0, 6))]
    return rng.normal(size=cur.shape) * 10 ** rng.uniform(-3, 6) if rng.random() < 0.7 else cur * (1 + 0.01 * rng.normal(size=cur.shape))


def machine(rng):
    sim = str(rng.choice(["MomentMatrix", "MomentMatrix", "MomentMatrix", "Vector", "TransferMatrix"]))
    if sim == "MomentMatrix":
        Ek, b, es, M, conf = walk.case(rng, cav=0.15, strip=0.08, n=(1, 5))
        c = gen.clean(b)
    else:
        es = fl.lin_lattice(rng, int(rng.integers(1, 5)))
        c = dict(initial=fl.lin_initial(rng, sim))
        M = fl.Machine(dict(sim_type=sim, elements=gen.cleanl(es), **c))
    return sim, es, M, c


def run_case(i, rng, mon):
    if i % 5 == 4:
        return created(rng, mon)
    sim, es, M, c = machine(rng)
    pool = [M.allocState(c), M.allocState()]
    exp = [fl.full(s) for s in pool]
    held = []           # arrays read earlier: (array, values then)
    hist = []
    for step in range(int(rng.integers(6, 16))):
        op = str(rng.choice(["clone", "write", "write", "write", "bad", "go", "del", "alloc", "read", "scribble"]))
        j = int(rng.integers(0, len(pool)))
        S = pool[j]
        cur = exp[j]
        hist.append(op)
        if op == "clone" or op == "alloc":
            if len(pool) > 6:
                continue
            C = S.clone() if op == "clone" else M.allocState(c)
            f = fl.full(C)
            if op == "clone":
                d = [x for x in fl.same(cur, f) if not x.startswith("next_elem")]
                mon.check(not d, "clone-differs", lambda: "%s %s" % (hist, d))
                mon.count("clones")
            pool.append(C)
            exp.append(f)
        elif op == "write":
            k = str(rng.choice(sorted(cur)))
            v = value(rng, k, cur[k], cur[k].dtype.kind)
            if cur[k].ndim == 0:
                if cur[k].dtype.kind == "f":
                    v = float(v) if rng.random() < 0.7 else int(v)
                    if rng.random() < 0.1:
                        v = int(rng.integers(-2 ** 62, 2 ** 62)) >> int(rng.integers(0, 40)) if rng.random() < 0.5 else float(10.0 ** rng.uniform(-300, 300) * rng.choice([-1, 1]))
                w, want = v, np.array(v, float) if cur[k].dtype.kind == "f" else np.array(v)
            else:
                w, want = forms(rng, v)
                want = want.copy()
            setattr(S, k, w)
            got = fl.full(S)
            mon.check(got[k].shape == want.shape and np.array_equal(got[k], want, equal_nan=want.dtype.kind == "f"), "read-back:" + k, lambda: "%s vs %s" % (got[k], want))
            cur = dict(cur)
            cur[k] = want
            exp[j] = cur
            d = fl.same(cur, got)
            mon.check(not d, "write-changes-others:" + k, lambda: d)
            if isinstance(w, np.ndarray) and w.flags.writeable:
                w += 1          # the state must not be looking at our array
            mon.count("writes")
            mon.distinct("write", sim, k, type(w).__name__, str(getattr(w, "dtype", "")))
        elif op == "bad":
            k = "next_elem" if rng.random() < 0.1 else str(rng.choice(sorted(cur)))
            v = bad(rng, cur[k])
            if v is None and rng.random() < 0.5:
                o = fl.outcome(delattr, S, k)
                mon.check(o[0] == "err", "deleted:" + k, o)
            else:
                o = fl.outcome(setattr, S, k, v)
                mon.check(o[0] == "err", "accepted-bad-value:" + k, lambda: repr(v)[:200])
            mon.count("refused")
            mon.distinct("refused", sim, k, type(v).__name__, str(getattr(v, "shape", "")))
        elif op == "go":
            a = int(rng.integers(0, len(es)))
            n = int(rng.integers(1, len(es) + 1))
            if sim == "MomentMatrix" and rng.random() < 0.35:
                n = -n
            twin = S.clone() if rng.random() < 0.4 else None
            o = fl.outcome(M.propagate, S, start=a, max=n)
            mon.count("passes" if n > 0 else "passes-back")
            exp[j] = fl.full(S)
            if twin is not None and (n > 0 or not any(e["type"] == "rfcavity" for e in es)):
                # nothing hidden is lost in a clone
                q = fl.outcome(M.propagate, twin, start=a, max=n)
                d = fl.same(exp[j], fl.full(twin))
                mon.check(o[0] == q[0] and not d, "clone-behaves-otherwise", lambda: "%s %s %s %s" % (hist, o, q, d))
                mon.count("twins")
        elif op == "del" and len(pool) > 1:
            del pool[j], exp[j], S
            gc.collect()
        elif op == "read":
            for k in cur:
                v = getattr(S, k)
                if isinstance(v, np.ndarray):
                    held.append((v, v.copy()))
            str(S), S.show(), S.show(level=int(rng.integers(0, 5)))
        elif op == "scribble":
            k = str(rng.choice(sorted(cur)))
            v = getattr(S, k)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v *= 3
                v += 1
        for x, (st, e) in enumerate(zip(pool, exp)):
            d = fl.same(e, fl.full(st))
            if not mon.check(not d, "state-changed-by:" + op, lambda: "state %d of %d, op on %d, %s: %s" % (x, len(pool), j, hist, d)):
                return
        for v, w in held:
            if not mon.check(np.array_equal(v, w, equal_nan=True), "held-array-changed", lambda: hist):
                return
        mon.count("pool-checks", len(pool))
    del M
    gc.collect()
    for st, e in zip(pool, exp):        # states outlive their machine
        mon.check(not fl.same(e, fl.full(st)), "state-changed-by:machine-deleted", "")
        st.clone()
    mon.sample(dict(sim=sim, history=hist))


def created(rng, mon):
    """writing equals having been created with the value"""
    Ek, b, es, M, conf = walk.case(rng, cav=0.2, strip=0.08, src=False)
    n = len(b["NCharge"])
    vn, mn = b.get("vector_variable", "moment0"), b.get("matrix_variable", "initial")
    c = dict(b)
    S = M.allocState(gen.clean(b))
    kind = str(rng.choice(["moments", "weights", "all"]))
    if kind == "moments":
        for x in range(n):
            v, m = gen.moments(rng, Ek)
            v[4:6] = b[vn + str(x)][4:6]          # these also set the particle's own phase and energy
            c[vn + str(x)], c[mn + str(x)] = [float(y) for y in v], [float(y) for y in m.ravel()]
        S.moment0 = np.stack([c[vn + str(x)] for x in range(n)], -1)
        S.moment1 = np.stack([np.reshape(c[mn + str(x)], (7, 7)) for x in range(n)], -1)
    elif kind == "weights":
        c["NCharge"] = [float(y) for y in rng.uniform(1, 100, n)]
        c["IonChargeStates"] = [y * 1.01 for y in b["IonChargeStates"]]
        c.setdefault("IonQ", b["NCharge"][0])
        c.setdefault("IonZ", b["IonChargeStates"][0])
        S.IonQ, S.IonZ = np.array(c["NCharge"]), np.array(c["IonChargeStates"])
    else:
        # another beam altogether
        c = gen.beam(rng, n=n, Ek=Ek * rng.uniform(0.9, 1.1))
        T = M.allocState(gen.clean(c))
        for k in rng.permutation(gen.IND):
            setattr(S, str(k), getattr(T, str(k)))
    T = M.allocState(gen.clean(c))
    M2 = fl.Machine(conf)
    x, y = fl.outcome(M.propagate, S), fl.outcome(M2.propagate, T)
    if x[0] == "ok" and y[0] == "ok":
        d = fl.same(fl.full(S), fl.full(T))
        mon.check(not d, "written-differs-from-created:" + kind, lambda: "%s\n%s" % (d, [e["type"] for e in es]))
    else:
        mon.check(x == y, "written-differs-from-created-error:" + kind, lambda: "%s %s" % (x, y))
    mon.count("created")
    mon.distinct("created", kind, n, tuple(e["type"] for e in es))
