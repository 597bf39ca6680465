"""C23: the Python interface is safe and faithful for every call."""
import array
import gc
import io
import logging
import os
import sys
import weakref
from collections import OrderedDict
import numpy as np
import fl
import gen
import walk
import flame
from flame import Machine, GLPSParser, GLPSPrinter
from flame._internal import Machine as Base, _GLPSParse

State = type(Base(dict(sim_type="Vector", elements=[dict(type="marker", name="m")])).allocState({}))


class Boom(Exception):
    pass


# ------------------------------------------------------------------ hostile values
class RFloat:
    def __float__(self): raise Boom("float")


class SFloat:
    def __float__(self): return "x"


class OFloat:
    def __init__(self, v): self.v = v
    def __float__(self): return self.v


class RIndex:
    def __index__(self): raise Boom("index")
    __int__ = __index__


class OIndex:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v


class RBool:
    def __bool__(self): raise Boom("bool")


class RLen:
    def __len__(self): raise Boom("len")
    def __getitem__(self, i): return {}


class RItem:
    def __len__(self): return 3
    def __getitem__(self, i):
        if i == 1:
            raise Boom("item")
        return dict(type="marker", name="m%d" % i)


class Shrinks:
    def __init__(self): self.n = 5
    def __len__(self): return 5
    def __getitem__(self, i):
        self.n -= 2
        if i >= self.n:
            raise IndexError("gone")
        return dict(type="marker", name="m")


class NegLen:
    def __len__(self): return -1
    def __getitem__(self, i): return {}


class RIter:
    def __iter__(self): raise Boom("iter")


class RAttr:
    def __getattr__(self, n): raise Boom(n)


class StrSub(str):
    def __hash__(self): return str.__hash__(self)
    def __eq__(self, o): return str.__eq__(self, o)


class RStr(str):
    def __hash__(self): raise Boom("hash")


class DictSub(dict):
    def items(self): raise Boom("items")


class DictSub2(dict):
    def items(self): return [1, 2]


class DictSub3(dict):
    def items(self): return ()


class ListSub(list):
    def __iter__(self): raise Boom("iter")


class Reader:
    def __init__(self, v, name=None):
        self.v = v
        if name is not None:
            self.name = name

    def read(self, *a):
        if isinstance(self.v, Exception):
            raise self.v
        return self.v


class NoRead:
    read = 3


class Meta:
    """looks like everything"""
    def __float__(self): return 1.5
    def __index__(self): return 1
    def __len__(self): return 2
    def __getitem__(self, i): return {}
    def __iter__(self): return iter((1, 2))
    def __bool__(self): return True


class Mutates:
    """clears the container it sits in when looked at"""
    def __init__(self, c): self.c = c
    def __float__(self):
        self.c.clear()
        return 1.0


def gen_raises(n):
    for i in range(n):
        yield i
    raise Boom("generator")


def deep(n):
    d = dict(type="marker", name="x")
    for _ in range(n):
        d = dict(elements=[d], name="n", type="marker")
    return d


def rec_list():
    L = []
    L.append(("elements", [L]))
    return L


def rec_dict():
    d = {}
    d["elements"] = [d]
    return d


LAT = 'sim_type = "Vector";\nd: drift, L = 0.5;\nq: quadrupole, L = 0.1, K = 1.5;\ncell: LINE = (d, q, d);\nUSE: cell;\n'


def scalars(rng):
    k = int(rng.integers(0, 36))
    return [None, True, False, 0, 1, -1, 2, 3.0, -2.5, float("nan"), float("inf"), 1e308, 2 ** 31, -2 ** 31 - 1, 2 ** 63, 2 ** 64, -2 ** 64, 10 ** 400, 1 + 2j,
            "", "x", "d", "drift", "a\x00b", "\ud800", "é" * 40, b"", b"x", b"\xff\x00", np.float32(1.5), np.int64(1), np.uint8(2), np.bool_(True), np.str_("d"), Ellipsis, NotImplemented][k]


def objects(rng):
    k = int(rng.integers(0, 36))
    return [lambda: RFloat(), lambda: SFloat(), lambda: OFloat(2.0), lambda: OFloat(float("nan")), lambda: RIndex(), lambda: OIndex(1), lambda: OIndex(-1), lambda: OIndex(2 ** 70),
            lambda: RBool(), lambda: RLen(), lambda: RItem(), lambda: Shrinks(), lambda: NegLen(), lambda: RIter(), lambda: RAttr(), lambda: StrSub("L"), lambda: DictSub(L=1.0),
            lambda: DictSub2(L=1.0), lambda: DictSub3(L=1.0), lambda: ListSub([("a", 1.0)]), lambda: NoRead(), lambda: Meta(), lambda: gen_raises(2), lambda: iter([1]), lambda: range(3),
            lambda: object(), lambda: int, lambda: len, lambda: Machine, lambda: flame, lambda: rec_list(), lambda: rec_dict(), lambda: deep(6), lambda: {1: 2}, lambda: {"L": {}}, lambda: set("ab")][k]()


def arrays(rng):
    k = int(rng.integers(0, 26))
    a = rng.normal(size=7)
    return [lambda: a, lambda: a[::2], lambda: a[::-1], lambda: np.array(1.5), lambda: np.zeros(0), lambda: np.zeros((0, 7)), lambda: np.eye(7), lambda: np.eye(6), lambda: np.eye(7).T[::-1],
            lambda: np.zeros((2, 2, 2)), lambda: np.zeros((7, 7, 1)), lambda: a.astype(">f8"), lambda: a.astype("f4"), lambda: np.arange(7), lambda: np.arange(7, dtype="u1"), lambda: a + 1j,
            lambda: np.array(["a", "b"]), lambda: np.array([None, 1.0], dtype=object), lambda: np.zeros(3, dtype=[("a", "f8"), ("b", "i4")]), lambda: np.zeros(2, dtype="M8[s]"),
            lambda: np.ma.array([1.0, 2.0], mask=[0, 1]), lambda: np.asfortranarray(np.eye(7)), lambda: np.frombuffer(bytes(57)[1:], dtype="f8"), lambda: np.broadcast_to(np.array(2.0), (7,)),
            lambda: memoryview(a), lambda: array.array("d", [1, 2])][k]()


def texts(rng):
    k = int(rng.integers(0, 20))
    return [lambda: LAT, lambda: LAT.encode(), lambda: bytearray(LAT.encode()), lambda: memoryview(LAT.encode()), lambda: memoryview(LAT.encode())[::2], lambda: LAT[:-20], lambda: LAT + "\x00",
            lambda: LAT + "é", lambda: io.BytesIO(LAT.encode()), lambda: io.StringIO(LAT), lambda: Reader(LAT.encode()), lambda: Reader(LAT), lambda: Reader(3), lambda: Reader(None),
            lambda: Reader(Boom("read")), lambda: Reader(LAT.encode(), name=3), lambda: Reader(LAT.encode(), name="/nowhere/x.lat"), lambda: Reader(LAT.encode(), name="\ud800/x"),
            lambda: Reader(memoryview(LAT.encode())), lambda: Reader(np.frombuffer(LAT.encode(), dtype="u1"))][k]()


def confs(rng, vals):
    k = int(rng.integers(0, 12))
    es = [dict(type="drift", name="d", L=0.5), dict(type="marker", name="m")]
    if k < 5:
        return [{}, None, dict(sim_type="Vector", elements=es), dict(sim_type="TransferMatrix", elements=es), dict(sim_type="MomentMatrix", elements=es, IonEk=5e5, IonEs=9e8, IonW=9e8)][k]
    d = dict(sim_type="Vector", elements=es)
    t = d if rng.random() < 0.5 else es[int(rng.integers(0, 2))]
    key = ["elements", "sim_type", "L", "name", "type", "x", "initial", "a\x00b", "\ud800", 3, None, ("t",)][int(rng.integers(0, 12))]
    t[key] = vals(rng)
    if k == 5:
        return list(d.items())
    if k == 6:
        return OrderedDict(d)
    if k == 7:
        L = list(d.items())
        L.insert(int(rng.integers(0, 3)), vals(rng))
        return L
    if k == 8:
        d["z"] = Mutates(d)
    return d


def anything(rng):
    r = rng.random()
    if r < 0.35:
        return scalars(rng)
    if r < 0.6:
        return objects(rng)
    if r < 0.75:
        return arrays(rng)
    if r < 0.85:
        return texts(rng)
    if r < 0.95:
        return confs(rng, lambda g: scalars(g) if g.random() < 0.5 else objects(g))
    return [anything(rng) for _ in range(int(rng.integers(0, 3)))]


# ------------------------------------------------------------------ a sequence of calls
ATTRS = ("state", "next_elem", "pos", "moment0", "moment1", "ref_IonZ", "IonEk", "transmat", "moment0_env", "nosuch", "__dict__", "__class__", "clone", "\ud800", "")
KW = dict(conf=("index",), allocState=("config", "inherit"), propagate=("state", "start", "max", "observe"), reconfigure=("index", "config", "replace"), find=("name", "type"), show=("level",))


def machines(rng):
    k = int(rng.integers(0, 5))
    if k == 0:
        return Machine(dict(sim_type="Vector", elements=gen.cleanl(fl.lin_lattice(rng, 3))))
    if k == 1:
        return Machine(dict(sim_type="TransferMatrix", elements=gen.cleanl(fl.lin_lattice(rng, 3))))
    if k == 2:
        return Machine(LAT.encode())
    return walk.case(rng, n=(1, 4), cav=0.2)[3]


def a_call(rng, Ms, Ss):
    """(label, function, objects whose references are counted, the state or machine that a refused call must leave alone)"""
    M = Ms[int(rng.integers(0, len(Ms)))]
    S = Ss[int(rng.integers(0, len(Ss)))]
    r = rng.random()
    if r < 0.6:
        name = str(rng.choice(["conf", "allocState", "propagate", "propagate", "reconfigure", "reconfigure", "find", "str", "len"]))
        if name == "str":
            return "Machine.str", lambda: (str(M), repr(M)), [], None
        if name == "len":
            return "Machine.len", lambda: len(M), [], None
        good = dict(conf=lambda: [int(rng.integers(0, 4))], allocState=lambda: [confs(rng, anything), bool(rng.random() < 0.5)],
                    propagate=lambda: [S, int(rng.integers(0, 4)), int(rng.integers(-2, 4)), [int(x) for x in rng.integers(0, 3, size=2)]],
                    reconfigure=lambda: [int(rng.integers(0, 4)), {"L": float(rng.uniform(0.1, 1))} if rng.random() < 0.5 else {str(rng.choice(["L", "name", "K", "x"])): anything(rng)}, False],
                    find=lambda: ["d", None])[name]()
        n = int(rng.integers(0, len(good) + 1))
        args = good[:n]
        for j in range(n):
            if rng.random() < 0.35:
                args[j] = anything(rng)
        if rng.random() < 0.1:
            args.append(anything(rng))
        kw = {}
        for k in KW[name][n:]:
            if rng.random() < 0.4:
                kw[k] = anything(rng)
        if rng.random() < 0.05:
            kw["bogus"] = 1
        return "Machine." + name, lambda: getattr(M, name)(*args, **kw), args + list(kw.values()), ("reconfigure" if name == "reconfigure" else None)
    if r < 0.8:
        names = list(S) if rng.random() < 0.7 else list(ATTRS)
        a = names[int(rng.integers(0, len(names)))]
        k = rng.random()
        if k < 0.15:
            return "State.get", lambda: getattr(S, a), [], None
        if k < 0.25:
            return "State.del", lambda: delattr(S, a), [], S
        if k < 0.35:
            args = [anything(rng)][:int(rng.integers(0, 2))]
            return "State.show", lambda: S.show(*args), args, S
        if k < 0.45:
            return "State.misc", lambda: (str(S), repr(S), len(S), list(iter(S)), State.clone(S), dir(S), hash(S), S == S), [], S
        if k < 0.5:
            return "State.strsub", lambda: (getattr(S, StrSub(a)), getattr(S, RStr(a), None)), [], S
        v = anything(rng) if rng.random() < 0.7 else getattr(S, a, 1.0)
        return "State.set:" + (a if a in list(S) else "other"), lambda: setattr(S, a, v), [v] if a in list(S) else [], S
    if r < 0.9:
        c = texts(rng) if rng.random() < 0.4 else confs(rng, anything) if rng.random() < 0.7 else anything(rng)
        kw = {}
        if rng.random() < 0.4:
            kw["path"] = [None, "/tmp", "", "a\x00b", 3, b"/tmp", "\ud800"][int(rng.integers(0, 7))]
        if rng.random() < 0.4:
            kw["extra"] = [None, {}, {"v": 1.0}, {"v": "s"}, {"d": 2.0}, {3: 1.0}, {"v": anything(rng)}, {"\ud800": 1.0}, {"v\x00w": 2.0}, anything(rng)][int(rng.integers(0, 10))]
        f = [lambda: Machine(c, **kw), lambda: _GLPSParse(c, **kw), lambda: GLPSParser().parse(c, **kw)][int(rng.integers(0, 3))]
        if isinstance(c, (Reader, io.BytesIO, io.StringIO)):
            return "parse:file", f, [], None
        return "parse", f, [c] + list(kw.values()), None
    if r < 0.95:
        c = confs(rng, anything) if rng.random() < 0.7 else anything(rng)
        return "GLPSPrinter", lambda: GLPSPrinter(c), [c], None
    k = int(rng.integers(0, 7))
    a = anything(rng)
    return [("Machine.new", lambda: [f() for f in (lambda: Machine.__new__(Machine),)][0].conf(), [], None),
            ("Machine.reinit", lambda: M.__init__(a), [a], None),
            ("State.new", lambda: State.__new__(State), [], None),
            ("State.call", lambda: State(a), [a], None),
            ("State.subclass", lambda: type("X", (State,), {})(), [], None),
            ("Machine.subclass", lambda: type("X", (Base,), {"__init__": lambda self: None})().find(), [], None),
            ("setLogLevel", lambda: flame.setLogLevel(a) if not isinstance(a, (int, np.integer)) and not hasattr(a, "__index__") else None, [a], None)][k]


def rc(o):
    return sys.getrefcount(o)


def snapshot(M):
    return repr(M.conf()), str(M)


def sequence(rng, mon):
    Ms = [machines(rng) for _ in range(2)]
    Ss = []
    for M in Ms:
        Ss += [M.allocState({}), M.allocState()]
    for _ in range(int(rng.integers(4, 12))):
        lab, f, objs, who = a_call(rng, Ms, Ss)
        objs = [o for o in objs if type(o) not in (bool, type(None), type, type(Ellipsis), type(NotImplemented)) and not isinstance(o, (int, str, type, State)) and o is not flame and not (isinstance(o, dict) and any(type(x) is Mutates for x in o.values()))]
        before = fl.full(who) if isinstance(who, State) else None
        msnap = [snapshot(M) for M in Ms] if who == "reconfigure" else None
        r0 = [rc(o) for o in objs]
        res = exc = None
        try:
            res = f()
        except Exception as e:
            exc = (type(e).__name__, str(e)[:200])
            e.__traceback__ = None
        del_ok = res is None or exc
        mon.count("calls")
        mon.count("call:" + lab.split(":")[0])
        mon.distinct(lab, tuple(type(o).__name__ for o in objs), exc[0] if exc else "ok")
        if exc:
            mon.count("exceptions")
            mon.check(exc[0] not in ("SystemError", "MemoryError"), "bad-exception:%s:%s" % (lab, exc[0]), lambda: "%s %r" % (exc, objs))
            if before is not None:
                mon.check(not fl.same(before, fl.full(who)), "refused-but-changed:" + lab, lambda: "%s %r: %s" % (exc, objs, fl.same(before, fl.full(who))))
                mon.count("refused-unchanged")
            if msnap:
                mon.check(msnap == [snapshot(M) for M in Ms], "refused-but-reconfigured", lambda: "%s %r" % (exc, objs))
                mon.count("refused-unchanged")
        keep = res
        res = None
        if lab in ("Machine.allocState",) and isinstance(keep, State) and len(Ss) < 12:
            Ss.append(keep)
        elif lab == "State.misc" and keep is not None and len(Ss) < 12:
            Ss.append(keep[4])
        keep = None
        r1 = [rc(o) for o in objs]
        if r0 != r1:
            gc.collect()
            r1 = [rc(o) for o in objs]
        mon.check(r0 == r1, "refcount:" + lab, lambda: "%s -> %s of %r (%s)" % (r0, r1, objs, exc))
        mon.count("refcounts", len(objs))
        # every object still works
    for M in Ms:
        n = len(M)
        mon.check(len(M.conf()["elements"]) == n and M.find() == list(range(n)) or sorted(M.find()) == list(range(n)), "machine-unusable", lambda: repr(M.find()))
        for i in range(n):
            M.conf(i)
    for S in Ss:
        c = State.clone(S)
        a, b = fl.full(S), fl.full(c)
        a["next_elem"] = b["next_elem"]
        mon.check(not fl.same(a, b), "clone-differs", lambda: fl.same(a, b))
    del Ms, Ss, S, M, c
    gc.collect()


# ------------------------------------------------------------------ values cross unchanged
NAMES = ["a", "L1", "x_y", "K", "Z9", "value", "B2x"]


def rvalue(rng):
    """(value given, value expected back)"""
    k = int(rng.integers(0, 16))
    f = float(gen_float(rng))
    if k < 4:
        return f, f
    if k == 4:
        v = int(rng.integers(-2 ** 62, 2 ** 62))
        return v, float(v)
    if k == 5:
        v = bool(rng.random() < 0.5)
        return v, float(v)
    if k == 6:
        v = np.float32(rng.normal())
        return v, float(v)
    if k == 7:
        v = np.int16(rng.integers(-30000, 30000))
        return v, float(v)
    if k == 8:
        return OFloat(f), f
    if k < 12:
        s = "".join(chr(int(c)) for c in rng.choice([9, 10, 32, 34, 39, 47, 65, 92, 97, 0, 233, 0x20ac, 0x1f600, 127], size=int(rng.integers(0, 12))))
        return (StrSub(s) if rng.random() < 0.3 else s), s
    a = np.array([gen_float(rng) for _ in range(int(rng.integers(0, 12)))], dtype=float)
    how = int(rng.integers(0, 7))
    if how == 0:
        return a, a
    if how == 1:
        b = np.repeat(a, 2)[::2]
        return b, a
    if how == 2:
        return a[::-1], a[::-1].copy()
    if how == 3:
        i = rng.integers(-100, 100, size=6)
        i = i.astype(str(rng.choice(["i1", "i4", "i8", "u2" if (i >= 0).all() else "i2"])))
        return i, i.astype(float)
    if how == 4:
        m = rng.normal(size=(3, 4))
        return (np.asfortranarray(m) if rng.random() < 0.5 else m.T.copy().T), m.ravel()
    if how == 5:
        b = a.astype(">f8")
        return b, a
    b = a.copy()
    b.flags.writeable = False
    return b, a


def gen_float(rng):
    k = int(rng.integers(0, 10))
    if k == 0:
        return [0.0, -0.0, float("inf"), -float("inf"), float("nan"), 5e-324, sys.float_info.max, sys.float_info.min][int(rng.integers(0, 8))]
    if k == 1:
        return np.ldexp(rng.random(), int(rng.integers(-1000, 1000)))
    return rng.normal() * 10.0 ** int(rng.integers(-6, 6))


def eq(a, b):
    if isinstance(b, np.ndarray):
        return type(a) is np.ndarray and a.dtype == np.float64 and a.shape == b.shape and a.tobytes() == b.tobytes() or (type(a) is np.ndarray and np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a), np.signbit(b)))
    if isinstance(b, float):
        return type(a) is float and (a == b and np.signbit(a) == np.signbit(b) or a != a and b != b)
    return type(a) is type(b) and a == b


def values(rng, mon):
    top = {}
    want = {}
    for n in rng.permutation(NAMES)[:int(rng.integers(1, 6))]:
        top[str(n)], want[str(n)] = rvalue(rng)
    es, wes = [], []
    for j in range(int(rng.integers(1, 5))):
        e, w = dict(type="marker", name="e%d" % j), dict(type="marker", name="e%d" % j)
        for n in rng.permutation(NAMES)[:int(rng.integers(0, 4))]:
            e[str(n)], w[str(n)] = rvalue(rng)
        es.append(e)
        wes.append(w)
    sim = str(rng.choice(["Vector", "TransferMatrix"]))
    items = [("sim_type", sim), ("elements", [list(e.items()) if rng.random() < 0.3 else e for e in es])] + list(top.items())
    items = [items[i] for i in rng.permutation(len(items))]
    arg = items if rng.random() < 0.5 else OrderedDict(items)
    M = Machine(arg)
    keep = None
    got = M.conf()
    for k, v in want.items():
        mon.check(eq(got[k], v), "value:" + type(v).__name__, lambda: "%s: gave %r, got %r" % (k, top[k], got[k]))
        mon.count("values")
    mon.check(got["sim_type"] == sim and len(got["elements"]) == len(es), "value:elements", lambda: repr(got))
    for j, w in enumerate(wes):
        for src, g in (("conf()", got["elements"][j]), ("conf(i)", M.conf(j))):
            for k, v in w.items():
                mon.check(eq(g[k], v), "elem-value:" + type(v).__name__, lambda: "%s %s: gave %r, got %r" % (src, k, es[j][k], g[k]))
                mon.count("values")
        g = M.conf(j)
        for k, v in want.items():
            if k not in w:
                mon.check(eq(g[k], v), "inherited-value", lambda: "%s: %r, got %r" % (k, v, g.get(k)))
    # changing what was given or returned changes nothing
    for k, v in list(top.items()):
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind == "f":
            v[...] = 77.0
        if isinstance(got[k], np.ndarray) and got[k].size:
            got[k][...] = -5.0
    again = M.conf()
    for k, v in want.items():
        if top[k] is not v:
            mon.check(eq(again[k], v), "shared-value", lambda: "%s: %r, now %r" % (k, v, again[k]))
    # reconfigure
    j = int(rng.integers(0, len(es)))
    n = NAMES[int(rng.integers(0, len(NAMES)))]
    v, w = rvalue(rng)
    M.reconfigure(j, {n: v})
    g = M.conf(j)
    mon.check(eq(g[n], w), "reconfigured-value", lambda: "%s: gave %r, got %r" % (n, v, g[n]))
    arr = [a for a in g.values() if isinstance(a, np.ndarray)]
    copies = [a.copy() for a in arr]
    del M, g, got, again
    gc.collect()
    junk = [np.full(max(1, a.size), 3.25) for a in arr]
    mon.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(arr, copies)), "array-of-dead-machine", "")
    # variables handed to the parser
    v, w = rvalue(rng)
    if isinstance(w, (float, str)) and not (isinstance(w, str) and '"' in w):
        o = fl.outcome(_GLPSParse, "y = v;\nm: marker, p = v;\nl: LINE = (m);\n", extra={"v": v})
        if mon.check(o[0] == "ok", "extra-refused", lambda: "%r: %s" % (v, o)):
            d = dict(o[1])
            mon.check(eq(d["y"], w) and eq(dict(d["elements"][0])["p"], w) and eq(d["v"], w), "extra-value", lambda: "%r: %r" % (v, d))
            mon.count("extra-values")
    del junk
    mon.distinct("values", sorted(type(v).__name__ for v in top.values()))


def attributes(rng, mon):
    """what is assigned to a state is what is read; what is read is the reader's own"""
    Ek, b, es, M, conf = walk.case(rng, n=(1, 4))
    if rng.random() < 0.3:
        sim = str(rng.choice(["Vector", "TransferMatrix"]))
        M = Machine(dict(sim_type=sim, elements=gen.cleanl(fl.lin_lattice(rng, 3)), initial=fl.lin_initial(rng, sim)))
    S = M.allocState({})
    names = list(S)
    for _ in range(4):
        a = names[int(rng.integers(0, len(names)))]
        cur = getattr(S, a)
        if isinstance(cur, (int, float)):
            if isinstance(cur, int):
                v = [int(rng.integers(0, 1000)), np.int64(5), 2 ** 63 - 1, True, float(rng.integers(0, 99))][int(rng.integers(0, 5))]
                w = int(v)
                if isinstance(v, np.int64):
                    continue
            else:
                v = [float(gen_float(rng)), int(rng.integers(-99, 99)), True, np.float64(rng.normal())][int(rng.integers(0, 4))]
                w = float(v)
            if a == "next_elem":
                w = int(v)
        else:
            shape = cur.shape
            k = int(rng.integers(0, 6))
            w = np.array([gen_float(rng) for _ in range(cur.size)], dtype=float).reshape(shape) if cur.dtype.kind == "f" else rng.integers(0, 9, size=shape).astype(cur.dtype)
            v = w.copy()
            if k == 1:
                v = np.asfortranarray(v)
            elif k == 2 and v.size:
                big = np.zeros([2 * s for s in shape], dtype=w.dtype)
                sl = tuple(slice(None, None, 2) for _ in shape)
                big[sl] = w
                v = big[sl]
            elif k == 3:
                v = v.tolist() if v.size else v
            elif k == 4:
                v = v.astype(v.dtype.newbyteorder(">"))
            elif k == 5 and w.dtype.kind == "f":
                w = np.round(w.clip(-1e6, 1e6))
                w[~np.isfinite(w)] = 0.0
                w = w + 0.0
                v = w.astype("i8")
        before = fl.full(S)
        if isinstance(cur, int):
            x = [-1, 2 ** 64, 1e30, float("nan"), -1.0, -2 ** 63, 10 ** 30, float("-inf")][int(rng.integers(0, 8))]
            o = fl.outcome(setattr, S, a, x)
            mon.check(o[0] == "err", "impossible-index:" + a, lambda: "%r became %r" % (x, getattr(S, a)))
            mon.check(not fl.same(before, fl.full(S)), "refused-write-changed:" + a, lambda: repr(x))
            mon.count("impossible-indices")
        o = fl.outcome(setattr, S, a, v)
        after = fl.full(S)
        if o[0] == "err":
            mon.violate("refused-write:" + a, "%r: %s" % (v, o))
            continue
        got = after[a]
        want = np.array(w, dtype=got.dtype)
        mon.check(got.shape == want.shape and np.array_equal(got, want, equal_nan=got.dtype.kind == "f"), "written-differs:" + a, lambda: "wrote %r read %r" % (v, got))
        before.pop(a), after.pop(a)
        d = fl.same(before, after)
        mon.check(not d, "other-attribute-changed:" + a, lambda: "%s" % d)
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v[...] = 3
        r = getattr(S, a)
        if isinstance(r, np.ndarray) and r.size:
            mon.check(np.array_equal(r, want, equal_nan=r.dtype.kind == "f"), "aliases-argument:" + a, lambda: repr(r))
            r[...] = 7
            q = getattr(S, a)
            mon.check(np.array_equal(q, want, equal_nan=q.dtype.kind == "f"), "returned-array-aliases:" + a, lambda: repr(q))
            mon.count("arrays")
        mon.count("attribute-writes")
        mon.distinct("attr", a, type(v).__name__, np.shape(v))


# ------------------------------------------------------------------ lifetimes
def lifetimes(rng, mon):
    Ek, b, es, M, conf = walk.case(rng, n=(2, 5))
    N = len(M)
    S = M.allocState({})
    o = fl.outcome(M.propagate, S, observe=range(N))
    live = {"M": M, "S": S, "C": S.clone(), "it": iter(S), "conf": M.conf(), "elem": M.conf(0), "find": M.find(), "meth": M.find, "smeth": S.clone, "pos": S.moment0_env, "it2": iter(S.clone())}
    if o[0] == "ok":
        for j, (i, s) in enumerate(o[1]):
            live["o%d" % j] = s
    dead = []
    S.me = S
    S.mach = M
    live["C"].other = S
    wr = [weakref.ref(S, lambda r: dead.append("S")), weakref.ref(M, lambda r: dead.append("M")), weakref.ref(live["C"], lambda r: dead.append("C"))]
    want = {k: fl.full(v) for k, v in live.items() if isinstance(v, State)}
    wantpos = live["pos"].copy()
    wc = repr(live["conf"]), repr(live["elem"])
    del M, S, o
    if "s" in locals():
        s = None
    names = list(live)
    for k in rng.permutation(len(names)):
        k = names[int(k)]
        v = live.pop(k)
        if rng.random() < 0.3:
            gc.collect()
        if k == "it" or k == "it2":
            mon.check(len(list(v)) > 0 if rng.random() < 0.7 else True, "dead-iterator", "")
        if k == "smeth":
            mon.check(isinstance(v(), State), "dead-method", "")
        if k == "meth":
            mon.check(sorted(v()) == list(range(N)), "dead-method", "")
        del v
        for k2, v2 in live.items():
            if isinstance(v2, State):
                d = fl.same(want[k2], fl.full(v2))
                mon.check(not d, "state-changed-by-deletion", lambda: "%s after %s: %s" % (k2, k, d))
                mon.count("survivors")
            elif k2 == "M":
                T = v2.allocState({})
                fl.outcome(v2.propagate, T)
                del T
            elif k2 == "pos":
                mon.check(np.array_equal(v2, wantpos, equal_nan=True), "array-changed-by-deletion", "")
        v2 = None
        if "conf" in live:
            mon.check(repr(live["conf"]) == wc[0], "conf-changed-by-deletion", "")
    live = None
    gc.collect()
    mon.check(sorted(dead) == ["C", "M", "S"] and all(w() is None for w in wr), "not-freed", lambda: "freed only %s" % dead)
    mon.count("lifetimes")
    mon.distinct("life", N, tuple(e["type"] for e in es))


# ------------------------------------------------------------------ logging
class Capture(logging.Handler):
    def __init__(self, boom):
        logging.Handler.__init__(self, 0)
        self.recs, self.boom = [], boom

    def emit(self, r):
        self.recs.append((r.name, r.levelno, r.getMessage()))
        if self.boom:
            raise Boom("log")


def logs(rng, mon):
    Ek, b, es, M, conf = walk.case(rng, n=(2, 5), cav=0.6)
    S0 = M.allocState({})
    o0 = fl.outcome(M.propagate, S0)
    lg = logging.getLogger(flame.getLoggerName())
    boom = rng.random() < 0.3
    h = Capture(boom)
    lvl = int(rng.choice([0, 10, 20, 30, 40, 50, 65535]))
    lg.addHandler(h)
    hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
    old = lg.level
    lg.setLevel(1)
    lg.propagate = False
    try:
        flame.setLogLevel(lvl)
        M2 = Machine(conf)
        S = M2.allocState({})
        o = fl.outcome(M2.propagate, S)
    finally:
        flame.setLogLevel(flame.FLAME_WARN)
        lg.removeHandler(h)
        lg.setLevel(old)
        lg.propagate = True
        sys.unraisablehook = hook
    mon.check(o[:2] == o0[:2] and not fl.same(fl.full(S0), fl.full(S)), "logging-changes-result", lambda: "%s %s" % (o0, o))
    for n, l, m in h.recs:
        mon.check(n == flame.getLoggerName() and l >= lvl, "log-record", lambda: "%r below %d" % ((n, l, m), lvl))
        mon.check(not m.endswith("\n"), "log-newline", lambda: repr(m))
        mon.check("caviFy" not in m or "EfieldScl=" in m and m.split("EfieldScl=")[1].strip() not in ("",), "log-text", lambda: repr(m))
        mon.count("log-records")
    mon.count("logged-runs")
    mon.distinct("log", lvl, boom, bool(h.recs), tuple(e["type"] for e in es))


# ------------------------------------------------------------------ a thousand times
def large(rng, mon):
    """more elements and charge states than Python keeps small integers for"""
    n = int(rng.integers(300, 700)) if rng.random() < 0.7 else int(rng.integers(1000, 3000))
    M = Machine(dict(sim_type=str(rng.choice(["MomentMatrix", "Vector"])), elements=[dict(name="m%d" % (k % 7), type="marker") for k in range(n)]))
    S = M.allocState({})
    k = int(rng.integers(257, n))
    calls = dict(findall=lambda: M.find(), findname=lambda: M.find(name="m3"), findtype=lambda: M.find(type="marker"), len=lambda: len(M),
                 conf=lambda: M.conf(k), confall=lambda: M.conf(), observe=lambda: M.propagate(S, observe=list(range(n - 3, n))), observeall=lambda: M.propagate(S, observe=range(n)), start=lambda: M.propagate(S, start=k, max=n),
                 elem=lambda: setattr(S, "next_elem", 10 ** 12 + k), get=lambda: S.next_elem, reconf=lambda: M.reconfigure(k, {"L": 1.5 + k}),
                 badfind=lambda: fl.outcome(M.find, name="m1", type="marker"), badstart=lambda: fl.outcome(M.propagate, S, start=n + 10 ** 6), badconf=lambda: fl.outcome(M.conf, n + 10 ** 6),
                 text=lambda: str(M), list=lambda: S.keys() if hasattr(S, "keys") else list(S), show=lambda: S.show())
    for lab in rng.permutation(sorted(calls))[:4]:
        f = calls[str(lab)]

        def g():
            try:
                f()
            except Exception as e:
                e.__traceback__ = None
        m = fl.grows(g, n=8, warm=3)
        mon.check(m == 0, "leak-large:" + lab, lambda: "%s: %.1f bytes per call with %d elements" % (lab, m, n))
        mon.count("heap-checks")
        mon.count("heap-large")
    dead = []
    wr = [weakref.ref(S, lambda r: dead.append("S")), weakref.ref(M, lambda r: dead.append("M"))]
    obs = M.propagate(S, observe=range(n))
    mon.check([k for k, s in obs] == list(range(n)), "observed-large", lambda: [k for k, s in obs][:9])
    wr += [weakref.ref(s, lambda r: dead.append("o")) for k, s in obs]
    s = obs = calls = f = g = M = S = None
    gc.collect()
    mon.check(len(dead) == n + 2 and all(w() is None for w in wr), "not-freed-large", lambda: "%d of %d" % (len(dead), n + 2))


def thousand(rng, mon):
    if rng.random() < 0.05:
        return large(rng, mon)
    Ms = [machines(rng)]
    Ss = [Ms[0].allocState({}), Ms[0].allocState()]
    lab, f, objs, who = a_call(rng, Ms, Ss)
    if lab == "State.set:other" or lab == "parse:file" or any(type(x).__name__ in ("Shrinks", "generator", "list_iterator", "Mutates") for x in objs):
        return

    def g():
        try:
            f()
        except Exception as e:
            e.__traceback__ = None
    n = fl.grows(g, n=8, warm=3)
    mon.check(n == 0, "leak:" + lab, lambda: "%s: %.1f bytes per call, %r" % (lab, n, objs))
    mon.count("heap-checks")
    mon.count("heap:" + lab.split(":")[0])


def run_case(i, rng, mon):
    r = rng.random()
    if r < 0.45:
        sequence(rng, mon)
    elif r < 0.6:
        values(rng, mon)
    elif r < 0.7:
        attributes(rng, mon)
    elif r < 0.78:
        lifetimes(rng, mon)
    elif r < 0.84:
        logs(rng, mon)
    else:
        thousand(rng, mon)
