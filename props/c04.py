"""C04: printing a configuration and parsing it back preserves it."""
import math
import numpy as np
import fl
import latgen as G
from c02 import parse, as_dict
from flame import GLPSPrinter, Machine, GLPSParser


def six(a, b):
    """equal to the six digits that are printed"""
    return a == b or "%.6g" % a == "%.6g" % b or math.isclose(a, b, rel_tol=5.1e-6)


def same(a, b):
    if isinstance(a, float):
        return isinstance(b, float) and six(a, b)
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and len(a) == len(b) and all(six(x, y) for x, y in zip(a, b))
    return False


def number(rng):
    r = rng.random()
    if r < 0.3:
        return float(rng.integers(-1000, 1000))
    if r < 0.4:
        return [0.0, -0.0, 1e-300, -1e300, 123456.0, 1234567.0, 999999.5, 1e5, 1e6, 100000.0, 5e-324, 1e-5, 0.0001][int(rng.integers(0, 13))]
    return float(rng.normal() * 10 ** rng.uniform(-20, 20))


def value(rng):
    r = rng.random()
    if r < 0.5:
        return number(rng)
    if r < 0.747:
        return G.string(rng)
    if r < 0.75:
        return "".join(G.string(rng) for _ in range(int(rng.integers(50, 3000))))
    if r < 0.754:
        return np.array([number(rng) for _ in range(int(rng.integers(100, 4900)))])
    return np.array([number(rng) for _ in range(int(rng.integers(0, 9)))])


def config(rng):
    used = set()
    big = rng.random() < 0.01
    var = [(G.ident(rng, used), value(rng)) for _ in range(int(rng.integers(0, 5)) if not big else int(rng.integers(20, 300)))]
    els = []
    for _ in range(int(rng.integers(1, 5)) if not big else int(rng.integers(20, 300))):
        e = [("name", G.ident(rng, used)), ("type", G.ident(rng, set()))]
        own = {"name", "type"}
        e += [(G.ident(rng, own), value(rng)) for _ in range(int(rng.integers(0, 4)))]
        if rng.random() < 0.3 and var:
            k = var[0][0]
            if k not in [x for x, y in e]:
                e.append((k, value(rng)))
        els.append(e)
    line = [els[int(rng.integers(0, len(els)))] for _ in range(int(rng.integers(1, 8)) if not big else int(rng.integers(200, 2000)))]
    return var, line, G.ident(rng, used)


def compare(mon, want, got, text, key):
    """want: (vars, elements, name); got: parsed list of pairs"""
    var, line, name = want
    d = as_dict(got)
    mon.check(d.get("name") == name, key + ":line-name", lambda: "%s %s\n%s" % (d.get("name"), name, text))
    v = dict(var)
    mon.check(set(d) == set(v) | {"name", "elements"}, key + ":variables", lambda: "%s\n%s" % (set(d) ^ set(v), text))
    for k in v:
        mon.check(k in d and same(v[k], d[k]), key + ":variable-value", lambda: "%s: %r printed and parsed as %r\n%s" % (k, v[k], d.get(k), text))
        mon.count("values")
    es = [as_dict(e) for e in d["elements"]]
    mon.check([e["name"] for e in es] == [dict(e)["name"] for e in line], key + ":order", lambda: text)
    for e, w in zip(es, line):
        w = dict(w)
        mon.check(set(e) == set(w) and all(same(w[k], e[k]) for k in w if k in e), key + ":element", lambda: "%s\nshould be %s\n%s" % (e, w, text))
        mon.count("elements")


def run_case(i, rng, mon):
    var, line, name = want = config(rng)
    conf = var + [("elements", [list(e) for e in line]), ("name", name)]
    if i % 2:
        # start from a dict
        inp = [list(map(lambda x: x, conf)), dict(conf), dict(var + [("name", name), ("elements", [dict(e) for e in line])])][int(rng.integers(0, 3))]
        o = fl.outcome(GLPSPrinter, inp)
        key = "dict"
    else:
        # start from a text with full precision
        def show(v):
            if isinstance(v, float):
                return ("-" if math.copysign(1, v) < 0 else "") + "%.17g" % abs(v) if abs(v) != 5e-324 else "0"
            if isinstance(v, str):
                return '"%s"' % v
            return "[" + ",".join(show(float(x)) for x in v) + "]"
        fix = lambda v: 0.0 if isinstance(v, float) and abs(v) == 5e-324 else np.array([0.0 if abs(x) == 5e-324 else x for x in v]) if isinstance(v, np.ndarray) else v
        var = [(k, fix(v)) for k, v in var]
        line = [[(k, fix(v)) for k, v in e] for e in line]
        want = var, line, name
        seen, tx = set(), "".join("%s = %s;\n" % (k, show(v)) for k, v in var)
        for e in line:
            d = dict(e)
            if d["name"] not in seen:
                seen.add(d["name"])
                tx += "%s: %s%s;\n" % (d["name"], d["type"], "".join(", %s = %s" % (k, show(v)) for k, v in e if k not in ("name", "type")))
        tx += "%s: LINE = (%s);\n" % (name, ", ".join(dict(e)["name"] for e in line))
        o = parse(tx)
        if not mon.check(o[0] == "ok", "text-rejected", lambda: "%s\n%s" % (o, tx)):
            return
        o = fl.outcome(GLPSPrinter, o[1])
        key = "text"
    if not mon.check(o[0] == "ok", key + ":print-failed", lambda: "%s\n%s" % (o, conf)):
        return
    text = o[1]
    p = parse(text)
    if not mon.check(p[0] == "ok", key + ":printed-text-rejected", lambda: "%s\n%s" % (p, text)):
        return
    compare(mon, want, p[1], text, key)
    again = GLPSPrinter(p[1])
    mon.check(again == text, key + ":not-a-fixed-point", lambda: "%s\n---\n%s" % (text, again))
    mon.count("round-trips")
    # str() of a machine / its conf() prints the same lattice
    if i % 5 == 0:
        c = dict(var)
        els = [dict(e, type="marker") for e in map(dict, line)]
        M = Machine(dict(c, sim_type="Vector", name=name, elements=els))
        t = fl.outcome(GLPSPrinter, M.conf())
        mon.check(t[0] == "ok", "machine:print-failed", lambda: t)
        q = parse(t[1])
        if mon.check(q[0] == "ok", "machine:printed-text-rejected", lambda: "%s\n%s" % (q, t[1])):
            compare(mon, (var + [("sim_type", "Vector")], [[(k, v) for k, v in e.items()] for e in els], name), q[1], t[1], "machine")
            mon.count("machines")
    mon.distinct(text)
    mon.sample(dict(text=text))
