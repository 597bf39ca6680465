"""C03: beamline expansion and element scoping are exact."""
import numpy as np
import fl
import latgen as G
from c02 import parse, as_dict
from flame import Machine

TYPES = ("marker", "drift", "foo", "bend", "x")


def expand(t, lines, els):
    """expected names of an entry of a line"""
    k = t[0]
    if k == "ref":
        return [t[1]] if t[1] in els else list(lines[t[1]])
    if k == "neg":
        return expand(t[1], lines, els)[::-1]
    return expand(t[2], lines, els) * t[1]


def ltoks(t, rng, top=True):
    k = t[0]
    if k == "ref":
        return [t[1]]
    if k == "neg":
        return ["-"] + par(t[1], rng)
    n = ["%d" % t[1], "%d.%d" % (t[1], rng.integers(0, 10)), "(%d+0)" % t[1], "%d*1" % t[1]][int(rng.integers(0, 4))]
    if rng.random() < 0.5:
        if n.endswith("*1"):
            n = "(" + n + ")"
        return [n, "*"] + par(t[2], rng, mul=True)
    return par(t[2], rng, mul=True) + ["*", "(" + n + ")" if "*" in n else n]


def par(t, rng, mul=False):
    p = ltoks(t, rng)
    if t[0] == "mul" or mul and t[0] == "neg" and rng.random() < 0.5 or rng.random() < 0.15:
        return ["("] + p + [")"]
    return p


def entry(rng, names, depth=2):
    r = rng.random()
    if depth == 0 or r < 0.55:
        return ("ref", names[int(rng.integers(0, len(names)))])
    if r < 0.75:
        return ("neg", entry(rng, names, depth - 1))
    return ("mul", int(rng.integers(0, 4)) if rng.random() < 0.97 else int(rng.choice([9, 10, 40, 255, 256, 257, 1000])), entry(rng, names, depth - 1))


def run_case(i, rng, mon):
    used = set()
    glob = {}
    els, lines, order, lorder = {}, {}, [], []
    stm = []
    machine = i % 3 == 0
    rich = rng.random() < 0.02          # many names, elements and properties
    pool = [G.ident(rng, used) for _ in range(4 if not rich else int(rng.integers(20, 150)))]            # names shared by variables and properties
    ng = int(rng.integers(0, 4)) if not rich else int(rng.integers(0, len(pool)))
    for n in pool[:ng]:
        t, ty, v, e = G.value(rng, {}, 2)
        stm.append([n, "="] + t + [";"])
        glob[n] = (ty, v, e)
    if machine:
        st = ["sim_type", "=", '"Vector"', ";"]
        stm.insert(int(rng.integers(0, len(stm) + 1)), st)
        glob["sim_type"] = ("s", "Vector", 0.0)
    ne = int(rng.integers(1, 5)) if not rich else int(rng.integers(5, 60))
    mon.count("rich", rich)
    for k in range(ne):
        n = G.ident(rng, used)
        ty = "marker" if machine else str(rng.choice(TYPES))
        pr = {}
        tk = [n, ":", ty]
        for p in [x for x in pool if rng.random() < 0.4] + ([G.ident(rng, set(pool))] if rng.random() < 0.4 else []):
            t, a, b, c = G.value(rng, {}, 2)
            tk += [",", p, "="] + t
            pr[p] = (a, b, c)
        if rng.random() < 0.05 and pr:
            p = sorted(pr)[0]
            if tk.count(p) == 1:
                tk += [",", p, "=", "99"]        # given twice: the first one counts
        stm.append(tk + [";"])
        els[n] = (ty, pr)
        order.append(n)
        # lines in between
        while rng.random() < 0.5:
            ln = G.ident(rng, used)
            avail = list(els) + list(lines)
            es = [entry(rng, avail) for _ in range(int(rng.integers(0, 5)))]
            lines[ln] = [x for t in es for x in expand(t, lines, els)]
            lorder.append(ln)
            tk = [ln, ":", ["LINE", "line", "LinE"][int(rng.integers(0, 3))], "=", "("]
            for q, t in enumerate(es):
                tk += ([","] if q else []) + ltoks(t, rng)
            stm.append(tk + [")", ";"])
            if len(lines[ln]) > (3000 if i % 100 else 70000):
                return
    # a line may not see variables that come later, but elements do
    late = [n for n in pool[ng:] if rng.random() < 0.5]
    for n in late:
        t, ty, v, e = G.value(rng, {}, 2)
        stm.append([n, "="] + t + [";"])
        glob[n] = (ty, v, e)
    use = None
    r = rng.random()
    if r < 0.5 and lorder:
        use = lorder[int(rng.integers(0, len(lorder)))]
        stm.insert(int(rng.integers(0, len(stm) + 1)), ["USE", ":", use, ";"])
    elif r < 0.6:
        # no beamline of that name
        use = str(rng.choice(list(els) + sorted(glob))) if rng.random() < 0.6 else G.ident(rng, used)
        stm.append(["USE", ":", use, ";"])
    dup = None
    if rng.random() < 0.1:
        dup = "element" if rng.random() < 0.5 or not lorder else "line"
        stm.append([order[0], ":", "marker", ";"] if dup == "element" else [lorder[0], ":", "LINE", "=", "(", order[0], ")", ";"])
    if rng.random() < 0.2:
        stm.append(["END", ";"])
    text = "\n".join(G.join(s, rng) for s in stm) + "\n"
    sel = use if use is not None else (lorder[-1] if lorder else None)
    bad = dup or sel is None or sel not in lines or not lines[sel]
    o = parse(text)
    if bad:
        why = "duplicate-" + dup if dup else "no-line" if sel is None else "undefined-use" if sel not in lines else "empty-line"
        mon.check(o[0] == "err", "accepted:" + why, lambda: text)
        mon.count("rejected")
        mon.count("rejected:" + why)
        if machine:
            mon.check(fl.outcome(Machine, text)[0] == "err", "machine-accepted:" + why, lambda: text)
        return
    if not mon.check(o[0] == "ok", "valid-text-rejected", lambda: "%s\n%s" % (o, text)):
        return
    d = as_dict(o[1])
    want = lines[sel]
    mon.check(d["name"] == sel, "line-name", lambda: "%s, should be %s\n%s" % (d["name"], sel, text))
    got = [as_dict(x) for x in d["elements"]]
    mon.check([g["name"] for g in got] == want, "expansion", lambda: "%s\nshould be %s\n%s" % ([g["name"] for g in got], want, text))
    mon.count("expansions")
    mon.count("expanded-elements", len(want))
    for g in got:
        if g["name"] not in els:
            continue
        ty, pr = els[g["name"]]
        mon.check(g["type"] == ty and set(g) == set(pr) | {"name", "type"} and all(G.same(g[p], *pr[p]) for p in pr if p in g), "element", lambda: "%s should be %s %s\n%s" % (g, ty, pr, text))
        mon.count("elements")
    mon.check(set(d) == set(glob) | {"name", "elements"} and all(G.same(d[n], *glob[n]) for n in glob if n in d), "variables", lambda: text)
    if machine:
        M = Machine(text if rng.random() < 0.5 else text.encode())
        mon.check(len(M) == len(want), "machine-size", lambda: "%d %d" % (len(M), len(want)))
        ks = range(len(want))
        if len(want) > 40:
            ks = sorted({0, 1, len(want) - 1} | {int(x) for x in rng.integers(0, len(want), 40)})
            mon.count("long-expansions")
        for k in ks:
            c = M.conf(k)
            ty, pr = els[want[k]]
            exp = dict(glob, **pr)
            mon.check(c["name"] == want[k] and c["type"] == ty and all(n in c and G.same(c[n], *exp[n]) for n in exp) and set(c) == set(exp) | {"name", "type"}, "scope",
                      lambda: "element %d: %s should be %s\n%s" % (k, dict(c), exp, text))
            mon.count("scopes")
            if any(p in glob for p in pr):
                mon.count("shadowed")
    mon.distinct(text)
    mon.sample(dict(text=text, expansion=want[:20]))
