"""C02: every expression has its arithmetic value, or the text is rejected."""
import math
import os
import re
import shutil
import numpy as np
import fl
import gen
import latgen as G
from flame import GLPSParser

NAMES = ["redefinition", "undefined", "division", "type", "function", "nofunction", "vector-type", "arity", "literal", "label", "later"]


def parse(text, **kw):
    return fl.outcome(GLPSParser().parse, text if kw.pop("s", True) else text.encode(), **kw)


def as_dict(L):
    d = {}
    for k, v in L:
        if k in d:
            raise ValueError("twice: " + k)
        d[k] = v
    return d


def bad(rng, env, used):
    """tokens of a statement that has no meaning, given env"""
    kind = NAMES[int(rng.integers(0, len(NAMES)))]
    t, ty, v, e = G.value(rng, env)
    while ty != "n":
        t, ty, v, e = G.value(rng, env)
    lhs = G.ident(rng, used)
    strs = [n for n, x in env.items() if x[0] == "s"]
    vecs = [n for n, x in env.items() if x[0] == "v"]
    if kind == "redefinition":
        if not env:
            return bad(rng, env, used)
        return kind, [sorted(env)[int(rng.integers(0, len(env)))], "=", "1", ";"]
    if kind in ("undefined", "later"):
        return kind, [lhs, "=", G.ident(rng, used), "+"] + t + [";"]
    if kind == "division":
        if rng.random() < 0.5:      # neither finite nor infinite
            zs = [n for n, x in env.items() if x[0] == "n" and x[1] == 0]
            q = [["0", "/", "0"], ["(", "1", "-", "1", ")", "/", "(", "2", "-", "2", ")"], ["-", "0", "/", "0"], ["sin", "(", "0", ")", "/", "0"], ["1", "+", "0", "/", "(", "0", "*", "3", ")"],
                 [zs[0], "/", zs[0]] if zs else ["0.0", "/", "0e5"], ["[", "1", ",", "0", "/", "0", "]"], ["cos", "(", "0", "/", "0", ")"]][int(rng.integers(0, 8))]
            return kind, [lhs, "="] + q + [";"]
        z = [["0"], ["(", "1", "-", "1", ")"], ["0", "*", "5"], ["1e300", "/", "1e300", "/", "1e300", "/", "1e300"], ["1e-300"]][int(rng.integers(0, 5))]
        if z == ["1e-300"]:
            return kind, [lhs, "=", "1e300", "/"] + z + [";"]
        return kind, [lhs, "=", "3", "/"] + (["(", "0", ")"] if z[0] != "(" else z) + [";"]
    if kind == "type":
        o = ['"x"'] if not strs or rng.random() < 0.5 else [strs[0]]
        if vecs and rng.random() < 0.4:
            o = [vecs[0]]
        op = "+-*/"[int(rng.integers(0, 4))]
        r = rng.random()
        tt = ["("] + t + [")"]
        return kind, [lhs, "="] + (o + [op] + tt if r < 0.4 else tt + [op] + o if r < 0.8 else ["-"] + o) + [";"]
    if kind == "function":
        f = str(rng.choice(sorted(G.FN)))
        return kind, [lhs, "=", f, "(", ['"a"', "[", vecs[0] if vecs else '"b"'][0], ")", ";"]
    if kind == "nofunction":
        f = ["sinh", "Sin", "sqrt", "exp", "abs", "x", "pi"][int(rng.integers(0, 7))]
        return kind, [lhs, "=", f, "("] + t + [")", ";"]
    if kind == "vector-type":
        o = ['"x"', "[]"][int(rng.integers(0, 2))]
        return kind, [lhs, "=", "["] + t + [","] + ([o] if o != "[]" else ["[", "]"]) + ["]", ";"]
    if kind == "arity":
        o = [["("], [")"], ["1", "2"], ["+", "1"], ["*"], ["1", "+"], ["-"], ["[", "1"], ["1", ","], ["sin", "(", ")"], ["=", "1"], []][int(rng.integers(0, 12))]
        return kind, [lhs, "="] + o + [";"]
    if kind == "literal":
        return kind, [lhs, "=", ["1e999", "1e-999", "9" * 400, "0x10", ".5", "1e", "1.2.3", "5_", "$"][int(rng.integers(0, 9))], ";"]
    if kind == "label":
        return kind, [lhs, "=", "EL0", ";"]
    raise KeyError(kind)


def chain(rng, mon):
    """files which parse() each other, some levels deep, each relative to itself"""
    where = os.path.realpath(gen.scratch(".c"))
    n = int(rng.integers(2, 40 if rng.random() < 0.3 else 9))
    d, rel = where, []
    for k in range(n):
        os.makedirs(d, exist_ok=True)
        rel.append(os.path.join(d, "f%d.lat" % k))
        d = os.path.join(d, "s") if rng.random() < 0.3 else os.path.dirname(d) if d != where and rng.random() < 0.4 else d
    for k in range(n):
        nxt = 'N = parse("%s"); ' % os.path.relpath(rel[k + 1], os.path.dirname(rel[k])) if k + 1 < n else ""
        with open(rel[k], "w") as f:
            f.write('K = %d; H = dir("."); %sA: marker, q = K + 0.5; L: LINE = (%d*A);\n' % (k, nxt, k + 1))
    o = parse('N = parse("%s"); A: marker; L: LINE = (A);' % os.path.relpath(rel[0], where), path=where)
    if mon.check(o[0] == "ok", "chain-rejected", lambda: "%d levels: %s" % (n, o)):
        c = dict(o[1])
        for k in range(n):
            c = dict(c["N"][0]) if "N" in c else {}
            mon.check(c.get("K") == k and c.get("H") == os.path.dirname(rel[k]) and len(c.get("elements", ())) == k + 1 and all(dict(e)["q"] == k + 0.5 for e in c["elements"]),
                      "chain", lambda: "level %d of %d: %s" % (k, n, c))
        mon.count("chains")
    mon.distinct("chain", n)
    shutil.rmtree(where)


def paths(rng, mon):
    """file(), dir(), h5file() and parse(): names are relative to the text's own directory, results are absolute and exist"""
    where = os.path.realpath(gen.scratch(".d"))
    cmp_ = ["a", "b.h5", "c d", "e.x.y", "f-1", "h5"]
    if rng.random() < 0.15:
        cmp_ = cmp_ + ["n" * int(k) for k in rng.integers(60, 200, 6)]
    cur, dirs = where, [""]
    for _ in range(int(rng.integers(1, 4))):
        n = cmp_[int(rng.integers(0, len(cmp_)))]
        cur = os.path.join(cur, n)
        dirs.append(os.path.relpath(cur, where))
    os.makedirs(cur)
    leaf = dirs[-1] + "/" + ["x.dat", "q", "y.h5"][int(rng.integers(0, 3))]
    open(os.path.join(where, leaf), "w").close()
    at = dirs[int(rng.integers(0, len(dirs)))]          # the directory the text is read in
    cwd = os.path.join(where, at) if at else where
    target = leaf if rng.random() < 0.7 else dirs[int(rng.integers(0, len(dirs)))]
    real = os.path.normpath(os.path.join(where, target))
    missing = rng.random() < 0.25
    r = rng.random()
    sp = real if r < 0.3 else os.path.relpath(real, cwd)
    if r > 0.8 and sp[0] != "/":
        sp = "./" + sp
    elif r > 0.7 and sp[0] != "/" and at:
        sp = "../" + os.path.basename(at) + "/" + sp
    fn = ["file", "dir", "h5file", "parse"][int(rng.choice(4, p=[0.2, 0.2, 0.5, 0.1]))]
    grp = ""
    if fn == "h5file":
        grp = "".join("/" + str(g) for g in rng.choice(["g", "run 1", "h5", "a.b", "group"], int(rng.integers(0, 4))))
    if missing:         # h5file takes what does not exist for the name of a group, as far as there is a separator left
        if fn == "h5file":
            sp, grp = "nowhere" + str(int(rng.integers(0, 9))), grp
        else:
            sp += "-gone"
    elif fn == "parse":
        if os.path.isdir(real):
            fn = "dir"
        else:
            with open(real, "w") as f:
                f.write('Q = file("%s"); M: marker; L: LINE = (M);' % ["../" + os.path.basename(os.path.dirname(real)), "."][int(rng.integers(0, 2))])
    if grp and any(os.path.exists(os.path.normpath(os.path.join(cwd, sp) + grp[:k])) for k in range(2, len(grp) + 1) if k == len(grp) or grp[k] == "/"):
        shutil.rmtree(where)
        return
    text = 'V = %s("%s%s");\nM: marker;\nL: LINE = (M);\n' % (fn, sp, grp)
    how = rng.random()
    if how < 0.4:
        o = parse(text, path=cwd)
    elif how < 0.7:     # path relative to the process: the same
        o = parse(text, path=os.path.relpath(cwd))
    else:
        with open(cwd + "/main.lat", "w") as f:
            f.write(text)
        o = parse('R = parse("%s/main.lat"); M: marker; L: LINE = (M);' % cwd, path=where)
        if o[0] == "ok":
            o = ("ok", dict(o[1])["R"][0])
        mon.count("paths:nested")
    if missing:
        mon.check(o[0] == "err", "path-missing", lambda: "%s\n%s" % (o, text))
        mon.count("paths:missing")
    elif mon.check(o[0] == "ok", "path-rejected", lambda: "%s in %s\n%s" % (o, cwd, text)):
        v = dict(o[1])["V"]
        if fn == "parse":
            mon.check(dict(v[0])["Q"] == os.path.dirname(real), "path-nested", lambda: "%s in %s\n%s" % (v, cwd, text))
        else:
            mon.check(v == real + grp, "path-value:" + fn, lambda: "%r, should be %r\nin %s\n%s" % (v, real + grp, cwd, text))
        mon.count("paths:" + fn)
    mon.distinct("path", fn, len(dirs), at.count("/"), grp, missing, sp[:2])
    shutil.rmtree(where)


def run_case(i, rng, mon):
    if i % 160 == 86:
        return chain(rng, mon)
    if i % 16 == 6:
        paths(rng, mon)
        return
    env, used, lines, extra = {}, set(), [], {}
    for _ in range(int(rng.integers(0, 3))):
        n = G.ident(rng, used)
        if rng.random() < 0.7:
            v = float(rng.normal() * 10 ** rng.uniform(-5, 5))
            extra[n] = v if rng.random() < 0.7 else int(v)
            env[n] = ("n", float(extra[n]), 0.0)
        else:
            extra[n] = G.string(rng)
            env[n] = ("s", extra[n], 0.0)
    onepl = i % 2 == 1
    stm = []
    props = {}
    for k in range(int(rng.integers(1, 7))):
        n = G.ident(rng, used) if rng.random() < 0.95 or "pi" in env else "pi"
        t, ty, v, e = G.value(rng, env, 4)
        stm.append([n, "="] + t + [";"])
        env[n] = (ty, v, e)
    pk = {}
    pt = []
    for k in range(int(rng.integers(0, 4))):
        n = G.ident(rng, set(pk))
        t, ty, v, e = G.value(rng, env, 3)
        pt += [",", n, "="] + t
        pk[n] = (ty, v, e)
    stm.append(["EL0", ":", "marker"] + pt + [";"])
    stm.append(["cell", ":", ["LINE", "line", "Line"][int(rng.integers(0, 3))], "=", "(", "EL0", ")", ";"])
    if onepl:
        kind, b = bad(rng, env if "pi" in env or True else env, used)
        if kind == "nofunction" and False:
            return
        at = int(rng.integers(0, len(stm) + 1))
        if kind == "label" and at <= len(stm) - 2:
            at = len(stm)
        if kind in ("redefinition", "type", "function", "undefined", "vector-type"):
            at = len(stm) if rng.random() < 0.5 else len(stm) - 2       # after all variables are defined
        elif kind not in ("label",):
            at = len(stm)
        body, line = [], None
        ln = 1
        for k, s in enumerate(stm[:at] + [b] + stm[at:]):
            x = rng.random()
            while x < 0.2:
                body.append(["", "# comment ; = \" \n".strip(), "   "][int(rng.integers(0, 3))])
                ln += 1
                x = rng.random()
            if k == at:
                line = ln
            body.append(G.join(s, rng, nl=False))
            ln += 1
        if rng.random() < 0.3:      # a later mistake does not hide it
            for _ in range(int(rng.integers(1, 4))):
                k2, b2 = bad(rng, env, used)
                body.append(G.join(b2, rng, nl=False))
            mon.count("several-mistakes")
        text = "\n".join(body) + "\n"
        o = parse(text, extra=extra, s=rng.random() < 0.5)
        mon.check(o[0] == "err", "accepted:" + kind, lambda: text)
        if o[0] == "err":
            m = re.search(r"On line (\d+):", o[2])
            mon.check(m and int(m.group(1)) == line, "error-line:" + kind, lambda: "wanted line %s, got %r\n%s" % (line, o[2], text))
        mon.count("rejected")
        mon.count("rejected:" + kind)
        mon.distinct("bad", kind, tuple(b[2:6]))
        return
    big = rng.random() < 0.1
    if big:         # larger than the scanner's buffers
        n = G.ident(rng, used)
        s = "".join(G.STRCH[int(x)] for x in rng.integers(0, 90, int(rng.integers(1000, 30000))))
        stm.insert(0, [n, "=", '"%s"' % s, ";"])
        env[n] = ("s", s, 0.0)
        n = G.ident(rng, used)
        vs = [float(x) for x in rng.uniform(0, 1, int(rng.integers(100, 2500)))]
        stm.insert(int(rng.integers(0, 2)), [n, "=", "["] + [t for v in vs for t in ("%.17g" % v if v > 1e-4 else "0.25", ",")][:-1] + ["]", ";"])
        env[n] = ("v", [v if v > 1e-4 else 0.25 for v in vs], [0.0] * len(vs))
        mon.count("big-texts")
    text = "\n".join(G.join(s, rng) for s in stm) + "\n"
    if rng.random() < 0.2:
        # the same through a file, read by the parser itself
        where = gen.scratch(".d")
        os.makedirs(where + "/sub")
        with open(where + "/sub/x.lat", "wb") as f:
            f.write("".join("%s = %s;\n" % (k, '"%s"' % v if isinstance(v, str) else "0-%r" % -v if v < 0 else repr(v)) for k, v in extra.items()).encode() + text.encode())
        sp = ["sub/x.lat", "./sub/../sub/x.lat", where + "/sub/x.lat"][int(rng.integers(0, 3))]
        o = parse('R = parse("%s"); P = file("%s"); D = dir("sub"); M: marker; L: LINE = (M);' % (sp, sp), path=where)
        if mon.check(o[0] == "ok", "file-rejected", lambda: "%s\n%s" % (o, text)):
            d = as_dict(o[1])
            mon.check(d["P"] == os.path.realpath(where + "/sub/x.lat") and d["D"] == os.path.realpath(where + "/sub"), "file-path", lambda: "%s %s" % (d["P"], d["D"]))
            mon.check(len(d["R"]) == 1, "file-config", lambda: d["R"])
            o = ("ok", d["R"][0])
            mon.count("files")
        shutil.rmtree(where)
    else:
        o = parse(text, extra=extra, s=rng.random() < 0.5)
    if not mon.check(o[0] == "ok", "valid-text-rejected", lambda: "%s\n%s" % (o, text)):
        return
    d = as_dict(o[1])
    mon.check(set(d) == set(env) | {"name", "elements"}, "variables", lambda: "%s\n%s" % (set(d) ^ set(env), text))
    for n, (ty, v, e) in env.items():
        if n in d:
            mon.check(G.same(d[n], ty, v, e), "value", lambda: "%s = %r, should be %r (+-%s)\n%s" % (n, d[n], v, e, text))
            mon.count("values")
            mon.count("exact" if ty == "n" and e == 0 else "other")
    el = d["elements"]
    mon.check(len(el) == 1, "elements", lambda: text)
    p = as_dict(el[0])
    for n, (ty, v, e) in pk.items():
        mon.check(n in p and G.same(p[n], ty, v, e), "property-value", lambda: "%s = %r, should be %r\n%s" % (n, p.get(n), v, text))
        mon.count("values")
    mon.distinct(text)
    mon.sample(dict(text=text))
