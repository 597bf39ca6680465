"""Random lattice texts together with what they mean, computed independently of the parser."""
import math
import struct

FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan,
      "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
      "deg2rad": lambda x: x * (math.pi / 180.0), "rad2deg": lambda x: x * (180.0 / math.pi)}
NAN, INF = float("nan"), float("inf")
EPS = 2.3e-16


class Bad(Exception):
    """the text must be rejected"""


def fcall(n, x):
    try:
        return FN[n](x)
    except ValueError:
        return NAN
    except OverflowError:
        return INF


def slope(n, x):
    try:
        if n == "sin":
            return abs(math.cos(x)) + abs(x) * 0
        if n == "cos":
            return abs(math.sin(x))
        if n == "tan":
            return 1 + math.tan(x) ** 2
        if n in ("asin", "acos", "arcsin", "arccos"):
            return 1 / math.sqrt(1 - x * x) if abs(x) < 1 else INF
        if n in ("atan", "arctan"):
            return 1 / (1 + x * x)
        return 180 / math.pi
    except (ValueError, OverflowError, ZeroDivisionError):
        return INF


def div(a, b):
    if b == 0:
        raise Bad("division")
    r = a / b
    if math.isinf(r) or math.isnan(r):
        raise Bad("division")
    return r


def ev(t, env):
    """value and error bound (0: exact, i.e. bitwise reproducible) of an expression tree"""
    k = t[0]
    if k == "num":
        return t[2], 0.0
    if k == "var":
        if t[1] in env:
            ty, v, e = env[t[1]]
            if ty != "n":
                raise Bad("type")
            return v, e
        if t[1] == "pi":
            return math.pi, 0.0
        raise Bad("undefined")
    if k == "neg":
        v, e = ev(t[1], env)
        return -v, e
    if k == "fn":
        v, e = ev(t[2], env)
        r = fcall(t[1], v)
        return r, (slope(t[1], v) * e if e else 0.0) + 4 * EPS * abs(r)
    a, ea = ev(t[2], env)
    b, eb = ev(t[3], env)
    op = t[1]
    try:
        r = a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else div(a, b)
    except OverflowError:
        r = INF
    if ea == 0 and eb == 0:
        return r, 0.0
    if op in "+-":
        e = ea + eb
    elif op == "*":
        e = abs(a) * eb + abs(b) * ea + ea * eb
    else:
        e = (ea + abs(r) * eb) / max(abs(b) - eb, 1e-300)
    return r, e + EPS * abs(r)


PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


def prec(t):
    return PREC[t[1]] if t[0] == "bin" else 3 if t[0] == "neg" else 4


def toks(t, rng, extra=0.1):
    """tokens of the tree, with the parentheses it needs and sometimes more"""
    def sub(x, need):
        p = toks(x, rng, extra)
        return ["("] + p + [")"] if prec(x) < need or rng.random() < extra else p
    k = t[0]
    if k in ("num", "var"):
        return [t[1]]
    if k == "neg":
        return ["-"] + sub(t[1], 3)
    if k == "fn":
        return [t[1], "("] + toks(t[2], rng, extra) + [")"]
    p = PREC[t[1]]
    return sub(t[2], p) + [t[1]] + sub(t[3], p + 1)


def literal(rng):
    r = rng.random()
    if r < 0.3:
        s = str(int(rng.integers(0, 20)))
    elif r < 0.5:
        s = "%d.%d" % (rng.integers(0, 100), rng.integers(0, 1000))
    elif r < 0.6:
        s = "%d." % rng.integers(0, 10)
    elif r < 0.85:
        s = repr(abs(float(rng.normal()) * 10 ** float(rng.uniform(-8, 8))))
        if s[0] == ".":
            s = "0" + s
    elif r < 0.95:
        s = "%d.%d%s%s%d" % (rng.integers(0, 10), rng.integers(0, 10 ** 9), rng.choice(["e", "E"]), rng.choice(["", "+", "-"]), rng.integers(0, 280))
    else:
        s = "000" + "".join(str(int(x)) for x in rng.integers(0, 10, int(rng.integers(1, 40))))
    return ("num", s, float(s))


def tree(rng, env, depth):
    names = [n for n, v in env.items() if v[0] == "n"]
    r = rng.random()
    if depth <= 0 or r < 0.15:
        q = rng.random()
        if q < 0.35 and names:
            return ("var", names[int(rng.integers(0, len(names)))])
        if q < 0.42 and "pi" not in env:
            return ("var", "pi")
        return literal(rng)
    if r < 0.28:
        return ("neg", tree(rng, env, depth - 1))
    if r < 0.4:
        return ("fn", str(rng.choice(sorted(FN))), tree(rng, env, depth - 1))
    return ("bin", "+-*/"[int(rng.integers(0, 4))], tree(rng, env, depth - 1), tree(rng, env, depth - 1))


CH = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
STRCH = [chr(c) for c in range(32, 127) if chr(c) not in "\"\\"] + ["\t", "'", "\\", "é", "=", ";", "#", "%", "{", "}"]


def ident(rng, used, pre=""):
    while True:
        n = pre + CH[int(rng.integers(0, 52))]
        k = int(rng.integers(0, 6))
        for _ in range(k):
            n += "ABCxyz0189_:"[int(rng.integers(0, 12))]
        if n[-1] == ":":
            n += "_"
        if n not in used and n not in ("pi", "name", "elements", "USE", "type", "sim_type") and n not in FN:
            used.add(n)
            return n


def string(rng):
    return "".join(STRCH[int(rng.integers(0, len(STRCH)))] for _ in range(int(rng.integers(0, 12))))


def join(tk, rng, nl=True, comments=True):
    """a text of the tokens; neighbours that would run together are kept apart"""
    out = [tk[0]]
    for a, b in zip(tk, tk[1:]):
        sep = ""
        if a == ":" or (a[-1].isalnum() or a[-1] in "_.") and (b[0].isalnum()):
            sep = " "
        r = rng.random()
        if r < 0.35:
            sep += " " * int(rng.integers(1, 3))
        elif r < 0.4:
            sep += "\t"
        elif nl and r < 0.44:
            sep += "\n"
        elif nl and comments and r < 0.46:
            sep += "# %s\n" % ["x = 1;", "\"", "USE: q;", "", "é"][int(rng.integers(0, 5))]
        out.append(sep + b)
    return "".join(out)


def value(rng, env, depth=3):
    """(tokens, type, value, error) of a right hand side"""
    r = rng.random()
    if r < 0.7:
        for _ in range(30):
            t = tree(rng, env, int(rng.integers(0, depth + 1)))
            try:
                v, e = ev(t, env)
            except Bad:
                continue
            if not math.isfinite(v) and rng.random() < 0.9 or e and e > 1e-3 * abs(v) + 1e-300 or not e < INF:
                continue
            return toks(t, rng), "n", v, e
        return ["1"], "n", 1.0, 0.0
    if r < 0.85:
        s = string(rng)
        return ['"%s"' % s], "s", s, 0.0
    vs, tk = [], ["["]
    for i in range(int(rng.integers(0, 7))):
        a, ty, v, e = value(rng, env, 2)
        while ty != "n":
            a, ty, v, e = value(rng, env, 2)
        if i:
            tk.append(",")
        tk += a
        vs.append((v, e))
    return tk + ["]"], "v", [v for v, e in vs], [e for v, e in vs]


def same(got, ty, v, e):
    """does a value from the library equal the expected one"""
    import numpy as np
    if ty == "s":
        return isinstance(got, str) and got == v
    if ty == "v":
        return isinstance(got, np.ndarray) and got.ndim == 1 and len(got) == len(v) and all(same(float(g), "n", x, y) for g, x, y in zip(got, v, e))
    if not isinstance(got, float):
        return False
    if math.isnan(v) or math.isnan(got):
        return math.isnan(v) and math.isnan(got)
    if e == 0:
        return struct.pack("d", got) == struct.pack("d", v)
    return got == v or abs(got - v) <= 4 * e
