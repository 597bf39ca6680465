"""C26: the generated IOC database addresses every element of the lattice."""
import logging
import os
import re
import shutil
import subprocess
import sys
import fl
import gen
import walk
import flame.ioc as ioc
from flame import Machine

logging.getLogger("flame.ioc").addHandler(logging.NullHandler())
DATA = ioc.datadir
LINE = re.compile(r'^\{P="([^"]*)", ELEM="([^"]*)"\}$')


def manglers(rng):
    k = str(rng.choice(["default", "default", "default", "name", "type", "const", "upper", "serial"]))
    n = [0]

    def serial(e):
        n[0] += 1
        return "P%d:" % n[0]
    return k, {"default": None, "name": lambda e: "X:" + e["name"], "type": lambda e: "T-%(type)s:" % e, "const": lambda e: "P",
               "upper": lambda e: "$(PREF)" + e["name"].upper(), "serial": serial}[k]


def build(rng):
    """text, element list in beamline order"""
    sim = str(rng.choice(["MomentMatrix", "MomentMatrix", "MomentMatrix", "Vector", "TransferMatrix"]))
    if sim == "MomentMatrix":
        Ek = walk.energies(rng)
        b = gen.beam(rng, Ek=Ek)
        es = gen.lattice(rng, int(rng.integers(1, 9)), Ek, src=bool(rng.random() < 0.8), cav=0.15, strip=0.1)
        if rng.random() < 0.5:
            es += [dict(type=str(rng.choice(["marker", "bpm", "marker", "tmatrix", "orbtrim"])), name="mk%d" % i) for i in range(int(rng.integers(1, 4)))]
    else:
        b = dict(initial=[float(x) for x in rng.normal(size=6 if sim == "Vector" else 36)])
        es = fl.lin_lattice(rng, int(rng.integers(1, 8)))
    if rng.random() < 0.2:
        es = [e for e in es if e["type"] in ("tmatrix", "generic")] or es
    names = [e["name"] for e in es]
    line = list(names)
    if es and rng.random() < 0.7:
        # repeats, also of elements without template
        line = [str(x) for x in rng.choice(names, size=int(rng.integers(1, 40 if rng.random() < 0.9 else 200)))]
        if names[0] in line and es[0]["type"] == "source":
            line = [names[0]] + [x for x in line if x != names[0]] if rng.random() < 0.7 else line
    return sim, gen.lat_text(b, es, sim=sim, line=line), [dict(next(e for e in es if e["name"] == n)) for n in line]


def blocks(mon, text):
    """[(file, [(P, ELEM)])]"""
    out, cur = [], None
    for l in text.splitlines():
        m = re.match(r'^file "([^"]*)"$', l)
        if m:
            cur = (m.group(1), [])
            out.append(cur)
        elif l.strip() in ("{", "}", ""):
            pass
        else:
            m = LINE.match(l)
            mon.check(m is not None and cur is not None, "line", lambda: "unexpected line %r" % l)
            if m and cur:
                cur[1].append(m.groups())
    return out


def snapshot(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d))}


def run_case(i, rng, mon):
    sim, text, seq = build(rng)
    kind, mang = manglers(rng)
    root = gen.scratch(".ioc")
    os.makedirs(root)
    cwd = os.getcwd()
    try:
        path = os.path.join(root, "in put.lat" if rng.random() < 0.1 else "some.lat")
        with open(path, "w") as f:
            f.write(text)
        indir = DATA
        if rng.random() < 0.4:
            # an own set of templates
            indir = os.path.join(root, "tmpl")
            os.makedirs(indir)
            for n in os.listdir(DATA):
                if not n.endswith(".template") or n == "common.template" or rng.random() < 0.6:
                    shutil.copy(os.path.join(DATA, n), indir)
        have = {n[:-9] for n in os.listdir(indir) if n.endswith(".template")}
        out = os.path.join(root, *(["a", "b"] if rng.random() < 0.3 else ["out"]))
        if rng.random() < 0.3:
            os.makedirs(out)
            if rng.random() < 0.5:
                # an older result
                for n in ("lattice.substitutions", "st.cmd", "input.lat", "core.db"):
                    with open(os.path.join(out, n), "w") as f:
                        f.write("old contents\n" * 200)
        given, existed = path, os.path.exists(out)
        if rng.random() < 0.3:
            os.chdir(root)
            given = os.path.basename(path)
        expect = [e for e in seq if e["type"] in have]
        args = (given,) if mang is None else (given, mang)
        kw = {} if indir == DATA else dict(indir=indir)
        before = snapshot(indir)
        tool = mang is None and indir == DATA and rng.random() < 0.04
        try:
            if tool:
                p = subprocess.run([sys.executable, "-m", "flame.ioc", "gendb", given, out], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
                mon.check(p.returncode in (0, 1), "tool", lambda: "status %d: %s" % (p.returncode, p.stderr[-300:]))
                if p.returncode:
                    raise RuntimeError("tool failed")
                mon.count("tool")
            else:
                ioc.Generator(*args, **kw).emit_subst(out)
            failed = None
        except RuntimeError as e:
            failed = e
        mon.check((failed is not None) == (not expect), "refusal", lambda: "%d elements with a template: %r" % (len(expect), failed))
        if failed is not None or not expect:
            mon.count("refused")
            mon.check(existed or not os.path.exists(out), "refused-writes", "the output directory was created")
            return
        got = snapshot(out)
        mon.check(snapshot(indir) == before, "templates-kept", "the template directory changed")
        mon.check(open(path).read() == text and got.get("input.lat") == text.encode(), "copy", "input.lat is not the lattice given")
        used = sorted({e["type"] for e in expect})
        files = {"core.db", "orbit.db", "common.template"} | {t + ".template" for t in used}
        mon.check(set(got) == files | {"input.lat", "lattice.substitutions", "st.cmd"}, "files", lambda: "%s, types used %s" % (sorted(got), used))
        for n in files:
            mon.check(got.get(n) == before[n], "template-copy", lambda: n)
        # what the entries of the database stand for, in the machine the IOC builds
        M = Machine(text.encode())
        bl = blocks(mon, got["lattice.substitutions"].decode())
        mon.check(sorted(n for n, _ in bl) == sorted(["common.template"] + [t + ".template" for t in used]), "blocks", lambda: str([n for n, _ in bl]))
        where = [k for k, e in enumerate(seq) if e["type"] in have]
        byidx = {}

        def resolve(el):
            m = re.match(r"^([^\[\]]+)(?:\[(\d+)\])?$", el)
            if not m:
                return None
            l = sorted(M.find(name=m.group(1)))
            n = int(m.group(2) or 0)
            return l[n] if n < len(l) else None
        for fname, rows in bl:
            t = fname[:-9]
            want = [k for k in where if t == "common" or seq[k]["type"] == t]
            idx = [resolve(el) for _, el in rows]
            mon.count("entries", len(rows))
            mon.check(idx == want, "entries", lambda: "%s (mangler %s): entries %s stand for elements %s, expected %s" % (fname, kind, rows[:6], idx[:40], want[:40]))
            for k, (p, el) in zip(idx, rows):
                mon.check(byidx.setdefault(k, (p, el)) == (p, el), "same-prefix", lambda: "element %s: %s and %s" % (k, byidx[k], (p, el)))
                if kind == "default" and k is not None:
                    mon.check(p.startswith("$(PREF)%s:" % seq[k]["name"]), "prefix", lambda: "%r for %s" % (p, seq[k]["name"]))
                    if "[" not in el:
                        mon.check(p == "$(PREF)%s:" % seq[k]["name"], "prefix", lambda: "%r for %s" % (p, el))
                    else:
                        mon.count("repeats")
            ps = [p for p, _ in rows]
            mon.check(len(set(ps)) == len(ps), "unique", lambda: "%s (mangler %s): a prefix is used twice: %s" % (fname, kind, sorted(p for p in ps if ps.count(p) > 1)[:4]))
        st = got["st.cmd"].decode()
        m = re.search(r'epicsEnvSet\("LATTICE", "([^"]*)"\)', st)
        mon.check(m and os.path.isabs(m.group(1)) and os.path.realpath(m.group(1)) == os.path.realpath(path), "lattice-path", lambda: st)
        m = re.search(r"NELM=(\d+)", st)
        nm = sum(e["type"] == "marker" for e in seq)
        mon.check(m and int(m.group(1)) == nm, "markers", lambda: "%s, %d markers" % (m and m.group(0), nm))
        want = before["st.cmd"].decode().split("%(latticepath)s")
        mon.check(st.startswith(want[0]) and st.endswith(want[-1].split("%(nmarkers)d")[-1]), "st.cmd", lambda: st)
        mon.count("databases")
        mon.count("mangler:" + kind)
        mon.distinct(kind, tuple(used), len(seq), nm)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
