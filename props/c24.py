"""C24: the command-line tool reports the same simulation as the library."""
import os
import re
import subprocess
from decimal import Decimal
import numpy as np
import fl
import gen
import walk
from flame import GLPSParser, Machine

CLI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "flame-cli")
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"
ENV = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONMALLOC", "PYTHONPATH")}


def tool(args, cwd, stdout=subprocess.PIPE, inp=None):
    how = dict(stdin=subprocess.DEVNULL) if inp is None else dict(input=inp.encode("latin1"))
    p = subprocess.run([CLI] + args, cwd=cwd, env=ENV, **how, stdout=stdout, stderr=subprocess.PIPE, timeout=100)
    return p.returncode, (p.stdout or b"").decode("latin1"), p.stderr.decode("latin1")


def near(txt, x):
    """does the printed number stand for x, to the digits printed?"""
    if txt.lstrip("+-") in ("nan", "inf"):
        return (txt.lstrip("+-") == "nan") == bool(np.isnan(x)) and not np.isfinite(x)
    if not np.isfinite(x):
        return False
    d = Decimal(txt)
    if abs(float(d) - x) > 1e-4 * abs(x):
        return False            # too few digits to tell
    return abs(float(d) - x) <= 0.6 * 10.0 ** d.as_tuple().exponent + 1e-300


def g6(txt, x):
    """printed with an unknown precision of at least six significant digits"""
    if not np.isfinite(x):
        return "nan" in txt or "inf" in txt
    return abs(float(txt) - x) <= 6e-6 * abs(x) + 1e-300


def full(txt, x):
    """printed to be compared with a computed value"""
    return near(txt, x) and (not np.isfinite(x) or abs(float(txt) - x) <= 1e-14 * abs(x))


def nums(s):
    return re.findall(NUM, s)


def cmp_list(mon, key, txts, vals, detail, f=near):
    vals = np.ravel(np.asarray(vals, float))
    ok = len(txts) == len(vals) and all(f(t, v) for t, v in zip(txts, vals))
    mon.count("values", len(vals))
    mon.check(ok, key, lambda: "%s: printed %s, library %s" % (detail, txts[:8], vals[:8]))


def build(rng):
    """lattice text, the -D arguments, the element list"""
    sim = str(rng.choice(["MomentMatrix", "MomentMatrix", "MomentMatrix", "Vector", "TransferMatrix"]))
    if sim == "MomentMatrix":
        Ek = walk.energies(rng)
        b = gen.beam(rng, Ek=Ek)
        es = gen.lattice(rng, int(rng.integers(1, 8)), Ek, src=True, cav=0.15, strip=0.1 if Ek > 8e6 else 0.0)
    else:
        b = dict(initial=[float(x) for x in rng.normal(size=6 if sim == "Vector" else 36)])
        es = fl.lin_lattice(rng, int(rng.integers(1, 8)))
    defs, skip = [], []
    if rng.random() < 0.3:
        defs.append(("sim_type", "str", sim))
        skip.append("sim_type")
    for e in es:
        if "L" in e and rng.random() < 0.3:
            # the length comes from the command line
            v = "v_" + e["name"]
            defs.append((v, "double", repr(float(e["L"]))))
            e["L"] = Var(v)
    if rng.random() < 0.2 and sim == "MomentMatrix":
        defs.append(("unused", "str", "some:text=x"))
    line = [e["name"] for e in es]
    for _ in range(int(rng.integers(0, 4))):
        line.append(line[int(rng.integers(1, len(line)))] if len(line) > 1 else line[0])
    txt = lat(b, es, sim, line, skip)
    return sim, txt, defs, line


class Var(float):
    def __new__(cls, n):
        o = float.__new__(cls, 0)
        o.n = n
        return o


def lat(b, es, sim, line, skip):
    t = gen.lat_text(b, [{k: (v if not isinstance(v, Var) else 12345.0) for k, v in e.items()} for e in es], sim, line, skip)
    for e in es:
        if isinstance(e.get("L"), Var):
            t = re.sub(r"(\n%s: .*?\bL = )12345\b" % re.escape(e["name"]), lambda m: m.group(1) + e["L"].n, t, count=1)
    return t


def blocks(text, head=r"After Element \[(\d+)\] (\S+) "):
    p = [m for m in re.finditer(head, text)]
    out = []
    for i, m in enumerate(p):
        out.append((int(m.group(1)), m.group(2), text[m.end():p[i + 1].start() if i + 1 < len(p) else len(text)]))
    return out


def moment_block(mon, t, S, lvl, where):
    if lvl <= 0:
        m = re.match(r"State: moment0 mean=\[7\]\((.*?)\)", t)
        if mon.check(bool(m), "txt-format", lambda: t[:300]):
            cmp_list(mon, "txt:moment0_env", nums(m.group(1)), S.moment0_env, where, g6)
        return
    m = re.match(r"\nState:\n  energy \[eV\] =\n(.*?)\n  moment0 mean =\n(.*?)\n  moment0 rms =\n(.*?)\n  moment1 mean =\n(.*?)(?=\n  Reference|\Z|\n\n|\n#|\nAfter)", t, re.S)
    if not mon.check(bool(m), "txt-format", lambda: t[:600]):
        return
    cmp_list(mon, "txt:energy", nums(m.group(1)), [S.IonEk[0]], where)
    cmp_list(mon, "txt:moment0_env", nums(m.group(2)), S.moment0_env, where)
    cmp_list(mon, "txt:moment0_rms", nums(m.group(3)), S.moment0_rms, where)
    cmp_list(mon, "txt:moment1_env", nums(m.group(4)), S.moment1_env, where)
    if lvl >= 2:
        r = re.search(r"  Reference state:\n    (.*)\n", t)
        cs = re.findall(r"  Charge state (\d+)\n    (.*)\n    moment0 \[7\]\((.*?)\)\n(?:    moment1 \[7,7\]\((.*)\)\n)?", t)
        if not mon.check(bool(r) and [int(c[0]) for c in cs] == list(range(len(S.IonZ))), "txt-charge-states", lambda: t[:800]):
            return
        names = ("IonZ", "IonQ", "IonEs", "IonEk", "SampleIonK", "phis", "IonW", "gamma", "beta", "bg")
        for k, v in re.findall(r"(\w+)=(%s)" % NUM, r.group(1)):
            if k in names:
                cmp_list(mon, "txt:ref_" + k, [v], [getattr(S, "ref_" + k)], where)
        for i, c in enumerate(cs):
            for k, v in re.findall(r"(\w+)=(%s)" % NUM, c[1]):
                if k in names:
                    cmp_list(mon, "txt:" + k, [v], [getattr(S, k)[i]], where)
            cmp_list(mon, "txt:moment0", nums(c[2]), S.moment0[:, i], where)
            if lvl >= 3:
                cmp_list(mon, "txt:moment1", nums(c[3]), S.moment1[:, :, i], where)


def lin_block(mon, t, S, where):
    v = np.asarray(S.state)
    m = re.match(r"State: \[([\d,]+)\]\((.*)\)", t)
    if mon.check(bool(m), "txt-format", lambda: t[:300]):
        cmp_list(mon, "txt:state", nums(m.group(2)), v, where, g6)


def library(txt, defs, D):
    conf = GLPSParser().parse(txt.encode(), path=D, extra={k: (float(v) if t == "double" else v) for k, t, v in defs})
    return Machine(conf)


def ok_case(i, rng, mon, D):
    sim, txt, defs, line = build(rng)
    p = os.path.join(D, "in.lat")
    with open(p, "w") as f:
        f.write(txt)
    here = None
    if rng.random() < 0.3:          # a data file beside the lattice
        os.makedirs(os.path.join(D, "sub"), exist_ok=True)
        here = str(rng.choice(["probe.dat", "sub/probe.dat", "./probe.dat", "sub/../probe.dat"]))
        with open(os.path.join(D, here), "w") as f:
            f.write("x\n")
        txt = 'probe = file("%s");\n' % here + txt
        with open(p, "w") as f:
            f.write(txt)
    M = library(txt, defs, D)
    n = len(M)
    if not mon.check([M.conf(k)["name"] for k in range(n)] == line, "elements", ""):
        return
    types = [M.conf(k)["type"] for k in range(n)]
    args, sel = [], set()
    if rng.random() < 0.4:
        args.append(str(rng.choice(["-A", "--select-all"])))
        sel |= set(range(n))
    if rng.random() < 0.35:
        for t in rng.choice(sorted(set(types)), int(rng.integers(1, 3))):
            args += ["-T", str(t)]
            sel |= {k for k in range(n) if types[k] == t}
    if rng.random() < 0.35:
        for t in rng.choice(sorted(set(line)), int(rng.integers(1, 3))):
            args += ["--select-name", str(t)]
            sel |= {k for k in range(n) if line[k] == t}
    if rng.random() < 0.4 or not args:
        args.append(str(rng.choice(["-L", "--select-last"])))
        sel |= {n - 1}
    if rng.random() < 0.1:          # matches nothing: no more than a warning
        x = str(rng.choice(["nosuch", "Marker", line[0] + "x", types[0][:-1], types[0] + "s"]))
        if x not in types and x not in line:
            args += [str(rng.choice(["-T", "-N"])), x]
            mon.count("selected-nothing")
    mx = None
    if rng.random() < 0.3:
        mx = int(rng.integers(0, n + 3))
        args += ["-M", str(mx)]
    elif rng.random() < 0.04:
        mx = -int(rng.integers(1, n + 3))
        args += ["--max=%d" % mx]
        mon.count("backward")
    verb = int(rng.choice([0, 0, 0, 1, 2, 3, 4]))
    if verb:
        args += ["-v", str(verb)]
    for k, t, v in defs:
        args += ["-D", "%s=%s:%s" % (k, t if rng.random() < 0.5 else t[0].upper(), v)]
    fmt = str(rng.choice(["txt", "txt", "hdf5", "utest"]))
    lvl, outf = 1, None
    attrs = []
    S = M.allocState({})
    kw = {} if mx is None else dict(max=mx)
    # stepwise: the library's own observe list only gives attributes of snapshots, which is what is wanted
    o = fl.outcome(M.propagate, S, observe=list(range(n)), **kw)
    twice = rng.random() < 0.08
    if twice:                       # the passes that are timed are two
        args.append("--timeit")
        if o[0] == "ok":
            o2 = fl.outcome(M.propagate, S, observe=list(range(n)), **kw)
            o = ("ok", o[1] + o2[1]) if o2[0] == "ok" else o2
            mon.count("timed")
    seen = [(k, s) for k, s in o[1] if k in sel] if o[0] == "ok" else []
    if fmt == "txt":
        opt = []
        if rng.random() < 0.5:
            lvl = int(rng.integers(0, 4))
            opt.append("verbose=%d" % lvl)
        elif rng.random() < 0.3:
            opt.append("verbose")
        if rng.random() < 0.5:
            outf = "out%d.txt" % i
            opt.append("file=" + outf)
        if rng.random() < 0.05:     # not known: no more than a warning
            opt.append(str(rng.choice(["nosuch", "files=x", "Verbose=3"])))
            mon.count("unknown-option")
        f = ",".join(["txt"] + [str(x) for x in rng.permutation(opt)])
        if f != "txt":
            args += ["-F", f]
    elif fmt == "hdf5":
        outf = "out%d.h5" % i
        args += ["--format", "hdf5,file=" + outf + (str(rng.choice([",nosuch", ",verbose=2"])) if rng.random() < 0.1 else "")]
    else:
        names = [k for k in S if np.ndim(getattr(S, k)) <= 2 and k != "next_elem"]
        attrs = [str(a) for a in rng.choice(names, int(rng.integers(1, min(5, len(names)) + 1)), replace=False)]
        args += ["-F", "utest," + ",".join(attrs)]
    # the lattice: full path, relative path, or standard input
    name = str(rng.choice([p, "in.lat", "./in.lat", "-"]))
    perm = [name] + args if rng.random() < 0.5 else args + [name]
    rc, out, err = tool(perm, D, inp=txt if name == "-" else None)
    mon.count("stdin" if name == "-" else "file")
    mon.count("runs:" + fmt)
    mon.distinct(fmt, lvl, sorted(a for a in args if a.startswith("-")), tuple(types), mx, bool(defs))
    mon.sample(" ".join(perm))
    where = " ".join(perm)
    if rc not in (0, 1):
        mon.violate("tool-crash", "%s\nrc=%s\n%s" % (where, rc, err[-3000:]))
        return
    if o[0] != "ok":
        mon.check(rc == 1 and err, "failed-simulation-accepted", lambda: "%s: library %s, rc %d %s" % (where, o, rc, err))
        mon.count("failed-simulations")
        return
    if not mon.check(rc == 0, "valid-run-refused", lambda: "%s\n%s" % (where, err)):
        return
    res = out
    if twice:
        mon.check(len(re.findall(r"^Simulate \(cache \w+\) : [\d.]+ ms$", out, re.M)) == 2, "timing-reported", lambda: out[-500:])
        res = out = re.sub(r"^[A-Z]\w+(?: \w+| \(cache \w+\))? : [\d.]+ ms\n", "", out, flags=re.M)
    if fmt == "txt":
        if outf:
            res = open(os.path.join(D, outf)).read()
        bl = blocks(res)
        if mon.check([(a, b) for a, b, _ in bl] == [(k, line[k]) for k, _ in seen], "elements-reported",
                     lambda: "%s: reported %s, visited and selected %s" % (where, [(a, b) for a, b, _ in bl], [(k, line[k]) for k, _ in seen])):
            for (k, nm, t), (_, s) in zip(bl, seen):
                mon.count("states")
                if sim == "MomentMatrix":
                    moment_block(mon, t, s, lvl, "%s element %d" % (where, k))
                else:
                    lin_block(mon, t, s, "%s element %d" % (where, k))
    elif fmt == "utest":
        heads = re.findall(r"    def test_(\w+)\(self\):\n        # (\S+)\n        self.checkPropagate\(0, \{\}, \{\n(.*?)        \}, max=(\d+)\)", out, re.S)
        if mon.check([(h[0], h[1], int(h[3])) for h in heads] == [(types[k], line[k], k + 1) for k, _ in seen], "elements-reported",
                     lambda: "%s: %s\n%s" % (where, [h[:2] for h in heads], [(types[k], line[k]) for k, _ in seen])):
            for h, (k, s) in zip(heads, seen):
                mon.count("states")
                got = re.findall(r"            '(\w+)':(.*?),\n(?=            '|\Z)", h[2], re.S)
                if mon.check([g[0] for g in got] == attrs, "utest-attributes", lambda: "%s %s" % (h[2][:300], attrs)):
                    for nm, v in got:
                        cmp_list(mon, "utest:" + nm, nums(v.replace("asfarray", "")), getattr(s, nm), where, full)
    else:
        import h5py
        with h5py.File(os.path.join(D, outf), "r") as h:
            at = h.attrs.get("sim_type")
            at = at.decode() if isinstance(at, bytes) else at
            mon.check(at == sim, "h5-sim-type", lambda: "%r" % at)
            if not seen:
                mon.check(all(d.shape[0] == 0 for d in h.values()), "h5-extra", "")
            else:
                have = {k: np.array(h[k]) for k in h}
                for k in seen[0][1]:
                    vs = [np.asarray(getattr(s, k)) for _, s in seen]
                    if not mon.check(k in have and have[k].shape[0] == len(vs), "h5-records", lambda: "%s: %s %s, %d states" % (where, k, have.get(k, np.zeros(0)).shape, len(vs))):
                        continue
                    for j, v in enumerate(vs):
                        rec = have[k][j][tuple(slice(0, x) for x in v.shape)]
                        if k == "next_elem":
                            continue            # the snapshots that Python hands out start at element zero again
                        mon.check(rec.shape == v.shape and np.array_equal(rec, v, equal_nan=v.dtype.kind == "f"), "h5:" + k,
                                  lambda: "%s record %d: %s library %s" % (where, j, rec.ravel()[:4], v.ravel()[:4]))
                        mon.count("values", v.size)
                    if k == "next_elem":
                        mon.check(have[k].ravel().tolist() == [(q + 1 if mx is None or mx >= 0 else q - 1) % 2 ** 64 for q, _ in seen], "h5:next_elem", lambda: "%s" % have[k].ravel())
                mon.count("states", len(seen))
    if verb:
        mon.count("verbose")
        tr = re.findall(r"^After \[(\d+)\] (\S+) State", out, re.M)
        visited = [(str(k), line[k]) for k, _ in o[1]]
        mon.check(tr == visited, "trace", lambda: "%s: trace %s visited %s" % (where, tr, visited))
        mm = re.search(r"# Reduced lattice\n(.*?)\n# Machine configuration\nsim_type: (\S+)\n#Elements: (\d+)\n(.*?)\n\n\n", out, re.S)
        if mon.check(bool(mm), "verbose-format", lambda: out[:800]):
            mon.check(mm.group(2) == sim and int(mm.group(3)) == n, "verbose-machine", lambda: mm.group(2) + mm.group(3))
            el = re.findall(r"^Element (\d+): (\S+) \((\w+)\)", mm.group(4), re.M)
            mon.check(el == [(str(k), line[k], types[k]) for k in range(n)], "verbose-elements", lambda: "%s" % el)
            if here:
                want = os.path.realpath(os.path.join(D, here))
                mon.check('"%s"' % want in mm.group(1), "relative-file", lambda: "%s\n%s" % (want, mm.group(1)[:500]))
                mon.count("relative-files")
            names = [c[1] for c in parse_names(mm.group(1))]
            mon.check(names == line, "reduced-lattice", lambda: "%s" % names)
        fin = out.rsplit("\n# Final ", 1)
        if mon.check(len(fin) == 2, "verbose-final", lambda: out[-400:]):
            if sim == "MomentMatrix":
                moment_block(mon, fin[1], S, 0, where + " final")
            else:
                lin_block(mon, fin[1], S, where + " final")


def parse_names(txt):
    c = dict(GLPSParser().parse(txt.encode(), path=gen.SCRATCH))
    return [(0, dict(e)["name"]) for e in c["elements"]]


def bad_case(i, rng, mon, D):
    sim, txt, defs, line = build(rng)
    p = os.path.join(D, "in.lat")
    args = ["-A"]
    da = []
    for k, t, v in defs:
        da += ["-D", "%s=%s:%s" % (k, t, v)]
    kinds = ["syntax", "nofile", "isdir", "sim", "etype", "format", "max", "define-eq", "define-colon", "define-type", "define-num",
             "define-name", "option", "outdir", "outdir5", "full", "full-stdout", "extra-arg", "verbose", "lvl", "undef", "empty", "no-lattice", "redefine",
             "state", "state", "state", "state"]
    kind = kinds[int(rng.integers(0, len(kinds)))]
    stdout = subprocess.PIPE
    lattice = p
    if kind == "syntax":
        k = int(rng.integers(0, len(txt)))
        txt = txt[:k] + str(rng.choice([" ] ", "= =", "\x01", "\"", "@", "(;"])) + txt[k:]
        if fl.outcome(library, txt, defs, D)[0] == "ok":
            return
    elif kind == "nofile":
        lattice = os.path.join(D, "absent.lat")
    elif kind == "isdir":
        lattice = D
    elif kind == "sim":
        txt = re.sub(r'sim_type = "\w+"', 'sim_type = "NoSuch"', txt)
        if "NoSuch" not in txt:
            da += ["-D", "sim_type=str:NoSuch"]
            da = [x for x in da]
            txt = 'sim_type = "NoSuch";\n' + txt
    elif kind == "etype":
        txt = txt.replace("cell: LINE = (", "zz: nosuch;\ncell: LINE = (zz, ")
    elif kind == "format":
        args += ["-F", str(rng.choice(["xml", "", "TXT", "txt2", "hdf", "=", "file=x"]))]
    elif kind == "max":
        args += ["-M", str(rng.choice(["x", "1.5", "99999999999999999999", "3x", "1e3", "--"]))]
    elif kind == "define-eq":
        da += ["-D", "novalue"]
    elif kind == "define-colon":
        da += ["-D", "a=3"]
    elif kind == "define-type":
        da += ["-D", "a=%s:3" % rng.choice(["int", "", "float", "vector", "d"])]
    elif kind == "define-num":
        da += ["-D", "a=double:%s" % rng.choice(["", "x", "3x", "1 2", " 1"])]
    elif kind == "define-name":
        da += ["-D", "=double:3"]
    elif kind == "option":
        args += [str(rng.choice(["--nosuch", "-Z", "--max", "-F", "--select-type", "-D", "--verbose"]))]
    elif kind == "outdir":
        args += ["-F", "txt,file=" + os.path.join(D, "absent", "o.txt")]
    elif kind == "outdir5":
        args += ["-F", "hdf5,file=" + str(rng.choice([os.path.join(D, "in.lat", "o.h5"), D, os.path.join(D, "in.lat"), "/proc/absent/o.h5"]))]
    elif kind == "full":
        args += ["-F", "txt,file=/dev/full"]
    elif kind == "full-stdout":
        stdout = open("/dev/full", "w")
    elif kind == "extra-arg":
        args += ["second.lat"]
    elif kind == "verbose":
        args += ["-v", str(rng.choice(["x", "1.5", "", "99999999999999"]))]
    elif kind == "lvl":
        args += ["-F", "txt,verbose=" + str(rng.choice(["x", "", "1.5", "99999999999"]))]
    elif kind == "redefine":
        da += ["-D", "%s=double:1" % rng.choice(["cellx", "initial" if re.search(r"(?m)^initial =", txt) else "IonEk"])]
        txt = "cellx = 2;\n" + txt
    elif kind == "state":
        if rng.random() < 0.6:
            txt = re.sub(r": source\b", ": marker", txt)
        # a lattice whose text is fine and whose start or elements are not: whatever the library refuses, the tool refuses
        ks = [m for m in re.finditer(r"(?m)^(\w+) = (.*);$", txt) if m.group(1) != "sim_type"]
        ls = [m for m in re.finditer(r"\b(\w+) = (\[[^\]]*\]|[-+.\de]+|\"[^\"]*\")(?=[,;])", txt) if m.group(1) != "sim_type"]
        pool = ks if (ks and rng.random() < 0.6) else ls
        if not pool:
            return
        m = pool[int(rng.integers(0, len(pool)))]
        big = "[" + ", ".join("1" for _ in range(int(rng.integers(37, 80)))) + "]"
        bad = [big, "[]", "[1]", "[1, 2, 3]", "\"text\"", "1", "-1", "1e9", "0"][int(rng.integers(0, 9))]
        txt = txt[:m.start()] + "%s = %s" % (m.group(1), bad) + (";" if m.group(0).endswith(";") else "") + txt[m.end():]
        if fl.outcome(run_lib, txt, defs, D)[0] == "ok":
            return
    elif kind == "undef":
        if not da:
            return
        k = int(rng.integers(0, len(da) // 2))
        name = da[2 * k + 1].split("=")[0]
        if name == "unused":
            return
        del da[2 * k:2 * k + 2]
    elif kind == "empty":
        txt = str(rng.choice(["", "\n", "# nothing\n", "x = 1;\n", "sim_type=\"Vector\";\n"]))
    with open(p, "w") as f:
        f.write(txt)
    a = da + args + ([] if kind == "no-lattice" else [lattice])
    if kind == "option":
        a = da + ([] if kind == "no-lattice" else [lattice]) + args
    rc, out, err = tool(a, D, stdout)
    if stdout is not subprocess.PIPE:
        stdout.close()
    mon.count("refusals")
    mon.distinct("bad", kind, tuple(args))
    mon.count("bad:" + kind)
    if rc < 0 or rc > 2:
        mon.violate("tool-crash", "%s: %s\nrc=%s\n%s" % (kind, a, rc, err[-3000:]))
        return
    if kind in ("full", "full-stdout") and rc == 0 and nothing_selected(txt, defs, D):
        return
    mon.check(rc != 0, "mistake-accepted:" + kind, lambda: "%s\n%s\n%s" % (a, out[:300], err[:300]))
    if kind != "no-lattice":
        mon.check(err.strip() != "", "no-message:" + kind, lambda: "%s" % a)


def run_lib(txt, defs, D):
    M = library(txt, defs, D)
    M.propagate(M.allocState({}))


def nothing_selected(txt, defs, D):
    M = library(txt, defs, D)
    S = M.allocState({})
    return fl.outcome(M.propagate, S, observe=[0])[0] != "ok"


def run_case(i, rng, mon):
    D = os.path.join(gen.SCRATCH, "cli")
    os.makedirs(D, exist_ok=True)
    if rng.random() < 0.7:
        ok_case(i, rng, mon, D)
    else:
        bad_case(i, rng, mon, D)
    for f in os.listdir(D):
        q = os.path.join(D, f)
        if os.path.isfile(q):
            os.unlink(q)
    if os.path.exists(os.path.join(D, "sub", "probe.dat")):
        os.unlink(os.path.join(D, "sub", "probe.dat"))
