#!/usr/bin/env python3
"""Builds the instrumented variants of FLAME from /repo's *current* working tree.

Everything is written below /verif/build (git-ignored).  An object is rebuilt
whenever the text of its source, of any header (repo or harness) or of its flags changes, so a
stale object is never linked.

    python3 lib/build.py [target ...]       targets: py cli drv tsan fuzz all
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

CORE = ["base", "config", "linear", "moment", "moment_sup", "rf_cavity", "chg_stripper",
        "glps_parser", "glps_ops", "util", "h5loader", "h5writer"]
PYMOD = ["modmain", "modconfig", "modmachine", "modstate"]

SAN = {
    # memory + undefined behaviour; any report ends the process
    "asan": ["g++", "gcc", ["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS",
                            "-fsanitize=address,undefined,float-cast-overflow",
                            "-fno-sanitize=vptr",
                            "-fno-sanitize-recover=all"]],
    # data races
    "tsan": ["g++", "gcc", ["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-fsanitize=thread"]],
    # libFuzzer (thorough tier only)
    "fuzz": ["clang++", "clang", ["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG",
                                  "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr,function",
                                  "-fno-sanitize-recover=all"]],
}

LIBS = ["-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_atomic",
        "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial",
        "-lhdf5_cpp", "-lhdf5", "-lpthread", "-lm"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def core_sources():
    """The library's .cpp files, as src/CMakeLists.txt lists them (flame_core_files)."""
    import re
    try:
        t = open(os.path.join(REPO, "src", "CMakeLists.txt")).read()
        names = []
        for m in re.finditer(r"set\s*\(\s*flame_core_files(.*?)\)", t, re.S):
            names += re.findall(r"([\w./-]+)\.cpp", m.group(1))
        names = [n for n in dict.fromkeys(names) if os.path.exists(os.path.join(REPO, "src", n + ".cpp"))]
        if set(CORE) <= set(names):
            return names
    except OSError:
        pass
    return CORE


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash():
    hs = []
    for pat in ("src/**/*.h", "python/flame/*.h"):
        hs += sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
    hs += sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
    return sha(*[x for h in hs for x in (h, readb(h))])


def up_to_date(target, key):
    try:
        return os.path.exists(target) and readb(target + ".key").decode() == key
    except OSError:
        return False


def stamp(target, key):
    with open(target + ".key", "w") as f:
        f.write(key)


def generate():
    """flex + bison, as src/CMakeLists.txt does."""
    g = os.path.join(OUT, "gen")
    os.makedirs(g, exist_ok=True)
    for src, cmd, out in (
            ("glps.y", ["bison", "-o", "glps.par.c", "--defines=glps.par.h"], "glps.par.c"),
            ("glps.l", ["flex", "-o", "glps.tab.c", "--header-file=glps.tab.h"], "glps.tab.c")):
        s = os.path.join(REPO, "src", src)
        key = sha(readb(s), " ".join(cmd))
        t = os.path.join(g, out)
        if not up_to_date(t, key):
            run(cmd + [s], cwd=g)
            stamp(t, key)
    return g


def compile_all(jobs):
    """jobs: list of (compiler, flags, src, obj, key)"""
    todo = [j for j in jobs if not up_to_date(j[3], j[4])]

    def one(j):
        cc, flags, src, obj, key = j
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        run([cc] + flags + ["-c", src, "-o", obj])
        stamp(obj, key)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(one, j) for j in todo]:
            f.result()
    return len(todo)


def link(cmd, out, objs):
    key = sha(" ".join(cmd), *[readb(o + ".key") for o in objs])
    if not up_to_date(out, key):
        run(cmd + ["-o", out + ".tmp"])
        os.replace(out + ".tmp", out)
        stamp(out, key)
    return out


def py_includes():
    inc = subprocess.run(["/usr/bin/python3", "-c",
                          "import numpy,sysconfig;print(sysconfig.get_paths()['include']);print(numpy.get_include())"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    return ["-I" + i for i in inc]


def build(targets, log=lambda *a: None):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = generate()
    hh = sha(header_hash(), readb(os.path.join(gen, "glps.par.h")), readb(os.path.join(gen, "glps.tab.h")))
    variants = set()
    if set(targets) & {"py", "cli", "drv"}:
        variants.add("asan")
    if "tsan" in targets:
        variants.add("tsan")
    if "fuzz" in targets:
        variants.add("fuzz")
    base = ["-DUSE_HDF5", "-fPIC", "-w", "-I" + os.path.join(REPO, "src"), "-I" + gen,
            "-I/usr/include/hdf5/serial"]
    jobs, objs = [], {}
    pinc = py_includes() if "py" in targets else []

    def add(v, group, src, extra=(), c=False):
        cxx, cc, fl = SAN[v]
        flags = fl + base + list(extra)
        obj = os.path.join(OUT, v, group, os.path.basename(src) + ".o")
        key = sha(readb(src), hh, cc if c else cxx, " ".join(flags))
        jobs.append((cc if c else cxx, flags, src, obj, key))
        objs.setdefault((v, group), []).append(obj)

    for v in sorted(variants):
        for s in core_sources():
            add(v, "core", os.path.join(REPO, "src", s + ".cpp"))
        for s in ("glps.par.c", "glps.tab.c"):
            add(v, "core", os.path.join(gen, s), c=True)
    if "py" in targets:
        for s in PYMOD:
            add("asan", "py", os.path.join(REPO, "python", "flame", s + ".cpp"), pinc)
    if "cli" in targets:
        add("asan", "cli", os.path.join(REPO, "tools", "cli.cpp"))
    H = os.path.join(VERIF, "harness")
    if "drv" in targets:
        add("asan", "drv", os.path.join(H, "drv.cpp"))
    if "tsan" in targets:
        add("tsan", "thr", os.path.join(H, "thr.cpp"))
    if "fuzz" in targets:
        add("fuzz", "fuzz", os.path.join(H, "fuzz_parse.cpp"))
    n = compile_all(jobs)
    outs = {}

    def lk(v, groups, out, extra):
        o = [x for g in groups for x in objs[(v, g)]]
        return link([SAN[v][0]] + SAN[v][2] + o + extra + LIBS, os.path.join(OUT, out), o)
    if "py" in targets:
        pk = os.path.join(OUT, "pyroot", "flame")
        os.makedirs(pk, exist_ok=True)
        lk("asan", ["core", "py"], "pyroot/flame/_internal.so", ["-shared"])
        for f in glob.glob(os.path.join(REPO, "python", "flame", "*.py")):
            shutil.copy(f, pk)
        dd = os.path.join(pk, "data")
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "python", "flame", "data"), dd)
        outs["py"] = os.path.join(OUT, "pyroot")
    if "cli" in targets:
        outs["cli"] = lk("asan", ["core", "cli"], "flame-cli", ["-lboost_program_options"])
    if "drv" in targets:
        outs["drv"] = lk("asan", ["core", "drv"], "drv", [])
    if "tsan" in targets:
        outs["tsan"] = lk("tsan", ["core", "thr"], "thr", [])
    if "fuzz" in targets:
        outs["fuzz"] = lk("fuzz", ["core", "fuzz"], "fuzz_parse", ["-fsanitize=fuzzer"])
    lock.close()
    log("built %d objects" % n)
    return outs


if __name__ == "__main__":
    t = sys.argv[1:] or ["py", "cli", "drv", "tsan"]
    if t == ["all"]:
        t = ["py", "cli", "drv", "tsan", "fuzz"]
    try:
        print(build(t, print))
    except BuildError as e:
        sys.stderr.write("BUILD ERROR: %s\n" % e)
        sys.exit(3)
