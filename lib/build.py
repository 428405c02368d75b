#!/usr/bin/env python3
"""Build the sources of /repo's current working tree, out of tree, in several flavours.

  plain : -O2, real libgomp                      (numerical differentials, workloads)
  asan  : -O1 ASan+UBSan, libstdc++ assertions   (memory / UB monitors)
  tsan  : -O1 TSan + /verif's own OpenMP runtime (race monitor)

All translation units of core/, solvers/, cdream/, function_objects/ that compile go in one
static library (main programs apart), so a source file that is added, split or renamed is
picked up without this file knowing its name.  Objects are cached by content.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INC = [".", "core", "solvers", "cdream", "cdream/include", "function_objects",
       "function_objects_1d", "profile_fitting"]
DEFS = ["ANSI", "USING_SCONS", "LINUX", "FFTW_THREADING", "USE_OPENMP"]
BASE = ["-std=c++11", "-msse2", "-fPIC", "-w", "-include", "cstring"]
FLAVOURS = {
    "plain": ["-O2", "-g1", "-fopenmp", "-D_FORTIFY_SOURCE=2"],
    "asan": ["-O1", "-g1", "-fopenmp", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fopenmp", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
LIBS = ["-lm", "-lpthread", "-lcfitsio", "-lfftw3", "-lfftw3_threads", "-lgsl", "-lgslcblas",
        "-lnlopt", "-ldl"]
PROGRAMS = {
    "imfit": "core/imfit_main.cpp",
    "makeimage": "core/makeimage_main.cpp",
    "imfit-mcmc": "core/mcmc_main.cpp",
    "makemultimages": "core/makemultimages_main.cpp",
    "multimfit": "core/multimfit_main.cpp",
    "psfconvolve1d": "profile_fitting/psfconvolve1d_main.cpp",
}
LIBDIRS = ["core", "solvers", "cdream", "function_objects"]
P1D = ["profile_fitting/read_profile.cpp", "profile_fitting/convolver1d.cpp"]


class BuildError(Exception):
    pass


def _headers_hash():
    h = hashlib.sha256()
    fs = []
    for d in LIBDIRS + ["profile_fitting", "loguru", "cdream/include"]:
        for ext in ("*.h", "*.hpp"):
            fs += glob.glob(os.path.join(REPO, d, ext))
    for f in sorted(fs):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.digest()


def _compile(src, flags, obj):
    if os.path.exists(obj):
        return obj, None
    comp = "gcc" if src.endswith(".c") else "g++"
    fl = [f for f in flags if not (comp == "gcc" and f == "-std=c++11")]
    if comp == "gcc":
        fl = [f for f in fl if f not in ("-include", "cstring")]
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run([comp] + fl + ["-c", src, "-o", tmp], cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    os.replace(tmp, obj)
    return obj, None


def build(flavour, programs=(), harness=(), jobs=None):
    """Returns {name: path of executable}.  harness: list of (name, [sources in /verif])."""
    jobs = jobs or os.cpu_count() or 4
    os.makedirs(os.path.join(BUILD, flavour, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, flavour, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(flavour, programs, harness, jobs)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(flavour, programs, harness, jobs):
    bdir = os.path.join(BUILD, flavour)
    flags = BASE + FLAVOURS[flavour] + ["-I" + i for i in INC] + ["-D" + d for d in DEFS]
    hh = _headers_hash()

    def objname(src, extra=()):
        h = hashlib.sha256()
        h.update(hh)
        h.update(repr((flags, extra, os.path.basename(src))).encode())
        with open(os.path.join(REPO, src), "rb") as fh:
            h.update(fh.read())
        return os.path.join(bdir, "obj", os.path.basename(src).rsplit(".", 1)[0] + "-" + h.hexdigest()[:16] + ".o")

    mains = set(PROGRAMS.values())
    lib = []
    for d in LIBDIRS:
        for s in sorted(glob.glob(os.path.join(REPO, d, "*.cpp")) + glob.glob(os.path.join(REPO, d, "*.c"))):
            rel = os.path.relpath(s, REPO)
            if rel in mains or rel.endswith("_main.cpp"):
                continue
            lib.append(rel)
    tasks = [(s, objname(s)) for s in lib]
    if "psfconvolve1d" in programs or any(len(h) > 2 and h[2] == "psfconvolve1d" for h in harness):
        tasks += [(s, objname(s)) for s in P1D]
    for p in programs:
        tasks.append((PROGRAMS[p], objname(PROGRAMS[p])))
    hobj = {}
    hflags = flags + ["-I" + os.path.join(VERIF, "harness")]
    # an item may name a program: the harness sources are then linked into that program
    bases = {h[0]: h[2] for h in harness if len(h) > 2}
    harness = [(h[0], h[1]) for h in harness]
    for p in bases.values():
        tasks.append((PROGRAMS[p], objname(PROGRAMS[p])))
    for name, srcs in harness:
        hobj[name] = []
        for s in srcs:
            s = os.path.join(VERIF, s)
            h = hashlib.sha256(hh + repr(hflags).encode() + open(s, "rb").read())
            for hd in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
                h.update(open(hd, "rb").read())
            o = os.path.join(bdir, "obj", "h-" + os.path.basename(s).rsplit(".", 1)[0] + "-" + h.hexdigest()[:16] + ".o")
            hobj[name].append(o)
            tasks.append((s, o))
    if flavour == "tsan":
        s = os.path.join(VERIF, "harness", "minigomp.c")
        h = hashlib.sha256(repr(hflags).encode() + open(s, "rb").read())
        gomp = os.path.join(bdir, "obj", "minigomp-" + h.hexdigest()[:16] + ".o")
        tasks.append((s, gomp))
    # the largest sources first
    tasks = list(dict.fromkeys(tasks))
    tasks.sort(key=lambda t: -os.path.getsize(os.path.join(REPO, t[0])))
    errs, ok = {}, {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(_compile, s, hflags if s.startswith(VERIF) else flags, o): (s, o) for s, o in tasks}
        for f in cf.as_completed(futs):
            s, o = futs[f]
            obj, err = f.result()
            if obj is None:
                errs[s] = err
            else:
                ok[s] = obj
    must = set(PROGRAMS[p] for p in list(programs) + list(bases.values())) | set(s for _, ss in harness for s in [os.path.join(VERIF, x) for x in ss])
    for s in must:
        if s in errs:
            raise BuildError("cannot compile %s:\n%s" % (s, errs[s][:4000]))
    libobjs = sorted(ok[s] for s in lib if s in ok)
    lh = hashlib.sha256("\n".join(libobjs).encode()).hexdigest()[:16]
    liba = os.path.join(bdir, "libimfit-%s.a" % lh)
    if not os.path.exists(liba):
        tmp = liba + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        subprocess.run(["ar", "rcs", tmp] + libobjs, check=True)
        os.replace(tmp, liba)
    link = [f for f in FLAVOURS[flavour] if f.startswith("-fsan") or f.startswith("-g")]
    tail = list(LIBS)
    if flavour == "tsan":
        post = [gomp]
    else:
        post = []
        link.append("-fopenmp")
    out = {}

    def dolink(name, objs, libs, local):
        h = hashlib.sha256(repr((objs, libs, link, tail, local)).encode()).hexdigest()[:16]
        exe = os.path.join(bdir, h, name)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            r = subprocess.run(["g++"] + link + ["-rdynamic", "-o", exe + ".tmp"] + objs + libs + post + tail,
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("cannot link %s:\n%s\ncompile errors: %s" % (
                    name, r.stderr[:3000], {k: v[:600] for k, v in errs.items()}))
            os.replace(exe + ".tmp", exe)
        return name, exe

    jobsl = []
    for p in programs:
        objs = [ok[PROGRAMS[p]]]
        if p == "psfconvolve1d":
            objs += [ok[s] for s in P1D if s in ok]
        jobsl.append((p, objs, [liba], None))
    for name, srcs in harness:
        extra = [ok[PROGRAMS[bases[name]]]] if name in bases else []
        if bases.get(name) == "psfconvolve1d":
            extra += [ok[s] for s in P1D if s in ok]
        jobsl.append((name, hobj[name] + extra, [liba], None))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for name, exe in ex.map(lambda a: dolink(*a), jobsl):
            out[name] = exe
    return out


ALL = list(PROGRAMS)

if __name__ == "__main__":
    import time
    for fl in sys.argv[1:] or ["plain", "asan"]:
        t = time.time()
        print(fl, build(fl, ALL), "%.1fs" % (time.time() - t))
