import copy  # noqa: F401
import json  # noqa: F401
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np  # noqa: E402,F401
import funcs as F  # noqa: E402,F401
import imf  # noqa: E402,F401
import vf  # noqa: E402,F401
from vf import Check, Res, seed_of  # noqa: E402,F401


def rng_of(case):
    return np.random.default_rng(case["seed"])


def mkcases(kind_counts, tier, seed, cid, x=1):
    """{kind: (quick, thorough)} -> list of cases; x multiplies the quick counts"""
    out = []
    for kind, (q, t) in kind_counts.items():
        if q > 1:
            q, t = q * x, max(t, 3 * q * x)
        for i in range(q if tier == "quick" else t):
            out.append({"kind": kind, "i": i, "seed": seed_of(cid, kind, seed, i)})
    return out


def relerr(a, b, floor=0.0):
    """max |a-b| relative to |b| with a floor at `floor` times the peak of |b|"""
    pk = float(np.max(np.abs(b))) if b.size else 0.0
    return float(np.max(np.abs(a - b) / (np.abs(b) + floor * pk + 1e-30)))


def pkerr(a, b):
    pk = float(np.max(np.abs(b))) if b.size else 0.0
    return float(np.max(np.abs(a - b))) / pk if pk > 0 else float(np.max(np.abs(a - b)))


def makeimage(ctx, text, out="out.fits", args=(), name="cfg.dat", threads=1, exe="makeimage", timeout=90, env=None):
    with open(os.path.join(ctx.dir, name), "w") as f:
        f.write(text)
    p = os.path.join(ctx.dir, out)
    if os.path.exists(p):
        os.remove(p)
    r = imf.must(ctx.bins[exe], [name, "-o", out] + list(args) + (["--max-threads", str(threads)] if threads else []),
                 ctx.dir, threads=None, timeout=timeout, env=env)
    return imf.read_fits(p), r


def same_shape(res, key, im, nrows, ncols, what):
    if im.shape != (nrows, ncols):
        res.bad(key, "%s: image is %s, expected %s" % (what, im.shape, (nrows, ncols)))
        return False
    if not np.all(np.isfinite(im)):
        res.bad(key, "%s: %d non-finite pixels" % (what, int(np.sum(~np.isfinite(im)))))
        return False
    return True


def clean_report(t, extra=()):
    """report text without timing, dates and echoed file names/command lines"""
    import re
    out = []
    for ln in t.splitlines():
        if re.search(r"[Ee]lapsed time|seconds|[Dd]ate|Generated by|Reading |^# *(imfit|Command)|command line|Writing|Saving|saved to file", ln):
            continue
        if any(x in ln for x in extra):
            continue
        out.append(ln.rstrip())
    return "\n".join(out)


def clean_params(path, extra=()):
    try:
        return clean_report(open(path, errors="replace").read(), extra=("Command line", "command", "imfit ", "Date") + tuple(extra))
    except OSError as e:
        raise imf.ProgramFailure("missing-output", "no output: %s" % e)


def first_diff(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return "%r vs %r" % (x[:160], y[:160])
    return "lengths %d vs %d lines" % (len(a.splitlines()), len(b.splitlines()))
