"""Command-line fitting problems: starting values, limits, fixed flags, image sections."""
import os

import numpy as np

import fitprob as Q
import funcs as F
import imf

CLIARG = {"lm": [], "de": ["--de"], "delhs": ["--de-lhs"], "nm": ["--nm"]}
for _n in ("COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"):
    CLIARG["nl-" + _n] = ["--nlopt", _n]
SOLVERS = list(CLIARG)


class Fit:
    pass


def make(r, d, P, fixprob=.25, section=None, spread=.5, atlimit=.1, cfg="cfg.dat", pad=None, minfree=1):
    """writes the files of P and a configuration file into d; Fit has names, start, lo, hi, fixed (in the
    coordinates of the cut-out), dx, dy, args (without solver options)"""
    f = Fit()
    f.P = P
    nm = f.names = Q.names(P.model)
    v = f.truth = Q.vec(P.model)
    n = f.n = len(v)
    start, lo, hi = v.copy(), np.empty(n), np.empty(n)
    fixed = r.random(n) < fixprob
    while (~fixed).sum() < minfree:
        fixed[r.integers(n)] = False
    for i, (x, k) in enumerate(zip(v, nm)):
        wide = {"X0": 3, "Y0": 3, "PA": 60, "ell": .2, "n": .5, "I_sky": 5}.get(k, .5 * abs(x))
        a, b = x - wide * r.uniform(.3, 1), x + wide * r.uniform(.3, 1)
        if k == "ell":
            a, b = max(a, 0.01), min(b, .9)
        if k in ("n", "beta"):
            a = max(a, .6)
            b = max(b, a + .5)
        q = r.random()
        s = a if q < atlimit / 2 else b if q < atlimit else x + spread * r.uniform(a - x, b - x)
        lo[i], hi[i], start[i] = float("%.10g" % a), float("%.10g" % b), float("%.10g" % s)
        start[i] = min(max(start[i], lo[i]), hi[i])
    if section is None:
        section = r.random() < .3
    f.dx = f.dy = 0
    sec = ""
    if section:
        f.dx, f.dy = int(r.integers(0, 9)), int(r.integers(0, 9))
        px, py = int(r.integers(0, 6)), int(r.integers(0, 6))
        sec = "[%d:%d,%d:%d]" % (f.dx + 1, f.dx + P.nc, f.dy + 1, f.dy + P.nr)

        def embed(a, fill):
            big = np.full((P.nr + f.dy + py, P.nc + f.dx + px), float(fill))
            big[f.dy:f.dy + P.nr, f.dx:f.dx + P.nc] = a
            return big
    else:
        def embed(a, fill):
            return a
    f.sec = sec
    imf.write_fits(os.path.join(d, "d.fits"), embed(P.data, 7.5))
    f.opts = []
    if P.psf is not None:
        imf.write_fits(os.path.join(d, "psf.fits"), P.psf)
        f.opts += ["--psf", "psf.fits"] + ([] if P.norm else ["--no-normalize"])
    if P.maskraw is not None:
        imf.write_fits(os.path.join(d, "mask.fits"), embed(P.maskraw, 0))
        f.opts += ["--mask", "mask.fits" + sec] + (["--mask-zero-is-bad"] if P.zbad else [])
    if P.err is not None:
        imf.write_fits(os.path.join(d, "noise.fits"), embed(P.err, 1))
        f.opts += ["--noise", "noise.fits" + sec] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[P.noise]
    f.opts += {"data": [], "model": ["--model-errors"], "err": [], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}[P.stat]
    f.off = np.array([f.dx if k == "X0" else f.dy if k == "Y0" else 0 for k in nm], float)
    cnt = [0]
    # what the program works with
    f.glo, f.ghi, f.gstart = lo + f.off, hi + f.off, start + f.off
    f.lo, f.hi, f.start, f.fixed = f.glo - f.off, f.ghi - f.off, f.gstart - f.off, fixed

    def lim(si, fi, pn, x):
        i = cnt[0]
        cnt[0] += 1
        return "fixed" if fixed[i] else "%r,%r" % (f.glo[i], f.ghi[i])
    f.text = F.config_text(Q.setvec(P.model, f.gstart), limits=lim, head=Q.ccd_config(P))
    with open(os.path.join(d, cfg), "w") as h:
        h.write(f.text)
    f.image = "d.fits" + sec
    f.args = ["-c", cfg, f.image, "--no-subsampling"] + f.opts
    return f


def statkey(P):
    return {"mlr": "POISSON-MLR STATISTIC", "cash": "CASH STATISTIC"}.get(P.stat, "CHI-SQUARE")


def values(path):
    ps, hdr = imf.parse_params(path)
    return [q[0] for q in ps if q[0] != "FUNCTION"], np.array([q[1] for q in ps if q[0] != "FUNCTION"]), [q[2] for q in ps if q[0] != "FUNCTION"], hdr
