#!/usr/bin/env python3
"""C07: the printed fit statistic, degrees of freedom, reduced value, AIC and BIC against their definitions."""
from common import *
import fitprob as Q


def expect_block(t):
    g = {}
    g["stat"] = imf.find_num(t, r"(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = NUM")
    m = re.search(r"\((-?\d+) DOF\)", t)
    g["dof"] = int(m.group(1)) if m else None
    g["red"] = imf.find_num(t, r"Reduced Chi\^2(?: equivalent)? = NUM")
    g["aic"] = imf.find_num(t, r"AIC = NUM")
    g["bic"] = imf.find_num(t, r"BIC = NUM")
    g["init"] = imf.find_num(t, r"INITIAL (?:CHI\^2|CASH STATISTIC|POISSON-MLR STATISTIC) = NUM")
    return g


import re  # noqa: E402


def compare(res, key, desc, g, stat, scale, k, n, tol=2e-6, need=("stat",)):
    sl = tol * max(scale, abs(stat)) + 2e-6

    def chk(name, want, slack):
        got = g.get(name)
        if got is None:
            if name in need:
                res.bad(key + ":" + name, "%s: no %s printed" % (desc, name))
            return
        if not (abs(got - want) <= slack):
            res.bad(key + ":" + name, "%s: %s is %.9g, expected %.9g" % (desc, name, got, want))
        res.seen("numbers_compared")
    chk("stat", stat, sl)
    if g.get("dof") is not None:
        chk("dof", n - k, 0)
    if n - k > 0:
        chk("red", stat / (n - k), sl / (n - k) + 1e-6)
    if n - k - 1 > 0:
        chk("aic", stat + 2 * k + 2.0 * k * (k + 1) / (n - k - 1), sl + 1e-6)
    chk("bic", stat + k * np.log(n), sl + 1e-6)


class C(Check):
    id = "C07"
    programs = ("imfit",)
    rule = ("random models, data, masks (both conventions), noise maps of the three kinds, PSFs, CCD settings and fixed "
            "flags, image sections; signature = statistic + mask + PSF + noise kind + non-finite pixels")
    assumptions = ["model + sky > 0 where a Poisson statistic is taken (elsewhere it is undefined)",
                   "comparison to 2e-6 of the sum of absolute terms (round-off of FFT and of printing)"]

    def cases(self, tier, seed):
        return mkcases({"only": (500, 5000), "fit": (60, 800), "tiny": (60, 600), "outlier": (40, 400)}, tier, seed, self.id, x=6)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        if kind == "fit":
            P = Q.make(r, stat=str(r.choice(["data", "model", "err", "mlr"])), model="easy", size=(16, 30), nonfinite=False)
        elif kind == "tiny":
            P = Q.make(r, size=(1, 7))
        else:
            P = Q.make(r)
        if kind == "outlier":
            # pixels far away from the model: the statistic must still be the plain sum
            k = int(r.integers(1, 5))
            idx = r.integers(0, P.data.size, k)
            good = np.isfinite(P.data.flat[idx])
            mult = r.choice([1e3, 1e5, -30.0 if P.rdn or P.stat != "data" else 10.0], k) if P.stat not in ("cash", "mlr") else r.choice([1e3, 1e4], k)
            vals = np.where(good, np.abs(P.data.flat[idx]) * mult + 1, P.data.flat[idx])
            P.data.flat[idx] = vals
        if P.valid.sum() < 1:
            return res
        start = P.model
        if kind == "only" or kind == "outlier":
            # evaluate away from the model the data were drawn from
            v = Q.vec(P.model)
            nm = Q.names(P.model)
            v = np.array([x * (1 + .1 * r.normal()) if n in F.INTENSITY or n in F.LENGTH else x for x, n in zip(v, nm)])
            start = Q.setvec(P.model, v)
        fixed = set()
        nm = Q.names(start)
        frac = r.choice([0, .3, 1.0]) if kind != "fit" else r.choice([0, .2])
        fixed = {i for i in range(len(nm)) if r.random() < frac}
        if len(fixed) == len(nm) and kind == "fit":
            fixed = set()
        cnt = [0]

        def lim(si, fi, pn, v):
            i = cnt[0]
            cnt[0] += 1
            if i in fixed:
                return "fixed"
            return "%r,%r" % Q.limit_of(pn, v) if kind == "fit" else ""
        Q.write(P, ctx.dir)
        incfg = r.random() < .4
        with open(os.path.join(ctx.dir, "cfg.dat"), "w") as f:
            f.write(F.config_text(start, limits=lim, head=Q.ccd_config(P) if incfg else ""))
        args = ["-c", "cfg.dat", "d.fits", "--no-subsampling", "--max-threads", "1"] + Q.opts(P) + ([] if incfg else Q.ccd(P))
        k = len(nm) - len(fixed)
        n = int(P.valid.sum())
        im = Q.image(P, start)
        if P.stat in ("cash", "mlr") and (im + P.sky)[P.valid].min() <= 0:
            return res
        desc = "%s %s %dx%d psf=%s mask=%s noise=%s gain=%g rn=%g t=%g N=%d sky=%g fixed=%d/%d nonfinite=%d" % (
            kind, P.stat, P.nc, P.nr, None if P.psf is None else P.psf.shape, None if P.maskraw is None else ("zero-bad" if P.zbad else "zero-good"),
            P.noise, P.gain, P.rdn, P.exptime, P.ncomb, P.sky, len(fixed), len(nm), int((~np.isfinite(P.data)).sum()))
        s = Q.stat(P, im)
        sc = Q.stat_scale(P, im)
        if kind != "fit":
            x = imf.must(ctx.bins["imfit"], args + ["--fitstat-only"], ctx.dir)
            g = expect_block(x.out)
            compare(res, P.stat, desc, g, s, sc, k, n)
            res.seen("evaluations_" + P.stat)
        else:
            x = imf.must(ctx.bins["imfit"], args + ["--save-params", "p.dat", "--save-model", "m.fits"], ctx.dir)
            t = x.out
            if "NFEV" not in t:
                res.bad("no-report", desc + ": no fit report")
                return res
            g = expect_block(t)
            if P.stat != "model" and g["init"] is not None and not (abs(g["init"] - s) <= 2e-6 * max(sc, s) + 2e-6):
                res.bad(P.stat + ":initial", "%s: initial statistic %.9g, expected %.9g" % (desc, g["init"], s))
            mi = imf.read_fits(os.path.join(ctx.dir, "m.fits"))
            sf = Q.stat(P, mi)
            # a float-precision model image; the statistic at the reported solution.
            # (L-M minimises with the weights of the moment, so model-based errors are evaluated at the final model too)
            compare(res, "fit-" + P.stat, desc, g, sf, Q.stat_scale(P, mi), k, n, tol=3e-5)
            ps, hdr = imf.parse_params(os.path.join(ctx.dir, "p.dat"))
            h = imf.header_stats(hdr)
            h2 = dict(stat=h["best"], red=h["red"], aic=h["aic"], bic=h["bic"])
            compare(res, "saved-" + P.stat, desc, h2, sf, Q.stat_scale(P, mi), k, n, tol=3e-5)
            res.seen("fits_" + P.stat)
        res.nontrivial((kind, P.stat, P.maskraw is not None, P.zbad, P.psf is not None, P.noise, bool((~np.isfinite(P.data)).any()), P.ncomb > 1, P.sky > 0, len(fixed) > 0, incfg))
        res.sample = {"what": desc, "stat": s}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
