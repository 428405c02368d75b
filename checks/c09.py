#!/usr/bin/env python3
"""C09: saved weight images against the documented noise model; equivalent ways of giving the noise must agree."""
from common import *
import fitprob as Q
import re


def stat_of(t):
    return imf.find_num(t, r"(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = NUM")


class C(Check):
    id = "C09"
    programs = ("imfit", "multimfit")
    rule = ("random CCD settings, data, noise maps, masks, PSFs; every pixel of the saved weight image compared; pairs of "
            "equivalent descriptions (command line / configuration file, sigma / variance / weight, product of gain, exposure "
            "time and number of images, change of units) compared through the fit statistic; signature = kind + statistic + settings")
    assumptions = ["noise^2 = (counts + sky)/(gain*exptime*ncombined) + ncombined*readnoise^2/(gain*exptime*ncombined)^2, counts "
                   "below zero giving no shot noise, as documented for the GAIN, READNOISE, EXPTIME, NCOMBINED and ORIGINAL_SKY options"]

    def cases(self, tier, seed):
        return mkcases({"weights": (150, 1500), "where": (60, 600), "mapkind": (60, 600), "units": (60, 600), "product": (40, 400), "override": (40, 300),
                        "multi": (30, 200)},
                       tier, seed, self.id, x=8)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        st = {"mapkind": "err"}.get(kind) or str(r.choice(["data", "model", "err", "cash", "mlr"] if kind in ("weights", "where", "override", "multi")
                                                          else ["data", "model", "mlr", "cash"]))
        if kind == "override" and st == "err":
            st = "data"
        P = Q.make(r, stat=st, nonfinite=False if kind in ("units", "mapkind") else None)
        if kind in ("weights",) and st == "cash":
            P.stat = st = "mlr"
        desc = "%s %s %dx%d gain=%g rn=%g t=%g N=%d sky=%g psf=%s noise=%s mask=%s" % (kind, st, P.nc, P.nr, P.gain, P.rdn, P.exptime, P.ncomb, P.sky,
                                                                              None if P.psf is None else P.psf.shape, P.noise, P.maskraw is not None)
        if P.valid.sum() < 3:
            return res
        im = Q.image(P, P.model)

        def go(sub, args, cfgtext, P2=None):
            d = os.path.join(ctx.dir, sub)
            os.makedirs(d, exist_ok=True)
            Q.write(P2 or P, d)
            open(os.path.join(d, "cfg.dat"), "w").write(cfgtext)
            x = imf.must(ctx.bins["imfit"], ["-c", "cfg.dat", "d.fits", "--no-subsampling", "--max-threads", "1"] + args, d)
            return d, x

        allfixed = lambda si, fi, pn, v: "fixed"  # noqa: E731
        free1 = [True]

        def one_free(si, fi, pn, v):
            if pn == "I_sky" and free1[0]:
                free1[0] = False
                return ""
            return "fixed"
        if kind == "weights":
            incfg = r.random() < .5
            # a fit with one free linear parameter; weights of model-based errors refer to the final model
            d, x = go("a", Q.opts(P) + ([] if incfg else Q.ccd(P)) + ["--save-weights", "w.fits", "--save-model", "m.fits", "--save-params", "p.dat"],
                      F.config_text(P.model, limits=one_free, head=Q.ccd_config(P) if incfg else ""))
            w = imf.read_fits(os.path.join(d, "w.fits"))
            m = imf.read_fits(os.path.join(d, "m.fits"))
            if w.shape != (P.nr, P.nc):
                res.bad("shape", desc + ": weight image has shape %s" % (w.shape,))
                return res
            want = Q.weights(P, m) ** 2
            bad = ~(np.abs(w - want) <= 3e-5 * np.abs(want) + 1e-37)
            if bad.any():
                j, i = np.argwhere(bad)[0]
                res.bad("weight-" + st, "%s: weight of pixel (%d,%d) is %.9g, expected %.9g (data %.6g model %.6g); %d pixels off" % (
                    desc, i + 1, j + 1, w[j, i], want[j, i], P.data[j, i], m[j, i], int(bad.sum())))
            res.seen("weights_compared", w.size)
        elif kind in ("where", "override"):
            a = go("a", Q.opts(P) + Q.ccd(P) + ["--fitstat-only"], F.config_text(P.model))[1]
            if kind == "where":
                head = Q.ccd_config(P)
                b = go("b", Q.opts(P) + ["--fitstat-only"], F.config_text(P.model, head=head))[1]
            else:
                # a command-line value takes precedence over one in the configuration file
                P3 = copy.copy(P)
                P3.gain, P3.rdn, P3.exptime, P3.ncomb, P3.sky = P.gain * 3, P.rdn + 5, P.exptime * 2, P.ncomb + 2, P.sky + 44
                full = ["--gain", repr(P.gain), "--readnoise", repr(P.rdn), "--exptime", repr(P.exptime), "--ncombined", str(P.ncomb), "--sky", repr(P.sky)]
                b = go("b", Q.opts(P) + full + ["--fitstat-only"], F.config_text(P.model, head=Q.ccd_config(P3)))[1]
            ra, rb = [re.findall(r"(?:STATISTIC|CHI-SQUARE|AIC|BIC|Reduced[^=]*) = [^\n,]*", t.out) for t in (a, b)]
            if ra != rb or not ra:
                res.bad(kind, "%s: %s with options, %s with %s" % (desc, ra[:1], rb[:1], "configuration-file settings" if kind == "where" else
                                                                   "options overriding configuration-file settings"))
            s = Q.stat(P, im)
            if not abs(stat_of(a.out) - s) <= 2e-6 * Q.stat_scale(P, im) + 1e-5:
                res.bad(kind + ":value", "%s: statistic %s, expected %.9g" % (desc, stat_of(a.out), s))
            res.seen("pairs_compared")
        elif kind == "mapkind":
            sg = np.where(np.isfinite(P.sigma_map) & (P.sigma_map > 0), P.sigma_map, 1.0)
            vals = []
            for nk, e in (("sigma", sg), ("var", sg ** 2), ("weight", sg ** -2.0)):
                P2 = copy.copy(P)
                P2.noise, P2.err = nk, e
                d, x = go(nk, Q.opts(P2) + ["--fitstat-only"], F.config_text(P.model), P2)
                vals.append(stat_of(x.out))
            P2 = copy.copy(P)
            P2.w = 1 / sg
            s = Q.stat(P2, im)
            for nk, v in zip(("sigma", "var", "weight"), vals):
                if v is None or not abs(v - s) <= 2e-6 * s + 2e-6:
                    res.bad("mapkind-" + nk, "%s: statistic %s with a noise map of kind %s, expected %.9g" % (desc, v, nk, s))
            # the CCD settings do not enter when a noise map is given
            P2 = copy.copy(P)
            P2.noise, P2.err = "sigma", sg
            d, x = go("ccd", Q.opts(P2) + Q.ccd(P) + ["--fitstat-only"], F.config_text(P.model), P2)
            if stat_of(x.out) != vals[0]:
                res.bad("mapkind-ccd", "%s: CCD settings changed chi-square with a noise map: %s / %s" % (desc, vals[0], stat_of(x.out)))
            res.seen("maps_compared", 4)
        elif kind == "units":
            # counts in other units: data, model, sky times k and gain divided by k (chi2, MLR and Cash invariant)
            k = float(r.choice([0.25, 4.0, 16.0]))
            P2 = copy.copy(P)
            P2.data, P2.gain, P2.sky = P.data * k, P.gain / k, P.sky * k
            m2 = copy.deepcopy(P.model)
            for s_ in m2["sets"]:
                for f in s_["funcs"]:
                    for n in F.INTENSITY & set(f["p"]):
                        f["p"][n] *= k
            a = go("a", Q.opts(P) + Q.ccd(P) + ["--fitstat-only"], F.config_text(P.model))[1]
            b = go("b", Q.opts(P) + Q.ccd(P2) + ["--fitstat-only"], F.config_text(m2), P2)[1]
            va, vb = stat_of(a.out), stat_of(b.out)
            if va is None or vb is None or not abs(va - vb) <= 4e-6 * Q.stat_scale(P, im) + 3e-6:
                res.bad("units-" + st, "%s: %s, in units %g times smaller %s" % (desc, va, k, vb))
            res.seen("pairs_compared")
        elif kind == "product":
            # for data without read noise only the product of gain, time and number of images matters
            P.rdn = 0.0
            if st == "data":
                P.data = np.where(np.isfinite(P.data), np.abs(P.data) + 1, P.data)
            tot = P.gain * P.exptime * P.ncomb
            vals = []
            for i in range(3):
                P2 = copy.copy(P)
                P2.ncomb = int(r.integers(1, 6))
                P2.exptime = float(np.round(r.uniform(.5, 20), 2))
                P2.gain = tot / P2.ncomb / P2.exptime
                x = go("p%d" % i, Q.opts(P) + Q.ccd(P2) + ["--fitstat-only"], F.config_text(P.model), P)[1]
                vals.append(stat_of(x.out))
            if any(v is None for v in vals) or max(vals) - min(vals) > 4e-6 * Q.stat_scale(P, im) + 3e-6:
                res.bad("product-" + st, "%s: same gain*time*number, statistics %s" % (desc, vals))
            res.seen("triples_compared")
        elif kind == "multi":
            # the same settings, masks and noise maps given through an image-description file
            Q.write(P, ctx.dir)
            open(os.path.join(ctx.dir, "cfg.dat"), "w").write(F.config_text(P.model))
            L = ["IMAGE_START", "DATA d.fits"]
            if P.maskraw is not None:
                L.append("MASK mask.fits")
                if P.zbad:
                    L.append("MASK_ZERO_IS_BAD yes")
            if P.err is not None:
                L.append("ERROR noise.fits")
                if P.noise == "var":
                    L.append("ERRORS_ARE_VARIANCES yes")
                if P.noise == "weight":
                    L.append("ERRORS_ARE_WEIGHTS yes")
            if P.psf is not None:
                L.append("PSF psf.fits")
            L += ["GAIN %r" % P.gain, "READNOISE %r" % P.rdn, "EXPTIME %r" % P.exptime, "NCOMBINED %d" % P.ncomb, "ORIGINAL_SKY %r" % P.sky]
            order = L[2:]
            r.shuffle(order)
            L[2:] = order
            open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(L) + "\n")
            a = ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--fitstat-only"]
            a += {"data": [], "model": ["--model-errors"], "err": [], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}[st]
            if not P.norm:
                P.norm = True
                im = Q.image(P, P.model)
            if st in ("cash", "mlr") and (im + P.sky)[P.valid].min() <= 0:
                return res
            x = imf.must(ctx.bins["multimfit"], a, ctx.dir)
            s = Q.stat(P, im)
            v = stat_of(x.out)
            if v is None or not abs(v - s) <= 3e-6 * Q.stat_scale(P, im) + 1e-5:
                res.bad("multi-" + st, "%s: multimfit statistic %s, expected %.9g" % (desc, v, s))
            res.seen("multi_compared")
        res.nontrivial((kind, st, P.noise, P.psf is not None, P.ncomb > 1, P.sky > 0, P.rdn > 0))
        res.sample = {"what": desc}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
