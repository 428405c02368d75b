#!/usr/bin/env python3
"""C08: two runs that differ only in what masked pixels hold must agree in every output."""
from common import *
import fitprob as Q

GARBAGE = [0.0, -1.0, 1e30, -1e30, 3.4e38, np.nan, np.inf, -np.inf, 1e-30, 12345.678]


def garble(r, P, which):
    """copies of data / noise with the masked pixels (by the mask image alone) overwritten"""
    mk = ~Q.maskok(P.maskraw, P.zbad)
    d = P.data.copy()
    n = int(mk.sum())
    d[mk] = r.choice(GARBAGE, n)
    e = None
    if P.err is not None:
        e = P.err.copy()
        e[mk] = r.choice(GARBAGE, n)
    return d, e, n


class C(Check):
    id = "C08"
    programs = ("imfit", "imfit-mcmc")
    rule = ("pairs of runs on data that differ only in masked pixels (arbitrary finite and non-finite values in data and noise "
            "map), over statistics, solvers, bootstrap and MCMC; pairs with the mask expressed in the other convention, by "
            "non-finite data or by unusable noise values; signature = kind + statistic + solver + convention + PSF")
    assumptions = ["masked values up to 3.4e38 in magnitude (the float range of common image files) or non-finite"]

    def cases(self, tier, seed):
        return mkcases({"statonly": (150, 2000), "lm": (60, 800), "nm": (16, 200), "de": (16, 200), "boot": (24, 200), "convention": (40, 400),
                        "nanmask": (40, 400), "mcmc": (10, 80), "allmasked": (10, 60), "section": (20, 200)}, tier, seed, self.id, x=6)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        stats = ["data", "model", "err", "mlr"] + (["cash"] if kind in ("statonly", "nm", "de", "nanmask", "convention", "allmasked", "mcmc") else [])
        st = str(r.choice(stats))
        P = Q.make(r, stat=st, masked=True, model="easy" if kind not in ("statonly",) else "pos", size=(14, 26) if kind != "statonly" else (4, 30),
                   nonfinite=False, psf=None if kind not in ("de", "mcmc") else False)
        mk = ~Q.maskok(P.maskraw, P.zbad)
        if not mk.any() or P.valid.sum() < 12:
            mk.flat[int(r.integers(mk.size))] = True
            P.maskraw = np.where(mk, 0.0 if P.zbad else 1.0, 1.0 if P.zbad else 0.0)
            Q.fixdata(P, r, False)
        solver = {"nm": ["--nm"], "de": ["--de", "--seed", "7"], "mcmc": []}.get(kind, [])
        if kind in ("convention", "nanmask", "statonly", "allmasked") and st == "cash":
            solver = ["--fitstat-only"]
        if kind == "statonly":
            solver = ["--fitstat-only"]
        if kind == "boot":
            solver = ["--bootstrap", "5", "--save-bootstrap", "b.dat", "--seed", "11"]
        limfun = (lambda si, fi, pn, v: "%r,%r" % Q.limit_of(pn, v)) if kind not in ("statonly",) else (lambda si, fi, pn, v: "")
        start = P.model
        if kind in ("de", "mcmc", "nm"):
            # few free parameters keep these cheap
            keep = {("I_0"), "I_e", "I_sky"}
            limfun = lambda si, fi, pn, v: ("%r,%r" % (v * .5, v * 2)) if pn in keep else "fixed"  # noqa: E731
        cfg = F.config_text(start, limits=limfun, head=Q.ccd_config(P))
        if kind == "statonly" and st != "model" and r.random() < .6:
            # a model that is negative where there is no valid pixel (and possibly around it)
            jy, jx = np.argwhere(mk)[int(r.integers(mk.sum()))]
            cfg += F.config_text(dict(sets=[dict(x0=float(jx + 1), y0=float(jy + 1), funcs=[dict(name="Gaussian", p=dict(
                PA=0.0, ell=0.0, I_0=-float(10 ** r.uniform(3, 6)), sigma=float(r.uniform(.3, 2))))])]), limits=limfun)
            res.seen("negative_models")
        desc = "%s %s %dx%d masked=%d/%d %s psf=%s noise=%s" % (kind, st, P.nc, P.nr, int(mk.sum()), mk.size, "zero-bad" if P.zbad else "zero-good",
                                                              None if P.psf is None else P.psf.shape, P.noise)

        def go(sub, data, err, maskraw, zbad, extra=(), img="d.fits", secs=""):
            d = os.path.join(ctx.dir, sub)
            os.makedirs(d)
            P2 = copy.copy(P)
            P2.data, P2.err, P2.maskraw, P2.zbad = data, err, maskraw, zbad
            Q.write(P2, d)
            open(os.path.join(d, "cfg.dat"), "w").write(cfg)
            o = Q.opts(P2)
            if secs:
                o = [x + secs if x in ("mask.fits", "noise.fits") else x for x in o]
            if kind == "mcmc":
                imf.must(ctx.bins["imfit-mcmc"], ["-c", "cfg.dat", img + secs, "--no-subsampling", "--max-threads", "1", "-o", "ch", "--nchains", "4", "--max-chain-length", "60",
                                                 "--burnin-length", "20", "--seed", "5"] + o, d)
                return {"chain%d" % k: clean_params(os.path.join(d, "ch.%d.txt" % k), ("mcmc",)) for k in range(1, 5)}, {}
            a = ["-c", "cfg.dat", img + secs, "--no-subsampling", "--max-threads", "1"] + o + solver + list(extra)
            if "--fitstat-only" not in solver:
                a += ["--save-params", "p.dat", "--save-model", "m.fits", "--save-residual", "r.fits", "--save-weights", "w.fits"]
            x = imf.must(ctx.bins["imfit"], a, d)
            t = {"report": clean_report(x.out, ("non-finite", "treating zero"))}
            ims = {}
            if "--fitstat-only" not in solver:
                t["params"] = clean_params(os.path.join(d, "p.dat"))
                for k in ("m", "r", "w"):
                    ims[k] = imf.read_fits(os.path.join(d, k + ".fits"))
            if kind == "boot":
                t["boot"] = clean_params(os.path.join(d, "b.dat"))
            return t, ims

        def same(tag, A, B, valid):
            for k in A[0]:
                if A[0][k] != B[0][k]:
                    res.bad(tag + ":" + k, "%s: the %s differs: %s" % (desc, k, first_diff(A[0][k], B[0][k])))
                res.seen("texts_compared")
            for k in A[1]:
                a, b = A[1][k], B[1][k]
                if k == "r":
                    a, b = np.where(valid, a, 0), np.where(valid, b, 0)
                if not np.array_equal(a, b, equal_nan=True):
                    res.bad(tag + ":image-" + k, "%s: saved image %s differs at %d pixels" % (desc, k, int((a != b).sum())))
                if k == "w" and np.any(a[~valid] != 0):
                    res.bad(tag + ":masked-weight", "%s: %d masked pixels have a weight" % (desc, int((a[~valid] != 0).sum())))
                res.seen("images_compared")

        if kind == "allmasked":
            P.maskraw = np.zeros_like(P.maskraw) if P.zbad else np.ones_like(P.maskraw)
            Q.write(P, ctx.dir)
            open(os.path.join(ctx.dir, "cfg.dat"), "w").write(cfg)
            x = imf.run(ctx.bins["imfit"], ["-c", "cfg.dat", "d.fits", "--max-threads", "1"] + Q.opts(P) + solver, ctx.dir)
            if x.timeout or x.sanitizer() or x.rc == 0:
                res.bad("all-masked", "%s: an image without a valid pixel was accepted (status %s)" % (desc, x.rc))
            res.seen("refusals")
            res.nontrivial((kind, st, P.zbad))
            return res
        A = go("a", P.data, P.err, P.maskraw, P.zbad)
        if kind in ("statonly", "lm", "nm", "de", "boot", "mcmc"):
            for i in range(2):
                d2, e2, n = garble(r, P, i)
                B = go("b%d" % i, d2, e2, P.maskraw, P.zbad)
                same("garbage-" + kind, A, B, ~mk)
                res.seen("masked_pixels_garbled", n)
            if A[0].get("report"):
                g = imf.find_num(A[0]["report"], r"= NUM    \(")
                if g is not None and not np.isfinite(g):
                    res.bad("nonfinite-stat", desc + ": statistic is not finite")
        elif kind == "convention":
            m2 = np.where(mk, 1.0, 0.0) if P.zbad else np.where(mk, 0.0, 1.0)
            same("convention", A, go("b", P.data, P.err, m2, not P.zbad), ~mk)
        elif kind == "nanmask":
            # the same pixels excluded by being non-finite instead of by the mask
            how = str(r.choice(["data", "noise"])) if P.err is not None else "data"
            d2, e2 = P.data.copy(), P.err
            if how == "data":
                d2[mk] = r.choice([np.nan, np.inf, -np.inf], int(mk.sum()))
            else:
                e2 = P.err.copy()
                e2[mk] = {"sigma": [0.0, np.nan], "var": [0.0, np.nan, -2.0], "weight": [-1.0, np.nan]}[P.noise][int(r.integers(2))]
            mraw = np.ones_like(P.maskraw) if P.zbad else np.zeros_like(P.maskraw)
            same("nanmask-" + how, A, go("b", d2, e2, mraw, P.zbad), ~mk)
        elif kind == "section":
            # inside a section of a larger image, with garbage all around it
            x0, y0 = int(r.integers(0, 6)), int(r.integers(0, 6))
            x1, y1 = int(r.integers(0, 6)), int(r.integers(0, 6))

            def pad(a):
                if a is None:
                    return None
                b = r.choice([np.nan, 1e30, -5.0], (a.shape[0] + y0 + y1, a.shape[1] + x0 + x1))
                b[y0:y0 + a.shape[0], x0:x0 + a.shape[1]] = a
                return b
            sec = "[%d:%d,%d:%d]" % (x0 + 1, x0 + P.nc, y0 + 1, y0 + P.nr)
            m2 = copy.deepcopy(start)
            for s in m2["sets"]:
                s["x0"] += x0
                s["y0"] += y0
            cfg = F.config_text(m2, limits=limfun, head=Q.ccd_config(P))
            d2, e2, n = garble(r, P, 0)
            B = go("b", pad(d2), pad(e2), pad(P.maskraw), P.zbad, secs=sec)
            for k in B[1]:
                a, b = A[1][k], B[1][k]
                a, b = np.where(mk, 0, a), np.where(mk, 0, b)
                tol = 2e-3 * np.abs(a).max() + 1e-3
                if a.shape != b.shape or not np.allclose(a, b, rtol=5e-3, atol=tol):
                    res.bad("section:image-" + k, "%s %s: saved image %s differs from that of the cut-out" % (desc, sec, k))
            ga = imf.find_num(A[0]["report"], r"STATISTIC = NUM") or imf.find_num(A[0]["report"], r"CHI-SQUARE = NUM")
            gb = imf.find_num(B[0]["report"], r"STATISTIC = NUM") or imf.find_num(B[0]["report"], r"CHI-SQUARE = NUM")
            if ga is None or gb is None or not abs(ga - gb) <= 1e-4 * abs(ga) + 1e-4:
                res.bad("section:stat", "%s %s: statistic %s, cut-out gives %s" % (desc, sec, gb, ga))
        res.seen("pairs_" + kind)
        res.nontrivial((kind, st, P.zbad, P.psf is not None, P.noise))
        res.sample = {"what": desc}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
