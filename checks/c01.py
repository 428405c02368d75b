"""C01: composite image = sum of its components, each at its set's centre; order irrelevant."""
from common import *


class C(Check):
    id = "C01"
    programs = ("makeimage",)
    rule = ("random configurations (1-5 function sets x 1-5 functions, repeated functions, labels, empty-centre "
            "outside the image, with/without PSF, sub-sampling on/off); non-trivial = more than one component with "
            "non-negligible flux; signature = multiset of functions per set + PSF + sub-sampling")
    assumptions = ["images are written as 32-bit floats, so comparisons are at 3e-7 of the local sum of magnitudes"]

    def cases(self, tier, seed):
        return mkcases({"compose": (60, 600), "perm": (30, 300), "many": (6, 40)}, tier, seed, self.id, x=8)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        nc, nr = int(r.integers(3, 40)), int(r.integers(3, 40))
        names = F.NAMES2D + ["PointSource"]
        usepsf = r.random() < 0.4
        if not usepsf:
            names = F.NAMES2D
        if case["kind"] == "many":
            m = F.random_model(r, nc, nr, int(r.integers(5, 12)), int(r.integers(1, 6)), names)
        else:
            m = F.random_model(r, nc, nr, None, None, names)
        if r.random() < 0.3:      # the same function several times in a set
            s = m["sets"][int(r.integers(len(m["sets"])))]
            n = s["funcs"][0]["name"]
            for _ in range(int(r.integers(1, 3))):
                s["funcs"].insert(int(r.integers(0, len(s["funcs"]) + 1)), dict(name=n, p=F.draw(n, r)))
        for s in m["sets"]:
            for f in s["funcs"]:
                if r.random() < 0.3:
                    f["label"] = "lab%d" % int(r.integers(0, 4))
        args = []
        if r.random() < 0.5:
            args.append("--no-subsampling")
        sub = not args
        psf = None
        if usepsf:
            psf = F.random_psf(r, int(r.integers(4, 10)), int(r.integers(4, 10)))
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), psf)
            args += ["--psf", "psf.fits"]
        full, _ = makeimage(ctx, F.config_text(m, nc, nr), args=args)
        res.evals = 1
        if not same_shape(res, "shape", full, nr, nc, "composite"):
            return res
        sig = (tuple(tuple(sorted(f["name"] for f in s["funcs"])) for s in m["sets"]), bool(usepsf), sub)
        if case["kind"] in ("compose", "many"):
            tot = np.zeros((nr, nc))
            mag = np.zeros((nr, nc))
            singles = []
            for si, s in enumerate(m["sets"]):
                for fi, f in enumerate(s["funcs"]):
                    one = dict(sets=[dict(x0=s["x0"], y0=s["y0"], funcs=[f])])
                    im, _ = makeimage(ctx, F.config_text(one, nc, nr), out="one.fits", args=args)
                    res.evals += 1
                    if im.shape != (nr, nc):
                        res.bad("shape", "single component image has shape %s" % (im.shape,))
                        return res
                    tot += im
                    mag += np.abs(im)
                    singles.append(im)
                    # the component against its formula (no PSF, no sub-sampling)
                    if not usepsf and not sub:
                        X, Y = F.grid(nc, nr)
                        o = F.VALUE[f["name"]](f["p"], X - s["x0"], Y - s["y0"])
                        if relerr(im, o, 1e-9) > 1e-5:
                            res.bad("component-formula", "%s at set centre (%g,%g) deviates by %.3g" % (
                                f["name"], s["x0"], s["y0"], relerr(im, o, 1e-9)))
                        res.seen("components_vs_formula")
            tol = 3e-7 * mag + (3e-7 * mag.max() if usepsf else 1e-12 * mag.max())
            bad = np.abs(full - tot) > tol
            res.seen("pixels_compared", full.size)
            res.seen("components", len(singles))
            if bad.any():
                j, i = np.argwhere(bad)[0]
                res.bad("sum", "pixel (%d,%d): composite %.9g, sum of %d components %.9g" % (
                    i + 1, j + 1, full[j, i], len(singles), tot[j, i]))
            # --output-functions images
            if r.random() < 0.6:
                makeimage(ctx, F.config_text(m, nc, nr), args=args + ["--output-functions", "fn_"])
                res.evals += 1
                k = 0
                for s in m["sets"]:
                    for f in s["funcs"]:
                        k += 1
                        p = os.path.join(ctx.dir, "fn_%d_%s.fits" % (k, f["name"]))
                        fi = imf.read_fits(p)
                        t = 3e-7 * np.abs(singles[k - 1]) + 3e-7 * np.abs(singles[k - 1]).max()
                        if fi.shape != (nr, nc) or (np.abs(fi - singles[k - 1]) > t).any():
                            res.bad("output-functions", "single-function image %d (%s) differs from that component "
                                    "rendered alone by %.3g of its peak" % (k, f["name"], pkerr(fi, singles[k - 1])
                                                                            if fi.shape == (nr, nc) else -1))
                        res.seen("function_images")
        else:
            for _ in range(3):
                pm = copy.deepcopy(m)
                for s in pm["sets"]:
                    s["funcs"] = [s["funcs"][i] for i in r.permutation(len(s["funcs"]))]
                pm["sets"] = [pm["sets"][i] for i in r.permutation(len(pm["sets"]))]
                im, _ = makeimage(ctx, F.config_text(pm, nc, nr), out="perm.fits", args=args)
                res.evals += 1
                mag = np.maximum(np.abs(full), np.abs(im))
                big = sum(np.abs(F.render_points(dict(sets=[dict(x0=s["x0"], y0=s["y0"], funcs=[f])]), *F.grid(nc, nr)))
                          for s in m["sets"] for f in s["funcs"])
                tol = 3e-7 * (mag + 1e-3 * big) + (3e-7 * mag.max() if usepsf else 1e-9 * big.max())
                if im.shape != full.shape or (np.abs(full - im) > tol).any():
                    res.bad("order", "reordering sets/components changes the image by %.3g of peak" % pkerr(im, full))
                res.seen("permutations")
        if sum(len(s["funcs"]) for s in m["sets"]) > 1:
            res.nontrivial(sig)
        res.sample = {"kind": case["kind"], "size": [nc, nr], "psf": None if psf is None else list(psf.shape),
                      "sets": [[f["name"] for f in s["funcs"]] for s in m["sets"]]}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
