"""C05: oversampled regions against a fine-grid direct computation."""
from common import *


def fine_region(m, x1, x2, y1, y2, s, psf, norm=True):
    """block average of the fine-grid model convolved with the (normalised) fine PSF"""
    h, w = psf.shape
    nx, ny = (x2 - x1 + 1) * s, (y2 - y1 + 1) * s
    gx = x1 - 0.5 + (np.arange(-w, nx + w) + 0.5) / s
    gy = y1 - 0.5 + (np.arange(-h, ny + h) + 0.5) / s
    X, Y = np.meshgrid(gx, gy)
    big = F.render_points(m, X, Y)
    c = F.convolve_direct(big, psf, nx, ny, (w, h), normalise=norm)
    return c.reshape(ny // s, s, nx // s, s).mean(axis=(1, 3)), np.abs(big).max()


class C(Check):
    id = "C05"
    programs = ("makeimage", "imfit")
    rule = ("random models, 1-4 regions (square, wide, tall, one pixel thick where accepted, touching or overhanging image "
            "edges), scales 1-6, shared or separate PSFs, with and without main PSF, normalised or not; signature = region "
            "shape class + scale + PSF parity + edge contact")
    assumptions = ["where regions overlap the later one is expected", "round-off bound as for C04"]

    def cases(self, tier, seed):
        return mkcases({"one": (60, 700), "several": (30, 300), "edge": (30, 300), "functions": (8, 60), "fit": (8, 80),
                        "threads": (6, 60)}, tier, seed, self.id, x=6)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        nc, nr = int(r.integers(6, 40)), int(r.integers(6, 40))
        m = F.random_model(r, nc, nr, int(r.integers(1, 3)), int(r.integers(1, 3)), F.NAMES2D)
        mainpsf = r.random() < .7
        norm = r.random() < .8
        args = ["--no-subsampling"]
        if mainpsf:
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, int(r.integers(1, 10)), int(r.integers(1, 10))))
            args += ["--psf", "psf.fits"]
        if not norm:
            args += ["--no-normalize"]
        nreg = 1 if kind in ("one", "fit") else int(r.integers(2, 5)) if kind == "several" else int(r.integers(1, 3))
        shared = nreg > 1 and r.random() < .4
        over = []
        regs = []
        for k in range(nreg):
            if kind == "edge":
                x1 = int(r.choice([1, 1, 0, -3, int(r.integers(1, nc))]))
                x2 = int(r.choice([nc, nc, nc + 4, int(r.integers(max(x1, 0) + 2, nc + 3))]))
                y1 = int(r.choice([1, 1, 0, -2, int(r.integers(1, nr))]))
                y2 = int(r.choice([nr, nr, nr + 3, int(r.integers(max(y1, 0) + 2, nr + 3))]))
            else:
                x1 = int(r.integers(1, nc))
                x2 = int(r.integers(x1 + 1, nc + 1))
                y1 = int(r.integers(1, nr))
                y2 = int(r.integers(y1 + 1, nr + 1))
            if k == 0 or not shared:
                sc = int(r.integers(1, 7))
                psf = F.random_psf(r, int(r.integers(2, 14)), int(r.integers(2, 14)))
                imf.write_fits(os.path.join(ctx.dir, "o%d.fits" % k), psf)
                over += ["--overpsf", "o%d.fits" % k, "--overpsf_scale", str(sc)]
            over += ["--overpsf_region", "%d:%d,%d:%d" % (x1, x2, y1, y2)]
            regs.append((max(x1, 1), min(x2, nc), max(y1, 1), min(y2, nr), sc, psf))
        text = F.config_text(m, nc, nr)
        base, _ = makeimage(ctx, text, args=args, out="base.fits")
        im, _ = makeimage(ctx, text, args=args + over)
        res.evals = 2
        if not same_shape(res, "shape", im, nr, nc, "image with regions"):
            return res
        inside = np.zeros(im.shape, bool)
        o = base.copy()
        tol = np.zeros_like(base)
        for x1, x2, y1, y2, sc, psf in regs:
            v, pk = fine_region(m, x1, x2, y1, y2, sc, psf, norm)
            o[y1 - 1:y2, x1 - 1:x2] = v
            tol[y1 - 1:y2, x1 - 1:x2] = 2e-37 + 2e-6 * np.abs(v) + 3e-9 * pk * (1 if norm else max(1, psf.sum()))
            inside[y1 - 1:y2, x1 - 1:x2] = True
        out = ~inside
        desc = "%s image %dx%d regions %s main PSF=%s" % (kind, nc, nr, [(a, b, c, d, s, p.shape[::-1]) for a, b, c, d, s, p in regs], mainpsf)
        if not np.array_equal(im[out], base[out]):
            j, i = np.argwhere(out & (im != base))[0]
            res.bad("outside", "%s: pixel (%d,%d) outside every region changed from %.9g to %.9g" % (desc, i + 1, j + 1, base[j, i], im[j, i]))
        bad = inside & (np.abs(im - o) > tol)
        if bad.any():
            j, i = np.argwhere(bad)[0]
            res.bad("inside", "%s: pixel (%d,%d) is %.9g, fine-grid average %.9g, without region %.9g (%d of %d region pixels off)" % (
                desc, i + 1, j + 1, im[j, i], o[j, i], base[j, i], int(bad.sum()), int(inside.sum())))
        res.seen("region_pixels", int(inside.sum()))
        res.seen("outside_pixels", int(out.sum()))
        res.seen("regions", nreg)
        if (np.abs(o - base) > 1e-3 * np.abs(base).max()).any():
            res.nontrivial((kind, nreg, sc, np.sign((x2 - x1) - (y2 - y1)), psf.shape[0] % 2, psf.shape[1] % 2, x1 == 1, x2 == nc, y1 == 1, y2 == nr, mainpsf))
        if kind == "functions":
            makeimage(ctx, text, args=args + over + ["--output-functions", "fn_"])
            tot = np.zeros_like(im)
            mag = np.zeros_like(im)
            k = 0
            for s in m["sets"]:
                for f in s["funcs"]:
                    k += 1
                    fi = imf.read_fits(os.path.join(ctx.dir, "fn_%d_%s.fits" % (k, f["name"])))
                    tot += fi
                    mag += np.abs(fi)
            if (np.abs(tot - im) > 4e-7 * mag + 1e-6 * mag.max()).any():
                res.bad("components", "%s: single-component images do not add up to the composite (%.3g of peak)" % (desc, pkerr(tot, im)))
            res.seen("component_sums")
        if kind == "threads":
            for t in (2, 4):
                b, _ = makeimage(ctx, text, args=args + over, out="t.fits", threads=t)
                if b.shape != im.shape or pkerr(b, im) > 1e-6:
                    res.bad("threads", "%s: %d threads change the image" % (desc, t))
                res.seen("thread_counts_compared")
        if kind == "fit":
            imf.write_fits(os.path.join(ctx.dir, "d.fits"), np.abs(im) + 1)
            with open(os.path.join(ctx.dir, "fit.dat"), "w") as f:
                f.write(F.config_text(m, limits=lambda si, fi, pn, v: "fixed" if (fi, pn) != (0, F.params_of(m["sets"][si]["funcs"][0]["name"])[0]) else ""))
            imf.must(ctx.bins["imfit"], ["-c", "fit.dat", "d.fits", "--nlopt", "BOBYQA", "--ftol", "0.5", "--save-model", "m.fits", "--save-params", "p.dat"] + args + over + ["--max-threads", "1"], ctx.dir)
            mim = imf.read_fits(os.path.join(ctx.dir, "m.fits"))
            # model at the (rounded) reported parameters, rendered by makeimage with the same regions
            b, _ = makeimage(ctx, "NCOLS %d\nNROWS %d\n" % (nc, nr) + open(os.path.join(ctx.dir, "p.dat")).read(), args=args + over, out="b.fits", name="b.dat")
            if mim.shape != b.shape or pkerr(mim, b) > 3e-3:
                res.bad("fit-model", "%s: saved model of a fit differs from the same model with regions by %.3g of peak" % (desc, pkerr(mim, b) if mim.shape == b.shape else -1))
            res.seen("fit_models")
        res.sample = {"kind": kind, "what": desc}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
