"""C04: PSF convolution against direct summation in extended arithmetic."""
from common import *


class C(Check):
    id = "C04"
    programs = ("makeimage", "imfit")
    rule = ("random models x random PSF images (1x1 up to larger than the image, odd/even, non-square, asymmetric, with "
            "negative wings, off-centre deltas, any normalisation) x {normalise, as given} x threads; sources straddling and "
            "outside the image edges; signature = PSF shape + normalisation + image parity")
    assumptions = ["the centre of a PSF image of n pixels is pixel floor(n/2)+1 along each axis",
                   "FFT round-off is bounded at 3e-6 of the peak of the convolved image"]

    def cases(self, tier, seed):
        return mkcases({"direct": (90, 1200), "delta": (16, 150), "edge": (24, 250), "subsampled": (12, 120),
                        "threads": (10, 100), "fit": (10, 80), "bigpsf": (10, 80)}, tier, seed, self.id, x=6)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        nc, nr = int(r.integers(2, 45)), int(r.integers(2, 45))
        h, w = int(r.integers(1, 16)), int(r.integers(1, 16))
        if kind == "bigpsf":
            nc, nr = int(r.integers(2, 14)), int(r.integers(2, 14))
            h, w = int(r.integers(10, 34)), int(r.integers(10, 34))
        psf = F.random_psf(r, h, w, signed=r.random() < .25)
        if kind == "delta":
            psf = np.zeros((h, w))
            j, i = int(r.integers(h)), int(r.integers(w))
            psf[j, i] = r.uniform(.5, 3)
            if r.random() < .4:
                psf[int(r.integers(h)), int(r.integers(w))] += 1.0
        if abs(psf.sum()) < 1e-3 * np.abs(psf).sum() or psf.sum() <= 0:
            psf = np.abs(psf)
        if kind == "edge":
            s = dict(x0=float(np.round(r.choice([-w / 2., -w / 4., nc + w / 4., 0.5, nc + .5, 1.0]), 2)),
                     y0=float(np.round(r.choice([-h / 2., -h / 4., nr + h / 4., 0.5, nr + .5, 1.0]), 2)), funcs=[])
            s["funcs"].append(dict(name="Gaussian", p=dict(PA=30., ell=.3, I_0=1000., sigma=float(r.uniform(.6, 2)))))
            m = dict(sets=[s])
        else:
            m = F.random_model(r, nc, nr, None, None, F.NAMES2D)
        norm = r.random() < .7
        args = ["--psf", "psf.fits"] + ([] if norm else ["--no-normalize"])
        if kind != "subsampled":
            args.append("--no-subsampling")
        bp = int(r.choice([-64, -32]))
        if bp == -32:
            psf = psf.astype(np.float32).astype(float)
        imf.write_fits(os.path.join(ctx.dir, "psf.fits"), psf, bitpix=bp)
        text = F.config_text(m, nc, nr)
        if kind == "fit":
            # the fitting program's model image of the same configuration
            base, _ = makeimage(ctx, text, args=args)
            imf.write_fits(os.path.join(ctx.dir, "data.fits"), np.abs(base) + 1.0)
            with open(os.path.join(ctx.dir, "fit.dat"), "w") as f:
                f.write(F.config_text(m, limits=lambda *_: "fixed"))
            imf.must(ctx.bins["imfit"], ["-c", "fit.dat", "data.fits", "--fitstat-only", "--save-model", "m.fits"] + args + ["--max-threads", "1"], ctx.dir)
            im = base
            p = os.path.join(ctx.dir, "m.fits")
            if os.path.exists(p):
                im = imf.read_fits(p)
                res.seen("fit_models")
        elif kind == "threads":
            im, _ = makeimage(ctx, text, args=args)
            for t in (2, 5):
                im2, _ = makeimage(ctx, text, args=args, out="t.fits", threads=t)
                res.evals += 1
                if im2.shape != im.shape or pkerr(im2, im) > 1e-6:
                    res.bad("threads", "%d threads change the convolved image by %.3g of peak (PSF %dx%d)" % (
                        t, pkerr(im2, im) if im2.shape == im.shape else -1, w, h))
                res.seen("thread_counts_compared")
        else:
            im, _ = makeimage(ctx, text, args=args)
        if not same_shape(res, "shape", im, nr, nc, "convolved image"):
            return res
        if kind == "subsampled":
            # unconvolved model from the program on a canvas extended by the PSF size
            big = copy.deepcopy(m)
            for s in big["sets"]:
                s["x0"] += w
                s["y0"] += h
            bi, _ = makeimage(ctx, F.config_text(big, nc + 2 * w, nr + 2 * h), out="big.fits")
            o = F.convolve_direct(bi, psf, nc, nr, (w, h), normalise=norm)
            ref = np.abs(bi).max() * (np.abs(psf).sum() / (psf.sum() if norm else 1.0))
            tol = 1e-6
        else:
            X, Y = F.grid(nc, nr, (w, h))
            bi = F.render_points(m, X, Y)
            o = F.convolve_direct(bi, psf, nc, nr, (w, h), normalise=norm)
            ref = np.abs(bi).max() * (np.abs(psf).sum() / (psf.sum() if norm else 1.0))
            tol = 1e-6
        # round-off of the transforms is relative to the brightest pixel taking part; storage is 32-bit
        d = np.abs(im - o)
        bad = d > 2e-37 + 2e-7 * np.abs(o) + 1e-12 * ref * max(1, nc * nr) ** .5 + (tol * np.abs(o) + 1e-9 * ref)
        res.seen("pixels_compared", im.size)
        if bad.any():
            j, i = np.argwhere(bad)[0]
            res.bad("convolution", "%s: image %dx%d PSF %dx%d normalise=%s: pixel (%d,%d) %.9g, direct convolution %.9g (%d of %d off)" % (
                kind, nc, nr, w, h, norm, i + 1, j + 1, im[j, i], o[j, i], int(bad.sum()), bad.size))
        plain = F.render_points(m, *F.grid(nc, nr))
        if np.abs(o - plain).max() > 1e-4 * np.abs(o).max():
            res.nontrivial((kind, h, w, norm, nc % 2, nr % 2))
        res.sample = {"kind": kind, "image": [nc, nr], "psf": [w, h], "normalise": bool(norm)}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
