"""C06: point sources against independent interpolation of the PSF image."""
from common import *
from scipy.interpolate import CubicSpline


def bicubic(psf, dx, dy):
    """tensor-product natural cubic spline through the PSF pixels; 0 outside"""
    h, w = psf.shape
    gx = np.arange(w) - (w - 1) / 2.0
    gy = np.arange(h) - (h - 1) / 2.0
    sh = dx.shape
    dx, dy = dx.ravel(), dy.ravel()
    ins = (dx >= gx[0]) & (dx <= gx[-1]) & (dy >= gy[0]) & (dy <= gy[-1])
    out = np.zeros(dx.size)
    if ins.any():
        rows = CubicSpline(gx, psf, axis=1, bc_type="natural")(dx[ins])     # h x n
        # interpolate each column along y at its own dy
        cs = CubicSpline(gy, np.eye(h), axis=0, bc_type="natural")(dy[ins])  # n x h
        out[ins] = np.einsum("hn,nh->n", rows, cs)
    return out.reshape(sh)


def lanczos(psf, dx, dy, a):
    h, w = psf.shape
    gx = np.arange(w) - (w - 1) / 2.0
    gy = np.arange(h) - (h - 1) / 2.0
    sh = dx.shape
    dx, dy = dx.ravel(), dy.ravel()
    ins = (dx >= gx[0]) & (dx <= gx[-1]) & (dy >= gy[0]) & (dy <= gy[-1])
    out = np.zeros(dx.size)

    def L(t):
        return np.where(np.abs(t) < a, np.sinc(t) * np.sinc(t / a), 0.0)
    if ins.any():
        wx = L(dx[ins][:, None] - gx[None, :])
        wy = L(dy[ins][:, None] - gy[None, :])
        out[ins] = np.einsum("nh,hw,nw->n", wy, psf, wx)
    return out.reshape(sh)


INTERP = {None: bicubic, "bicubic": bicubic, "Bicubic": bicubic,
          "lanczos2": lambda p, x, y: lanczos(p, x, y, 2), "Lanczos2": lambda p, x, y: lanczos(p, x, y, 2),
          "lanczos3": lambda p, x, y: lanczos(p, x, y, 3), "Lanczos3": lambda p, x, y: lanczos(p, x, y, 3)}


def source(f, psf, X, Y, x0, y0, method, scale=1, img_rot=0.0):
    dx, dy = scale * (X - x0), scale * (Y - y0)
    if f["name"] == "PointSourceRot":
        a = np.radians(f["p"]["PA"] + 90 - img_rot)
        dx, dy = dx * np.cos(a) + dy * np.sin(a), -dx * np.sin(a) + dy * np.cos(a)
    return f["p"]["I_tot"] * INTERP[method](psf, dx, dy)


def edge_mask(f, psf, X, Y, x0, y0, scale=1):
    """pixels within rounding of the PSF's edge"""
    dx, dy = scale * (X - x0), scale * (Y - y0)
    if f["name"] == "PointSourceRot":
        a = np.radians(f["p"]["PA"] + 90)
        dx, dy = dx * np.cos(a) + dy * np.sin(a), -dx * np.sin(a) + dy * np.cos(a)
    h, w = psf.shape
    return (np.abs(np.abs(dx) - (w - 1) / 2.) < 1e-7) | (np.abs(np.abs(dy) - (h - 1) / 2.) < 1e-7)


class C(Check):
    id = "C06"
    programs = ("makeimage", "imfit")
    rule = ("random PSFs (odd, even, non-square, asymmetric), sources at integer, half and arbitrary positions in and out of "
            "the image, PointSource and PointSourceRot, each interpolation scheme, several sources and extended components "
            "together, oversampled regions, --output-functions; signature = function + scheme + PSF shape + position class")
    assumptions = ["bicubic = natural cubic spline in each axis through the PSF pixels, as the GSL scheme documents",
                   "the x axis of the PSF image of a rotated point source lies at its position angle (from +y, anticlockwise)",
                   "inside oversampled regions the scheme is always bicubic"]

    def cases(self, tier, seed):
        return mkcases({"integer": (16, 150), "fraction": (40, 500), "several": (20, 200), "withext": (16, 150),
                        "region": (24, 300), "region-anynorm": (4, 20), "mixed-methods": (8, 60), "single": (10, 80),
                        "fit": (8, 60)}, tier, seed, self.id, x=6)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        nc, nr = int(r.integers(5, 40)), int(r.integers(5, 40))
        h, w = int(r.integers(4, 16)), int(r.integers(4, 16))
        if kind == "integer":
            h, w = h | 1, w | 1
        psf = F.random_psf(r, h, w)
        imf.write_fits(os.path.join(ctx.dir, "psf.fits"), psf)
        norm = r.random() < .8
        P = psf / psf.sum() if norm else psf
        nsrc = 1 if kind in ("integer", "fraction") else int(r.integers(1, 5))
        if kind in ("mixed-methods",):
            nsrc = max(2, nsrc)
        method = [None, "bicubic", "lanczos2", "lanczos3", "Lanczos2", "Bicubic", "Lanczos3"][int(r.integers(7))]
        if kind.startswith("region"):
            method = None
        sets = []
        meths = []
        for k in range(nsrc):
            nm = str(r.choice(["PointSource", "PointSource", "PointSourceRot"]))
            if kind == "integer":
                nm = "PointSource"
            x0, y0 = float(np.round(r.uniform(-3, nc + 4), 3)), float(np.round(r.uniform(-3, nr + 4), 3))
            c = r.random()
            if c < .25 or kind == "integer":
                x0, y0 = float(int(x0)), float(int(y0))
            elif c < .4:
                x0, y0 = int(x0) + .5, int(y0) + .5
            f = dict(name=nm, p=F.draw(nm, r))
            mth = method
            if kind == "mixed-methods":
                mth = [None, "bicubic", "lanczos2", "lanczos3"][int(r.integers(4))] if k else "lanczos2"
            if mth:
                f["extra"] = {"method": mth}
            sets.append(dict(x0=x0, y0=y0, funcs=[f]))
            meths.append(mth)
        m = dict(sets=sets)
        ext = None
        if kind in ("withext", "region", "fit"):
            ext = F.random_model(r, nc, nr, 1, int(r.integers(1, 3)), F.NAMES2D)
            pos = int(r.integers(0, len(sets) + 1))
            if r.random() < .5:
                sets.insert(pos, ext["sets"][0])
                meths.insert(pos, None)
            else:
                k = int(r.integers(len(sets)))
                fs = ext["sets"][0]["funcs"]
                ext = dict(sets=[dict(x0=sets[k]["x0"], y0=sets[k]["y0"], funcs=list(fs))])
                for f in fs:
                    sets[k]["funcs"].insert(int(r.integers(0, len(sets[k]["funcs"]) + 1)), f)
        args = ["--psf", "psf.fits", "--no-subsampling"] + ([] if norm else ["--no-normalize"])
        regs = []
        base_args = list(args)
        if kind.startswith("region"):
            nreg = int(r.integers(1, 3))
            for k in range(nreg):
                sc = int(r.integers(1, 5))
                op = F.random_psf(r, int(r.integers(4, 16)), int(r.integers(4, 16)))
                if kind == "region":
                    # the scaling under which 'as given' and 'normalised' mean the same total flux
                    op = op / op.sum() * sc * sc
                imf.write_fits(os.path.join(ctx.dir, "o%d.fits" % k), op)
                x1 = int(r.integers(1, nc))
                x2 = int(r.integers(x1 + 1, nc + 1))
                y1 = int(r.integers(1, nr))
                y2 = int(r.integers(y1 + 1, nr + 1))
                args += ["--overpsf", "o%d.fits" % k, "--overpsf_scale", str(sc), "--overpsf_region", "%d:%d,%d:%d" % (x1, x2, y1, y2)]
                regs.append((x1, x2, y1, y2, sc, op))
        im, _ = makeimage(ctx, F.config_text(m, nc, nr), args=args)
        if not same_shape(res, "shape", im, nr, nc, "image"):
            return res
        X, Y = F.grid(nc, nr)
        srcs = [(s, f, (f.get("extra") or {}).get("method")) for s in sets for f in s["funcs"] if f["name"].startswith("PointSource")]

        def expect(srcs):
            o = np.zeros((nr, nc))
            e = np.zeros((nr, nc), bool)
            for s, f, mth in srcs:
                o += source(f, P, X, Y, s["x0"], s["y0"], mth)
                e |= edge_mask(f, P, X, Y, s["x0"], s["y0"])
            return o, e
        o, e = expect(srcs)
        ref = np.abs(o).max() + np.abs(P).max() * sum(f["p"]["I_tot"] for _, f, _ in srcs)
        alt = None
        if ext is not None:
            xe = F.render_psf(ext, nc, nr, psf, norm)
            big = F.render_points(ext, *F.grid(nc, nr, (w, h)))
            o = o + xe
            ref += np.abs(big).max() * max(1.0, 1.0 if norm else psf.sum())
        if regs:
            from c05 import fine_region
            alt = o.copy()
            for x1, x2, y1, y2, sc, op in regs:
                n = op.shape
                gx = x1 - 0.5 + (np.arange((x2 - x1 + 1) * sc) + .5) / sc
                gy = y1 - 0.5 + (np.arange((y2 - y1 + 1) * sc) + .5) / sc
                XX, YY = np.meshgrid(gx, gy)
                good = op / op.sum() * sc * sc if norm else op
                for want, arr in ((good, o), (op, alt)):
                    v = np.zeros(XX.shape)
                    em = np.zeros(XX.shape, bool)
                    for s, f, mth in srcs:
                        v += source(f, want, XX, YY, s["x0"], s["y0"], None, sc)
                        em |= edge_mask(f, want, XX, YY, s["x0"], s["y0"], sc)
                    v = v.reshape(y2 - y1 + 1, sc, x2 - x1 + 1, sc).mean(axis=(1, 3))
                    em = em.reshape(y2 - y1 + 1, sc, x2 - x1 + 1, sc).any(axis=(1, 3))
                    if ext is not None:
                        ev, pk = fine_region(ext, x1, x2, y1, y2, sc, op, norm)
                        v = v + ev
                        ref += pk * (1 if norm else max(1., op.sum()))
                    arr[y1 - 1:y2, x1 - 1:x2] = v
                    e[y1 - 1:y2, x1 - 1:x2] = em
                ref += np.abs(op).max() * sum(f["p"]["I_tot"] for _, f, _ in srcs)
        tol = 2e-37 + 3e-6 * np.abs(o) + 3e-8 * ref
        bad = (np.abs(im - o) > tol) & ~e
        desc = "%s image %dx%d PSF %dx%d normalise=%s sources %s%s" % (
            kind, nc, nr, w, h, norm, [(f["name"], s["x0"], s["y0"], mth) for s, f, mth in srcs],
            (" regions %s" % [(a, b, c, d, sc, p.shape[::-1]) for a, b, c, d, sc, p in regs]) if regs else "")
        if bad.any():
            j, i = np.argwhere(bad)[0]
            key = kind
            if kind == "region-anynorm" and not ((np.abs(im - alt) > 3e-6 * np.abs(alt) + 3e-8 * ref) & ~e).any():
                key = "region-psf-normalisation"
            elif kind == "mixed-methods":
                o1, e1 = expect([(s, f, srcs[0][2]) for s, f, _ in srcs])
                if not ((np.abs(im - o1) > 3e-6 * np.abs(o1) + 3e-8 * ref) & ~e).any():
                    key = "one-scheme-for-all"
            res.bad(key, "%s: pixel (%d,%d) is %.9g, expected %.9g (%d of %d pixels off)" % (
                desc, i + 1, j + 1, im[j, i], o[j, i], int(bad.sum()), bad.size))
        res.seen("pixels_compared", im.size)
        res.seen("sources", len(srcs))
        if (np.abs(o) > 0).any():
            for s, f, mth in srcs:
                res.nontrivial((kind, f["name"], mth, h % 2, w % 2, h > w, s["x0"] == int(s["x0"])))
        if kind == "single":
            makeimage(ctx, F.config_text(m, nc, nr), args=args + ["--output-functions", "fn_"])
            for k, (s, f, mth) in enumerate(srcs):
                fi = imf.read_fits(os.path.join(ctx.dir, "fn_%d_%s.fits" % (k + 1, f["name"])))
                oo = source(f, P, X, Y, s["x0"], s["y0"], mth)
                b = (np.abs(fi - oo) > 3e-6 * np.abs(oo) + 3e-8 * ref) & ~e
                if b.any():
                    res.bad("single", "%s: image of source %d alone is off by %.3g of peak" % (desc, k + 1, pkerr(fi, oo)))
                res.seen("single_images")
        if kind == "fit":
            imf.write_fits(os.path.join(ctx.dir, "d.fits"), np.abs(im) + 1)
            with open(os.path.join(ctx.dir, "fit.dat"), "w") as fo:
                fo.write(F.config_text(m, limits=lambda si, fi, pn, v: "" if pn == "I_tot" else "fixed"))
            imf.must(ctx.bins["imfit"], ["-c", "fit.dat", "d.fits", "--model-errors", "--save-model", "m.fits", "--save-params", "p.dat"] + args + ["--max-threads", "1"], ctx.dir)
            mim = imf.read_fits(os.path.join(ctx.dir, "m.fits"))
            ps, _ = imf.parse_params(os.path.join(ctx.dir, "p.dat"))
            it = [v for n, v, _ in ps if n == "I_tot"]
            o2 = F.render_psf(ext, nc, nr, psf, norm)
            for (s, f, mth), v in zip(srcs, it):
                g = dict(f, p=dict(f["p"], I_tot=v))
                o2 = o2 + source(g, P, X, Y, s["x0"], s["y0"], mth)
            ref2 = ref + np.abs(P).max() * sum(abs(v) for v in it)
            b = (np.abs(mim - o2) > 2e-5 * np.abs(o2) + 2e-5 * ref2) & ~e
            if b.any():
                res.bad("fit-model", "%s: the fit's saved model is not the model at the reported parameters" % desc)
            res.seen("fit_models")
        res.sample = {"what": desc}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
