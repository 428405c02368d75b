"""C19: FITS images are read as the physical values they encode and written exactly, replacing what was there."""
import gzip
import re
import struct
import subprocess

from common import *
import fitprob as Q
import clifit as L

DT = {8: "u1", 16: "i2", 32: "i4", 64: "i8", -32: "f4", -64: "f8"}


def shape_of(r, big=90):
    q = r.random()
    if q < .08:
        return 1, int(r.integers(1, big))
    if q < .16:
        return int(r.integers(1, big)), 1
    return int(r.integers(1, big)), int(r.integers(1, big))


def extra_header(r, h):
    """header content that must not matter; returns a count"""
    n = 0
    if r.random() < .5:
        for i in range(int(r.integers(1, 90))):
            h["KEY%d" % i] = (float(r.normal()), "comment %d" % i)
            n += 1
    if r.random() < .3:
        h["HIERARCH ESO DET GAIN LONG KEYWORD"] = 2.5
        h["LONGSTR"] = "NAXIS1  =                    3 " * 6
        n += 2
    if r.random() < .3:
        h.add_comment("NAXIS1 = 999 / not a keyword")
        h.add_history("BITPIX = 8")
        n += 2
    if r.random() < .2:
        h["DATAMIN"], h["DATAMAX"] = 1.0, 2.0
        h["BUNIT"] = "adu"
        n += 3
    if r.random() < .2:
        h["CRPIX1"], h["CRVAL1"], h["CDELT1"], h["CTYPE1"] = 3.0, 11.0, -1.0, "RA---TAN"
        n += 4
    return n


def draw_raw(r, bp, nr, nc, lo=None, hi=None):
    if bp > 0:
        i = np.iinfo(DT[bp])
        a, b = (i.min, i.max) if lo is None else (lo, hi)
        if bp == 64 and lo is None:
            a, b = -2 ** 52, 2 ** 52
        return r.integers(a, b, (nr, nc), dtype=DT[bp], endpoint=True)
    if lo is not None:
        return r.uniform(lo, hi, (nr, nc)).astype(DT[bp])
    e = r.uniform(-30, 30, (nr, nc)) if r.random() < .5 else r.uniform(-2, 4, (nr, nc))
    return (np.where(r.random((nr, nc)) < .5, -1, 1) * 10.0 ** e).astype(DT[bp])


def encode(r, d, stem, shape=None, lo=None, hi=None, undef=True, forms=None):
    """writes an image; returns (argument, physical values with NaN for undefined pixels, description)"""
    from astropy.io import fits
    nr, nc = shape or shape_of(r)
    form = str(r.choice(forms or ["plain"] * 4 + ["scaled"] * 3 + ["unsigned"] * 2 + ["comp", "comp", "compf"]))
    hdr = fits.Header()
    nextra = extra_header(r, hdr)
    tag = [form]
    nundef = 0
    scale = zero = None
    blank = None
    if form in ("plain", "scaled", "unsigned", "comp"):
        bp = int(r.choice([8, 16, 32, 64, -32, -64])) if form in ("plain", "scaled") else int(r.choice([16, 32])) if form == "unsigned" else int(r.choice([8, 16, 32]))
        if form == "comp" and lo is None:
            l2, h2 = 0, 255 if bp == 8 else 3000
        else:
            l2, h2 = lo, hi
        if bp == 8 and l2 is not None:
            l2, h2 = max(l2, 0), min(h2, 255)
        raw = draw_raw(r, bp, nr, nc, l2, h2)
        if form == "scaled" and lo is None:
            scale = float(r.choice([.5, 2, .1, 1.37e-3, 12.5]))
            zero = float(r.choice([0, 100, -3.25, 32768, 1e4]))
        elif form == "scaled":
            scale, zero = float(r.choice([.5, 1.25])), float(r.choice([0, 3.5]))
        elif form == "unsigned":
            scale, zero = 1.0, float(2 ** (bp - 1))
            if lo is not None:
                zero = 100.0
        if bp > 0 and undef and r.random() < .4:
            blank = int(raw.flat[r.integers(raw.size)])
        m = (raw == blank) if blank is not None else np.zeros(raw.shape, bool)
        if bp < 0 and undef and r.random() < .4:
            m = r.random(raw.shape) < .1
            raw = raw.copy()
            raw[m] = np.nan
        phys = raw.astype(float)
        if scale is not None:
            phys = phys * scale + zero
        phys[m] = np.nan
        nundef = int(m.sum())
        tag.append(str(bp))
    ext = form in ("comp", "compf") or r.random() < .3
    path = os.path.join(d, stem + ".fits")
    before = [fits.PrimaryHDU(r.normal(size=(3, 7)) if r.random() < .5 else None)] if ext else []
    for i in range(int(r.integers(0, 3)) if ext else 0):
        before.append(fits.ImageHDU(r.normal(size=(2, 5)), name="OTHER"))
    if form == "compf":
        # lossless storage of floating-point pixels
        a = draw_raw(r, -32, nr, nc, lo, hi)
        h = fits.CompImageHDU(a, hdr, compression_type=str(r.choice(["GZIP_1", "GZIP_2"])), quantize_level=0.0, name="SCI")
        phys = a.astype(float)
        tag.append("-32")
    elif form == "comp":
        ct = str(r.choice(["RICE_1", "GZIP_1", "GZIP_2", "PLIO_1", "HCOMPRESS_1"] if nr >= 4 and nc >= 4 else ["RICE_1", "GZIP_1", "GZIP_2", "PLIO_1"]))
        kw = {}
        if ct == "HCOMPRESS_1":
            kw["tile_shape"] = (nr, nc)
        elif r.random() < .5:
            kw["tile_shape"] = (int(r.integers(1, nr + 1)), int(r.integers(1, nc + 1)))
        if blank is not None:
            hdr["BLANK"] = blank
        h = fits.CompImageHDU(raw, hdr, compression_type=ct, name="SCI", **kw)
        tag.append(ct)
    else:
        h = (fits.ImageHDU if ext else fits.PrimaryHDU)(header=hdr)
        h.data = raw
        if ext:
            h.name = "SCI"
    if form in ("comp", "compf"):
        lst = fits.HDUList(before + [h])
        if r.random() < .3:
            lst.append(fits.ImageHDU(r.normal(size=(4, 4)), name="LAST"))
        lst.writeto(path, overwrite=True)
    else:
        # the header of the image is written by hand, so that the library's own scaling logic is not involved
        cards = [imf._card("SIMPLE", True) if not ext else imf._card("XTENSION", "IMAGE"), imf._card("BITPIX", bp), imf._card("NAXIS", 2),
                 imf._card("NAXIS1", nc), imf._card("NAXIS2", nr)]
        if ext:
            cards += [imf._card("PCOUNT", 0), imf._card("GCOUNT", 1), imf._card("EXTNAME", "SCI")]
        elif r.random() < .3:
            cards.append(imf._card("EXTEND", True))
        mine = []
        if scale is not None:
            mine += [imf._card("BSCALE", scale), imf._card("BZERO", zero)]
        if blank is not None:
            mine.append(imf._card("BLANK", blank))
        xs = [c.image for c in hdr.cards]
        xs = [x[k:k + 80] for x in xs for k in range(0, len(x), 80)]
        cards += (mine + xs) if r.random() < .5 else (xs + mine)
        cards.append("END".ljust(80))
        hb = "".join(cards).encode("ascii")
        hb += b" " * (-len(hb) % 2880)
        db = np.ascontiguousarray(raw.astype(">" + DT[bp])).tobytes()
        db += b"\0" * (-len(db) % 2880)
        pre = b""
        if ext:
            fits.HDUList(before).writeto(path, overwrite=True)
            pre = open(path, "rb").read()
        post = b""
        if r.random() < .2:
            fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(r.normal(size=(4, 4)), name="LAST")]).writeto(path, overwrite=True)
            post = open(path, "rb").read()[2880:]
        with open(path, "wb") as f:
            f.write(pre + hb + db + post)
    arg = stem + ".fits"
    if r.random() < .2:
        with open(path, "rb") as f, gzip.open(path + ".gz", "wb") as g:
            g.write(f.read())
        os.remove(path)
        if r.random() < .5:
            arg += ".gz"
        else:
            os.rename(path + ".gz", path)
        tag.append("gz")
    if ext:
        arg += str(r.choice(["[%d]" % len(before), "[SCI]"]))
        tag.append("ext")
    tag.append("x%d" % min(nextra, 36))
    return arg, phys, "%s %dx%d%s%s" % (" ".join(tag), nr, nc, " BSCALE %s BZERO %s" % (scale, zero) if scale is not None else "", " undefined %d" % nundef if nundef else ""), tuple(tag[:2]) + (nundef > 0, ext)


class C(Check):
    id = "C19"
    programs = ("imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages")
    harness = (("imio", ["harness/imio.cpp"]),)
    rule = ("random images of all pixel types, scalings, undefined-pixel conventions, header contents, extensions, compressions and sizes written by code "
            "that is not the programs' library; values read by the programs compared bit for bit, and whole runs compared with runs on plain double-precision "
            "copies; images written by the programs decoded independently, also on top of existing files; signature = workload, encoding, size class")
    assumptions = ["pixel values representable in single precision are written exactly; larger magnitudes are outside the output format"]

    def cases(self, tier, seed):
        return mkcases({"read": (500, 6000), "write": (250, 2500), "many": (6, 40), "runs": (110, 1200), "mcmc": (10, 80), "multi": (12, 100),
                        "over": (80, 600)}, tier, seed, self.id, x=4)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    # ------------------------------------------------------------------ reading, directly
    def k_read(self, r, ctx, res):
        arg, phys, desc, sig = encode(r, ctx.dir, "img")
        nr, nc = phys.shape
        R = imf.must(ctx.bins["imio"], ["read", arg, "raw"], ctx.dir)
        m = re.search(r"size (\S+) (\S+) (\S+)\nread (\d+) (\d+)", R.out)
        if not m or (int(m[1]), int(m[2]), int(m[3])) != (nc, nr, 0) or (int(m[4]), int(m[5])) != (nc, nr):
            res.bad("size", "%s (%s): sizes reported: %s" % (arg, desc, R.out[:200]))
            return
        v = np.fromfile(os.path.join(ctx.dir, "raw")).reshape(nr, nc)
        if not np.array_equal(v, phys, equal_nan=True):
            bad = ~((v == phys) | (np.isnan(v) & np.isnan(phys)))
            y, x = np.argwhere(bad)[0]
            res.bad("values", "%s (%s): %d of %d pixels differ, e.g. column %d row %d is %r, encoded value %r" % (
                arg, desc, bad.sum(), bad.size, x + 1, y + 1, v[y, x], phys[y, x]))
        res.seen("images_read")
        res.seen("pixels_compared", nr * nc)
        res.seen("undefined_pixels", int(np.isnan(phys).sum()))
        res.nontrivial(("read",) + sig)
        if res.sample is None:
            res.sample = {"file": arg, "encoding": desc}

    # ------------------------------------------------------------------ writing, directly
    def values(self, r, nr, nc):
        q = int(r.integers(5))
        if q == 0:
            v = r.normal(size=(nr, nc)) * 10.0 ** r.uniform(-3, 5)
        elif q == 1:
            v = np.where(r.random((nr, nc)) < .5, -1, 1) * 10.0 ** r.uniform(-37, 38, (nr, nc))
        elif q == 2:
            v = np.arange(nr * nc, dtype=float).reshape(nr, nc)
        elif q == 3:
            v = r.uniform(0, 1, (nr, nc))
            v[r.random((nr, nc)) < .1] = np.nan
        else:
            v = r.integers(-2 ** 24, 2 ** 24, (nr, nc)).astype(float)
        return v

    def judge_file(self, res, path, want, what, comments=()):
        from astropy.io import fits
        b = open(path, "rb").read()
        if b[:2] == b"\x1f\x8b":
            b = gzip.decompress(b)
            tmp = path + ".plain"
            open(tmp, "wb").write(b)
            path = tmp
        v = imf.read_fits(path)
        if v.shape != want.shape:
            res.bad("written-size", "%s: image is %s, computed %s" % (what, v.shape, want.shape))
            return
        w = want.astype("f4").astype(float)
        if not np.array_equal(v, w, equal_nan=True):
            bad = ~((v == w) | (np.isnan(v) & np.isnan(w)))
            y, x = np.argwhere(bad)[0]
            res.bad("written-values", "%s: %d of %d pixels differ, e.g. [%d,%d] is %r, computed %r" % (what, bad.sum(), bad.size, x + 1, y + 1, v[y, x], want[y, x]))
        self.whole(res, b, v.shape, path, what)
        if comments:
            with fits.open(path) as h:
                txt = "".join(str(c) for c in h[0].header.get("COMMENT", []))
            for c in comments:
                if re.sub(r"\s", "", c) not in re.sub(r"\s", "", txt):
                    res.bad("comments", "%s: header comment %r missing" % (what, c))
        res.seen("files_decoded")
        res.seen("pixels_compared", int(v.size))

    def whole(self, res, b, shape, path, what):
        """exactly one header-data unit: nothing left of an older file, nothing missing"""
        hl = 0
        while b"END" + b" " * 77 not in [b[hl + i:hl + i + 80] for i in range(0, 2880, 80)]:
            hl += 2880
            if hl >= len(b):
                res.bad("structure", "%s: no END card" % what)
                return
        hl += 2880
        n = shape[0] * shape[1] * 4
        n += -n % 2880
        if len(b) != hl + n:
            res.bad("stale", "%s: file has %d bytes, its header and pixels take %d" % (what, len(b), hl + n))

    def stale(self, r, path):
        """an older file of the same name"""
        from astropy.io import fits
        q = int(r.integers(4))
        if q == 0:
            fits.HDUList([fits.PrimaryHDU(r.normal(size=(120, 130))), fits.ImageHDU(r.normal(size=(30, 30))), fits.ImageHDU(r.normal(size=(5, 5)))]).writeto(path, overwrite=True)
        elif q == 1:
            h = fits.PrimaryHDU(r.integers(0, 99, (7, 3)).astype("i2"))
            h.header["BSCALE2"] = 3.0
            h.header["OLDKEY"] = 17
            h.header.add_comment("old comment")
            h.writeto(path, overwrite=True)
        elif q == 2:
            open(path, "wb").write(bytes(r.integers(0, 256, 40000, dtype="u1")))
        else:
            open(path, "w").write("")
        return ["larger", "smaller", "junk", "empty"][q]

    def k_write(self, r, ctx, res):
        nr, nc = shape_of(r, 140)
        v = self.values(r, nr, nc)
        v.tofile(os.path.join(ctx.dir, "raw"))
        name = str(r.choice(["o.fits"] * 5 + ["a b.fits", "o.fit", "noext", "o.fits.gz", "./o.fits"]))
        com = ["comment %d: %s" % (i, "xyz " * int(r.integers(0, 30))) for i in range(int(r.integers(0, 45)))] if r.random() < .6 else []
        p = os.path.join(ctx.dir, name)
        old = self.stale(r, p) if r.random() < .6 else "none"
        R = imf.must(ctx.bins["imio"], ["write", name, "raw", nc, nr] + com, ctx.dir)
        if "status 0 same 1" not in R.out:
            res.bad("write-status", "writing %s (%dx%d): %s %s" % (name, nr, nc, R.out[:100], R.err[:200]))
            return
        self.judge_file(res, p, v, "%s (%d comments, old file: %s)" % (name, len(com), old), com)
        with open(p, "rb") as f:
            b = f.read()
        if b"OLDKEY" in b or b"old comment" in b:
            res.bad("stale", "%s: header of the older file remains" % name)
        res.nontrivial(("write", name, old, len(com) > 30))
        # what was written is read back by the programs too
        R = imf.must(ctx.bins["imio"], ["read", name, "raw2"], ctx.dir)
        w = np.fromfile(os.path.join(ctx.dir, "raw2"))
        if w.size != v.size or not np.array_equal(w.reshape(nr, nc), v.astype("f4").astype(float), equal_nan=True):
            res.bad("reread", "%s written and read back by the programs differs" % name)

    def k_many(self, r, ctx, res):
        """many images by one process: nothing is left open or carried over"""
        nr, nc = shape_of(r, 40)
        v = self.values(r, nr, nc)
        v.tofile(os.path.join(ctx.dir, "raw"))
        n = 1500
        R = imf.must(ctx.bins["imio"], ["many", "raw", nc, nr] + ["o%d.fits" % (i % 50) for i in range(n)], ctx.dir)
        g = re.findall(r"file (\d+) status (\S+) size (\d+) (\d+) bad (\S+)", R.out)
        bad = [x for x in g if x[1:] != ("0", str(nc), str(nr), "0")]
        if len(g) != n or bad:
            res.bad("many", "%d of %d files written and read back; first bad: %s" % (len(g) - len(bad), n, bad[:1]))
        res.seen("files_rewritten", len(g))
        res.nontrivial(("many", nr == 1, nc == 1))

    # ------------------------------------------------------------------ whole runs on other encodings of the same values
    def reencode(self, r, d, name, lo, hi, shape, undef=False):
        """file `name`.fits in some encoding and p-`name`.fits, plain, with the same values"""
        arg, phys, desc, sig = encode(r, d, name, shape, lo, hi, undef=undef)
        imf.write_fits(os.path.join(d, "p-%s.fits" % name), phys)
        return arg, "p-%s.fits" % name, desc, sig

    def k_runs(self, r, ctx, res):
        nr, nc = int(r.integers(6, 40)), int(r.integers(6, 40))
        d = ctx.dir
        A, B, D = [], [], []
        a, b, desc, sig = self.reencode(r, d, "d", 20, 200, (nr, nc), undef=r.random() < .3)
        data = (a, b)
        D.append("data " + desc)
        prog = str(r.choice(["imfit", "makeimage"], p=[.8, .2]))
        what = []
        if prog == "makeimage" or r.random() < .4:
            k = int(r.integers(2, 8)) * 2 + 1
            a, b, desc, sg = self.reencode(r, d, "psf", 1, 100, (k, k + 2 * int(r.integers(0, 3))))
            A += ["--psf", a]
            B += ["--psf", b]
            D.append("psf " + desc)
            what.append("psf")
        cfg = "X0 %d fixed\nY0 %d fixed\nFUNCTION Gaussian\nPA 30 fixed\nell 0.3 fixed\nI_0 100 1,1000\nsigma 4 fixed\nFUNCTION FlatSky\nI_sky 5 -100,300\n" % (nc // 2, nr // 2)
        open(os.path.join(d, "c.dat"), "w").write(cfg)
        if prog == "makeimage":
            A += ["--refimage", data[0]]
            B += ["--refimage", data[1]]
            for x, o in ((A, "oa.fits"), (B, "ob.fits")):
                imf.must(ctx.bins["makeimage"], ["c.dat", "-o", o] + x, d)
            if not np.array_equal(imf.read_fits(os.path.join(d, "oa.fits")), imf.read_fits(os.path.join(d, "ob.fits"))):
                res.bad("makeimage", "images made from %s and from a plain copy differ" % "; ".join(D))
        else:
            if r.random() < .4:
                a, b, desc, sg = self.reencode(r, d, "mask", 0, 1, (nr, nc))
                if "-32" in desc or "-64" in desc:   # zero / non-zero must survive
                    m = (r.random((nr, nc)) < .2).astype(float)
                    imf.write_fits(os.path.join(d, "mask.fits"), m, int(r.choice([8, 16, 32, 64, -32, -64])))
                    imf.write_fits(os.path.join(d, "p-mask.fits"), m)
                    a = "mask.fits"
                A += ["--mask", a]
                B += ["--mask", b]
                D.append("mask " + desc)
                what.append("mask")
            if r.random() < .4:
                a, b, desc, sg = self.reencode(r, d, "noise", 3, 50, (nr, nc))
                A += ["--noise", a]
                B += ["--noise", b]
                D.append("noise " + desc)
                what.append("noise")
            fit = ["--fitstat-only"] if r.random() < .5 else ["--save-params", "X", "--save-model", "M", "--save-residual", "E", "--save-weights", "W"]
            outs = []
            for t, x, im in (("a", A, data[0]), ("b", B, data[1])):
                f = [{"X": t + ".par", "M": t + "m.fits", "E": t + "r.fits", "W": t + "w.fits"}.get(y, y) for y in fit]
                R = imf.run(ctx.bins["imfit"], ["-c", "c.dat", im] + x + f + ["--gain", "2"], d)
                s = R.sanitizer()
                if s or R.timeout:
                    res.bad("crash", "%s: %s" % (" ".join(R.cmd), s or "no end"))
                    return
                st = imf.find_num(R.out, L.statkey(type("P", (), dict(stat="data"))) + " = NUM")
                z = [R.rc, st, imf.find_num(R.out, "AIC = NUM")]
                if len(f) > 1 and R.rc == 0:
                    z.append(repr(imf.parse_params(os.path.join(d, t + ".par"))[0]))
                    z += [imf.read_fits(os.path.join(d, t + q)) for q in ("m.fits", "r.fits", "w.fits")]
                outs.append(z)
            for i, (p, q) in enumerate(zip(*outs)):
                if isinstance(p, np.ndarray):
                    ok = p.shape == q.shape and np.array_equal(p, q, equal_nan=True)
                else:
                    ok = p == q
                if not ok:
                    res.bad("imfit", "imfit on %s and on plain copies differ in %s: %s / %s" % (
                        "; ".join(D), ["status", "fit statistic", "AIC", "parameters", "model", "residual", "weights"][i],
                        p if not isinstance(p, np.ndarray) else "", q if not isinstance(q, np.ndarray) else ""))
            res.seen("imfit_status_%s" % outs[0][0])
        res.seen("run_pairs")
        res.nontrivial((prog, tuple(what)) + sig)

    def k_mcmc(self, r, ctx, res):
        nr, nc = int(r.integers(6, 20)), int(r.integers(6, 20))
        a, b, desc, sig = self.reencode(r, ctx.dir, "d", 20, 200, (nr, nc))
        open(os.path.join(ctx.dir, "c.dat"), "w").write("X0 3 fixed\nY0 3 fixed\nFUNCTION TiltedSkyPlane\nI_0 50 1,1000\nm_x 0 -3,3\nm_y 0 -3,3\n")
        rows = []
        for im, o in ((a, "ka"), (b, "kb")):
            imf.must(ctx.bins["imfit-mcmc"], [im, "-c", "c.dat", "-o", o, "--nchains", "3", "--max-chain-length", "60", "--burnin-length", "20",
                                               "--seed", "7", "--sky", "1"], ctx.dir, timeout=120)
            rows.append(["".join(x for x in open(os.path.join(ctx.dir, "%s.%d.txt" % (o, i))) if not x.startswith("#")) for i in (1, 2, 3)])
        if rows[0] != rows[1] or not rows[0][0].strip():
            res.bad("mcmc", "chains for %s and for a plain copy differ" % desc)
        res.seen("mcmc_pairs")
        res.nontrivial(("mcmc",) + sig)

    def k_multi(self, r, ctx, res):
        nr, nc = int(r.integers(8, 24)), int(r.integers(8, 24))
        d = ctx.dir
        fs = [self.reencode(r, d, "d%d" % i, 20, 200, (nr, nc)) for i in range(2)]
        open(os.path.join(d, "c.dat"), "w").write("X0 4 1,8\nY0 4 1,8\nFUNCTION Gaussian\nPA 30 fixed\nell 0.3 fixed\nI_0 100 1,1000\nsigma 4 1,20\n")
        st = []
        for k in (0, 1):
            t = ""
            for i in range(2):
                t += "IMAGE_START\nDATA %s\n%s" % (fs[i][k], "ORIGINAL_SKY 3\n")
                t += "PIXEL_SCALE 1 fixed\nIMAGE_PA 0 fixed\nFLUX_SCALE 1 fixed\nX0 4 %s\nY0 4 %s\n" % (("fixed", "fixed") if i == 0 else ("1,8", "1,8"))
            open(os.path.join(d, "i%d.dat" % k), "w").write(t)
            R = imf.run(ctx.bins["multimfit"], ["-c", "c.dat", "-i", "i%d.dat" % k, "--fitstat-only"], d)
            s = R.sanitizer()
            if s or R.timeout:
                res.bad("crash", "%s: %s" % (" ".join(R.cmd), s))
                return
            st.append((R.rc, imf.find_num(R.out, "CHI-SQUARE = NUM")))
        if st[0] != st[1]:
            res.bad("multi", "multimfit on %s / %s and on plain copies: %s" % (fs[0][2], fs[1][2], st))
        res.seen("multi_status_%s" % st[0][0])
        res.nontrivial(("multi",) + fs[0][3])

    # ------------------------------------------------------------------ every image output, on top of older files
    def k_over(self, r, ctx, res):
        d = ctx.dir
        prog = str(r.choice(["makeimage", "functions", "imfit", "makemultimages", "multimfit"], p=[.3, .15, .3, .15, .1]))
        sz = (5, 60)
        nr, nc = int(r.integers(*sz)), int(r.integers(*sz))
        m = "X0 %.2f\nY0 %.2f\nFUNCTION Gaussian\nPA 30 0,180\nell 0.3 0,0.9\nI_0 100 1,1000\nsigma 4 1,20\nFUNCTION Exponential\nPA 30 0,180\nell 0.3 0,0.9\nI_0 30 1,1000\nh 4 1,20\n" % (nc * .4, nr * .6)
        open(os.path.join(d, "c.dat"), "w").write(m)
        if prog in ("makeimage", "functions"):
            args = ["c.dat", "--ncols", nc, "--nrows", nr, "-o", "OUT/m.fits"] + (["--output-functions", "OUT/f"] if prog == "functions" else [])
            names, exe = ["m.fits"] + (["f1_Gaussian.fits", "f2_Exponential.fits"] if prog == "functions" else []), "makeimage"
        elif prog == "imfit":
            imf.write_fits(os.path.join(d, "d.fits"), r.normal(50, 7, (nr, nc)))
            args = ["-c", "c.dat", "d.fits", "--sky", "10", "--save-params", "OUT/p.dat", "--save-model", "OUT/m.fits", "--save-residual", "OUT/r.fits", "--save-weights", "OUT/w.fits"]
            names, exe = ["m.fits", "r.fits", "w.fits"], "imfit"
        else:
            t = ""
            shapes = []
            for i in range(2):
                a, b = int(r.integers(*sz)), int(r.integers(*sz))
                shapes.append((a, b))
                imf.write_fits(os.path.join(d, "d%d.fits" % i), r.normal(50, 7, (a, b)))
                t += "IMAGE_START\n" + ("DATA d%d.fits\nORIGINAL_SKY 10\n" % i if prog == "multimfit" else "NCOLS %d\nNROWS %d\n" % (b, a))
                t += "PIXEL_SCALE 1 fixed\nIMAGE_PA 0 fixed\nFLUX_SCALE 1 fixed\nX0 4 %s\nY0 4 %s\n" % (("fixed", "fixed") if i == 0 else ("1,8", "1,8"))
            open(os.path.join(d, "i.dat"), "w").write(t)
            if prog == "multimfit":
                args = ["-c", "c.dat", "-i", "i.dat", "--save-model", "OUT/m", "--save-params-root", "OUT/p"]
            else:
                args = ["c.dat", "--image-info", "i.dat", "-o", "OUT/m"]
            names, exe = None, prog
        outs = {}
        first = imf_list = None
        for t in ("fresh", "over"):
            os.makedirs(os.path.join(d, t))
            if t == "over":
                olds = [self.stale(r, os.path.join(d, t, n)) for n in imf_list]
                if r.random() < .4:      # the image is written by a first, different run
                    pass
            R = imf.must(ctx.bins[exe], [str(a).replace("OUT/", t + "/") for a in args], d, timeout=120)
            imf_list = sorted(n for n in os.listdir(os.path.join(d, t)) if n.endswith(".fits"))
            for n in imf_list:
                p = os.path.join(d, t, n)
                v = imf.read_fits(p)
                outs.setdefault(n, []).append(v)
                self.whole(res, open(p, "rb").read(), v.shape, p, "%s %s (%s)" % (exe, n, t))
        if names is not None and imf_list != sorted(names):
            res.bad("outputs", "%s wrote %s, expected %s" % (exe, imf_list, names))
        for n, v in outs.items():
            if len(v) != 2 or not np.array_equal(v[0], v[1], equal_nan=True):
                res.bad("over", "%s %s on top of an older file (%s) differs from one written afresh" % (exe, n, olds))
            if exe in ("makeimage", "imfit") and v[0].shape != (nr, nc):
                res.bad("written-size", "%s %s: %s instead of %s" % (exe, n, v[0].shape, (nr, nc)))
            res.seen("outputs_over_older_files")
        if not outs:
            res.bad("outputs", "%s wrote no image" % exe)
        res.nontrivial(("over", prog, nr > nc))


sys.exit(vf.main(C()))
