"""C16: name[x1:x2,y1:y2] behaves like a file holding only those pixels, with positions in the
coordinates of the full image: the same workload is run on both and everything is compared, the sequence
of evaluated parameter vectors and statistics bit for bit."""
import re

from common import *
import fitprob as Q
import clifit as L
import trace as T
import c12


def dyadic(f):
    """centres, limits: multiples of 1/256, so that adding an offset is exact"""
    q = lambda v: np.round(v * 256) / 256  # noqa: E731
    for i, k in enumerate(f.names):
        if k in ("X0", "Y0"):
            f.lo[i], f.hi[i], f.start[i] = q(f.lo[i]) - 1 / 256, q(f.hi[i]) + 1 / 256, q(f.start[i])


def section(r, nc, nr, px0, px1, py0, py1):
    """a way of writing the section of an image with the given margins around it"""
    x = "%d:%d" % (px0 + 1, px0 + nc)
    y = "%d:%d" % (py0 + 1, py0 + nr)
    if px0 == 0 and px1 == 0 and r.random() < .8:
        x = "*"
    if py0 == 0 and py1 == 0 and r.random() < .8:
        y = "*"
    sp = str(r.choice(["", "", "", " "]))
    return "[%s,%s%s]" % (x, sp, y)


def margins(r):
    m = [int(r.integers(0, 12)) for _ in range(4)]
    q = r.random()
    if q < .2:
        m[0] = m[1] = 0
    elif q < .4:
        m[2] = m[3] = 0
    elif q < .5:
        m[0] = 0
    elif q < .6:
        m[3] = 0
    return m


def embed(r, a, m, fill=None):
    big = r.uniform(-1e4, 1e4, (a.shape[0] + m[2] + m[3], a.shape[1] + m[0] + m[1])) if fill is None else np.full((a.shape[0] + m[2] + m[3], a.shape[1] + m[0] + m[1]), fill)
    big[m[2]:m[2] + a.shape[0], m[0]:m[0] + a.shape[1]] = a
    return big


def write_ext(path, big, r):
    """the image in an extension, junk in the primary image"""
    from astropy.io import fits
    k = int(r.integers(1, 3))
    h = [fits.PrimaryHDU(r.normal(size=(3, 5)))]
    for i in range(k - 1):
        h.append(fits.ImageHDU(r.normal(size=(6, 4)), name="OTHER"))
    h.append(fits.ImageHDU(big, name="SCI"))
    fits.HDUList(h).writeto(path, overwrite=True)
    return str(r.choice(["[%d]" % k, "[SCI]"]))


def put(r, d, name, a, m, allow_ext=True):
    """writes the full and the cut-out file; returns (argument for the full one, argument for the cut one)"""
    imf.write_fits(os.path.join(d, "cut-" + name), a)
    big = embed(r, a, m)
    pre = ""
    if allow_ext and r.random() < .2:
        pre = write_ext(os.path.join(d, "full-" + name), big, r)
    else:
        imf.write_fits(os.path.join(d, "full-" + name), big)
        if allow_ext and r.random() < .1:
            pre = "[0]"
    return "full-" + name + pre + section(r, a.shape[1], a.shape[0], *m), "cut-" + name


PARLINE = re.compile(r"^\s*(X0|Y0)(\s*(?:=\s*)?)(" + imf.FLT + r")(.*)$")


def report(x):
    """lines of a report without positions, plus the positions"""
    lines, pos = [], []
    for ln in clean_report(x.out).splitlines():
        if re.search(r"full-|cut-|cfg|naxis1|Offset|offset|oversampling region", ln):
            continue
        m = PARLINE.match(ln)
        if m:
            pos.append((m.group(1), float(m.group(3))))
            # uncertainties are not shifted; bootstrap intervals are
            rest = m.group(4)
            b = re.match(r"\s*\+(\S+), -(\S+)\s+\[(" + imf.FLT + r") -- (" + imf.FLT + r"), (" + imf.FLT + r")\];\s+\((" + imf.FLT + r") \+/- (\S+)\)", rest)
            if b:
                pos += [(m.group(1), float(b.group(3))), (m.group(1), float(b.group(4))), (m.group(1), float(b.group(6)))]
                rest = "interval"
            lm = re.match(r"\s+(" + imf.FLT + r"),(" + imf.FLT + r")\s*$", rest)
            if lm:
                pos += [(m.group(1), float(lm.group(1))), (m.group(1), float(lm.group(2)))]
                rest = "limits"
            lines.append(m.group(1) + rest)
        else:
            lines.append(ln)
    return lines, pos


class C(Check):
    id = "C16"
    harness = (T.TRACED("imfit"), T.TRACED("multimfit"))
    programs = ("imfit", "makeimage", "imfit-mcmc", "multimfit")
    rule = ("random problem x solver x statistic x margins around the section x notation ([x1:x2,y1:y2], *, extensions) x sections of data, mask, "
            "noise and PSF files x oversampled regions; run on the section and on the cut-out; traces, images, reports, parameter files, bootstrap "
            "rows and chains compared; signature = workload, solver, statistic, margins")
    assumptions = ["x1 <= x2 and y1 <= y2 (cfitsio mirrors images for descending ranges)", "positions and limits that are multiples of 1/256, so that both coordinate systems denote exactly the same numbers"]

    def cases(self, tier, seed):
        return mkcases({"fit": (260, 2600), "boot": (60, 600), "mcmc": (60, 500), "over": (80, 800), "multi": (100, 900), "make": (40, 300), "outside": (60, 400)},
                       tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    # ------------------------------------------------------------------
    def problem(self, r, d, stat=None, **kw):
        """files and options of the same problem on a section and on the cut-out: (Fit, P, offsets, args full, args cut)"""
        P = Q.make(r, stat=stat, model="easy", size=kw.pop("size", (9, 18)), nonfinite=r.random() < .2, **kw)
        f = L.make(r, d, P, section=False)
        dyadic(f)
        m = margins(r)
        off = np.array([m[0] if k == "X0" else m[2] if k == "Y0" else 0 for k in f.names], float)
        nolim = (r.random(len(f.names)) < .1) & np.array([k not in ("n", "ell", "sigma", "fwhm", "h", "r_e", "beta") for k in f.names]) & (r.random() < .5)
        self.nolim = nolim.any()
        for o, n in ((off, "cfg-full.dat"), (off * 0, "cfg-cut.dat")):
            cnt = [0]

            def lim(si, fi, pn, x):
                i = cnt[0]
                cnt[0] += 1
                return "fixed" if f.fixed[i] else "" if nolim[i] else "%r,%r" % (f.lo[i] + o[i], f.hi[i] + o[i])
            open(os.path.join(d, n), "w").write(F.config_text(Q.setvec(P.model, f.start + o), limits=lim, head=Q.ccd_config(P)))
        full, cut = ["-c", "cfg-full.dat"], ["-c", "cfg-cut.dat"]
        a, b = put(r, d, "d.fits", P.data, m)
        full.append(a)
        cut.append(b)
        self.arg = a
        for opt, arr in (("--mask", P.maskraw), ("--noise", P.err), ("--psf", P.psf)):
            if arr is None:
                continue
            own = margins(r)        # each file has its own section
            same = r.random() < .3
            if same:
                imf.write_fits(os.path.join(d, "x%s.fits" % opt), arr)
                a = b = "x%s.fits" % opt
            else:
                a, b = put(r, d, opt.strip("-") + ".fits", arr, own)
            full += [opt, a]
            cut += [opt, b]
        extra = [] if P.norm else ["--no-normalize"]
        extra += ["--mask-zero-is-bad"] if P.zbad else []
        if P.err is not None:
            extra += {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[P.noise]
        extra += {"data": [], "model": ["--model-errors"], "err": [], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}[P.stat]
        if r.random() < .6:
            extra.append("--no-subsampling")
        return f, P, m, off, full + extra, cut + extra

    def compare(self, res, tag, desc, d, xf, xc, names, off, outs):
        lf, pf = report(xf)
        lc, pc = report(xc)
        if lf != lc:
            res.bad(tag + ":report", "%s: reports differ: %s" % (desc, first_diff("\n".join(lf), "\n".join(lc))))
        if [k for k, _ in pf] == [k for k, _ in pc]:
            for (k, a), (_, b) in zip(pf, pc):
                o = off["X0"] if k == "X0" else off["Y0"]
                if not abs(a - b - o) <= 1.3e-4 + 1.1e-5 * abs(a) or (a != a):
                    res.bad(tag + ":report-position", "%s: reported %s = %r for the section, %r for the cut-out, offset %g" % (desc, k, a, b, o))
            res.seen("positions_in_reports", len(pf))
        for n in outs:
            if n.endswith(".fits"):
                a = os.path.exists(os.path.join(d, "full-" + n))
                if a != os.path.exists(os.path.join(d, "cut-" + n)):
                    res.bad(tag + ":image", "%s: %s written by one of the two only" % (desc, n))
                elif a:
                    A, B = imf.read_fits(os.path.join(d, "full-" + n)), imf.read_fits(os.path.join(d, "cut-" + n))
                    if A.shape != B.shape or not np.array_equal(A, B, equal_nan=True):
                        res.bad(tag + ":image", "%s: %s differs (%s vs %s)" % (desc, n, A.shape, B.shape))
                    res.seen("images_compared")
            elif os.path.exists(os.path.join(d, "cut-" + n)):
                self.params(res, tag, desc, d, "full-" + n, "cut-" + n, off)

    def params(self, res, tag, desc, d, a, b, off):
        na, va, ea, ha = L.values(os.path.join(d, a))
        nb, vb, eb, hb = L.values(os.path.join(d, b))
        if na != nb or ea != eb:
            res.bad(tag + ":params", "%s: saved parameter files differ: %s %s vs %s %s" % (desc, na, ea, nb, eb))
            return
        o = np.array([off["X0"] if k == "X0" else off["Y0"] if k == "Y0" else 0 for k in na], float)
        bad = np.abs(va - vb - o) > np.where(o != 0, 1.01e-4, 0) + np.array([1.01e-4 if k in ("X0", "Y0") else 0 for k in na])
        if bad.any():
            i = np.flatnonzero(bad)[0]
            res.bad(tag + ":params", "%s: saved %s = %r for the section, %r for the cut-out, offset %g" % (desc, na[i], va[i], vb[i], o[i]))
        ta, tb = [[ln for ln in clean_params(os.path.join(d, n)).splitlines() if not re.match(r"^\s*[XY]0", ln) and not re.search("full-|cut-", ln)] for n in (a, b)]
        if ta != tb:
            res.bad(tag + ":params", "%s: saved parameter files differ: %s" % (desc, first_diff("\n".join(ta), "\n".join(tb))))
        res.seen("parameter_files")

    def traces(self, res, tag, desc, d, exact=True):
        A, B = [T.read(os.path.join(d, n)) for n in ("tr-full", "tr-cut")]
        if len(A) != len(B):
            res.bad(tag + ":trace", "%s: %d evaluations on the section, %d on the cut-out" % (desc, len(A), len(B)))
            return
        for k, (x, y) in enumerate(zip(A, B)):
            if x[0] != y[0] or not np.array_equal(x[1], y[1]) or not (x[2] == y[2] or (x[2] != x[2] and y[2] != y[2])):
                i = np.flatnonzero(x[1] != y[1]) if len(x[1]) == len(y[1]) else []
                res.bad(tag + ":trace", "%s: evaluation %d of %d differs: parameters %s, statistic %.17g vs %.17g" % (
                    desc, k + 1, len(A), [(int(j), x[1][j], y[1][j]) for j in i][:3], x[2], y[2]))
                return
        res.seen("evaluations_compared", len(A))
        res.evals += len(A)

    def both(self, ctx, exe, full, cut, outs, trace=True, extra=(), timeout=150):
        xs = []
        for tag, args in (("full", full), ("cut", cut)):
            a = list(args) + list(extra)
            for o, n in outs:
                a += [o, tag + "-" + n]
            xs.append(imf.must(ctx.bins[exe], a, ctx.dir, timeout=timeout, env={"VERIF_TRACE": "tr-" + tag} if trace else None))
        return xs

    def k_fit(self, r, ctx, res):
        f, P, m, off, full, cut = self.problem(r, ctx.dir)
        if P.valid.sum() < 40:
            return
        solver = str(r.choice([s for s in L.SOLVERS if s != "nl-PRAXIS" and not (s == "lm" and P.stat == "cash")] + (["lm"] * 3 if P.stat != "cash" else []) + ["fitstat"]))
        if self.nolim and solver.startswith("de"):
            solver = "nm"
        extra = (["--fitstat-only"] if solver == "fitstat" else L.CLIARG[solver]) + ["--seed", "5", "--max-threads", "1", "--ftol", "1e-3"]
        outs = [("--save-params", "p.dat"), ("--save-model", "m.fits"), ("--save-residual", "r.fits"), ("--save-weights", "w.fits")]
        desc = "imfit %s %s %s" % (solver, P.stat, self.arg)
        xf, xc = self.both(ctx, "t-imfit", full, cut, outs, extra=extra)
        o = {"X0": m[0], "Y0": m[2]}
        self.traces(res, "fit", desc, ctx.dir)
        self.compare(res, "fit", desc, ctx.dir, xf, xc, f.names, o, [n for _, n in outs])
        # the statistic of the section's start is that of an independent evaluation of the cut-out
        # feeding the saved file back on the section reproduces the statistic
        if os.path.exists(os.path.join(ctx.dir, "full-p.dat")):
            a2 = [("full-p.dat" if v == "cfg-full.dat" else v) for v in full]
            x2 = imf.must(ctx.bins["imfit"], a2 + ["--fitstat-only", "--max-threads", "1"] + Q.ccd(P), ctx.dir)
            s1 = [imf.find_num(x.out, L.statkey(P) + r" = NUM") for x in (xf, x2)]
            if s1[0] is None or s1[1] is None:
                res.seen("no_statistic_line")
            elif abs(s1[0] - s1[1]) > 1e-3 * (abs(s1[0]) + 1) + abs(s1[0]) * .05:
                res.bad("fit:feedback", "%s: best fit %g, but %g when the saved parameters are used on the same section" % (desc, *s1))
            else:
                res.seen("fed_back")
        res.nontrivial(("fit", solver, P.stat, tuple(m), "*" in self.arg, self.arg.count("[")))

    def k_boot(self, r, ctx, res):
        f, P, m, off, full, cut = self.problem(r, ctx.dir)
        if P.valid.sum() < 40:
            return
        solver = "lm" if P.stat != "cash" else "nm"
        nit = int(r.integers(3, 7))
        extra = L.CLIARG[solver] + ["--seed", "5", "--max-threads", "1", "--ftol", "1e-3", "--bootstrap", str(nit)]
        desc = "imfit --bootstrap %s %s" % (P.stat, self.arg)
        xf, xc = self.both(ctx, "t-imfit", full, cut, [("--save-params", "p.dat"), ("--save-bootstrap", "b.txt")], extra=extra)
        self.traces(res, "boot", desc, ctx.dir)
        self.compare(res, "boot", desc, ctx.dir, xf, xc, f.names, {"X0": m[0], "Y0": m[2]}, ["p.dat"])
        (qa, ha, A), (qb, hb, B) = [c12.read_rows(os.path.join(ctx.dir, n)) for n in ("full-b.txt", "cut-b.txt")]
        if ha != hb or len(A) != len(B):
            res.bad("boot:rows", "%s: %s rows %s vs %s rows %s" % (desc, len(A), ha, len(B), hb))
            return
        A, B = np.array(A), np.array(B)
        if A.size and not np.all(np.abs(A - B - off) <= 2e-9 * (np.abs(A) + np.abs(B)) + 1e-12):
            res.bad("boot:rows", "%s: bootstrap rows are not those of the cut-out plus the offset: %s vs %s, offset %s" % (desc, A[0], B[0], off))
        res.seen("bootstrap_rows", len(A))
        res.nontrivial(("boot", P.stat, tuple(m)))

    def k_mcmc(self, r, ctx, res):
        f, P, m, off, full, cut = self.problem(r, ctx.dir, size=(8, 14), stat=str(r.choice(["data", "err", "cash", "mlr"])))
        if P.valid.sum() < 40 or (~f.fixed).sum() < 3:
            return
        full, cut = [[a for a in x if a != "--model-errors"] for x in (full, cut)]
        # the chains need limits
        for o, n in ((off, "cfg-full.dat"), (off * 0, "cfg-cut.dat")):
            cnt = [0]

            def lim(si, fi, pn, x):
                i = cnt[0]
                cnt[0] += 1
                return "fixed" if f.fixed[i] else "%r,%r" % (f.lo[i] + o[i], f.hi[i] + o[i])
            open(os.path.join(ctx.dir, n), "w").write(F.config_text(Q.setvec(P.model, f.start + o), limits=lim, head=Q.ccd_config(P)))
        nch = int(r.integers(3, 6))
        extra = ["--seed", "7", "--max-threads", "1", "--nchains", str(nch), "--burnin-length", "20", "--gelman-evals", "20"]
        extra += [["--uniform-offset", "0.01"], [], ["--gaussian-offset", "0.01"]][int(r.integers(3))]
        desc = "imfit-mcmc %s %s" % (P.stat, self.arg)
        n0 = {}
        for step in range(2):
            ex = extra + (["--max-chain-length", "100", "--append"] if step else ["--max-chain-length", "50"])
            for tag, args in (("full", full), ("cut", cut)):
                imf.must(ctx.bins["imfit-mcmc"], args + ex + ["-o", tag + "chain"], ctx.dir, timeout=120)
            for c in range(1, nch + 1):
                try:
                    A, B = [[[float(v) for v in ln.split()] for ln in open(os.path.join(ctx.dir, "%schain.%d.txt" % (t, c))) if not ln.startswith("#")] for t in ("full", "cut")]
                except OSError as e:
                    raise imf.ProgramFailure("missing-output", str(e))
                full_ = np.array(A), np.array(B)
                if step:
                    # a restart reads rounded values, so the new rows may differ
                    A, B = A[:n0[c]], B[:n0[c]]
                else:
                    n0[c] = len(A)
                if len(A) != len(B) or not A or any(len(x) != len(y) for x, y in zip(A, B)):
                    res.bad("mcmc:rows", "%s: chain %d: %d rows on the section, %d on the cut-out" % (desc, c, len(A), len(B)))
                    return
                A, B = np.array(A), np.array(B)
                o = np.concatenate([off, np.zeros(A.shape[1] - len(off))])
                # printed with 6 digits
                tol = 1.1e-5 * (np.abs(A) + np.abs(B)) + 1e-9
                k = np.flatnonzero(~np.all(np.abs(A - B - o) <= tol, axis=1))
                if len(k):
                    res.bad("mcmc:chain", "%s: step %d chain %d row %d: %s vs %s, offset %s" % (desc, step, c, k[0], A[k[0]], B[k[0]], off))
                    return
                # after a restart the rows may diverge by rounding, but they stay inside the limits
                for q, oo, w in ((full_[0], off, "section"), (full_[1], off * 0, "cut-out")):
                    qq = q[:, :len(off)]
                    t = 1.1e-5 * np.abs(qq) + 1e-9
                    low = (qq < f.lo + oo - t) | (qq > f.hi + oo + t)
                    if low[:, ~f.fixed].any():
                        i = np.argwhere(low & ~f.fixed)[0]
                        res.bad("mcmc:limits", "%s: chain %d of the %s, row %d: %s = %r outside [%r, %r]" % (desc, c, w, i[0], f.names[i[1]], qq[i[0], i[1]], f.lo[i[1]] + oo[i[1]], f.hi[i[1]] + oo[i[1]]))
                        return
                res.seen("chain_rows", len(A))
        res.nontrivial(("mcmc", P.stat, tuple(m), nch))

    def regions(self, r, nc, nr):
        out = []
        for _ in range(int(r.integers(1, 3))):
            w, h = int(r.integers(3, min(8, nc))), int(r.integers(3, min(8, nr)))
            x, y = int(r.integers(1, nc - w + 2)), int(r.integers(1, nr - h + 2))
            out.append((x, x + w - 1, y, y + h - 1))
        return out

    def k_over(self, r, ctx, res):
        f, P, m, off, full, cut = self.problem(r, ctx.dir, psf=True)
        if P.valid.sum() < 40:
            return
        regs = self.regions(r, P.nc, P.nr)
        opsf = F.random_psf(r, 7, 9)
        a, b = put(r, ctx.dir, "op.fits", opsf, margins(r))
        sc = str(int(r.integers(1, 5)))
        br = str(r.choice(["%d:%d,%d:%d", "[%d:%d,%d:%d]"]))
        full += ["--overpsf", a, "--overpsf_scale", sc]
        cut += ["--overpsf", b, "--overpsf_scale", sc]
        for x1, x2, y1, y2 in regs:
            full += ["--overpsf_region", br % (x1 + m[0], x2 + m[0], y1 + m[2], y2 + m[2])]
            cut += ["--overpsf_region", br % (x1, x2, y1, y2)]
        fs = r.random() < .5
        solver = "lm" if P.stat != "cash" else "nm"
        outs = [("--save-params", "p.dat"), ("--save-model", "m.fits")]
        desc = "imfit %s with oversampled regions %s, %s" % (P.stat, regs, self.arg)
        xf, xc = self.both(ctx, "t-imfit", full, cut, outs, extra=(["--fitstat-only"] if fs else L.CLIARG[solver]) + ["--max-threads", "1", "--ftol", "1e-2"])
        self.traces(res, "over", desc, ctx.dir)
        self.compare(res, "over", desc, ctx.dir, xf, xc, f.names, {"X0": m[0], "Y0": m[2]}, [n for _, n in outs])
        res.seen("oversampled_regions", len(regs))
        res.nontrivial(("over", P.stat, len(regs), sc, tuple(m)))

    def k_multi(self, r, ctx, res):
        nim = int(r.integers(1, 4))
        P = Q.make(r, stat="data", model="easy", size=(12, 18), nonfinite=False, masked=False, psf=False)
        P.model = Q.setvec(P.model, np.array([np.round(v * 256) / 256 if k in ("X0", "Y0") else v for k, v in zip(Q.names(P.model), Q.vec(P.model))]))
        nm, v = Q.names(P.model), Q.vec(P.model)
        fixed = r.random(len(v)) < .3
        q = lambda x: np.round(x * 256) / 256  # noqa: E731
        lo, hi = v - np.abs(v) * .3 - .5, v + np.abs(v) * .3 + .5
        for i, k in enumerate(nm):
            if k in ("X0", "Y0"):
                lo[i], hi[i] = q(v[i] - 2), q(v[i] + 2)
            elif k == "ell":
                lo[i], hi[i] = .02, .9
            elif k in ("n", "beta", "sigma", "fwhm", "h", "r_e"):
                lo[i] = max(lo[i], .3)
        M = [margins(r) for _ in range(nim)]
        st = str(r.choice(["data", "model", "cash", "mlr"]))
        cfgs = {}
        infos = {"full": [], "cut": []}
        locs = [r.random() < .3 for _ in range(nim)]
        over = r.random() < .5
        x0 = [[float(q(r.uniform(4, 9))), float(q(r.uniform(4, 9)))] for _ in range(nim)]
        trans = [[float(q(v[0] + r.uniform(-.5, .5))), float(q(v[1] + r.uniform(-.5, .5)))] for _ in range(nim)]
        for k in range(nim):
            d = P.truth + 5 * r.normal(size=P.truth.shape) + 40
            A = {}
            A["full"], A["cut"] = put(r, ctx.dir, "d%d.fits" % k, d, M[k])
            for t in infos:
                infos[t] += ["IMAGE_START", "DATA " + A[t].replace(" ", ""), "READNOISE 5"]
            if r.random() < .5:
                a, b = put(r, ctx.dir, "k%d.fits" % k, (r.random(d.shape) < .2).astype(float), margins(r), False)
                infos["full"].append("MASK " + a.replace(" ", ""))
                infos["cut"].append("MASK " + b)
            if st == "data" and r.random() < .4:
                a, b = put(r, ctx.dir, "e%d.fits" % k, r.uniform(3, 6, d.shape), margins(r), False)
                infos["full"].append("ERROR " + a.replace(" ", ""))
                infos["cut"].append("ERROR " + b)
            if over or r.random() < .4:
                a, b = put(r, ctx.dir, "p%d.fits" % k, F.random_psf(r, 5, 7), margins(r), False)
                infos["full"].append("PSF " + a.replace(" ", ""))
                infos["cut"].append("PSF " + b)
            if over:
                a, b = put(r, ctx.dir, "o%d.fits" % k, F.random_psf(r, 9, 7), margins(r), False)
                (xa, xb, ya, yb), = self.regions(r, P.nc, P.nr)[:1]
                sc = int(r.integers(1, 4))
                infos["full"] += ["OVERSAMPLED_PSF " + a.replace(" ", ""), "OVERSAMPLE_SCALE %d" % sc, "OVERSAMPLED_REGION %d:%d,%d:%d" % (xa + M[k][0], xb + M[k][0], ya + M[k][2], yb + M[k][2])]
                infos["cut"] += ["OVERSAMPLED_PSF " + b, "OVERSAMPLE_SCALE %d" % sc, "OVERSAMPLED_REGION %d:%d,%d:%d" % (xa, xb, ya, yb)]
            fx = bool(r.random() < .4)
            ps, pa = float(q(r.uniform(.8, 1.2))), float(q(r.uniform(-20, 20)))
            for t, (ox, oy) in (("full", (M[k][0], M[k][2])), ("cut", (0, 0))):
                if k:
                    infos[t] += ["PIXEL_SCALE %r" % ps, "IMAGE_PA %r" % pa, "FLUX_SCALE 1.0 0.5,2",
                                 "X0 %r %s" % (trans[k][0] + ox, "fixed" if fx else "%r,%r" % (trans[k][0] + ox - 2, trans[k][0] + ox + 2)),
                                 "Y0 %r %s" % (trans[k][1] + oy, "fixed" if fx else "%r,%r" % (trans[k][1] + oy - 2, trans[k][1] + oy + 2))]
                else:
                    infos[t] += ["X0 %r fixed" % (v[0] + ox), "Y0 %r fixed" % (v[1] + oy)]
                if locs[k]:
                    infos[t] += ["FUNCTIONS_START", "X0 %r %r,%r" % (x0[k][0] + ox, x0[k][0] + ox - 1, x0[k][0] + ox + 1),
                                 "Y0 %r %r,%r" % (x0[k][1] + oy, x0[k][1] + oy - 1, x0[k][1] + oy + 1), "FUNCTION Gaussian",
                                 "PA 20 fixed", "ell 0.2 fixed", "I_0 30 10,90", "sigma 1.5 fixed"]
        for t, on in (("full", 1), ("cut", 0)):
            o = np.array([M[0][0] if k == "X0" else M[0][2] if k == "Y0" else 0 for k in nm], float) * on
            cnt = [0]

            def lim(si, fi, pn, x):
                i = cnt[0]
                cnt[0] += 1
                return "fixed" if fixed[i] else "%r,%r" % (lo[i] + o[i], hi[i] + o[i])
            open(os.path.join(ctx.dir, "cfg-%s.dat" % t), "w").write(F.config_text(Q.setvec(P.model, v + o), limits=lim))
            open(os.path.join(ctx.dir, "info-%s.dat" % t), "w").write("\n".join(infos[t]) + "\n")
        fs = r.random() < .3
        solver = "nm" if st == "cash" else "lm"
        extra = ["--max-threads", "1", "--ftol", "1e-3"] + (["--fitstat-only"] if fs else L.CLIARG[solver]) + {"data": [], "model": ["--model-errors"], "cash": ["--cashstat"], "mlr": ["--mlr"]}[st]
        desc = "multimfit %s, %d images, margins %s, oversampling %s, local functions %s" % (st, nim, M, over, locs)
        xf, xc = self.both(ctx, "t-multimfit", ["-c", "cfg-full.dat", "-i", "info-full.dat"], ["-c", "cfg-cut.dat", "-i", "info-cut.dat"],
                           [("--save-params-root", "P"), ("--save-model", "M")], extra=extra)
        self.traces(res, "multi", desc, ctx.dir)
        # model images and parameter files of every image
        fa = sorted(n for n in os.listdir(ctx.dir) if re.match(r"full-[PM]", n))
        fb = sorted(n for n in os.listdir(ctx.dir) if re.match(r"cut-[PM]", n))
        if [n[5:] for n in fa] != [n[4:] for n in fb]:
            res.bad("multi:files", "%s: files %s vs %s" % (desc, fa, fb))
        for n in [n[5:] for n in fa]:
            if n.endswith(".fits"):
                A, B = imf.read_fits(os.path.join(ctx.dir, "full-" + n)), imf.read_fits(os.path.join(ctx.dir, "cut-" + n))
                if A.shape != B.shape or not np.array_equal(A, B):
                    res.bad("multi:image", "%s: %s differs" % (desc, n))
                res.seen("images_compared")
                continue
            k = re.search(r"_image(\d+)\.dat$", n)
            if not k:
                k = 0 if "refimage" in n else None
            else:
                k = int(k.group(1)) - 1
            self.posfile(res, desc, ctx.dir, n, M, k)
        res.seen("multi_images", nim)
        res.nontrivial(("multi", st, nim, over, sum(locs), fs, tuple(M[0])))

    def posfile(self, res, desc, d, n, M, k):
        """text files of a multi-image fit: positions shifted by the offset of the image they belong to"""
        ta, tb = [clean_params(os.path.join(d, t + n)).splitlines() for t in ("full-", "cut-")]
        img = -1
        if len(ta) != len(tb):
            res.bad("multi:file", "%s: %s has %d lines vs %d" % (desc, n, len(ta), len(tb)))
            return
        for a, b in zip(ta, tb):
            if re.search("full-|cut-|cfg|info|^# ", a):
                if "IMAGE_START" in a:
                    img += 1
                continue
            if a.strip().startswith("IMAGE_START"):
                img += 1
            ma, mb = PARLINE.match(a), PARLINE.match(b)
            if ma and mb:
                who = k if k is not None else img if img >= 0 else None
                opts = [M[who]] if who is not None and who < len(M) else M
                w = 0 if ma.group(1) == "X0" else 2
                df = float(ma.group(3)) - float(mb.group(3))
                if not any(abs(df - q[w]) <= 1.3e-4 + 2e-6 * abs(float(ma.group(3))) for q in opts):
                    res.bad("multi:position", "%s: %s: %s = %s for the sections, %s for the cut-outs, offset %s" % (desc, n, ma.group(1), ma.group(3), mb.group(3), [q[w] for q in opts]))
                res.seen("positions_in_files")
            elif a != b and "OVERSAMPLED_REGION" not in a:
                res.bad("multi:file", "%s: %s: %s" % (desc, n, first_diff(a, b)))

    def k_make(self, r, ctx, res):
        """sections of reference image and PSF in image generation"""
        nc, nr = int(r.integers(8, 24)), int(r.integers(8, 24))
        mdl = F.random_model(r, nc, nr)
        m = margins(r)
        a, b = put(r, ctx.dir, "ref.fits", r.normal(size=(nr, nc)), m)
        pa, pb = put(r, ctx.dir, "psf.fits", F.random_psf(r, int(r.integers(3, 9)), int(r.integers(3, 9))), margins(r))
        t = F.config_text(mdl)
        A, _ = makeimage(ctx, t, "full.fits", ["--refimage", a, "--psf", pa])
        B, _ = makeimage(ctx, t, "cut.fits", ["--refimage", b, "--psf", pb])
        if A.shape != (nr, nc) or not np.array_equal(A, B, equal_nan=True):
            res.bad("make:image", "makeimage --refimage %s --psf %s: %s, with cut-out files %s, largest difference %s" % (
                a, pa, A.shape, B.shape, np.abs(A - B).max() if A.shape == B.shape else "-"))
        res.seen("generated")
        res.nontrivial(("make", nc, nr, tuple(m)))

    def k_outside(self, r, ctx, res):
        """sections reaching outside, or of another size than the data: refused, nothing produced"""
        f, P, m, off, full, cut = self.problem(r, ctx.dir, masked=True, stat="err", psf=True)
        big = imf.write_fits
        nc, nr = P.nc + 3, P.nr + 2
        for n in ("dd", "kk", "ee"):
            big(os.path.join(ctx.dir, n + ".fits"), np.ones((nr, nc)) * (0 if n == "kk" else 1) + r.normal(size=(nr, nc)) * (n == "dd") * .1)
        good = "[2:%d,2:%d]" % (P.nc + 1, P.nr + 1)
        x2, y2 = P.nc + 1, P.nr + 1
        bads = ["[2:%d,2:%d]" % (nc + 1, y2), "[2:%d,2:%d]" % (x2, nr + 1), "[%d:%d,1:5]" % (nc + 1, nc + 5), "[0:%d,1:5]" % (x2), "[-3:%d,2:%d]" % (x2, y2), "[2:%d,-1:%d]" % (x2, y2),
                "[%d:%d,%d:%d]" % (nc + 1, nc + 9, nr + 1, nr + 9), "[2:%d,2:%d" % (x2, y2), "[7][2:%d,2:%d]" % (x2, y2), "[2:%d,abc]" % x2]
        size = ["[2:%d,2:%d]" % (x2 - 1, y2), "[2:%d,2:%d]" % (x2, y2 + 1), "[2:%d,3:%d]" % (x2, y2), "", "[1:%d,2:%d]" % (x2, y2)]
        which = int(r.integers(4))
        sec = {"d": good, "k": good, "e": good}
        tag = ["d", "k", "e", "size"][which]
        if which < 3:
            sec[tag] = str(r.choice(bads))
        else:
            tag = str(r.choice(["k", "e"]))
            sec[tag] = str(r.choice(size))
        args = ["-c", "cfg-cut.dat", "dd.fits" + sec["d"], "--mask", "kk.fits" + sec["k"], "--noise", "ee.fits" + sec["e"], "--fitstat-only", "--save-model", "om.fits", "--save-params", "op.dat"]
        x = imf.run(ctx.bins["imfit"], args, ctx.dir, timeout=60)
        desc = "imfit " + " ".join(args)
        if x.timeout or x.sanitizer():
            res.bad("outside:crash", "%s: %s" % (desc, x.sanitizer() or "no end"))
        elif x.rc == 0 or "STATISTIC" in x.out or "CHI-SQUARE" in x.out or os.path.exists(os.path.join(ctx.dir, "om.fits")):
            res.bad("outside:accepted", "%s: accepted (status %s)" % (desc, x.rc))
        elif not x.err.strip():
            res.bad("outside:silent", "%s: no message" % desc)
        else:
            res.seen("refused")
        # the section at the very edge is fine
        edge = "[%d:%d,%d:%d]" % (4, nc, 3, nr)
        args = ["-c", "cfg-cut.dat", "dd.fits" + edge, "--mask", "kk.fits" + edge, "--noise", "ee.fits" + edge, "--fitstat-only", "--max-threads", "1"]
        imf.must(ctx.bins["imfit"], args, ctx.dir)
        res.nontrivial(("outside", tag, sec[tag]))


if __name__ == "__main__":
    sys.exit(vf.main(C()))
