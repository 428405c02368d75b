"""C17: the meaning of a configuration does not depend on its layout, every value in it is used as written,
labels are carried over, and the parameter files written by fits denote the same model when used as input."""
import re

from common import *
import fitprob as Q
import clifit as L
import layout as Y
import trace as T

BYTES = ("d.fits",)


class C(Check):
    id = "C17"
    harness = (T.TRACED("imfit"), T.TRACED("multimfit"), T.TRACED("imfit-mcmc"))
    programs = ("imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages")
    rule = ("random configuration x random rewriting of its layout (blank lines, comments holding keywords, indentation, tabs, spellings of "
            "numbers, other parameter names, labels) x program; images, evaluation traces and files of both compared bit for bit; image-description "
            "values by config file / command line / both; saved files parsed independently and fed back; signature = workload, program, features")
    assumptions = ["lines end with a newline character (a carriage return is not white space for these programs)"]

    def cases(self, tier, seed):
        return mkcases({"make": (260, 2600), "fit": (200, 2000), "mcmc": (40, 300), "info": (120, 1000), "keys": (80, 700), "labels": (60, 400),
                        "round": (120, 1200), "mround": (60, 500), "local": (1, 1), "sample": (1, 1), "opt": (12, 60)}, tier, seed, self.id, x=2)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    # ------------------------------------------------------------------
    def img(self, ctx, n):
        return imf.read_fits(os.path.join(ctx.dir, n))

    def same(self, res, key, desc, ctx, a, b):
        A, B = self.img(ctx, a), self.img(ctx, b)
        if A.shape != B.shape or not np.array_equal(A, B, equal_nan=True):
            res.bad(key, "%s: %s" % (desc, "sizes %s %s" % (A.shape, B.shape) if A.shape != B.shape else "largest difference %.3g" % np.nanmax(np.abs(A - B))))
            return False
        res.seen("images_compared")
        res.evals += 1
        return True

    def label(self, r, m):
        n = 0
        for s in m["sets"]:
            for f in s["funcs"]:
                if r.random() < .5:
                    f["label"] = str(r.choice(Y.LABELS))
                    n += 1
        return n

    def limtext(self, r, v):
        k = int(r.integers(4))
        if k == 0:
            return ""
        if k == 1:
            return "fixed"
        return "%r,%r" % (v - float("%.4g" % r.uniform(.1, 5)), v + float("%.4g" % r.uniform(.1, 5)))

    def k_make(self, r, ctx, res):
        nc, nr = int(r.integers(3, 40)), int(r.integers(3, 40))
        m = F.random_model(r, nc, nr)
        nl = self.label(r, m)
        point = r.random() < .3
        args = []
        if point:
            m["sets"].append(dict(x0=nc / 2 + .3, y0=nr / 2 - .2, funcs=[dict(name="PointSource", p=dict(I_tot=120.0), extra={"method": str(r.choice(["bicubic", "lanczos2", "lanczos3"]))})]))
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, 9, 9))
            args = ["--psf", "psf.fits"]
        plain = F.config_text(m, nc, nr)
        # limits have no meaning here: any of them, and any order of the image size
        lim = F.config_text(m, nc, nr, limits=lambda si, fi, pn, x: self.limtext(r, x)).splitlines()
        if r.random() < .5:
            lim[:2] = lim[1::-1]
        if r.random() < .3:
            lim = [re.sub("^NCOLS", "NCOLUMNS", q) for q in lim]
        if r.random() < .3:
            lim.insert(int(r.integers(0, 3)), str(r.choice(["GAIN 4.5", "READNOISE 3", "SOMETHING else"])))
        text = Y.scramble(r, "\n".join(lim) + "\n")
        makeimage(ctx, plain, "a.fits", args, name="a.dat")
        makeimage(ctx, text, "b.fits", args, name="b.dat")
        self.same(res, "make:layout", "makeimage: the rewritten configuration gives another image (%d functions, %d labels)" % (sum(len(s["funcs"]) for s in m["sets"]), nl), ctx, "a.fits", "b.fits")
        res.nontrivial(("make", nc, nr, nl, point, tuple(f["name"] for s in m["sets"] for f in s["funcs"])))

    def trace_same(self, res, key, desc, d, a="tr-a", b="tr-b"):
        A, B = T.read(os.path.join(d, a)), T.read(os.path.join(d, b))
        if len(A) != len(B) or not A:
            res.bad(key, "%s: %d evaluations against %d" % (desc, len(A), len(B)))
            return False
        for k, (x, y) in enumerate(zip(A, B)):
            if x[0] != y[0] or not np.array_equal(x[1], y[1]) or not (x[2] == y[2] or (x[2] != x[2] and y[2] != y[2])):
                res.bad(key, "%s: evaluation %d of %d differs: %s %r against %s %r" % (desc, k + 1, len(A), x[1][:6], x[2], y[1][:6], y[2]))
                return False
        res.seen("evaluations_compared", len(A))
        res.evals += len(A)
        return True

    def k_fit(self, r, ctx, res):
        P = Q.make(r, model="easy", size=(9, 18), nonfinite=r.random() < .2)
        if P.valid.sum() < 40:
            return
        self.label(r, P.model)
        f = L.make(r, ctx.dir, P, cfg="a.dat")
        open(os.path.join(ctx.dir, "b.dat"), "w").write(Y.scramble(r, f.text))
        solver = str(r.choice([s for s in ("lm", "nm", "de", "nl-BOBYQA", "fitstat") if not (s == "lm" and P.stat == "cash")]))
        extra = (["--fitstat-only"] if solver == "fitstat" else L.CLIARG[solver]) + ["--seed", "3", "--max-threads", "1", "--ftol", "1e-3"]
        desc = "imfit %s %s" % (solver, P.stat)
        for t in "ab":
            a = ["-c", t + ".dat"] + f.args[2:] + extra
            groups = []
            i = 0
            while i < len(a):       # the order of options does not matter either
                n = 1
                if a[i].startswith("-"):
                    while i + n < len(a) and not a[i + n].startswith("-") and not (a[i + n] == f.image):
                        n += 1
                groups.append(a[i:i + n])
                i += n
            if t == "b" and r.random() < .6:
                groups = [groups[i] for i in r.permutation(len(groups))]
                groups = [["%s=%s" % tuple(g)] if len(g) == 2 and g[0].startswith("--") and r.random() < .5 else g for g in groups]
            imf.must(ctx.bins["t-imfit"], [q for g in groups for q in g] + ["--save-params", t + "-p.dat", "--save-model", t + "-m.fits"], ctx.dir, timeout=150, env={"VERIF_TRACE": "tr-" + t})
        if not self.trace_same(res, "fit:layout", desc + ": the rewritten configuration is fitted differently", ctx.dir):
            return
        # the first vector is what the file says
        tr = T.read(os.path.join(ctx.dir, "tr-a"))
        st = [x for x in tr if x[0] == 9]
        if st and not np.array_equal(np.asarray(st[0][1])[:f.n], f.start):
            i = np.flatnonzero(np.asarray(st[0][1])[:f.n] != f.start)[0]
            res.bad("fit:start", "%s: %s starts at %r, the file says %r" % (desc, f.names[i], st[0][1][i], f.start[i]))
        if solver != "fitstat":
            pa, pb = [os.path.join(ctx.dir, t + "-p.dat") for t in "ab"]
            if os.path.exists(pa) != os.path.exists(pb):
                res.bad("fit:params", desc + ": saved parameters only once")
            elif os.path.exists(pa):
                ta, tb = [[q for q in clean_params(p).splitlines() if not re.search(r"a\.dat|b\.dat", q)] for p in (pa, pb)]
                if ta != tb:
                    res.bad("fit:params", "%s: saved parameter files differ: %s" % (desc, first_diff("\n".join(ta), "\n".join(tb))))
                self.labels_kept(res, desc, pa, P.model)
                self.same(res, "fit:model", desc + ": saved models differ", ctx, "a-m.fits", "b-m.fits")
        res.nontrivial(("fit", solver, P.stat, f.sec != "", tuple(f.fixed), tuple(f.names)))

    def labels_kept(self, res, desc, path, model):
        want = [(f["name"], f.get("label", "")) for s in model["sets"] for f in s["funcs"]]
        got = []
        for ln in open(path, errors="replace"):
            if ln.startswith("FUNCTION"):
                q = ln.rstrip("\n").split(None, 1)[1]
                n, _, lab = q.partition("#")
                got.append((n.strip(), lab.strip()[len("LABEL"):].strip() if lab.strip().startswith("LABEL") else lab.strip()))
        if got != want:
            res.bad("labels", "%s: functions and labels %s written as %s" % (desc, want, got))
        res.seen("labels", sum(1 for w in want if w[1]))

    def k_labels(self, r, ctx, res):
        """labels from configuration to parameter files, through a second fit and back"""
        P = Q.make(r, stat="data", model="easy", size=(8, 10), nonfinite=False, masked=False, psf=False)
        for s in P.model["sets"]:
            for f in s["funcs"]:
                if r.random() < .8:
                    f["label"] = str(r.choice(Y.LABELS + ["Z", "7"]))
        f = L.make(r, ctx.dir, P, cfg="a.dat", section=False)
        imf.must(ctx.bins["imfit"], f.args + ["--nm", "--ftol", "1e-1", "--max-threads", "1", "--save-params", "p1.dat"], ctx.dir, timeout=100)
        self.labels_kept(res, "imfit", os.path.join(ctx.dir, "p1.dat"), P.model)
        imf.must(ctx.bins["imfit"], ["-c", "p1.dat"] + f.args[2:] + Q.ccd(P) + ["--nm", "--ftol", "1e-1", "--max-threads", "1", "--save-params", "p2.dat"], ctx.dir, timeout=100)
        self.labels_kept(res, "imfit on a saved parameter file", os.path.join(ctx.dir, "p2.dat"), P.model)
        # labels in the table of fluxes
        x = imf.must(ctx.bins["makeimage"], ["p1.dat", "--refimage", "d.fits", "--save-fluxes", "fl.dat", "--nosave", "--estimation-size", "60"], ctx.dir)
        got = [ln.rstrip("\n") for ln in open(os.path.join(ctx.dir, "fl.dat")) if not ln.startswith("#") and ln.strip()]
        want = [f_.get("label", "") for s in P.model["sets"] for f_ in s["funcs"]]
        for g, w, n in zip(got, want, [f_["name"] for s in P.model["sets"] for f_ in s["funcs"]]):
            if not g.startswith(n) or (w and not g.rstrip().endswith(w)):
                res.bad("labels:fluxes", "makeimage --save-fluxes: function %s labelled %r appears as %r" % (n, w, g))
        res.nontrivial(("labels", tuple(want)))

    def k_mcmc(self, r, ctx, res):
        P = Q.make(r, stat=str(r.choice(["data", "cash", "mlr"])), model="easy", size=(8, 12), nonfinite=False)
        if P.valid.sum() < 40:
            return
        self.label(r, P.model)
        f = L.make(r, ctx.dir, P, cfg="a.dat", minfree=3)
        open(os.path.join(ctx.dir, "b.dat"), "w").write(Y.scramble(r, f.text))
        for t in "ab":
            imf.must(ctx.bins["imfit-mcmc"], ["-c", t + ".dat"] + f.args[2:] + ["--seed", "3", "--nchains", "4", "--max-chain-length", "40", "--burnin-length", "20", "--gelman-evals", "10", "--max-threads", "1", "-o", "ch" + t], ctx.dir, timeout=120)
        for c in range(1, 5):
            A, B = [[ln for ln in open(os.path.join(ctx.dir, "ch%s.%d.txt" % (t, c))) if not ln.startswith("#")] for t in "ab"]
            if A != B or not A:
                res.bad("mcmc:layout", "imfit-mcmc: chain %d with the rewritten configuration differs: %s" % (c, first_diff("".join(A), "".join(B))))
                return
            res.seen("chain_rows", len(A))
        res.nontrivial(("mcmc", P.stat, tuple(f.names)))

    # ------------------------------------------------------------------
    def k_keys(self, r, ctx, res):
        """image-description values: in the file, on the command line, or both (the command line wins)"""
        P = Q.make(r, stat=str(r.choice(["data", "model", "cash", "mlr"])), model="easy", size=(8, 12), nonfinite=False)
        if P.valid.sum() < 30:
            return
        f = L.make(r, ctx.dir, P, cfg="unused.dat", section=False)
        body = F.config_text(Q.setvec(P.model, f.gstart))
        vals = dict(GAIN=float(np.round(r.uniform(.5, 5), 3)), READNOISE=float(np.round(r.uniform(.5, 9), 3)), EXPTIME=float(np.round(r.uniform(.5, 20), 2)),
                    NCOMBINED=int(r.integers(1, 6)), ORIGINAL_SKY=float(np.round(r.uniform(5, 300), 2)))
        keys = [k for k in vals if r.random() < .8]
        cli = dict(GAIN="--gain", READNOISE="--readnoise", EXPTIME="--exptime", NCOMBINED="--ncombined", ORIGINAL_SKY="--sky")
        if "READNOISE" not in keys:      # the noise of every pixel has to be defined
            imf.write_fits(os.path.join(ctx.dir, "d.fits"), np.abs(imf.read_fits(os.path.join(ctx.dir, "d.fits"))) + 1)
        order = [keys[i] for i in r.permutation(len(keys))]
        split = {k: int(r.integers(3)) for k in keys}       # 0 file, 1 command line, 2 both
        heads = {"file": "".join("%s %r\n" % (k, vals[k]) for k in keys), "cli": "",
                 "mix": Y.scramble(r, "".join("%s %r\n" % (k, vals[k] if split[k] == 0 else (vals[k] * 3 + 1)) for k in order if split[k] != 1), names=False)}
        if not heads["mix"].endswith("\n"):
            heads["mix"] += "\n"
        args = {"file": [], "cli": [q for k in keys for q in (cli[k], repr(vals[k]))], "mix": [q for k in order if split[k] for q in (cli[k], repr(vals[k]))]}
        for t in heads:
            open(os.path.join(ctx.dir, t + ".dat"), "w").write(heads[t] + body)
            imf.must(ctx.bins["t-imfit"], ["-c", t + ".dat"] + f.args[2:] + args[t] + ["--fitstat-only", "--max-threads", "1", "--save-weights", t + "-w.fits"], ctx.dir, env={"VERIF_TRACE": "tr-" + t})
        for t in ("cli", "mix"):
            self.trace_same(res, "keys:" + t, "imfit %s: %s by %s" % (P.stat, keys, "command line" if t == "cli" else split), ctx.dir, "tr-file", "tr-" + t)
        # and the values have an effect
        if keys and P.stat == "data":
            open(os.path.join(ctx.dir, "none.dat"), "w").write(body)
            x = imf.run(ctx.bins["t-imfit"], ["-c", "none.dat"] + f.args[2:] + ["--fitstat-only", "--max-threads", "1"], ctx.dir, env={"VERIF_TRACE": "tr-none"})
            if x.rc:
                return      # without a sky level or read noise the noise may not be defined
            a, b = T.read(os.path.join(ctx.dir, "tr-file"))[-1], T.read(os.path.join(ctx.dir, "tr-none"))[-1]
            eff = any(vals[k] != 1 for k in keys if k != "NCOMBINED") or vals["NCOMBINED"] != 1
            if eff and a[2] == b[2]:
                res.bad("keys:effect", "imfit: %s have no effect on the statistic" % keys)
        # image size by file, command line, both
        nc, nr = int(r.integers(3, 30)), int(r.integers(3, 30))
        k = int(r.integers(3))
        if k == 0:
            makeimage(ctx, "NCOLS %d\nNROWS %d\n" % (nc + 3, nr + 5) + body, "s.fits", ["--ncols", str(nc), "--nrows", str(nr)])
        elif k == 1:
            makeimage(ctx, "NROWS %d\n" % nr + body, "s.fits", ["--ncols=%d" % nc])
        else:
            makeimage(ctx, body, "s.fits", ["--nrows", str(nr), "--ncols", str(nc)])
        makeimage(ctx, "NCOLS %d\nNROWS %d\n" % (nc, nr) + body, "t.fits")
        self.same(res, "keys:size", "makeimage: size %d x %d by %s" % (nc, nr, ["both", "file and command line", "command line"][k]), ctx, "s.fits", "t.fits")
        res.nontrivial(("keys", P.stat, tuple(keys), tuple(split.values()), k))

    # ------------------------------------------------------------------
    def multi(self, r, ctx, local=None, fit=False):
        """a multi-image description: (model, info lines, names, description)"""
        nim = int(r.integers(1, 4))
        q = lambda x: float(np.round(x * 256) / 256)  # noqa: E731
        nr, nc = int(r.integers(12, 18)), int(r.integers(12, 18))
        P = Q.make(r, stat="data", model="easy", size=(12, 16), nonfinite=False, masked=False, psf=False)
        self.label(r, P.model)
        nm, v = Q.names(P.model), Q.vec(P.model)
        st = str(r.choice(["data", "model", "cash", "mlr"]))
        info, loc = [], []
        for k in range(nim):
            imf.write_fits(os.path.join(ctx.dir, "d%d.fits" % k), P.truth + 5 * r.normal(size=P.truth.shape) + 40)
            L_ = ["DATA d%d.fits" % k, "READNOISE %r" % float(np.round(r.uniform(1, 9), 2))]
            if r.random() < .5:
                L_.append("GAIN %r" % float(np.round(r.uniform(1, 4), 2)))
            if r.random() < .3:
                L_.append("EXPTIME %r" % float(np.round(r.uniform(1, 9), 2)))
            if r.random() < .3:
                L_.append("NCOMBINED %d" % r.integers(1, 5))
            if r.random() < .5:
                L_.append("ORIGINAL_SKY %r" % float(np.round(r.uniform(5, 90), 2)))
            L_ += ["NCOLS %d" % P.nc, "NROWS %d" % P.nr] if r.random() < .7 else [str(r.choice(["NCOLS,NROWS %d,%d" % (P.nc, P.nr), "NROWS,NCOLS %d,%d" % (P.nr, P.nc)]))]
            if r.random() < .4:
                zb = r.random() < .5
                k_ = (r.random(P.truth.shape) < .2).astype(float)
                imf.write_fits(os.path.join(ctx.dir, "k%d.fits" % k), 1 - k_ if zb else k_)
                L_ += ["MASK k%d.fits" % k] + (["MASK_ZERO_IS_BAD yes"] if zb else ["MASK_ZERO_IS_GOOD yes"] if r.random() < .3 else [])
            if st == "data" and r.random() < .4:
                imf.write_fits(os.path.join(ctx.dir, "e%d.fits" % k), r.uniform(3, 6, P.truth.shape))
                L_ += ["ERROR e%d.fits" % k] + [[], ["ERRORS_ARE_VARIANCES yes"], ["ERRORS_ARE_WEIGHTS yes"], ["ERRORS_ARE_SIGMAS yes"]][int(r.integers(4))]
            if r.random() < .5:
                imf.write_fits(os.path.join(ctx.dir, "p%d.fits" % k), F.random_psf(r, 5, 7))
                L_.append("PSF p%d.fits" % k)
                if r.random() < .5:
                    imf.write_fits(os.path.join(ctx.dir, "o%d.fits" % k), F.random_psf(r, 9, 7))
                    L_ += ["OVERSAMPLED_PSF o%d.fits" % k, "OVERSAMPLE_SCALE %d" % r.integers(1, 4), "OVERSAMPLED_REGION 2:%d,3:%d" % (r.integers(6, 10), r.integers(6, 10))]
            if k:
                ps, pa = q(r.uniform(.8, 1.2)), q(r.uniform(-20, 20))
                x, y = q(v[0] + r.uniform(-.5, .5)), q(v[1] + r.uniform(-.5, .5))
                lim = lambda a, w: str(r.choice(["", "fixed", "%r,%r" % (a - w, a + w)]))  # noqa: E731
                L_ += ["PIXEL_SCALE %r %s" % (ps, lim(ps, .125)), "IMAGE_PA %r %s" % (pa, lim(pa, 4.)), "FLUX_SCALE 1.0 %s" % lim(1., .25),
                       "X0 %r %s" % (x, lim(x, 2.)), "Y0 %r %s" % (y, lim(y, 2.))]
            else:
                L_ += ["X0 %r fixed" % v[0], "Y0 %r fixed" % v[1]]
            # any order (oversampling keywords keep theirs)
            o = [i for i, z in enumerate(L_) if not z.startswith("OVERS")]
            pr = [o[i] for i in r.permutation(len(o))]
            new = list(L_)
            for a, b in zip(o, pr):
                new[a] = L_[b]
            L2 = new
            fn = []
            if (local if local is not None else r.random() < .3):
                lab = (" # LABEL " + str(r.choice(Y.LABELS))) if r.random() < .5 else ""
                fn = ["FUNCTIONS_START", "X0 %r %s" % (q(r.uniform(4, 9)), "fixed"), "Y0 %r" % q(r.uniform(4, 9)), "FUNCTION Gaussian" + lab,
                      "PA 20 fixed", "ell 0.2 fixed", "I_0 30 10,90", "sigma 1.5 fixed"]
            loc.append(bool(fn))
            info.append((L_, L2, fn))
        fixed = r.random(len(v)) < .3
        lims = []
        for x, k in zip(v, nm):
            w = {"X0": 2, "Y0": 2, "PA": 40, "ell": .1, "n": .4}.get(k, .3 * abs(x) + .05)
            lims.append((x - w, x + w) if k != "ell" else (max(x - w, .01), min(x + w, .95)))
        cnt = [0]

        def lim_(si, fi, pn, x):
            i = cnt[0]
            cnt[0] += 1
            return "fixed" if fixed[i] else "%r,%r" % lims[i]
        cfg = F.config_text(P.model, limits=lim_)
        texts = ["\n".join(z for part in info for z in ["IMAGE_START"] + part[j] + part[2]) + "\n" for j in (0, 1)]
        return P, nim, st, loc, cfg, texts

    def mextra(self, st, fs):
        return ["--max-threads", "1", "--ftol", "1e-2"] + (["--fitstat-only"] if fs else ["--nm"] if st == "cash" else []) + {"data": [], "model": ["--model-errors"], "cash": ["--cashstat"], "mlr": ["--mlr"]}[st]

    def k_info(self, r, ctx, res):
        P, nim, st, loc, cfg, texts = self.multi(r, ctx)
        open(os.path.join(ctx.dir, "a.dat"), "w").write(cfg)
        open(os.path.join(ctx.dir, "a.info"), "w").write(texts[0])
        open(os.path.join(ctx.dir, "b.dat"), "w").write(Y.scramble(r, cfg))
        open(os.path.join(ctx.dir, "b.info"), "w").write(Y.scramble(r, texts[1], kind="info"))
        fs = r.random() < .6
        for t in "ab":
            imf.must(ctx.bins["t-multimfit"], ["-c", t + ".dat", "-i", t + ".info", "--save-params-root", t + "P"] + self.mextra(st, fs), ctx.dir, timeout=150, env={"VERIF_TRACE": "tr-" + t})
            imf.must(ctx.bins["makemultimages"], [t + ".dat", "--image-info", t + ".info", "-o", t + "M"], ctx.dir)
        desc = "%d images, %s, local functions %s" % (nim, st, loc)
        self.trace_same(res, "info:layout", "multimfit, %s: the rewritten files are fitted differently" % desc, ctx.dir)
        fa = sorted(n[1:] for n in os.listdir(ctx.dir) if n.startswith("aM"))
        fb = sorted(n[1:] for n in os.listdir(ctx.dir) if n.startswith("bM"))
        if fa != fb or len(fa) != nim:
            res.bad("info:images", "makemultimages, %s: %s against %s" % (desc, fa, fb))
        else:
            for n in fa:
                self.same(res, "info:images", "makemultimages, %s: %s differs with the rewritten files" % (desc, n), ctx, "a" + n, "b" + n)
        if not fs:
            for n in sorted(n[1:] for n in os.listdir(ctx.dir) if n.startswith("aP")):
                if "imageinfo" in n:
                    continue
                A, B = [[q for q in clean_params(os.path.join(ctx.dir, t + n)).splitlines() if not re.search(r"[ab]\.(dat|info)", q)] for t in "ab"]
                if A != B:
                    res.bad("info:params", "multimfit, %s: %s: %s" % (desc, n, first_diff("\n".join(A), "\n".join(B))))
        res.seen("descriptions")
        res.nontrivial(("info", nim, st, tuple(loc), fs, len(texts[0])))

    # ------------------------------------------------------------------
    def k_round(self, r, ctx, res):
        """saved parameters as a configuration: same model as an independently written file with the same numbers"""
        P = Q.make(r, model="easy", size=(9, 18), nonfinite=r.random() < .2)
        if P.valid.sum() < 40:
            return
        self.label(r, P.model)
        f = L.make(r, ctx.dir, P)
        solver = str(r.choice([s for s in ("lm", "lm", "nm", "de", "nl-SBPLX") if not (s == "lm" and P.stat == "cash")]))
        x = imf.must(ctx.bins["t-imfit"], f.args + L.CLIARG[solver] + ["--seed", "3", "--max-threads", "1", "--ftol", "1e-3", "--save-params", "p.dat"], ctx.dir, timeout=150, env={"VERIF_TRACE": "tr-0"})
        p = os.path.join(ctx.dir, "p.dat")
        if not os.path.exists(p):
            res.seen("no_parameter_file")
            return
        names, vals, errs, hdr = L.values(p)
        if names != f.names:
            res.bad("round:names", "saved parameters %s, model has %s" % (names, f.names))
            return
        fin = [z for z in T.read(os.path.join(ctx.dir, "tr-0")) if z[0] == 10]
        if fin:
            b = np.asarray(fin[-1][1])[:f.n] + f.off
            tol = np.array([5.1e-5 if k in ("X0", "Y0") else 5.1e-6 * abs(z) + 1e-300 for k, z in zip(names, b)])
            if not np.all(np.abs(b - vals) <= tol):
                i = np.argmax(np.abs(b - vals) / tol)
                res.bad("round:numbers", "imfit %s: best fit %s = %.10g saved as %r" % (solver, names[i], b[i], vals[i]))
            res.seen("numbers_saved", f.n)
        own = F.config_text(Q.setvec(P.model, vals))
        open(os.path.join(ctx.dir, "own.dat"), "w").write(own)
        desc = "imfit %s %s" % (solver, P.stat)
        ccd = Q.ccd(P)
        for t, c in (("a", "p.dat"), ("b", "own.dat")):
            imf.must(ctx.bins["makeimage"], [c, "-o", t + ".fits", "--refimage", "d.fits"] + (["--psf", "psf.fits"] if P.psf is not None else []), ctx.dir)
            imf.must(ctx.bins["t-imfit"], ["-c", c] + f.args[2:] + ccd + ["--max-threads", "1", "--ftol", "1e-2"] + (["--fitstat-only"] if r.random() < 0 else ["--nm"]), ctx.dir, env={"VERIF_TRACE": "tr-" + t}, timeout=150)
        self.same(res, "round:image", desc + ": makeimage on the saved file", ctx, "a.fits", "b.fits")
        self.trace_same(res, "round:fit", desc + ": imfit on the saved file", ctx.dir)
        res.nontrivial(("round", solver, P.stat, f.sec != "", tuple(f.names)))

    def k_mround(self, r, ctx, res):
        P, nim, st, loc, cfg, texts = self.multi(r, ctx, local=False)
        open(os.path.join(ctx.dir, "a.dat"), "w").write(cfg)
        open(os.path.join(ctx.dir, "a.info"), "w").write(texts[1])
        ex = self.mextra(st, False)
        imf.must(ctx.bins["multimfit"], ["-c", "a.dat", "-i", "a.info", "--save-params-root", "P"] + ex, ctx.dir, timeout=150)
        if not os.path.exists(os.path.join(ctx.dir, "P_imageinfo.dat")):
            res.seen("no_parameter_file")
            return
        # my own description with the numbers of the saved one
        num = {}
        img = -1
        for ln in open(os.path.join(ctx.dir, "P_imageinfo.dat")):
            t = ln.partition("#")[0].split()
            if t and t[0] == "IMAGE_START":
                img += 1
            elif len(t) > 1 and t[0] in ("PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"):
                num[img, t[0]] = t[1]
        if img + 1 != nim:
            res.bad("mround:images", "%d images described, %d in the saved description" % (nim, img + 1))
            return
        own, k = [], -1
        for ln in texts[1].splitlines():
            t = ln.split()
            if t[0] == "IMAGE_START":
                k += 1
            if t[0] in ("PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0") and k > 0:
                if (k, t[0]) not in num:
                    res.bad("mround:missing", "%s of image %d is not in the saved description" % (t[0], k + 1))
                    return
                ln = "%s %s" % (t[0], num[k, t[0]])
            own.append(ln)
        ps, _ = imf.parse_params(os.path.join(ctx.dir, "P_refimage.dat"))
        vals = np.array([z[1] for z in ps if z[0] != "FUNCTION"])
        # image 1's X0, Y0 lines are not part of the model
        open(os.path.join(ctx.dir, "own.info"), "w").write("\n".join(own) + "\n")
        open(os.path.join(ctx.dir, "own.dat"), "w").write(F.config_text(Q.setvec(P.model, vals)))
        for t, c, i in (("a", "P_refimage.dat", "P_imageinfo.dat"), ("b", "own.dat", "own.info")):
            imf.must(ctx.bins["t-multimfit"], ["-c", c, "-i", i, "--max-threads", "1", "--fitstat-only"] + self.mextra(st, True)[4:], ctx.dir, env={"VERIF_TRACE": "tr-" + t})
        desc = "multimfit %s, %d images" % (st, nim)
        self.trace_same(res, "mround:fit", desc + ": the saved files used as input", ctx.dir)
        self.labels_kept(res, desc, os.path.join(ctx.dir, "P_refimage.dat"), P.model)
        # files of the single images
        for k in range(1, nim):
            n = "P_image%d.dat" % (k + 1)
            if not os.path.exists(os.path.join(ctx.dir, n)):
                res.bad("mround:missing", desc + ": no " + n)
            else:
                self.labels_kept(res, desc, os.path.join(ctx.dir, n), P.model)
        res.seen("descriptions_fed_back")
        res.nontrivial(("mround", nim, st, len(texts[1])))

    def k_local(self, r, ctx, res):
        """fixed input: functions of single images are missing from the saved description"""
        imf.write_fits(os.path.join(ctx.dir, "d0.fits"), np.full((12, 12), 50.0) + np.arange(144).reshape(12, 12) % 7)
        imf.write_fits(os.path.join(ctx.dir, "d1.fits"), np.full((12, 12), 52.0) + np.arange(144).reshape(12, 12) % 5)
        open(os.path.join(ctx.dir, "a.dat"), "w").write("X0 6 5,7\nY0 6 5,7\nFUNCTION Gaussian\nPA 20 fixed\nell 0.3 fixed\nI_0 50 10,90\nsigma 3 fixed\n")
        loc = "FUNCTIONS_START\nX0 4 fixed\nY0 4 fixed\nFUNCTION FlatSky\nI_sky 30 10,90\n"
        open(os.path.join(ctx.dir, "a.info"), "w").write("IMAGE_START\nDATA d0.fits\nX0 6 fixed\nY0 6 fixed\n" + loc + "IMAGE_START\nDATA d1.fits\nPIXEL_SCALE 1\nIMAGE_PA 0\nFLUX_SCALE 1 fixed\nX0 6 fixed\nY0 6 fixed\n" + loc)
        imf.must(ctx.bins["multimfit"], ["-c", "a.dat", "-i", "a.info", "--save-params-root", "P"], ctx.dir)
        if "FlatSky" not in open(os.path.join(ctx.dir, "P_imageinfo.dat")).read():
            res.bad("local-functions-not-saved", "multimfit: functions belonging to single images (FUNCTIONS_START) are not in the saved _imageinfo.dat, so the saved description denotes another model")
        res.nontrivial(("local",))

    def k_opt(self, r, ctx, res):
        """optional parameters of functions are used by every program"""
        nc, nr = 20, 22
        imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, 9, 9))
        imf.write_fits(os.path.join(ctx.dir, "d.fits"), r.normal(size=(nr, nc)) + 20)
        g = lambda m: "X0 10.3\nY0 11.6\nFUNCTION %s\n%sI_tot 500\n" % (  # noqa: E731
            self.ps, "PA 20\n" if self.ps.endswith("Rot") else "") + ("OPTIONAL_PARAMS_START\nmethod %s\nOPTIONAL_PARAMS_END\n" % m if m else "")
        self.ps = "PointSource"
        base = "X0 9\nY0 9\nFUNCTION Gaussian\nPA 10\nell 0.2\nI_0 20\nsigma 3\n"
        ims = {}
        for m in ("", "bicubic", "lanczos2", "lanczos3"):
            ims[m], _ = makeimage(ctx, base + g(m), "s%s.fits" % m, ["--psf", "psf.fits", "--ncols", str(nc), "--nrows", str(nr)])
        if not np.array_equal(ims[""], ims["bicubic"]):
            res.bad("opt:default", "makeimage: the default interpolation is not bicubic")
        m = str(r.choice(["lanczos2", "lanczos3"]))
        if np.array_equal(ims[m], ims["bicubic"]):
            res.bad("opt:noeffect", "makeimage: method %s gives the bicubic image" % m)
        head = "IMAGE_START\nDATA d.fits\nNCOLS %d\nNROWS %d\nPSF psf.fits\n" % (nc, nr)
        for w, cfg, info in (("global", base + g(m), head), ("local", base, head + "FUNCTIONS_START\n" + g(m))):
            open(os.path.join(ctx.dir, "c.dat"), "w").write(cfg)
            open(os.path.join(ctx.dir, "c.info"), "w").write(Y.scramble(r, info, names=False, kind="info"))
            imf.must(ctx.bins["makemultimages"], ["c.dat", "--image-info", "c.info", "-o", "M" + w], ctx.dir)
            imf.must(ctx.bins["multimfit"], ["-c", "c.dat", "-i", "c.info", "--fitstat-only", "--save-model", "F" + w], ctx.dir)
            n = [q for q in os.listdir(ctx.dir) if q.startswith(("M" + w, "F" + w)) and q.endswith(".fits")]
            for q in n:
                A = imf.read_fits(os.path.join(ctx.dir, q))
                if not np.allclose(A, ims[m], rtol=1e-6, atol=1e-6 * np.abs(ims[m]).max()):
                    res.bad("opt:" + w, "%s: a %s PointSource with method %s is not that of makeimage: differs by %.3g of the peak (bicubic differs by %.3g)" % (
                        q, w, m, np.abs(A - ims[m]).max() / ims[m].max(), np.abs(A - ims["bicubic"]).max() / ims[m].max()))
                res.seen("optional_parameters")
            if not n:
                res.bad("opt:noimage", "makemultimages wrote no image")
        # and in a fit
        x = {}
        for k in ("bicubic", m):
            open(os.path.join(ctx.dir, "f%s.dat" % k), "w").write(base + g(k))
            imf.must(ctx.bins["t-imfit"], ["-c", "f%s.dat" % k, "s%s.fits" % m, "--psf", "psf.fits", "--fitstat-only", "--noise", "d.fits", "--max-threads", "1"], ctx.dir, env={"VERIF_TRACE": "tr-" + k})
            x[k] = T.read(os.path.join(ctx.dir, "tr-" + k))[-1][2]
        if not x[m] < 1e-6 * x["bicubic"]:
            res.bad("opt:fit", "imfit: statistic of an image made with method %s: %g with that method, %g with bicubic" % (m, x[m], x["bicubic"]))
        res.nontrivial(("opt", m))

    def k_sample(self, r, ctx, res):
        """the sample configurations the programs write are accepted by them"""
        for p in ("imfit", "makeimage"):
            imf.run(ctx.bins[p], ["--sample-config"], ctx.dir)
        fs = [n for n in os.listdir(ctx.dir) if n.endswith(".dat")]
        if len(fs) != 2:
            res.bad("sample", "sample configurations written: %s" % fs)
            return
        imf.write_fits(os.path.join(ctx.dir, "d.fits"), 100 + r.normal(size=(300, 300)))
        for n in fs:
            if "makeimage" in n:
                imf.must(ctx.bins["makeimage"], [n, "-o", "s.fits"], ctx.dir)
                self.img(ctx, "s.fits")
            else:
                imf.must(ctx.bins["imfit"], ["-c", n, "d.fits", "--fitstat-only"], ctx.dir)
        res.seen("samples", len(fs))
        res.nontrivial(("sample",))


if __name__ == "__main__":
    sys.exit(vf.main(C()))
