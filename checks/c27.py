"""C27: saved model, residual, weights, parameter file and screen report all describe the same best fit; asking for outputs or
verbosity never changes the others."""
import itertools  # noqa: F401
import re

from common import *
import fitprob as Q
import clifit as L
import trace as T

EPS32 = 1.3e-7


def body(path):
    """the parameter lines of a saved file"""
    return [ln.rstrip() for ln in open(path, errors="replace") if ln.strip() and not ln.startswith("#")]


def screen_params(out):
    """the parameter block on the screen after the fit"""
    lines = out.splitlines()
    i = max([k for k, ln in enumerate(lines) if ln.startswith("AIC = ")] or [-1])
    if i < 0:
        return None
    blk = []
    for ln in lines[i + 1:]:
        if re.match(r"(X0|Y0|FUNCTION|[A-Za-z]\w*)\s", ln) and (blk or ln.startswith("X0")):
            if re.match(r"(Saving|Now|Done|Bootstrap|Best-fit|\(Elapsed)", ln):
                break
            blk.append(ln.rstrip())
        elif blk and ln.strip():
            break
    return blk


class C(Check):
    id = "C27"
    harness = (T.TRACED("imfit"), T.TRACED("multimfit"))
    programs = ("makeimage", "imfit-mcmc", "imfit", "makemultimages", "multimfit")
    rule = ("random fits (solver, statistic, section, mask, PSF, oversampled region, noise map, subsampling, bootstrap): saved model against makeimage at "
            "the returned vector, residual against data minus model pixel by pixel, weights against the noise model, saved values against the returned vector, "
            "header against screen and recomputed statistic, AIC, BIC; the same run with random subsets of outputs and verbosity compared byte by byte")
    assumptions = ["data pixels that are not finite are held as zero, so the residual there is minus the model"]

    def cases(self, tier, seed):
        return mkcases({"fit": (170, 1800), "subset": (110, 1100), "mcmc": (16, 150), "make": (60, 500), "msub": (24, 240), "mresid": (1, 1)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    def problem(self, r, ctx, minfree=1):
        P = Q.make(r, model="easy", size=(9, 18), nonfinite=r.random() < .25, nsets=int(r.integers(1, 3)))
        if P.valid.sum() < 45:
            return None
        f = L.make(r, ctx.dir, P, cfg="a.dat", spread=.2, minfree=minfree)
        f.over = []
        if P.psf is not None and r.random() < .35:
            sc = int(r.integers(2, 4))
            imf.write_fits(os.path.join(ctx.dir, "o.fits"), F.random_psf(r, 7, 5))
            x2, y2 = int(r.integers(5, P.nc)), int(r.integers(5, P.nr))
            f.oreg = (2, x2, 3, y2)
            reg = "%d:%d,%d:%d" % (2 + f.dx, x2 + f.dx, 3 + f.dy, y2 + f.dy)
            f.over = ["--overpsf", "o.fits", "--overpsf_scale", str(sc), "--overpsf_region", reg]
        f.sub = r.random() < .4
        if f.sub:
            f.args = [q for q in f.args if q != "--no-subsampling"]
        f.solver = str(r.choice([s for s in ("lm", "lm", "nm", "de", "delhs", "nl-BOBYQA", "nl-SBPLX", "nl-COBYLA") if not (s == "lm" and P.stat == "cash")]))
        if f.solver.startswith(("de", "nl-COB")) and (f.over or f.sub or np.sum(~np.asarray(f.fixed)) > 7):
            f.solver = "nm"      # differential evolution (and often COBYLA) needs many thousands of evaluations
        f.common = L.CLIARG[f.solver] + f.over + ["--seed", str(int(r.integers(1, 999))), "--max-threads", "1", "--ftol", str(r.choice(["0.3", "0.03"] if f.solver.startswith("de") else ["1e-2", "1e-4"]))]
        if r.random() < .25:
            f.boot = ["--bootstrap", str(int(r.integers(2, 6)))]
        else:
            f.boot = []
        f.desc = "imfit %s %s%s%s%s%s%s" % (f.solver, P.stat, " section" if f.sec else "", " PSF" if P.psf is not None else "", " region" if f.over else "", " mask" if P.maskraw is not None else "", " bootstrap" if f.boot else "")
        return P, f

    def num(self, res, key, desc, text, pattern, want, what, tol=2e-6, absol=2e-6):
        m = re.search(pattern + r"\s*([-+0-9.eEnainf]+)", text)
        if not m:
            res.bad(key, "%s: no %s in the report" % (desc, what))
            return
        v = float(m.group(1))
        if not (abs(v - want) <= tol * abs(want) + absol or (np.isinf(want) and v == want) or (np.isnan(want) and np.isnan(v))):
            res.bad(key, "%s: %s reported as %r, should be %.9g" % (desc, what, v, want))
        res.seen("numbers_compared")

    # ------------------------------------------------------------------
    def k_fit(self, r, ctx, res):
        q = self.problem(r, ctx)
        if q is None:
            return
        P, f = q
        args = f.args + f.common + f.boot + ["--save-params", "p.dat", "--save-model", "m.fits", "--save-residual", "res.fits"]
        wts = P.stat not in ("cash", "mlr")
        if wts:
            args += ["--save-weights", "w.fits"]
        x = imf.must(ctx.bins["t-imfit"], args, ctx.dir, timeout=200, env={"VERIF_TRACE": "tr"})
        desc = f.desc
        tr = T.read(os.path.join(ctx.dir, "tr"))
        # the parameters are evaluated once more when they are saved
        fin = [e for e in tr if e[0] == T.FIT][-1:]
        if not fin:
            res.bad("fit:none", desc + ": no evaluation was seen")
            return
        v = np.asarray(fin[0][1])[:f.n]
        # 1. the parameter file holds the returned vector
        nm, val, err, hdr = L.values(os.path.join(ctx.dir, "p.dat"))
        if nm != f.names:
            res.bad("fit:names", "%s: saved parameters %s, the model has %s" % (desc, nm, f.names))
            return
        g = v + f.off
        for k, a, b in zip(nm, val, g):
            if abs(a - b) > (6e-5 if k in ("X0", "Y0") else 6e-6 * abs(b) + 1e-300):
                res.bad("fit:values", "%s: %s saved as %r, the fit returned %.12g" % (desc, k, a, b))
                return
            res.seen("numbers_compared")
        # 2. screen and file say the same
        blk = screen_params(x.out)
        fl = body(os.path.join(ctx.dir, "p.dat"))
        flp = [re.sub(r"\s+", " ", q_) for q_ in fl if not re.match(r"(GAIN|READNOISE|EXPTIME|NCOMBINED|ORIGINAL_SKY)\b", q_)]
        status = re.search(r"status = (-?\d+)", x.out)
        if blk:
            blk = [re.sub(r"\s+", " ", q_) for q_ in blk]
            if blk != flp:
                res.bad("fit:screen", "%s: parameters on the screen and in the file differ: %s" % (desc, first_diff("\n".join(blk), "\n".join(flp))))
                return
            res.seen("screen_blocks")
        # 3. statistic, header
        model = Q.setvec(P.model, v)
        P2 = P
        cfg = F.config_text(model)
        margs = ([] if f.sub else ["--no-subsampling"]) + (["--psf", "psf.fits"] + ([] if P.norm else ["--no-normalize"]) if P.psf is not None else [])
        if f.over:
            a, b, c, d = f.oreg
            margs += f.over[:4] + ["--overpsf_region", "%d:%d,%d:%d" % (a, b, c, d)]
        want, _ = makeimage(ctx, cfg, "want.fits", margs + ["--ncols", str(P.nc), "--nrows", str(P.nr)], name="mk.dat")
        m = imf.read_fits(os.path.join(ctx.dir, "m.fits"))
        if m.shape != want.shape:
            res.bad("fit:model", "%s: saved model is %s, the data are %s" % (desc, m.shape, want.shape))
            return
        pk = np.abs(want).max()
        if not np.all(np.abs(m - want) <= 2e-6 * pk):
            j = np.unravel_index(np.nanargmax(np.abs(m - want)), m.shape)
            res.bad("fit:model", "%s: saved model is not the model at the best fit: pixel (%d,%d) %.8g, should be %.8g (%d pixels differ)" % (desc, j[1] + 1, j[0] + 1, m[j], want[j], int(np.sum(np.abs(m - want) > 2e-6 * pk))))
            return
        res.worst("model_difference_of_peak", np.max(np.abs(m - want)) / pk)
        res.seen("images_compared")
        # 4. residual = data - model
        d0 = np.where(np.isfinite(P.data), P.data, 0.0).astype(np.float32).astype(float)
        R = imf.read_fits(os.path.join(ctx.dir, "res.fits"))
        dw = d0 - m
        tol = EPS32 * (np.abs(m) + np.abs(dw)) + 1e-30
        if R.shape != dw.shape or not np.all(np.abs(R - dw) <= tol):
            j = np.unravel_index(np.nanargmax(np.abs(R - dw) / tol), R.shape) if R.shape == dw.shape else (0, 0)
            res.bad("fit:residual", "%s: residual at (%d,%d) is %.8g, data %.8g minus model %.8g" % (desc, j[1] + 1, j[0] + 1, R[j], d0[j], m[j]))
            return
        res.seen("residual_pixels", int(R.size))
        # 5. weights
        if wts:
            W = imf.read_fits(os.path.join(ctx.dir, "w.fits"))
            P3 = copy.copy(P2)
            P3.data = np.where(np.isfinite(P.data), P.data, P.data).astype(np.float32).astype(float)
            wt = Q.weights(P3, m) ** 2
            tolw = 3e-5 * np.abs(wt) + 1e-30
            if W.shape != wt.shape or not np.all(np.abs(W - wt) <= tolw):
                j = np.unravel_index(np.nanargmax(np.abs(W - wt) / tolw), W.shape)
                res.bad("fit:weights", "%s: saved weight at (%d,%d) is %.8g, should be %.8g" % (desc, j[1] + 1, j[0] + 1, W[j], wt[j]))
                return
            res.seen("weight_pixels", int(W.size))
        # 6. numbers: the statistic of the saved model, in the header and on the screen
        P4 = copy.copy(P)
        st = Q.stat(P4, m)
        sc = Q.stat_scale(P4, m)
        nf = int((~f.fixed).sum())
        nv = int(P.valid.sum())
        dof = nv - nf
        h = "\n".join(hdr) if isinstance(hdr, list) else open(os.path.join(ctx.dir, "p.dat"), errors="replace").read()
        tr_st = fin[0][2]
        if np.isfinite(tr_st) and abs(tr_st - st) > 3e-5 * sc + 1e-3:
            pass    # (some solvers do not return their best vector's value: judged by C10)
        h = open(os.path.join(ctx.dir, "p.dat"), errors="replace").read()
        hb = re.search(r"Best-fit value:\s*([-+0-9.eEnainf]+)", h)
        if not hb or abs(float(hb.group(1)) - st) > 3e-5 * sc + 1e-4:
            res.bad("fit:header-statistic", "%s: best-fit value in the file %s, the saved model has %.9g" % (desc, hb and hb.group(1), st))
            return
        S = float(hb.group(1))
        if P.stat != "cash":
            self.num(res, "fit:reduced", desc, h, r"Reduced value:", S / dof, "reduced value")
        # AIC and BIC follow from the best-fit value
        aic = S + 2 * nf + 2 * nf * (nf + 1) / (nv - nf - 1)
        bic = S + nf * np.log(nv)
        self.num(res, "fit:aic", desc, h, r"AIC:", aic, "AIC")
        self.num(res, "fit:bic", desc, h, r"BIC:", bic, "BIC")
        kind = {"data": "chi-squared (data-based errors)", "model": "chi-squared (model-based errors)", "err": "chi-squared (user-supplied errors)", "cash": "Cash statistic", "mlr": "Poisson-MLR statistic"}[P.stat]
        if "Fit statistic: " + kind not in h:
            res.bad("fit:kind", "%s: header does not say %r" % (desc, kind))
        if blk:
            # COBYLA and others may report the value of their best vector; the header recomputes it (C10)
            self.num(res, "fit:screen-statistic", desc, x.out, r"\n\s*" + re.escape(L.statkey(P)) + r" =", S, "statistic on the screen", tol=2e-6 if not f.solver.startswith("nl-COB") else 1e-3, absol=2e-6 + 2e-9 * sc)
            mm = re.search(r"\n\s*%s = .*\((\d+) DOF\)" % re.escape(L.statkey(P)), x.out)
            if mm and int(mm.group(1)) != dof:
                res.bad("fit:dof", "%s: %s degrees of freedom reported, %d pixels used and %d free parameters" % (desc, mm.group(1), nv, nf))
        # 7. headers of the images name what they are
        for fn, w in (("m.fits", "model"), ("res.fits", "residual")) + ((("w.fits", "weight"),) if wts else ()):
            raw = open(os.path.join(ctx.dir, fn), "rb").read(2880 * 3).decode("latin1")
            if not re.search(w, raw, re.I):
                res.bad("fit:image-header", "%s: header of the %s image does not say so" % (desc, w))
        res.evals += 1
        res.nontrivial((f.solver, P.stat, f.sec != "", bool(f.over), f.sub, bool(f.boot), P.psf is not None, P.maskraw is not None, tuple(f.fixed)))

    # ------------------------------------------------------------------
    def k_subset(self, r, ctx, res):
        q = self.problem(r, ctx)
        if q is None:
            return
        P, f = q
        outs = {"p": ["--save-params"], "m": ["--save-model"], "r": ["--save-residual"]}
        ext = {"p": ".dat", "m": ".fits", "r": ".fits", "w": ".fits", "b": ".boot"}
        if P.stat not in ("cash", "mlr"):
            outs["w"] = ["--save-weights"]
        if f.boot:
            outs["b"] = ["--save-bootstrap"]
        ref = None
        desc = f.desc
        for t in range(4):
            pick = list(outs) if t == 0 else [k for k in outs if r.random() < .5]
            if t == 3 and len(pick) != 1:
                pick = [str(r.choice(list(outs)))]
            verb = [] if t == 0 else [[], ["--quiet"], ["--silent"], ["--loud"]][int(r.integers(4))]
            sub = os.path.join(ctx.dir, "t%d" % t)
            os.mkdir(sub)
            for n in os.listdir(ctx.dir):
                if os.path.isfile(os.path.join(ctx.dir, n)):
                    os.link(os.path.join(ctx.dir, n), os.path.join(sub, n))
            a = []
            for k in pick:
                a += outs[k] + ["out_%s%s" % (k, ext[k])]
            pos = int(r.integers(2))
            x = imf.must(ctx.bins["imfit"], (a + f.args if pos else f.args + a) + f.common + f.boot + verb, sub, timeout=200)
            got = {}
            for k in pick:
                p = os.path.join(sub, "out_%s%s" % (k, ext[k]))
                if not os.path.exists(p):
                    res.bad("subset:missing", "%s: %s %s: no such file afterwards" % (desc, outs[k][0], " ".join(verb)))
                    return
                got[k] = self.content(p)
            # asked for or not, the best-fit parameters are always saved
            if "p" not in pick:
                p = os.path.join(sub, "bestfit_parameters_imfit.dat")
                if not os.path.exists(p):
                    res.bad("subset:default", "%s: no bestfit_parameters_imfit.dat" % desc)
                    return
                got["p"] = self.content(p)
            rep = self.report(x.out) if "--silent" not in verb and "--quiet" not in verb else None
            if ref is None:
                ref, refrep = got, rep
                continue
            for k in got:
                if k in ref and not self.equal(got[k], ref[k]):
                    res.bad("subset:" + k, "%s: %s differs when only %s and %s are requested: %s" % (desc, {"p": "parameter file", "m": "model image", "r": "residual image", "w": "weight image", "b": "bootstrap file"}[k], [outs[z][0] for z in pick], verb or "no verbosity option",
                                                                                                    first_diff(got[k], ref[k]) if isinstance(got[k], str) else "largest difference %.3g" % np.nanmax(np.abs(got[k] - ref[k])) if got[k].shape == ref[k].shape else "sizes"))
                    return
                res.seen("outputs_compared")
            if rep is not None and refrep is not None and rep != refrep:
                res.bad("subset:report", "%s: report differs with %s %s: %s" % (desc, [outs[z][0] for z in pick], verb, first_diff(rep, refrep)))
                return
            res.evals += 1
            res.nontrivial(("subset", f.solver, P.stat, tuple(pick), tuple(verb), bool(f.boot)))

    def content(self, p):
        if p.endswith(".fits"):
            return imf.read_fits(p)
        return "\n".join(ln for ln in open(p, errors="replace").read().splitlines() if not re.search(r"imfit|[Dd]ate|\d\d:\d\d:\d\d", ln))

    def equal(self, a, b):
        if isinstance(a, str):
            return a == b
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)

    def report(self, out):
        """statistics and parameter block"""
        keep = [ln.strip() for ln in out.splitlines() if re.match(r"\s*(CHI-SQUARE|CASH|POISSON|INITIAL|NFEV|NITER|NPAR|NFREE|NPEGGED|Reduced|AIC|\*\*\* mpfit)", ln) and "Iter" not in ln]
        return "\n".join(keep + (screen_params(out) or []))

    # ------------------------------------------------------------------
    def k_mcmc(self, r, ctx, res):
        P = Q.make(r, stat=str(r.choice(["data", "cash", "mlr"])), model="easy", size=(8, 11), nonfinite=False)
        if P.valid.sum() < 40:
            return
        f = L.make(r, ctx.dir, P, cfg="a.dat", minfree=3)
        ref = None
        for verb in ([], ["--quiet"], ["--silent"], ["--loud"]):
            out = "ch" + "".join(verb).strip("-")
            imf.must(ctx.bins["imfit-mcmc"], f.args + ["--seed", "3", "--nchains", "4", "--max-chain-length", "50", "--burnin-length", "20", "--gelman-evals", "10", "--max-threads", "1", "-o", out] + verb, ctx.dir, timeout=120)
            c = [[ln for ln in open(os.path.join(ctx.dir, "%s.%d.txt" % (out, k))) if not ln.startswith("#")] for k in range(1, 5)]
            if ref is None:
                ref = c
            elif c != ref:
                res.bad("mcmc:verbosity", "imfit-mcmc %s: other chains" % verb[0])
                return
            res.seen("chain_rows", sum(len(q) for q in c))
        res.nontrivial(("mcmc", P.stat, tuple(f.names)))

    def k_make(self, r, ctx, res):
        nc, nr = int(r.integers(5, 30)), int(r.integers(5, 30))
        m = F.random_model(r, nc, nr)
        psf = r.random() < .5
        com = []
        if psf:
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, 7, 5))
            com = ["--psf", "psf.fits"]
        nth = int(r.choice([1, 3]))
        est = ["--estimation-size", str(int(r.choice([11, 40, 90])))]
        cfg = F.config_text(m, nc, nr)
        ref, _ = makeimage(ctx, cfg, "ref.fits", com, threads=nth)
        funcs, flux = None, None
        for t in range(4):
            a = []
            of, fx = r.random() < .6, r.random() < .6
            if of:
                a += ["--output-functions", "f%d_" % t]
            if fx:
                a += ["--save-fluxes", "fl%d.dat" % t] + est
            nosave = r.random() < .2
            if r.random() < .3:
                a += ["--timing", str(int(r.integers(1, 4)))]
                nosave = True
            p = os.path.join(ctx.dir, "o%d.fits" % t)
            if nosave:
                imf.must(ctx.bins["makeimage"], ["cfg.dat", "-o", p] + ([] if "--timing" in a and r.random() < .5 else ["--nosave"]) + ["--max-threads", str(nth)] + com + a, ctx.dir)
                if os.path.exists(p):
                    res.bad("make:nosave", "makeimage --nosave %s: image saved" % " ".join(a))
            else:
                im, _ = makeimage(ctx, cfg, "o%d.fits" % t, com + a, threads=nth)
                if im.shape != ref.shape or not np.array_equal(im, ref, equal_nan=True):
                    res.bad("make:image", "makeimage %s: image differs from the one without these options (%s)" % (" ".join(a), [[q["name"] for q in s["funcs"]] for s in m["sets"]]))
                    return
                res.seen("images_compared")
            if of and not nosave:
                g = {}
                for n in sorted(os.listdir(ctx.dir)):
                    if n.startswith("f%d_" % t):
                        g[n.split("_", 1)[1]] = imf.read_fits(os.path.join(ctx.dir, n))
                want = sum(len(s["funcs"]) for s in m["sets"])
                if len(g) != want:
                    res.bad("make:functions", "makeimage %s: %d images of single functions for %d functions" % (" ".join(a), len(g), want))
                    return
                if funcs is None:
                    funcs = g
                elif g.keys() != funcs.keys() or any(not np.array_equal(g[k], funcs[k], equal_nan=True) for k in g):
                    res.bad("make:functions", "makeimage %s: images of single functions differ from those of another run" % " ".join(a))
                    return
                res.seen("function_images", len(g))
            if fx:
                g = [ln for ln in open(os.path.join(ctx.dir, "fl%d.dat" % t)) if not ln.startswith("#")]
                if flux is None:
                    flux = g
                elif g != flux:
                    res.bad("make:fluxes", "makeimage %s: fluxes differ from those of another run: %s" % (" ".join(a), first_diff("".join(g), "".join(flux))))
                    return
                res.seen("flux_tables")
            res.nontrivial(("make", tuple(q for q in a if q.startswith("--")), nosave, psf, nth, nc, nr))

    # ------------------------------------------------------------------
    def k_msub(self, r, ctx, res):
        """multimfit: same outputs whatever else is requested"""
        import c21
        C21 = c21.C()
        S = C21.problem(r, ctx, str(r.choice(["data", "model", "err", "mlr", "cash"])), mild=True, limits=True)
        if S is None:
            return
        solver = str(r.choice([s for s in ("lm", "nm") if not (s == "lm" and S["st"] == "cash")]))
        base = ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--ftol", "1e-3", "--seed", "4"] + S["args"] + L.CLIARG[solver]
        boot = ["--bootstrap", "2"] if r.random() < .4 else []
        desc = "multimfit %s, %d images%s" % (S["st"], S["nim"], " bootstrap" if boot else "")
        ref = None
        for t in range(3):
            a = ["--save-params-root", "b%d" % t]
            mod = t == 0 or r.random() < .5
            if mod:
                a += ["--save-model", "m%d" % t]
            verb = [] if t == 0 else [[], ["--quiet"], ["--silent"], ["--loud"]][int(r.integers(4))]
            imf.must(ctx.bins["multimfit"], base + a + verb + (boot if t == 0 or r.random() < .5 else []), ctx.dir, timeout=200)
            g = {}
            for n in sorted(os.listdir(ctx.dir)):
                if n.startswith("b%d_" % t) or n.startswith("m%d_" % t):
                    g[n[0] + n[2:]] = self.content(os.path.join(ctx.dir, n))
            if ref is None:
                ref = g
                want = {"b_summary.dat", "b_refimage.dat", "b_imageinfo.dat"} | {"b_image%d.dat" % (k + 1) for k in range(1, S["nim"])} | {"m_%d.fits" % k for k in range(S["nim"])}
                if set(g) != want:
                    res.bad("msub:files", "%s: files %s, expected %s" % (desc, sorted(g), sorted(want)))
                    return
                continue
            for k in set(ref) if mod else [k for k in ref if k[0] == "b"]:
                if k not in g:
                    res.bad("msub:missing", "%s: no %s with %s" % (desc, k, verb))
                    return
                if not self.equal(g[k], ref[k]):
                    res.bad("msub:differs", "%s: %s differs with %s, model %srequested: %s" % (desc, k, verb, "" if mod else "not ", first_diff(g[k], ref[k]) if isinstance(g[k], str) else ""))
                    return
                res.seen("outputs_compared")
            res.nontrivial(("msub", S["st"], S["nim"], tuple(verb), mod))

    def k_mresid(self, r, ctx, res):
        """outputs that multimfit and makemultimages offer in their help texts"""
        import c21
        S = None
        while S is None:
            S = c21.C().problem(r, ctx, "data", mild=True, limits=True)
        imf.must(ctx.bins["multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--ftol", "1e-1", "--save-params-root", "b", "--save-residual", "rs", "--save-weights", "wt"], ctx.dir, timeout=200)
        fs = os.listdir(ctx.dir)
        for opt, n in (("--save-residual", "rs"), ("--save-weights", "wt")):
            if not any(q.startswith(n) for q in fs):
                res.bad("multimfit" + opt, "multimfit %s: accepted, but no such image is written" % opt)
        imf.must(ctx.bins["makemultimages"], ["cfg.dat", "--image-info", "info.dat", "-o", "mm", "--output-functions", "ff", "--nosubsampling", "--max-threads", "1"], ctx.dir)
        fs = os.listdir(ctx.dir)
        if not any(q.startswith("ff") for q in fs):
            res.bad("makemultimages--output-functions", "makemultimages --output-functions: accepted, but no image is written")
        imf.must(ctx.bins["makemultimages"], ["cfg.dat", "--image-info", "info.dat", "-o", "nn", "--nosave", "--nosubsampling", "--max-threads", "1"], ctx.dir)
        if any(q.startswith("nn") for q in os.listdir(ctx.dir)):
            res.bad("makemultimages--nosave", "makemultimages --nosave: images are saved")
        res.seen("offered_outputs", 4)
        res.nontrivial(("mresid",))


if __name__ == "__main__":
    sys.exit(vf.main(C()))
