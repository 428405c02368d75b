"""C12: bootstrap output: the rows are refits to resampled data (watched in the evaluation trace), the
summary is that of the rows, coordinates are those of the full image, the main fit is unaffected."""
from common import *
import fitprob as Q
import clifit as L
import trace as T
import re


def ci(v):
    """the 68% interval of the program's documentation: the values that bracket the central 68.3%"""
    s = np.sort(v)
    n = len(s)
    lo = int(np.floor(.1585 * n + .5)) - 1
    hi = int(np.floor(.8415 * n + .5))
    # one rank of slack either way: the definition of a quantile of a small sample is a convention
    a = s[max(lo - 1, 0)], s[min(max(lo + 1, 0), n - 1)]
    b = s[min(max(hi - 1, 0), n - 1)], s[min(hi + 1, n - 1)]
    return a, b


def read_rows(path):
    names, rows, req = None, [], None
    for ln in open(path):
        if ln.startswith("#"):
            m = re.search(r"Bootstrap resampling output \((\d+) iterations requested\)", ln)
            if m:
                req = int(m.group(1))
            elif req is not None and names is None and len(ln.split()) > 1:
                names = ln[1:].split()
            continue
        f = ln.split()
        if f and req is not None:
            try:
                rows.append([float(x) for x in f])
            except ValueError:
                rows.append([np.nan])
    return req, names, rows


SUM = re.compile(r"^(\S+) = (" + imf.FLT + r")\s+(?:\[fixed parameter\]|\+(" + imf.FLT + r"), -(" + imf.FLT + r")\s+\[(" + imf.FLT +
                 r") -- (" + imf.FLT + r"), (" + imf.FLT + r")\];\s+\((" + imf.FLT + r") \+/- (" + imf.FLT + r")\))")


def summary(out):
    k = out.find("Statistics for parameter values from bootstrap resampling")
    if k < 0:
        return None, []
    n = imf.find_num(out[k:], r"\(NUM successful iterations\)")
    res = []
    for ln in out[k:].splitlines():
        m = SUM.match(ln.strip())
        if m:
            res.append((m.group(1), float(m.group(2)), [float(x) for x in m.groups()[2:]] if m.group(3) else None))
    return n, res


class C(Check):
    id = "C12"
    harness = (T.TRACED("imfit"), T.TRACED("multimfit"))
    rule = ("random problems x statistic x mask x section x fixed flags x rounds, interrupted bootstraps, multi-image bootstraps; "
            "every evaluation of every refit traced, resampled deviates identified with the pixels they came from; signature = statistic, "
            "shape of the problem, number of rounds")
    assumptions = ["rows are printed with 10 digits, summary numbers with 6",
                   "a 68% interval may differ by one rank from the textbook one"]

    def cases(self, tier, seed):
        return mkcases({"cli": (150, 1800), "draw": (60, 600), "interrupt": (30, 300), "multi": (40, 400), "errors": (8, 80)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        return getattr(self, case["kind"])(r, ctx)

    # ------------------------------------------------------------------
    def judge(self, res, tag, desc, nit, names, best, lo, hi, fixed, off, path, out, V=None, nrows=None, labels=None, besttol=None):
        """the rows file and the printed summary; best, lo, hi in cut-out coordinates, V = traced
        evaluations per round [(params, value)]"""
        n = len(names)
        req, hn, rows = read_rows(path)
        if req != nit:
            res.bad(tag + ":header", "%s: header announces %s rounds, %d asked" % (desc, req, nit))
        if hn is None or len(hn) != n:
            res.bad(tag + ":header-names", "%s: %s column names for %d parameters" % (desc, None if hn is None else len(hn), n))
        elif labels is None and [re.sub(r"_\d+$", "", x) for x in hn] != list(names):
            res.bad(tag + ":header-names", "%s: column names %s, parameters %s" % (desc, hn, names))
        if any(len(x) != n for x in rows):
            res.bad(tag + ":row-length", "%s: a row of %d values for %d parameters" % (desc, [len(x) for x in rows if len(x) != n][0], n))
            return None
        if len(rows) > nit or (nrows is not None and len(rows) != nrows):
            res.bad(tag + ":row-count", "%s: %d rows, %s rounds" % (desc, len(rows), nit if nrows is None else nrows))
        R = np.array(rows).reshape(-1, n)
        res.seen("rows", len(R))
        for i in range(n):
            u = 2e-9 * (abs(best[i] + off[i])) + 1e-12
            c = R[:, i]
            if fixed[i]:
                bad = np.abs(c - (best[i] + off[i])) > u + (besttol[i] if besttol is not None else 0)
                if bad.any():
                    res.bad(tag + ":fixed", "%s: fixed %s = %r in a row, value %r" % (desc, names[i], c[bad][0], best[i] + off[i]))
            else:
                bad = ~((c >= lo[i] + off[i] - u - 1e-9 * abs(lo[i])) & (c <= hi[i] + off[i] + u + 1e-9 * abs(hi[i])))
                if bad.any():
                    res.bad(tag + ":limits", "%s: %s = %r in a row, limits [%r, %r]" % (desc, names[i], c[bad][0], lo[i] + off[i], hi[i] + off[i]))
        ns, S = summary(out)
        if len(R) < 3:
            if ns is not None:
                res.bad(tag + ":summary-few", "%s: a summary of %s successful rounds from %d rows" % (desc, ns, len(R)))
            res.seen("too_few_rounds")
            return R
        if ns is None:
            res.bad(tag + ":summary", desc + ": no summary printed")
            return R
        if int(ns) != len(R):
            res.bad(tag + ":summary-count", "%s: summary claims %d successful rounds, %d rows written" % (desc, ns, len(R)))
        if [s[0] for s in S] != list(labels if labels is not None else names):
            res.bad(tag + ":summary-names", "%s: summary lists %s, parameters %s" % (desc, [s[0] for s in S], labels or names))
            return R
        for i, (nmi, b, q) in enumerate(S):
            g6 = lambda x: 6e-6 * abs(x) + 1e-12  # noqa: E731
            true = best[i] + off[i]
            if abs(b - true) > g6(true) + (besttol[i] if besttol is not None else 0):
                res.bad(tag + ":summary-best", "%s: summary gives best-fit %s = %r, it is %r" % (desc, nmi, b, true))
            if (q is None) != bool(fixed[i]):
                res.bad(tag + ":summary-fixed", "%s: %s is %sfixed but summarised otherwise" % (desc, nmi, "" if fixed[i] else "not "))
                continue
            if q is None:
                continue
            c = R[:, i]
            plus, minus, l, h, half, mean, sd = q
            sp = np.ptp(c) + 1e-300
            if abs(mean - c.mean()) > g6(mean) + 1e-8 * np.abs(c).max():
                res.bad(tag + ":mean", "%s: mean of %s printed %r, rows have %r" % (desc, nmi, mean, c.mean()))
            if abs(sd - c.std(ddof=1)) > 1e-4 * sd + 1e-8 * np.abs(c).max():
                res.bad(tag + ":sd", "%s: standard deviation of %s printed %r, rows have %r" % (desc, nmi, sd, c.std(ddof=1)))
            (la, lb), (ha, hb) = ci(c)
            if not la - g6(la) <= l <= lb + g6(lb) or not ha - g6(ha) <= h <= hb + g6(hb):
                res.bad(tag + ":interval", "%s: 68%% interval of %s printed %r -- %r, rows give %r..%r -- %r..%r" % (desc, nmi, l, h, la, lb, ha, hb))
            t = g6(l) + g6(h) + g6(b)
            if abs(plus - (h - b)) > t + g6(plus) or abs(minus - (b - l)) > t + g6(minus) or abs(half - (h - l) / 2) > t + g6(half):
                res.bad(tag + ":plusminus", "%s: %s = %r +%r -%r, half-width %r, interval %r -- %r" % (desc, nmi, b, plus, minus, half, l, h))
            res.seen("summary_lines")
            del sp
        return R

    def setup(self, r, ctx, stats=("data", "model", "err", "mlr", "cash"), size=(12, 26), **kw):
        for _ in range(30):
            P = Q.make(r, stat=str(r.choice(stats)), model="easy", size=size, nonfinite=kw.pop("nonfinite", r.random() < .15), nsets=int(r.integers(1, 3)))
            if P.valid.sum() > 60:
                break
        return P, L.make(r, ctx.dir, P, **kw)

    def rounds(self, tr):
        """the trace split at bootstrap samples: (evaluations of the main fit, [evaluations per round])"""
        ib = [i for i, t in enumerate(tr) if t[0] == T.BOOT]
        if not ib:
            return [(t[1], t[2], t[3]) for t in tr if t[0] in (T.FIT, T.DEV)], []
        ev = lambda a: [(t[1], t[2], t[3]) for t in a if t[0] in (T.FIT, T.DEV)]  # noqa: E731
        parts = [ev(tr[a + 1:b]) for a, b in zip(ib, ib[1:] + [len(tr)])]
        return ev(tr[:ib[0]]), parts

    def bestof(self, main, parts, f, ctx):
        """the full-precision vector behind the saved parameters (a fit that ends with an error status prints
        no report, so the last evaluation need not be the answer)"""
        nm, saved, _, _ = L.values(os.path.join(ctx.dir, "p.dat"))
        saved = saved - f.off
        tol = np.array([1.2e-4 if k in ("X0", "Y0") else 1.2e-5 * abs(g) + 1e-12 for k, g in zip(nm, saved)])
        # every round starts from the best-fit values: at full precision they are one of the vectors the
        # main fit evaluated and agree with the saved ones
        for p in parts:
            if np.all(np.abs(p[0][0] - saved) <= tol) and any(np.array_equal(e[0], p[0][0]) for e in main):
                return p[0][0]
        return None

    def cli(self, r, ctx):
        res = Res()
        P, f = self.setup(r, ctx)
        solver = str(r.choice(["nm", "nl-NM", "nl-SBPLX"] + (["lm"] * 4 if P.stat != "cash" else [])))
        nit = int(r.choice([1, 2, 3, 4, 5, 7, 10, 13, 25]))
        seed = ["--seed", str(int(r.integers(1, 10 ** 6)))] if r.random() < .8 else []
        args = f.args + L.CLIARG[solver] + seed + ["--max-threads", "1", "--ftol", "1e-5"]
        outs = ["--save-params", "p.dat", "--save-model", "m.fits", "--save-residual", "r.fits"]
        boot = ["--bootstrap", str(nit), "--save-bootstrap", "b.dat"]
        desc = "imfit %s %s %dx%d %d parameters, %d rounds, section %s" % (solver, P.stat, P.nc, P.nr, f.n, nit, f.sec)
        x0 = imf.must(ctx.bins["t-imfit"], args + outs, ctx.dir, timeout=120)
        keep = {k: open(os.path.join(ctx.dir, k), "rb").read() for k in ("m.fits", "r.fits") if os.path.exists(os.path.join(ctx.dir, k))}
        p0 = clean_params(os.path.join(ctx.dir, "p.dat"))
        x = imf.must(ctx.bins["t-imfit"], args + outs + boot, ctx.dir, timeout=200, env={"VERIF_TRACE": "trace"})
        for k, b in keep.items():
            try:
                ia, ib = b[2880:], open(os.path.join(ctx.dir, k), "rb").read()[2880:]
            except OSError:
                ia, ib = 0, 1
            if ia[-len(ia) // 2:] != ib[-len(ib) // 2:] or len(ia) != len(ib):
                res.bad("cli:main-image", "%s: %s differs with bootstrapping" % (desc, k))
        p1 = clean_params(os.path.join(ctx.dir, "p.dat"))
        if p0 != p1:
            res.bad("cli:main-params", "%s: saved parameters differ with bootstrapping: %s" % (desc, first_diff(p0, p1)))
        a0 = clean_report(x0.out)
        a1 = clean_report(x.out)
        k = a1.find("Now doing bootstrap")
        tail = [ln for ln in a0.splitlines() if L.statkey(P) in ln or "AIC" in ln]
        if any(ln not in a1[:k] for ln in tail):
            res.bad("cli:main-report", desc + ": the main fit's report differs with bootstrapping")
        tr = T.read(os.path.join(ctx.dir, "trace"))
        main, parts = self.rounds(tr)
        # one extra sample is drawn when bootstrapping is switched on; nothing is evaluated with it
        parts = [p for p in parts if p]
        best = self.bestof(main, parts, f, ctx)
        if best is None:
            res.bad("cli:not-evaluated", desc + ": the saved parameters were never evaluated")
            return res
        # at least one and at most all rounds are refits
        if len(parts) != nit:
            res.bad("cli:rounds", "%s: %d samples were fitted" % (desc, len(parts)))
        R = self.judge(res, "cli", desc, nit, f.names, best, f.lo, f.hi, f.fixed, f.off, os.path.join(ctx.dir, "b.dat"), x.out)
        if R is not None and len(parts) == nit and len(R) == nit:
            for k, (row, p) in enumerate(zip(R, parts)):
                A = np.array([q[0] for q in p])
                Vv = np.array([q[1] for q in p])
                if not np.array_equal(A[0], best):
                    res.bad("cli:round-start", "%s: round %d starts at %s, best fit %s" % (desc, k + 1, A[0], best))
                d = np.abs(A + f.off - row)
                near = np.flatnonzero(np.all(d <= 2e-9 * np.abs(row) + 1e-11, axis=1))
                if not len(near):
                    res.bad("cli:row-not-evaluated", "%s: row %d was never evaluated in its round" % (desc, k + 1))
                elif not Vv[near].min() <= Vv[0] + 1e-9 * abs(Vv[0]) + 1e-9 and np.isfinite(Vv[0]):
                    res.bad("cli:row-worse", "%s: row %d has statistic %.10g, its round started at %.10g" % (desc, k + 1, Vv[near].min(), Vv[0]))
            res.seen("rounds_traced", nit)
            first = np.array([p[0][1] for p in parts])
            if nit > 3 and len(np.unique(first)) < 2:
                res.bad("cli:same-sample", desc + ": every round used the same sample")
            res.evals += sum(len(p) for p in parts)
        res.nontrivial(("cli", solver, P.stat, f.n, int(f.fixed.sum()), nit, bool(f.sec)))
        return res

    def draw(self, r, ctx):
        """which pixels each sample consists of: the deviates at the best fit identify them"""
        res = Res()
        P, f = self.setup(r, ctx, stats=("data", "model", "err", "mlr"), size=(9, 18))
        nit = 24
        x = imf.must(ctx.bins["t-imfit"], f.args + ["--max-threads", "1", "--ftol", "1e-4", "--seed", str(int(r.integers(1, 10 ** 6))), "--bootstrap", str(nit)],
                     ctx.dir, timeout=120, env={"VERIF_TRACE": "trace", "VERIF_TRACE_DEV": "1"})
        tr = T.read(os.path.join(ctx.dir, "trace"))
        main, parts = self.rounds(tr)
        parts = [p for p in parts if p]
        desc = "imfit %s %dx%d, %d valid pixels" % (P.stat, P.nc, P.nr, P.valid.sum())
        if not parts or len(parts[0][0][2]) == 0:
            res.bad("draw:trace", desc + ": no deviates recorded")
            return res
        best = parts[0][0][0]
        ref = [e[2] for e in main if len(e[2]) and np.array_equal(e[0], best)]
        if not ref:
            res.seen("no_reference_deviates")
            return res
        ref = ref[-1]
        nv = int(P.valid.sum())
        good = P.valid.ravel()
        vals = ref[good]
        order = np.argsort(vals)
        sv = vals[order]
        counts = np.zeros(nv)
        seen = set()
        amb = len(np.unique(sv)) < nv
        for k, p in enumerate(parts):
            dev = p[0][2]
            if not np.array_equal(p[0][0], best):
                continue
            if len(dev) != nv:
                res.bad("draw:size", "%s: a sample of %d deviates" % (desc, len(dev)))
                return res
            j = np.searchsorted(sv, dev)
            j = np.where((j >= nv) | ((j > 0) & (np.abs(sv[np.minimum(j, nv) - 1] - dev) < np.abs(sv[np.minimum(j, nv - 1)] - dev))), j - 1, j)
            j = np.clip(j, 0, nv - 1)
            miss = np.abs(sv[j] - dev) > 1e-10 * np.abs(dev) + 1e-13
            if miss.any():
                res.bad("draw:foreign", "%s: round %d: %d of %d deviates are not those of valid pixels" % (desc, k + 1, miss.sum(), nv))
                return res
            c = np.bincount(order[j], minlength=nv)
            counts += c
            seen.add(tuple(np.sort(order[j])))
            if nv > 30 and (c == 1).all():
                res.bad("draw:permutation", "%s: round %d uses every pixel exactly once" % (desc, k + 1))
        if len(seen) < len(parts):
            res.bad("draw:repeat", "%s: %d different samples in %d rounds" % (desc, len(seen), len(parts)))
        if not amb and len(parts) == nit:
            # Poisson(24) per pixel
            chi = float(np.sum((counts - nit) ** 2 / nit))
            lim = nv + 6 * np.sqrt(2 * nv) + 12
            if counts.min() == 0 or chi > lim or chi < nv - 6.5 * np.sqrt(2 * nv):
                res.bad("draw:uniform", "%s: draws per pixel %d..%d for %d rounds, chi^2 %.1f for %d pixels" % (desc, counts.min(), counts.max(), nit, chi, nv))
            # the image's ends, where an index error would bite
            res.seen("pixels_watched", nv)
        res.seen("samples_identified", len(parts))
        res.evals = len(parts)
        res.nontrivial(("draw", P.stat, nv, P.maskraw is not None))
        return res

    def interrupt(self, r, ctx):
        """Ctrl-C while bootstrapping: only completed rounds count"""
        res = Res()
        P, f = self.setup(r, ctx)
        solver = "lm" if P.stat != "cash" else "nm"
        nit = 12
        args = f.args + L.CLIARG[solver] + ["--seed", "7", "--max-threads", "1", "--ftol", "1e-4", "--save-params", "p.dat", "--bootstrap", str(nit),
                                            "--save-bootstrap", "b.dat"]
        imf.must(ctx.bins["t-imfit"], args, ctx.dir, timeout=120, env={"VERIF_TRACE": "trace"})
        p0 = clean_params(os.path.join(ctx.dir, "p.dat"))
        _, _, R0 = read_rows(os.path.join(ctx.dir, "b.dat"))
        main, parts = self.rounds(T.read(os.path.join(ctx.dir, "trace")))
        parts = [p for p in parts if p]
        b0 = self.bestof(main, parts, f, ctx)
        if b0 is None:
            res.bad("interrupt:not-evaluated", "the rounds do not start from the saved parameters")
            return res
        # SIGINT in the middle of round k
        k = int(r.integers(0, nit))
        at = len(main) + sum(len(p) for p in parts[:k]) + int(r.integers(1, len(parts[k]) + 1))
        x = imf.must(ctx.bins["t-imfit"], args, ctx.dir, timeout=120, env={"VERIF_TRACE": "trace2", "VERIF_TRACE_KILL": str(at)})
        desc = "imfit %s %s, SIGINT in round %d of %d, section %s" % (solver, P.stat, k + 1, nit, f.sec)
        p1 = clean_params(os.path.join(ctx.dir, "p.dat"))
        if p0 != p1:
            res.bad("interrupt:main-params", "%s: saved parameters differ: %s" % (desc, first_diff(p0, p1)))
        R = self.judge(res, "interrupt", desc, nit, f.names, b0, f.lo, f.hi, f.fixed, f.off, os.path.join(ctx.dir, "b.dat"), x.out)
        if R is not None:
            c = min(len(R), k)
            if not np.array_equal(R[:c], np.array(R0)[:c]):
                res.bad("interrupt:rows", desc + ": rows of rounds completed before the signal differ from the undisturbed run")
            if len(R) < k:
                res.bad("interrupt:lost", "%s: %d rows, although %d rounds had been completed" % (desc, len(R), k))
            if len(R) < nit:
                res.seen("bootstraps_cut_short")
        res.seen("interrupted")
        res.nontrivial(("interrupt", P.stat, k, bool(f.sec)))
        return res

    def multi(self, r, ctx):
        res = Res()
        nim = int(r.integers(1, 4))
        P = Q.make(r, stat="data", model="easy", size=(14, 22), nonfinite=False, masked=False, psf=False)
        m = P.model
        v, nm = Q.vec(m), Q.names(m)
        fixed = list(r.random(len(v)) < .25)
        if all(fixed):
            fixed[0] = False
        lo, hi = v - np.abs(v) * .3 - .5, v + np.abs(v) * .3 + .5
        for i, k in enumerate(nm):
            if k == "ell":
                lo[i], hi[i] = .02, .9
            elif k in ("n", "beta", "sigma", "fwhm", "h", "r_e"):
                lo[i] = max(lo[i], .3)
        cnt = [0]
        offs = [(int(r.integers(0, 8)), int(r.integers(0, 8))) if r.random() < .5 else (0, 0) for k in range(nim)]
        o0 = np.array([offs[0][0] if k == "X0" else offs[0][1] if k == "Y0" else 0 for k in nm], float)

        def lim(si, fi, pn, x):
            i = cnt[0]
            cnt[0] += 1
            return "fixed" if fixed[i] else "%r,%r" % (lo[i] + o0[i], hi[i] + o0[i])
        open(os.path.join(ctx.dir, "cfg.dat"), "w").write(F.config_text(Q.setvec(m, v + o0), limits=lim))
        info, ipar, loc = [], [], []
        for k in range(nim):
            ox, oy = offs[k]
            im = P.truth.copy()
            sec = ""
            local = r.random() < .25
            L_ = None
            if local:
                x0, y0 = float(np.round(r.uniform(4, 9), 2)), float(np.round(r.uniform(4, 9), 2))
                L_ = dict(sets=[dict(x0=x0, y0=y0, funcs=[dict(name="Gaussian", p=dict(PA=20.0, ell=.2, I_0=300.0, sigma=1.5))])])
                im = im + F.render_points(L_, *F.grid(P.nc, P.nr))
            d = im + 5 * r.normal(size=im.shape)
            big = np.full((P.nr + oy + 1, P.nc + ox + 2), 3.3)
            big[oy:oy + P.nr, ox:ox + P.nc] = d
            if ox or oy:
                sec = "[%d:%d,%d:%d]" % (ox + 1, ox + P.nc, oy + 1, oy + P.nr)
                imf.write_fits(os.path.join(ctx.dir, "d%d.fits" % k), big)
            else:
                imf.write_fits(os.path.join(ctx.dir, "d%d.fits" % k), d)
            info += ["IMAGE_START", "DATA d%d.fits%s" % (k, sec), "READNOISE 5"]
            if r.random() < .5:
                mk = (r.random(im.shape) < .2).astype(float)
                imf.write_fits(os.path.join(ctx.dir, "k%d.fits" % k), mk)
                info.append("MASK k%d.fits" % k)
            if k:
                for kw, val, w, o in (("PIXEL_SCALE", 1.0, .05, 0), ("IMAGE_PA", 0.0, 5.0, 0), ("FLUX_SCALE", 1.0, .2, 0), ("X0", v[0], 1.0, ox), ("Y0", v[1], 1.0, oy)):
                    fx = r.random() < .5
                    info.append("%s %r %s" % (kw, val + o, "fixed" if fx else "%r,%r" % (val + o - w, val + o + w)))
                    ipar.append(("ROTATION" if kw == "IMAGE_PA" else kw, val, val - w, val + w, fx, o))
            else:
                info += ["X0 %r fixed" % (v[0] + ox), "Y0 %r fixed" % (v[1] + oy)]
            if local:
                info += ["FUNCTIONS_START", "X0 %r %r,%r" % (x0 + ox, x0 + ox - 1, x0 + ox + 1), "Y0 %r %r,%r" % (y0 + oy, y0 + oy - 1, y0 + oy + 1), "FUNCTION Gaussian",
                         "PA 20 fixed", "ell 0.2 fixed", "I_0 300 100,900", "sigma 1.5 fixed"]
                loc += [("X0", x0, x0 - 1, x0 + 1, False, ox), ("Y0", y0, y0 - 1, y0 + 1, False, oy), ("PA", 20, 0, 0, True, 0), ("ell", .2, 0, 0, True, 0),
                        ("I_0", 300, 100, 900, False, 0), ("sigma", 1.5, 0, 0, True, 0)]
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info) + "\n")
        allp = ipar + [(k, x, a, b, fx, o) for k, x, a, b, fx, o in zip(nm, v, lo, hi, fixed, o0)] + loc
        nit = int(r.choice([3, 4, 6]))
        desc = "multimfit, %d images, %d+%d+%d parameters, %d rounds, offsets %s" % (nim, len(ipar), len(v), len(loc), nit, offs)
        x = imf.must(ctx.bins["t-multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--ftol", "1e-4", "--seed", "3",
                                              "--bootstrap", str(nit), "--save-bootstrap", "b.dat"], ctx.dir, timeout=150, env={"VERIF_TRACE": "trace"})
        main, parts = self.rounds(T.read(os.path.join(ctx.dir, "trace")))
        parts = [p for p in parts if p]
        if not main or len(main[-1][0]) != len(allp):
            res.bad("multi:shape", "%s: vectors of %s parameters evaluated" % (desc, len(main[-1][0]) if main else None))
            return res
        col = lambda j: [q[j] for q in allp]  # noqa: E731
        R = self.judge(res, "multi", desc, nit, col(0), parts[0][0][0] if parts else main[-1][0], np.array(col(2), float), np.array(col(3), float), col(4), np.array(col(5), float),
                       os.path.join(ctx.dir, "b.dat"), x.out, labels=col(0))
        # the refits stay close to the truth: the deviates they use are those of the images
        if R is not None and len(parts) == nit and len(R) == nit:
            s0 = min(e[1] for e in main)
            for k, p in enumerate(parts):
                if not .3 * s0 < p[0][1] < 3.5 * s0:
                    res.bad("multi:sample", "%s: round %d starts at %.6g, the best fit has %.6g" % (desc, k + 1, p[0][1], s0))
                A = np.array([q[0] for q in p])
                if not np.any(np.all(np.abs(A + np.array(col(5)) - R[k]) <= 2e-9 * np.abs(R[k]) + 1e-11, axis=1)):
                    res.bad("multi:row-not-evaluated", "%s: row %d was never evaluated in its round" % (desc, k + 1))
            res.seen("multi_rounds_traced", nit)
        res.nontrivial(("multi", nim, len(ipar), len(loc), bool(sum(map(sum, offs)))))
        return res

    def errors(self, r, ctx):
        """bootstrap and curvature uncertainties describe the same noise"""
        res = Res()
        P = Q.make(r, stat="err", model="easy", size=(26, 34), nonfinite=False, nsets=1, masked=False, noise_level=1.0)
        f = L.make(r, ctx.dir, P, fixprob=0, section=None, spread=.05, atlimit=0)
        # only well-determined, nearly linear parameters
        nit = 60
        imf.must(ctx.bins["t-imfit"], f.args + ["--max-threads", "2", "--seed", str(int(r.integers(1, 10 ** 6))), "--save-params", "p.dat", "--bootstrap", str(nit),
                                               "--save-bootstrap", "b.dat"], ctx.dir, timeout=200, threads=None)
        nm, val, err, _ = L.values(os.path.join(ctx.dir, "p.dat"))
        _, _, rows = read_rows(os.path.join(ctx.dir, "b.dat"))
        R = np.array(rows)
        for i in range(len(nm)):
            if nm[i] in ("X0", "Y0") and err[i] and err[i] > 2e-3 and err[i] < .1 and abs(val[i] - f.glo[i]) > 5 * err[i] and abs(val[i] - f.ghi[i]) > 5 * err[i]:
                q = R[:, i].std(ddof=1) / err[i]
                res.seen("uncertainties_compared")
                if not .35 < q < 2.8:
                    res.bad("errors:ratio", "%s: bootstrap scatter %.4g, curvature uncertainty %.4g (%s)" % (nm[i], R[:, i].std(ddof=1), err[i], P.model))
        res.nontrivial(("errors", P.nc, P.nr, f.n))
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
