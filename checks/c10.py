"""C10: every evaluation made while fitting keeps limits and fixed values; the end is never worse
than the start; the answer is the best point evaluated; the reported statistic is its statistic."""
from common import *
import fitprob as Q
import trace as T

SOLV = {"lm": (1, "", 0), "de": (2, "", 0), "delhs": (2, "", 1), "nm": (3, "", 0)}
for _n in ("COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"):
    SOLV["nl-" + _n] = (5, _n, 0)
CLIARG = {"lm": [], "de": ["--de"], "delhs": ["--de-lhs"], "nm": ["--nm"]}
for _n in ("COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"):
    CLIARG["nl-" + _n] = ["--nlopt", _n]


def best_tol(solver):
    """NLopt's COBYLA and PRAXIS return the point they converged to, which may be a touch worse
    than the best one they evaluated"""
    return 1e-3 if solver in ("nl-COBYLA", "nl-PRAXIS") else 1e-12


def ulp(lo, hi):
    return 4 * np.spacing(max(abs(lo), abs(hi)))


def judge(res, tag, desc, ev, start, lo, hi, fixed, final, solver):
    """the monitor over a recorded trace: ev = list of (vector, value); final may be None"""
    n = len(start)
    if solver == "nl-PRAXIS":
        # the installed NLopt's PRAXIS proposes vectors of NaN when it runs out of directions
        k = len(ev)
        ev = [(p, v) for p, v in ev if not np.any(np.isnan(p))]
        res.seen("praxis_nan_proposals", k - len(ev))
    A = np.array([p for p, v in ev]) if ev else np.zeros((0, n))
    V = np.array([v for p, v in ev])
    res.seen("evaluations_monitored", len(V))
    res.evals += len(V)
    pts = [("evaluation", A)] + ([("final answer", np.array([final]))] if final is not None else [])
    for what, B in pts:
        if not len(B):
            continue
        if B.shape[1] != n:
            res.bad(tag + ":shape", "%s: vector of %d parameters, expected %d" % (desc, B.shape[1], n))
            return V
        for i in range(n):
            c = B[:, i]
            if fixed[i]:
                k = np.flatnonzero(~(c == start[i]))
                if len(k):
                    res.bad(tag + ":fixed", "%s: %s %d of %d has fixed parameter %d = %r, given value %r" % (desc, what, k[0], len(c), i, c[k[0]], start[i]))
                    return V
            else:
                u = ulp(lo[i] if np.isfinite(lo[i]) else 0, hi[i] if np.isfinite(hi[i]) else 0)
                k = np.flatnonzero(~((c >= lo[i] - u) & (c <= hi[i] + u)))
                if len(k):
                    res.bad(tag + ":limits", "%s: %s %d of %d has parameter %d = %r outside [%r, %r]" % (desc, what, k[0], len(c), i, c[k[0]], lo[i], hi[i]))
                    return V
                if len(c) > 3 and (np.any(c == lo[i]) or np.any(c == hi[i])):
                    res.seen("points_on_a_limit")
    return V


class C(Check):
    id = "C10"
    harness = (("trace_fit", ["harness/trace_fit.cpp"]), T.TRACED("imfit"), T.TRACED("multimfit"))
    rule = ("every evaluation of every fit recorded and checked; random objectives, images, limits (starting on a limit, "
            "optimum outside the limits, negative and wide ranges), fixed flags, solvers; signature = solver + shape of the problem")
    assumptions = ["limits further apart than the least-squares solver's finite-difference step (1.5e-8 of the value)",
                   "a bound computed as min+u*(max-min) may differ from the limit in the last bits (4 ulp allowed)",
                   "Differential Evolution draws its own starting population and is not compared with the starting values"]

    def cases(self, tier, seed):
        return mkcases({"analytic": (700, 9000), "cli": (120, 1500), "edge": (50, 500), "multi": (20, 200)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        return getattr(self, case["kind"])(r, ctx)

    def analytic(self, r, ctx):
        res = Res()
        solver = str(r.choice(list(SOLV)))
        sid, name, lhs = SOLV[solver]
        kinds = ["quad", "rosen", "wave", "plateau", "flat"] + (["nan"] if solver not in ("nl-COBYLA", "nl-BOBYQA", "nl-NEWUOA", "nl-PRAXIS") else [])
        kind = str(r.choice(kinds))
        n = int(r.integers(1, 7))
        if solver in ("nl-BOBYQA", "nl-NEWUOA") and n < 2:
            n = 2
        c = r.normal(0, 3, n)
        a = r.normal(0, 1, (n, n)) + 2 * np.eye(n)
        if kind == "wave":
            a = r.uniform(.5, 2, n)
        lo, hi = np.empty(n), np.empty(n)
        start = np.empty(n)
        limlo, limhi = np.ones(n, int), np.ones(n, int)
        scale = 10 ** r.uniform(-1, 1, n)
        for i in range(n):
            m = r.random()
            mid = c[i] if m < .6 else c[i] + r.choice([-1, 1]) * 3 * scale[i]     # optimum inside, or outside
            lo[i] = mid - scale[i] * r.uniform(.2, 2)
            hi[i] = mid + scale[i] * r.uniform(.2, 2)
            q = r.random()
            start[i] = lo[i] if q < .1 else hi[i] if q < .2 else r.uniform(lo[i], hi[i])
            if solver == "lm" and r.random() < .25:
                limlo[i] = r.random() < .5
                limhi[i] = r.random() < .5
        nolim = solver not in ("de", "delhs") and r.random() < .1
        if nolim:
            limlo[:] = limhi[:] = 0
        nf = int(r.integers(0, n)) if r.random() < .5 else 0
        if solver in ("nl-BOBYQA", "nl-NEWUOA"):
            nf = min(nf, n - 2)
        fixed = np.zeros(n, int)
        if nf > 0:
            fixed[r.choice(n, nf, replace=False)] = 1
        spec = os.path.join(ctx.dir, "spec")
        w = lambda k, v: "%s %s\n" % (k, " ".join(repr(float(x)) for x in np.ravel(v)))  # noqa: E731
        ftol = float(10 ** r.uniform(-10, -3))
        with open(spec, "w") as f:
            f.write("kind %s\n" % kind + ("name %s\n" % name if name else ""))
            f.write(w("start", start) + w("lo", lo) + w("hi", hi) + w("limlo", limlo) + w("limhi", limhi) + w("fixed", fixed)
                    + w("a", a) + w("c", c) + w("solver", [sid]) + w("lhs", [lhs]) + w("ftol", [ftol]) + w("verbose", [-1])
                    + w("seed", [int(r.integers(1, 1 << 30))]))
        desc = "%s on %s, %d parameters (%d fixed)" % (solver, kind, n, fixed.sum())
        imf.must(ctx.bins["trace_fit"], [spec, "trace"], ctx.dir, timeout=60)
        tr = T.read(os.path.join(ctx.dir, "trace"))
        ev = [(p, v) for t, p, v, x in tr if t in (T.FIT, T.DEV)]
        st = [(p, v) for t, p, v, x in tr if t == T.START]
        fi = [(p, v, x) for t, p, v, x in tr if t == T.FINAL]
        if len(st) != 1 or len(fi) != 1 or len(ev) < 1:
            res.bad("analytic:trace", desc + ": the solver evaluated nothing or did not return")
            return res
        elo = np.where(limlo, lo, -np.inf)
        ehi = np.where(limhi, hi, np.inf)
        if solver != "lm":
            both = (limlo & limhi).astype(bool)
            elo, ehi = np.where(both, elo, -np.inf), np.where(both, ehi, np.inf)
        V = judge(res, "analytic:" + solver, desc, ev, start, elo, ehi, fixed, fi[0][0], solver)
        f0, f1 = st[0][1], fi[0][1]
        reported, status = fi[0][2][0], fi[0][2][2]
        if solver not in ("de", "delhs") and np.isfinite(f0) and not (f1 <= f0 + 1e-12 * abs(f0)):
            res.bad("analytic:%s:worse" % solver, "%s: started at %.12g, ended at %.12g (status %g)" % (desc, f0, f1, status))
        fin = V[np.isfinite(V)]
        if solver != "lm" and len(fin) and not (f1 <= fin.min() + best_tol(solver) * abs(fin.min())):
            res.bad("analytic:%s:notbest" % solver, "%s: returned a point with %.12g although %.12g was evaluated (status %g)" % (desc, f1, fin.min(), status))
        if np.isfinite(f1) and not (abs(reported - f1) <= 1e-9 * abs(f1) + 1e-300) and not (status < 0 and status not in (-4, -5)):
            res.bad("analytic:%s:reported" % solver, "%s: reports %.12g, the returned parameters have %.12g (status %g)" % (desc, reported, f1, status))
        res.seen("fits_" + solver)
        res.seen("status_%g" % status)
        res.nontrivial(("analytic", solver, kind, n, int(fixed.sum()), bool(nolim)))
        return res

    def cli(self, r, ctx, edge=False):
        res = Res()
        solver = str(r.choice(list(CLIARG)))
        for _ in range(20):
            st = str(r.choice(["data", "model", "err", "mlr"] + (["cash"] if solver != "lm" else [])))
            P = Q.make(r, stat=st, model="easy", size=(10, 22) if solver.startswith("de") else (12, 30), nonfinite=r.random() < .15, nsets=int(r.integers(1, 3)))
            if P.valid.sum() > 60:
                break
        nm = Q.names(P.model)
        v = Q.vec(P.model)
        n = len(v)
        start, lo, hi = v.copy(), np.empty(n), np.empty(n)
        fixed = np.zeros(n, bool)
        nfix = int(r.integers(0, max(1, n - 2))) if r.random() < .5 else 0
        if edge:
            nfix = n - int(r.integers(1, 3)) if solver not in ("nl-BOBYQA", "nl-NEWUOA") else n - 2
        fixed[r.choice(n, nfix, replace=False)] = True
        for i, (x, k) in enumerate(zip(v, nm)):
            wide = {"X0": 3, "Y0": 3, "PA": 60, "ell": .2, "n": .5, "I_sky": 5}.get(k, .5 * abs(x))
            a, b = x - wide * r.uniform(.3, 1), x + wide * r.uniform(.3, 1)
            if r.random() < (.5 if edge else .15):      # truth outside the limits
                s = wide * r.uniform(.4, .8)
                sg = r.choice([-1, 1])
                a, b = (x + s * .5, x + s * 1.5) if sg > 0 else (x - s * 1.5, x - s * .5)
            if k == "ell":
                a, b = max(a, 0.01), min(b, .9)
            if k in ("n", "beta"):
                a = max(a, .6)
            q = r.random()
            start[i] = a if q < .1 else b if q < .2 else r.uniform(a, b)
            # what the programs see: printed numbers
            lo[i], hi[i], start[i] = float("%.10g" % a), float("%.10g" % b), float("%.10g" % start[i])
            start[i] = min(max(start[i], lo[i]), hi[i])
        ml = Q.setvec(P.model, start)
        cnt = [0]

        def lim(si, fi, pn, x):
            i = cnt[0]
            cnt[0] += 1
            return "fixed" if fixed[i] else "%r,%r" % (lo[i], hi[i])
        Q.write(P, ctx.dir)
        # optionally a section of a larger image
        dx = dy = 0
        img = "d.fits"
        text = F.config_text(ml, limits=lim, head=Q.ccd_config(P))
        if P.maskraw is None and P.err is None and r.random() < .3:
            dx, dy = int(r.integers(0, 9)), int(r.integers(0, 9))
            big = np.full((P.nr + dy + 3, P.nc + dx + 2), 7.5)
            big[dy:dy + P.nr, dx:dx + P.nc] = P.data
            imf.write_fits(os.path.join(ctx.dir, "big.fits"), big)
            img = "big.fits[%d:%d,%d:%d]" % (dx + 1, dx + P.nc, dy + 1, dy + P.nr)
            off = np.array([dx if k == "X0" else dy if k == "Y0" else 0 for k in nm], float)
            cnt[0] = 0

            def lim2(si, fi, pn, x):
                i = cnt[0]
                cnt[0] += 1
                return "fixed" if fixed[i] else "%r,%r" % (lo[i] + off[i], hi[i] + off[i])
            mo = Q.setvec(ml, start + off)
            text = F.config_text(mo, limits=lim2, head=Q.ccd_config(P))
            # the program subtracts the offset again
            lo2, hi2, st2 = (lo + off) - off, (hi + off) - off, (start + off) - off
            lo, hi, start = lo2, hi2, st2
        with open(os.path.join(ctx.dir, "cfg.dat"), "w") as f:
            f.write(text)
        boot = []
        if r.random() < .15 and not solver.startswith("de"):
            boot = ["--bootstrap", "3", "--save-bootstrap", "b.dat"]
        args = ["-c", "cfg.dat", img, "--no-subsampling", "--max-threads", "1", "--seed", str(int(r.integers(1, 10 ** 6))),
                "--save-params", "p.dat"] + Q.opts(P) + CLIARG[solver] + boot
        if r.random() < .3:
            args += ["--ftol", "%.3g" % 10 ** r.uniform(-9, -2)]
        elif solver.startswith("de"):
            args += ["--ftol", "1e-4"]
        if r.random() < .3:
            args += [str(r.choice(["--quiet", "--silent", "--loud"]))]
        desc = "imfit %s %s %dx%d, %d parameters (%d fixed)%s" % (solver, P.stat, P.nc, P.nr, n, fixed.sum(), " + bootstrap" if boot else "")
        if solver == "nl-PRAXIS":
            # the installed NLopt's PRAXIS occasionally does not end
            x = imf.run(ctx.bins["t-imfit"], args, ctx.dir, timeout=60, env={"VERIF_TRACE": "trace"})
            if x.timeout:
                res.seen("praxis_did_not_end")
                return res
        x = imf.must(ctx.bins["t-imfit"], args, ctx.dir, timeout=120, env={"VERIF_TRACE": "trace"})
        tr = T.read(os.path.join(ctx.dir, "trace"))
        nb = next((i for i, t in enumerate(tr) if t[0] == T.BOOT), len(tr))
        ev = [(p, v) for t, p, v, _ in tr[:nb] if t in (T.FIT, T.DEV)]
        evb = [(p, v) for t, p, v, _ in tr[nb:] if t in (T.FIT, T.DEV)]
        if not ev:
            res.bad("cli:trace", desc + ": nothing was evaluated")
            return res
        tag = "edge" if edge else "cli"
        V = judge(res, tag + ":" + solver, desc, ev, start, lo, hi, fixed, None, solver)
        if evb:
            judge(res, tag + "-bootstrap:" + solver, desc + " (bootstrap refits)", evb, start, lo, hi, fixed, None, solver)
            res.seen("bootstrap_fits_monitored")
        if solver not in ("de", "delhs") and not np.array_equal(ev[0][0], start):
            res.bad(tag + ":start", "%s: the first evaluation is at %s, not at the starting values %s" % (desc, ev[0][0], start))
        key = {"mlr": "POISSON-MLR STATISTIC", "cash": "CASH STATISTIC"}.get(P.stat, "CHI-SQUARE")
        rep = imf.find_num(x.out, key + " = NUM")
        ps, hdr = imf.parse_params(os.path.join(ctx.dir, "p.dat"))
        if rep is None:
            # a derivative-free fit that ended with an error status prints no block (round-off limited, NaN)
            if solver == "lm" or "status = 1" in x.out or "status = 3" in x.out or "status = 4" in x.out:
                res.bad(tag + ":no-report", desc + ": no statistic reported")
            res.seen("no_report")
        got = np.array([q[1] for q in ps if q[0] != "FUNCTION"])
        gn = [q[0] for q in ps if q[0] != "FUNCTION"]
        if gn != nm:
            res.bad(tag + ":names", "%s: saved parameters %s, expected %s" % (desc, gn, nm))
            return res
        got = got - np.array([dx if k == "X0" else dy if k == "Y0" else 0 for k in nm])
        tol = np.array([6e-5 if k in ("X0", "Y0") else 6e-6 * abs(g) + 1e-12 for k, g in zip(nm, got)])
        for i in range(n):
            if fixed[i]:
                if abs(got[i] - start[i]) > tol[i]:
                    res.bad(tag + ":saved-fixed", "%s: fixed %s saved as %r, given %r" % (desc, nm[i], got[i], start[i]))
            elif got[i] < lo[i] - tol[i] or got[i] > hi[i] + tol[i]:
                res.bad(tag + ":saved-limits", "%s: %s saved as %r outside [%r, %r]" % (desc, nm[i], got[i], lo[i], hi[i]))
        # which evaluated vector was saved?
        A = np.array([p for p, v in ev])
        near = np.flatnonzero(np.all(np.abs(A - got) <= 2 * tol, axis=1))
        if not len(near):
            res.bad(tag + ":not-evaluated", "%s: the saved parameters were never evaluated" % desc)
            return res
        fin = V[np.isfinite(V)]
        sc = Q.stat_scale(P, P.truth)
        eps = 2e-6 + 1e-11 * sc
        if solver != "lm":
            best = fin.min()
            if rep is not None and not rep <= best + eps + best_tol(solver) * abs(best):
                res.bad(tag + ":%s:notbest" % solver, "%s: reports %.10g although %.10g was evaluated" % (desc, rep, best))
        if rep is not None:
            if solver not in ("de", "delhs") and not rep <= V[0] + eps:
                res.bad(tag + ":%s:worse" % solver, "%s: started at %.10g, reports %.10g" % (desc, V[0], rep))
            # independent statistic of the saved vector at full precision
            k = near[np.argmin(np.abs(V[near] - rep))]
            im = Q.image(P, Q.setvec(P.model, A[k]))
            s = Q.stat(P, im)
            if np.isfinite(s) and not abs(s - rep) <= 2e-6 * max(Q.stat_scale(P, im), abs(s)) + 5e-6:
                res.bad(tag + ":reported", "%s: reports %.10g, the statistic of the reported parameters is %.10g" % (desc, rep, s))
            h = imf.header_stats(hdr)
            if h["best"] is None or abs(h["best"] - rep) > eps + 1e-9 * abs(rep):
                res.bad(tag + ":header", "%s: report %.10g, saved file %s" % (desc, rep, h["best"]))
            if solver == "lm":
                i0 = imf.find_num(x.out, r"INITIAL [A-Z^\d -]+ = NUM")
                if i0 is None or abs(i0 - V[0]) > eps + 1e-9 * abs(i0):
                    res.bad(tag + ":initial", "%s: initial statistic reported %s, evaluated %.10g" % (desc, i0, V[0]))
        res.seen("cli_fits_" + solver)
        res.nontrivial((tag, solver, P.stat, n, int(fixed.sum()), bool(boot), dx + dy > 0))
        return res

    def edge(self, r, ctx):
        return self.cli(r, ctx, True)

    def multi(self, r, ctx):
        """multi-image fits: limits of the model and fixed image parameters"""
        res = Res()
        solver = str(r.choice(["lm", "nm", "de", "nl-SBPLX", "nl-COBYLA"]))
        nim = int(r.integers(1, 4))
        P = Q.make(r, stat="data", model="easy", size=(14, 24), nonfinite=False, masked=False, psf=False)
        P.gain, P.rdn = 1.0, 5.0
        m = P.model
        v, nm = Q.vec(m), Q.names(m)
        n = len(v)
        fixed = r.random(n) < .2
        if fixed.all():
            fixed[:] = False
        lo, hi = v - np.abs(v) * .3 - .5, v + np.abs(v) * .3 + .5
        for i, k in enumerate(nm):
            if k == "ell":
                lo[i], hi[i] = .02, .9
            elif k in ("n", "beta", "sigma", "fwhm", "h", "r_e"):
                lo[i] = max(lo[i], .3)
        start = np.where(r.random(n) < .15, lo, np.where(r.random(n) < .15, hi, v * (1 + .1 * r.normal(size=n))))
        start = np.minimum(np.maximum(start, lo), hi)
        cnt = [0]

        def lim(si, fi, pn, x):
            i = cnt[0]
            cnt[0] += 1
            return "fixed" if fixed[i] else "%r,%r" % (lo[i], hi[i])
        open(os.path.join(ctx.dir, "cfg.dat"), "w").write(F.config_text(Q.setvec(m, start), limits=lim))
        info = []
        el, eh, es, ef = [], [], [], []
        for k in range(nim):
            imf.write_fits(os.path.join(ctx.dir, "d%d.fits" % k), P.truth + 5 * r.normal(size=P.truth.shape))
            info += ["IMAGE_START", "DATA d%d.fits" % k, "READNOISE 5"]
            if k:
                for kw, val, w in (("PIXEL_SCALE", 1.0, .05), ("IMAGE_PA", 0.0, 5.0), ("FLUX_SCALE", 1.0, .2), ("X0", v[0], 1.0), ("Y0", v[1], 1.0)):
                    val = float(val + r.uniform(-.5, .5) * w)
                    if r.random() < .5:
                        info.append("%s %r fixed" % (kw, val))
                        ef.append(True)
                    else:
                        info.append("%s %r %r,%r" % (kw, val, val - w, val + w))
                        ef.append(False)
                    es.append(val), el.append(val - w), eh.append(val + w)
            else:
                info += ["X0 %r fixed" % v[0], "Y0 %r fixed" % v[1]]
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info) + "\n")
        desc = "multimfit %s, %d images, %d+%d parameters" % (solver, nim, len(es), n)
        imf.must(ctx.bins["t-multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--ftol", "1e-4", "--seed", "3"]
                 + CLIARG[solver], ctx.dir, timeout=150, env={"VERIF_TRACE": "trace"})
        tr = T.read(os.path.join(ctx.dir, "trace"))
        ev = [(p, v) for t, p, v, _ in tr if t in (T.FIT, T.DEV)]
        if not ev:
            res.bad("multi:trace", desc + ": nothing was evaluated")
            return res
        S = np.array(es + list(start))
        if len(ev[0][0]) == len(S) + 2:
            pass
        V = judge(res, "multi:" + solver, desc, ev, S, np.array(el + list(lo)), np.array(eh + list(hi)), np.array(ef + list(fixed)), None, solver)
        if solver != "de" and len(V) and not V[-1] <= V[0] * (1 + 1e-9):
            res.bad("multi:worse", "%s: started at %.10g, ended at %.10g" % (desc, V[0], V[-1]))
        if solver != "lm" and len(V) and not V[-1] <= np.nanmin(V) * (1 + 1e-9 + best_tol(solver)):
            res.bad("multi:notbest", "%s: ended at %.10g, best evaluated %.10g" % (desc, V[-1], np.nanmin(V)))
        res.seen("multi_fits")
        res.nontrivial(("multi", solver, nim, int(fixed.sum())))
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
