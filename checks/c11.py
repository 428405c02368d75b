"""C11: fits of noise-free data recover the truth; the uncertainties of the least-squares solver are
those of the inverse curvature matrix at the solution."""
from common import *
import fitprob as Q
import trace as T

CLIARG = {"lm": [], "de": ["--de"], "delhs": ["--de-lhs"], "nm": ["--nm"]}
for _n in ("COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"):
    CLIARG["nl-" + _n] = ["--nlopt", _n]
# parameters must end within this many sigma of the truth (noise-free data)
NSIG = {"lm": .02, "nm": 1, "nl-NM": 1, "de": .5, "delhs": .5}


def deviates(P, v):
    im = Q.image(P, Q.setvec(P.model, v))
    if P.stat == "mlr":
        return np.sqrt(np.maximum(Q.terms(P, im), 0))
    w = Q.weights(P, im)
    return np.where(P.valid, w * (np.where(P.valid, P.data, 0) - im), 0)


def jacobian(P, v, free):
    J = []
    for i in free:
        h = 1e-5 * max(abs(v[i]), 1e-2)
        a, b = v.copy(), v.copy()
        a[i] += h
        b[i] -= h
        if P.stat == "mlr":
            # the derivative of sqrt(t) is analytic in the model: dM (1 - d/M) / sqrt(t)
            ia, ib = Q.image(P, Q.setvec(P.model, a)), Q.image(P, Q.setvec(P.model, b))
            im = Q.image(P, Q.setvec(P.model, v))
            M = P.eg * (im + P.sky)
            D = P.eg * (np.where(P.valid, P.data, 1) + P.sky)
            # limit for small deviations: dM/sqrt(D) (1 + ...); use the exact ratio where safe
            dM = P.eg * (ia - ib) / (2 * h)
            t = np.maximum(2 * (M - D + np.where(D > 0, D * np.log(np.where(D > 0, D, 1) / M), 0)), 0)
            g = np.where(t > 1e-9, (1 - D / M) / np.sqrt(np.where(t > 1e-9, t, 1)), 1 / np.sqrt(M))
            J.append(np.where(P.valid, dM * g, 0).ravel())
        else:
            J.append((deviates(P, a) - deviates(P, b)).ravel() / (2 * h))
    return np.array(J).T


class C(Check):
    id = "C11"
    harness = (T.TRACED("imfit"),)
    programs = ("makeimage",)
    rule = ("random well-constrained models, images, PSFs, masks, noise kinds, fixed flags and nearby starts; fitted values "
            "against the generating ones, printed uncertainties against an independent curvature matrix; signature = solver, "
            "statistic, model")
    assumptions = ["recovery is required to a small fraction of the parameter's own uncertainty (two-sided, per solver)",
                   "NLopt's other algorithms (COBYLA, BOBYQA, NEWUOA, PRAXIS, SBPLX) may stall far away and are only required not to end worse",
                   "uncertainties compared where no parameter ended on a limit"]

    def cases(self, tier, seed):
        return mkcases({"recover": (160, 1500), "errors": (220, 2500), "self": (25, 250)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind = case["kind"]
        solver = "lm" if kind == "errors" else str(r.choice(list(CLIARG)))
        for _ in range(30):
            st = str(r.choice(["data", "model", "err"] + (["mlr"] if kind == "errors" else [])))
            de = solver.startswith("de")
            P = Q.make(r, stat=st, model="easy", size=(14, 20) if de else (18, 34), nonfinite=False, noise_level=0 if kind != "errors" else 1.0,
                       nsets=1 if kind != "errors" else int(r.integers(1, 3)))
            nm = Q.names(P.model)
            v = Q.vec(P.model)
            n = len(v)
            fixed = np.zeros(n, bool)
            if r.random() < .5:
                fixed[r.choice(n, int(r.integers(1, max(2, n // 2))), replace=False)] = True
            free = np.flatnonzero(~fixed)
            J = jacobian(P, v, free)
            A = J.T @ J
            d = np.sqrt(np.diag(A))
            if not np.all(d > 0):
                continue
            if np.linalg.cond(A / np.outer(d, d)) > 3e3:
                continue
            sig = np.sqrt(np.diag(np.linalg.inv(A)))
            # well constrained: parameters known to a few per cent at most
            scale = np.array([{"X0": 3., "Y0": 3., "PA": 50., "ell": .3}.get(nm[i], abs(v[i])) for i in free])
            if np.all(sig < .12 * scale):
                break
        else:
            return res
        start, lo, hi = v.copy(), v.copy(), v.copy()
        for i in free:
            w = {"X0": 1., "Y0": 1., "PA": 12., "ell": .1}.get(nm[i], .15 * abs(v[i]))
            if kind == "errors":
                w *= .3
            lo[i], hi[i] = v[i] - 3 * w, v[i] + 3 * w
            if nm[i] == "ell":
                lo[i], hi[i] = max(lo[i], .005), min(hi[i], .95)
            if kind == "errors":
                k = 8 * sig[list(free).index(i)]
                lo[i], hi[i] = min(lo[i], v[i] - k), max(hi[i], v[i] + k)
                if nm[i] == "ell":
                    lo[i], hi[i] = max(lo[i], .005), min(hi[i], .95)
                if nm[i] in F.LENGTH or nm[i] in ("n", "beta"):
                    lo[i] = max(lo[i], .1 * v[i])
                if nm[i] in F.INTENSITY and nm[i] != "I_sky":
                    lo[i] = max(lo[i], 1e-3 * v[i])
            start[i] = min(max(v[i] + w * r.uniform(-1, 1), lo[i]), hi[i])
        cnt = [0]

        def lim(si, fi, pn, x):
            i = cnt[0]
            cnt[0] += 1
            return "fixed" if fixed[i] else "%r,%r" % (lo[i], hi[i])
        desc = "imfit %s %s %dx%d %s, %d of %d free" % (solver, P.stat, P.nc, P.nr, "+".join(f["name"] for s in P.model["sets"] for f in s["funcs"]), len(free), n)
        if kind == "self":
            # data made by makeimage itself
            t = F.config_text(P.model, ncols=P.nc, nrows=P.nr)
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), P.psf if P.psf is not None else np.ones((1, 1)))
            P.data, _ = makeimage(ctx, t, args=["--no-subsampling"] + ([] if P.psf is None else ["--psf", "psf.fits"] + ([] if P.norm else ["--no-normalize"])), name="mk.dat")
        Q.write(P, ctx.dir)
        with open(os.path.join(ctx.dir, "cfg.dat"), "w") as f:
            f.write(F.config_text(Q.setvec(P.model, start), limits=lim, head=Q.ccd_config(P)))
        if solver == "nl-PRAXIS":
            solver = "nl-SBPLX"       # the installed NLopt's PRAXIS occasionally does not end
        x = imf.must(ctx.bins["t-imfit"], ["-c", "cfg.dat", "d.fits", "--no-subsampling", "--max-threads", "1", "--seed", str(int(r.integers(1, 10 ** 6))),
                                           "--save-params", "p.dat"] + Q.opts(P) + CLIARG[solver], ctx.dir, timeout=200, env={"VERIF_TRACE": "trace"})
        ps, hdr = imf.parse_params(os.path.join(ctx.dir, "p.dat"))
        got = np.array([q[1] for q in ps if q[0] != "FUNCTION"])
        err = [q[2] for q in ps if q[0] != "FUNCTION"]
        prec = np.array([6e-5 if k in ("X0", "Y0") else 6e-6 * abs(g) for k, g in zip(nm, got)])
        ev = [(p, val) for t, p, val, _ in T.read(os.path.join(ctx.dir, "trace")) if t in (T.FIT, T.DEV)]
        first, last = ev[0], ev[-1]
        res.evals += len(ev)
        onlim = any(abs(got[i] - lo[i]) < prec[i] + 1e-9 or abs(got[i] - hi[i]) < prec[i] + 1e-9 for i in free)
        if kind == "errors":
            if onlim or "status = 1 " not in x.out and "status = 2 " not in x.out and "status = 3 " not in x.out:
                res.seen("errors_not_comparable")
                return res
            best = last[0]        # the statistic printed at the end is that of the answer
            if np.any(np.abs(best - got) > 2 * prec):
                res.bad("errors:last", "%s: the last evaluated parameters are not the reported ones" % desc)
                return res
            Jb = jacobian(P, best, free)
            C_ = np.linalg.inv(Jb.T @ Jb)
            e = np.sqrt(np.diag(C_))
            for k, i in enumerate(free):
                g = err[i]
                # the square root of a Poisson term has a kink where model = data: numerical derivatives
                # there make the reported uncertainties smaller
                a, b = (.97, 1.03) if P.stat != "mlr" else (.25, 1.5)
                slack = 6e-5 if nm[i] in ("X0", "Y0") else 1e-6
                if g is None or not (a * e[k] - slack <= g <= b * e[k] + slack):
                    res.bad("errors:" + P.stat, "%s: uncertainty of %s is %s, the curvature matrix gives %.6g" % (desc, nm[i], g, e[k]))
                res.seen("uncertainties_compared")
            for i in np.flatnonzero(fixed):
                if err[i] not in (None, 0.0):
                    res.bad("errors:fixed", "%s: fixed %s has uncertainty %r" % (desc, nm[i], err[i]))
            # the screen report must show the same uncertainties
            sc = [float(t) for t in __import__("re").findall(r"\+/-\s*(" + imf.FLT + ")", x.out)]
            fe = [t for t in err if t is not None]
            if len(sc) != len(fe) or any(abs(a - b) > 1e-5 * abs(b) + 1e-9 for a, b in zip(sc, fe)):
                res.bad("errors:screen", "%s: screen uncertainties %s, file %s" % (desc, sc[:8], fe[:8]))
        else:
            s0, s1 = first[1], last[1]
            if solver in NSIG:
                off = np.abs(got - v)[free]
                bad = off > NSIG[solver] * sig + 2 * prec[free] + 1e-5 * np.abs(v[free])
                if np.any(bad):
                    k = int(np.argmax(np.where(bad, off / sig, 0)))
                    res.bad("recover:" + solver, "%s: %s = %.8g after fitting noise-free data made with %.8g (%.2g sigma away; statistic %.4g -> %.4g)" % (
                        desc, nm[free[k]], got[free[k]], v[free[k]], off[k] / sig[k], s0, s1))
            elif not s1 <= s0 * (1 + 1e-6) + 1e-6:
                res.bad("recover:" + solver, "%s: statistic %.6g -> %.6g" % (desc, s0, s1))
            res.seen("recovered_" + solver)
        res.nontrivial((kind, solver, P.stat, "+".join(f["name"] for s in P.model["sets"] for f in s["funcs"]), P.psf is not None, P.maskraw is not None, len(free) < n))
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
