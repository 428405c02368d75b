"""C24: an interrupted fit (SIGINT at any time) ends promptly and cleanly, leaving valid current parameters."""
import re
import signal
import subprocess
import time

from common import *
import clifit as L
import fitprob as Q
import trace as T

CURRENT = "current_parameters_imfit.dat"
# evaluations a solver may still make after the signal: the loop it is in (a Jacobian, a generation), and
# those of the final report
LEFT = {"lm": lambda n, nf: 2 * nf + 6, "nm": lambda n, nf: 5, "de": lambda n, nf: 20 * nf + 6, "delhs": lambda n, nf: 20 * nf + 6}

LOOSE = ()


def events(path):
    """(evaluations of the fit, of the bootstrap rounds)"""
    tr = T.read(path)
    nb = next((i for i, t in enumerate(tr) if t[0] == T.BOOT), len(tr))
    ev = lambda a: [(t[1], t[2]) for t in a if t[0] in (T.FIT, T.DEV)]  # noqa: E731
    return ev(tr[:nb]), ev(tr[nb:])


class C(Check):
    id = "C24"
    programs = ()
    harness = (T.TRACED("imfit"), T.TRACED("multimfit"))
    asan_harness = (T.TRACED("imfit"), T.TRACED("multimfit"))
    rule = ("random fits x solver x statistic x SIGINT delivered at the n-th evaluation (first, last, any; also during bootstrap resampling), or from outside at "
            "random times, once or repeatedly, 1-8 threads: exit status, evaluations made after the signal, files written, saved parameters against limits, fixed "
            "values, the trace and an independent statistic; signature = solver, statistic, moment")

    def cases(self, tier, seed):
        return mkcases({"at": (1000, 10000), "asan": (150, 1500), "outside": (150, 1500), "boot": (120, 1000), "multi": (200, 2000)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        k = case["kind"]
        return getattr(self, k)(r, ctx)

    def asan(self, r, ctx):
        return self.at(r, ctx, "asan:")

    def problem(self, r, ctx, solver, size=(8, 18)):
        st = str(r.choice([s for s in ("data", "model", "err", "mlr", "cash") if not (s == "cash" and solver == "lm")]))
        P = Q.make(r, stat=st, model="easy", size=size, nonfinite=False, nsets=int(r.integers(1, 3)))
        return P, L.make(r, ctx.dir, P)

    def clean(self, ctx):
        for f in (CURRENT, "p.dat", "m.fits", "r.fits", "w.fits", "b.dat", "trace2"):
            if os.path.exists(os.path.join(ctx.dir, f)):
                os.remove(os.path.join(ctx.dir, f))

    def files(self, ctx):
        return {f for f in (CURRENT, "p.dat", "m.fits", "r.fits", "w.fits", "b.dat") if os.path.exists(os.path.join(ctx.dir, f))}

    def judge_saved(self, res, tag, desc, P, f, path, solver, start_val, best=None):
        """the saved file is a complete valid configuration"""
        try:
            nm, got, _, hdr = L.values(path)
        except Exception as ex:
            res.bad(tag + ":unreadable", "%s: %s: %s" % (desc, os.path.basename(path), ex))
            return None
        if nm != f.names:
            res.bad(tag + ":incomplete", "%s: saved parameters %s, the model has %s" % (desc, nm, f.names))
            return None
        tol = np.array([6e-5 if k in ("X0", "Y0") else 6e-6 * abs(g) + 1e-12 for k, g in zip(nm, got)])
        for i in range(f.n):
            if f.fixed[i]:
                if abs(got[i] - f.gstart[i]) > tol[i]:
                    res.bad(tag + ":fixed", "%s: fixed %s saved as %r, given %r" % (desc, nm[i], got[i], f.gstart[i]))
            elif got[i] < f.glo[i] - tol[i] or got[i] > f.ghi[i] + tol[i]:
                res.bad(tag + ":limits", "%s: %s saved as %r outside [%r, %r]" % (desc, nm[i], got[i], f.glo[i], f.ghi[i]))
        h = imf.header_stats(hdr).get("best")
        if h is None:
            res.bad(tag + ":header", "%s: no statistic in %s" % (desc, os.path.basename(path)))
            return None
        return got - f.off, tol, h

    def statistic(self, res, tag, desc, P, f, vec, h, start_val, solver, Vbest):
        """vec: full-precision vector; h: the statistic written with it"""
        im = Q.image(P, Q.setvec(P.model, vec))
        s = Q.stat(P, im)
        sc = Q.stat_scale(P, im)
        if np.isfinite(s) and not abs(s - h) <= 2e-6 * max(sc, abs(s)) + 5e-6:
            res.bad(tag + ":statistic", "%s: saved with statistic %.10g, that of the saved parameters is %.10g" % (desc, h, s))
        eps = 3e-6 + 1e-10 * sc + 1e-6 * abs(h)
        if solver not in ("de", "delhs") + LOOSE and start_val is not None and not h <= start_val + eps:
            res.bad(tag + ":worse", "%s: started at %.10g, saved %.10g" % (desc, start_val, h))
        if solver not in LOOSE and Vbest is not None and not h <= Vbest + eps and (solver != "lm"):
            res.bad(tag + ":notbest", "%s: saved %.10g although %.10g was seen" % (desc, h, Vbest))

    def at(self, r, ctx, fl=""):
        res = Res()
        solver = str(r.choice(L.SOLVERS))
        P, f = self.problem(r, ctx, solver)
        nf = int((~f.fixed).sum())
        outs = ["--save-params", "p.dat"] + [a for a in ("--save-model=m.fits", "--save-residual=r.fits", "--save-weights=w.fits") if r.random() < .4]
        boot = ["--bootstrap", "3", "--save-bootstrap", "b.dat"] if r.random() < .3 else []
        args = f.args + L.CLIARG[solver] + ["--seed", "5", "--max-threads", "1", "--ftol", str(r.choice(["1e-3", "1e-6"]))] + outs + boot
        if r.random() < .2:
            args.append(str(r.choice(["--quiet", "--silent", "--loud"])))
        prog = ctx.bins[fl + "t-imfit"]
        # how long is the fit?  (differential evolution and some NLopt fits are only seen through their beginning)
        n = int(r.choice([1, 2, 3, int(r.integers(1, 12)), int(r.integers(1, 60)), int(r.integers(1, 400)), int(r.integers(1, 2000))]))
        whole = None
        if r.random() < .35 and not solver.startswith(("de", "nl-COB", "nl-PRA")):
            imf.must(prog, args, ctx.dir, timeout=200, env={"VERIF_TRACE": "trace"})
            ev, evb = events(os.path.join(ctx.dir, "trace"))
            whole = len(ev)
            n = whole - int(r.integers(0, min(whole, 8))) if r.random() < .6 else int(r.integers(1, whole + 1))
            P0 = clean_params(os.path.join(ctx.dir, "p.dat"))
            self.clean(ctx)
        x = imf.run(prog, args, ctx.dir, timeout=200, env={"VERIF_TRACE": "trace2", "VERIF_TRACE_KILL": str(n)})
        desc = "imfit %s %s, %d free parameters, SIGINT at evaluation %d%s" % (solver, P.stat, nf, n, " of %d" % whole if whole else "")
        if x.timeout:
            res.bad("at:%s:hang" % solver, desc + ": still running after 200 s")
            return res
        if x.sanitizer() or x.rc != 0:
            res.bad("at:%s:exit" % solver, "%s: status %s, %s" % (desc, x.rc, x.sanitizer() or (x.out + x.err)[-200:]))
            return res
        ev, evb = events(os.path.join(ctx.dir, "trace2"))
        if len(ev) + len(evb) < n:
            res.seen("ended_before_signal")
            return res
        F_ = self.files(ctx)
        res.evals += 1
        want = {"p.dat"} | {o.split("=")[1] for o in outs if "=" in o} | ({"b.dat"} if boot else set())
        if CURRENT in F_:
            res.seen("interrupted_" + solver)
            if F_ != {CURRENT}:
                res.bad("at:files", "%s: an interrupted fit also wrote %s" % (desc, sorted(F_ - {CURRENT})))
            left = len(ev) - n
            lim = LEFT.get(solver, LEFT["nm"])(f.n, nf)
            res.worst("evaluations_after_signal_" + solver, left)
            if left > lim:
                res.bad("at:%s:late" % solver, "%s: %d further evaluations" % (desc, left))
            if evb:
                res.bad("at:bootstrap", desc + ": bootstrap resampling was done after the interrupt")
            g = self.judge_saved(res, "at:" + solver, desc, P, f, os.path.join(ctx.dir, CURRENT), solver, None)
            if g is None:
                return res
            got, tol, h = g
            A = np.array([e[0] for e in ev])
            V = np.array([e[1] for e in ev])
            near = np.flatnonzero(np.all(np.abs(A - got) <= 2 * tol, axis=1))
            if not len(near):
                res.bad("at:not-evaluated", "%s: the saved parameters were never evaluated" % desc)
                return res
            vec = A[-1] if np.all(np.abs(A[-1] - got) <= 2 * tol) else A[near[np.argmin(np.abs(V[near] - h))]]
            self.statistic(res, "at:" + solver, desc, P, f, vec, h, V[0], solver, np.nanmin(V[:n]))
            rep = imf.find_num(x.out, re.escape(L.statkey(P)) + " = NUM")
            if rep is not None and abs(rep - h) > 2e-5 * abs(h) + 1e-4 and solver not in LOOSE:
                res.bad("at:report", "%s: reports %.10g, saved file says %.10g" % (desc, rep, h))
            # the saved file works as a configuration file
            open(os.path.join(ctx.dir, "again.dat"), "w").write("\n".join(Q.ccd_config(P).splitlines() if isinstance(Q.ccd_config(P), str) else Q.ccd_config(P)) + "\n" + open(os.path.join(ctx.dir, CURRENT)).read())
            y = imf.run(ctx.bins[fl + "t-imfit"], ["-c", "again.dat"] + f.args[2:] + ["--fitstat-only", "--max-threads", "1"], ctx.dir, timeout=60)
            v = imf.find_num(y.out, re.escape(L.statkey(P)) + " = NUM")
            s = Q.stat(P, Q.image(P, Q.setvec(P.model, got)))
            if y.rc or v is None:
                res.bad("at:reuse", "%s: the saved file is not accepted as configuration: %s" % (desc, (y.out + y.err)[-200:]))
            elif np.isfinite(s) and abs(v - s) > 3e-6 * Q.stat_scale(P, Q.image(P, Q.setvec(P.model, got))) + 1e-5:
                res.bad("at:reuse-statistic", "%s: statistic of the saved file %.10g, should be %.10g" % (desc, v, s))
        else:
            # the signal came when the fit was over (final report, bootstrap): the results are complete
            res.seen("signal_after_fit")
            if F_ != want:
                res.bad("at:after:files", "%s: signal after the end of the fit, files %s, expected %s" % (desc, sorted(F_), sorted(want)))
            if whole and P0 != clean_params(os.path.join(ctx.dir, "p.dat")):
                res.bad("at:after:params", "%s: signal after the end of the fit changes the results" % desc)
            elif whole is None:
                self.judge_saved(res, "at:after", desc, P, f, os.path.join(ctx.dir, "p.dat"), solver, None)
        res.nontrivial((solver, P.stat, n, nf, bool(whole), fl))
        return res

    def outside(self, r, ctx):
        """real signals from another process, at any time and more than once"""
        res = Res()
        solver = str(r.choice(L.SOLVERS))
        P, f = self.problem(r, ctx, solver, size=(30, 60))
        fl = "asan:" if r.random() < .3 else ""
        args = f.args + L.CLIARG[solver] + ["--seed", "5", "--max-threads", str(int(r.choice([1, 2, 4, 8]))), "--ftol", "1e-9",
                                            "--save-params", "p.dat", "--save-model", "m.fits"]
        if r.random() < .4:
            args += ["--bootstrap", "200"]
        env = dict(imf.BASEENV)
        out = open(os.path.join(ctx.dir, "log"), "w")
        pr = subprocess.Popen([ctx.bins[fl + "t-imfit"]] + args, cwd=ctx.dir, stdout=out, stderr=subprocess.STDOUT, env=env,
                              preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
        wait = 10 ** r.uniform(-2.5, -.1)
        t0 = time.time()
        time.sleep(wait)
        nsig = int(r.choice([1, 1, 2, 3]))
        for i in range(nsig):
            if pr.poll() is None:
                pr.send_signal(signal.SIGINT)
            if i + 1 < nsig:
                time.sleep(10 ** r.uniform(-4, -1.5))
        try:
            rc = pr.wait(100)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            res.bad("outside:hang", "imfit %s %s: running 100 s after SIGINT" % (solver, P.stat))
            return res
        finally:
            out.close()
        t = open(os.path.join(ctx.dir, "log"), errors="replace").read()
        desc = "imfit %s, %d signals from %.3f s" % (" ".join(args), nsig, wait)
        res.worst("seconds_after_signal", time.time() - t0 - wait)
        F_ = self.files(ctx)
        started = "Performing fit" in t
        if rc == -signal.SIGINT:
            # default action: fine only before the fit has begun (the output may still be in a buffer) or
            # without any output file
            res.seen("killed_before_fit")
            if F_:
                res.bad("outside:killed", "%s: killed by the signal, left %s" % (desc, sorted(F_)))
            return res
        if rc != 0 or "Sanitizer" in t or "runtime error" in t:
            i = max(t.find("Sanitizer"), t.find("runtime error"), 0)
            res.bad("outside:exit", "%s: status %s: %s" % (desc, rc, t[i:i + 300] if i else t[-300:]))
            return res
        if not started:
            res.bad("outside:output", "%s: %s" % (desc, t[-200:]))
            return res
        res.evals += 1
        if CURRENT in F_:
            res.seen("interrupted")
            if F_ != {CURRENT}:
                res.bad("outside:files", "%s: an interrupted fit also wrote %s" % (desc, sorted(F_ - {CURRENT})))
            path = CURRENT
        else:
            res.seen("complete")
            if F_ != {"p.dat", "m.fits"}:
                res.bad("outside:files", "%s: a complete fit wrote %s" % (desc, sorted(F_)))
                return res
            path = "p.dat"
        g = self.judge_saved(res, "outside", desc, P, f, os.path.join(ctx.dir, path), solver, None)
        if g is not None:
            s0 = Q.stat(P, Q.image(P, Q.setvec(P.model, f.start)))
            s1 = Q.stat(P, Q.image(P, Q.setvec(P.model, g[0])))
            sc = Q.stat_scale(P, Q.image(P, Q.setvec(P.model, g[0])))
            if solver not in ("de", "delhs") + LOOSE and np.isfinite(s0) and not g[2] <= s0 + 1e-5 * sc + 1e-4:
                res.bad("outside:worse", "%s: started at %.10g, saved %.10g" % (desc, s0, g[2]))
            if np.isfinite(s1) and abs(s1 - g[2]) > 1e-3 * sc + 1e-3 * abs(s1) + 1:
                res.bad("outside:statistic", "%s: saved with %.10g, that of the saved values is %.10g" % (desc, g[2], s1))
        res.nontrivial((solver, P.stat, path, nsig, round(np.log10(wait), 1)))
        return res

    def boot(self, r, ctx):
        """during bootstrap resampling: only completed rounds count, the best fit is saved as always"""
        res = Res()
        st = str(r.choice(["data", "err", "mlr", "cash", "model"]))
        P = Q.make(r, stat=st, model="easy", size=(10, 20), nonfinite=False, nsets=1)
        f = L.make(r, ctx.dir, P)
        solver = "nm" if st == "cash" else "lm"
        nit = int(r.integers(3, 14))
        args = f.args + L.CLIARG[solver] + ["--seed", "7", "--max-threads", "1", "--ftol", "1e-4", "--save-params", "p.dat", "--save-model", "m.fits",
                                            "--bootstrap", str(nit), "--save-bootstrap", "b.dat"]

        def rows():
            return [ln for ln in open(os.path.join(ctx.dir, "b.dat")) if not ln.startswith("#") and ln.strip()]
        imf.must(ctx.bins["t-imfit"], args, ctx.dir, timeout=200, env={"VERIF_TRACE": "trace"})
        tr = T.read(os.path.join(ctx.dir, "trace"))
        P0, R0 = clean_params(os.path.join(ctx.dir, "p.dat")), rows()
        ib = [i for i, t in enumerate(tr) if t[0] == T.BOOT]
        cnt = np.cumsum([t[0] in (T.FIT, T.DEV) for t in tr])     # evaluations up to and including record i
        self.clean(ctx)
        k = int(r.integers(0, nit))
        lo, hi = int(cnt[ib[k]]) + 1, int(cnt[ib[k + 1]]) if k + 1 < len(ib) else int(cnt[-1]) - 1
        n = int(r.integers(lo, max(lo, hi) + 1))
        x = imf.run(ctx.bins["t-imfit"], args, ctx.dir, timeout=200, env={"VERIF_TRACE": "trace2", "VERIF_TRACE_KILL": str(n)})
        desc = "imfit %s %s --bootstrap %d, SIGINT in round %d (evaluation %d)" % (solver, st, nit, k + 1, n)
        if x.timeout or x.rc or x.sanitizer():
            res.bad("boot:exit", "%s: status %s, %s" % (desc, x.rc, x.sanitizer() or (x.out + x.err)[-200:]))
            return res
        ev2, evb2 = events(os.path.join(ctx.dir, "trace2"))
        left = len(ev2) + len(evb2) - n
        nf = int((~f.fixed).sum())
        res.worst("evaluations_after_signal", left)
        if left > LEFT[solver](f.n, nf) + 4:
            res.bad("boot:late", "%s: %d further evaluations" % (desc, left))
        R1 = rows()
        if R1 != R0[:len(R1)]:
            res.bad("boot:rows", "%s: the saved rows are not the first rows of the undisturbed run" % desc)
        if not k - (len(ib) - len(R0)) <= len(R1) <= k + 1:
            res.bad("boot:count", "%s: %d rows saved" % (desc, len(R1)))
        if CURRENT in self.files(ctx) or self.files(ctx) != {"p.dat", "m.fits", "b.dat"}:
            res.bad("boot:files", "%s: files %s" % (desc, sorted(self.files(ctx))))
        elif P0 != clean_params(os.path.join(ctx.dir, "p.dat")):
            res.bad("boot:params", "%s: saved best fit differs from the undisturbed run: %s" % (desc, first_diff(P0, clean_params(os.path.join(ctx.dir, "p.dat")))))
        res.seen("bootstraps_interrupted")
        res.seen("rows_compared", len(R1))
        res.evals += 1
        res.nontrivial(("boot", st, k, nit, n))
        return res

    def multi(self, r, ctx):
        """multimfit"""
        res = Res()
        solver = str(r.choice(["lm", "nm", "de", "nl-SBPLX", "nl-BOBYQA"]))
        nim = int(r.integers(1, 4))
        P = Q.make(r, stat="data", model="easy", size=(10, 20), nonfinite=False, masked=False, psf=False)
        P.gain, P.rdn = 1.0, 5.0
        f = L.make(r, ctx.dir, P, section=False)
        info, fixed, lo, hi, st = [], [], [], [], []
        for k in range(nim):
            imf.write_fits(os.path.join(ctx.dir, "d%d.fits" % k), P.truth + 5 * r.normal(size=P.truth.shape))
            info += ["IMAGE_START", "DATA d%d.fits" % k, "READNOISE 5"]
            if not k:
                info += ["X0 %r fixed" % f.truth[0], "Y0 %r fixed" % f.truth[1]]
                continue
            for kw, v, w in (("PIXEL_SCALE", 1.0, .05), ("IMAGE_PA", 0.0, 5.0), ("FLUX_SCALE", 1.0, .2), ("X0", f.truth[0], 1.0), ("Y0", f.truth[1], 1.0)):
                v = float(v + r.uniform(-.5, .5) * w)
                fx = r.random() < .4
                info.append("%s %r %s" % (kw, v, "fixed" if fx else "%r,%r" % (v - w, v + w)))
                fixed.append(fx), lo.append(v - w), hi.append(v + w), st.append(v)
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info) + "\n")
        fixed, lo, hi, st = [np.array(list(a) + list(b)) for a, b in ((fixed, f.fixed), (lo, f.lo), (hi, f.hi), (st, f.start))]
        n = int(r.choice([1, 2, int(r.integers(1, 15)), int(r.integers(1, 150)), int(r.integers(1, 700))]))
        fl = "asan:" if r.random() < .25 else ""
        boot = ["--bootstrap", "3", "--save-bootstrap", "b.dat"] if r.random() < .3 else []
        x = imf.run(ctx.bins[fl + "t-multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--ftol", "1e-5", "--seed", "3", "--save-params-root", "o"]
                    + boot + L.CLIARG[solver], ctx.dir, timeout=200, env={"VERIF_TRACE": "trace2", "VERIF_TRACE_KILL": str(n)})
        desc = "multimfit %s, %d images, SIGINT at evaluation %d" % (solver, nim, n)
        if x.timeout or x.rc or x.sanitizer():
            res.bad("multi:exit", "%s: status %s, %s" % (desc, x.rc, x.sanitizer() or (x.out + x.err)[-200:]))
            return res
        ev, evb = events(os.path.join(ctx.dir, "trace2"))
        if len(ev) + len(evb) <= n:
            res.seen("ended_before_signal")
            return res
        nf = int((~fixed).sum())
        left = len(ev) + len(evb) - n
        if left > LEFT.get(solver, LEFT["nm"])(0, nf) + 4 + (0 if not boot else 10):
            res.bad("multi:late", "%s: %d further evaluations" % (desc, left))
        res.worst("evaluations_after_signal_multi", left)
        for q in ["o_summary.dat", "o_refimage.dat", "o_imageinfo.dat"] + ["o_image%d.dat" % (i + 1) for i in range(1, nim)]:
            if not os.path.exists(os.path.join(ctx.dir, q)):
                res.bad("multi:files", "%s: no %s" % (desc, q))
                return res
        if len(ev) < n:
            res.seen("signal_in_bootstrap")
            return res
        vec, val = ev[-1]
        bad = np.flatnonzero((vec < lo - 1e-12 * np.abs(lo)) | (vec > hi + 1e-12 * np.abs(hi)))
        if len(vec) != len(st) or len([i for i in bad if not fixed[i]]):
            res.bad("multi:limits", "%s: final vector %s outside the limits %s, %s" % (desc, vec, lo, hi))
        elif not np.allclose(vec[fixed], st[fixed], rtol=1e-12):
            res.bad("multi:fixed", "%s: fixed values %s became %s" % (desc, st[fixed], vec[fixed]))
        elif solver != "de" and not val <= ev[0][1] * (1 + 1e-9):
            res.bad("multi:worse", "%s: started at %.10g, ended at %.10g" % (desc, ev[0][1], val))
        h = imf.header_stats(imf.parse_params(os.path.join(ctx.dir, "o_summary.dat"))[1]).get("best")
        if h is None or abs(h - val) > 2e-6 * abs(val) + 1e-5:
            res.bad("multi:statistic", "%s: saved with %s, the statistic of the saved parameters is %.10g" % (desc, h, val))
        ps = imf.parse_params(os.path.join(ctx.dir, "o_refimage.dat"))[0]
        got = np.array([q[1] for q in ps if q[0] != "FUNCTION"])
        w = vec[len(vec) - f.n:]
        if len(got) != f.n or not np.all(np.abs(got - w) <= 1.1e-4 + 1e-5 * np.abs(w)):
            res.bad("multi:params", "%s: parameter file of the reference image has %s, the fit ended at %s" % (desc, got, w))
        res.seen("multi_interrupted")
        res.evals += 1
        res.nontrivial(("multi", solver, nim, n, nf))
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
