"""C13: the same command on the same inputs with the same seed gives the same results, whatever the memory
contents, clock, environment, location and file names; different seeds give different sequences."""
import filecmp  # noqa: F401
import re
import shutil

from common import *
import fitprob as Q
import clifit as L
import trace as T

DET = lambda p: ("d-" + p, ["harness/trace.cpp", "harness/timeshift.c"], p)  # noqa: E731
PROGS = ("imfit", "multimfit", "imfit-mcmc", "makeimage", "makemultimages")
SEEDLESS = {"nl-PRAXIS"}


def snapshot(d, inputs):
    """{file: comparable content} of everything the run wrote into d"""
    out = {}
    for n in sorted(os.listdir(d)):
        if n in inputs:
            continue
        p = os.path.join(d, n)
        b = open(p, "rb").read()
        if n.endswith(".fits"):
            cards = [b[i:i + 80] for i in range(0, min(len(b), 28800), 80)]
            k = next((i for i, c in enumerate(cards) if c[:4] == b"END "), len(cards))
            o = (k // 36 + 1) * 2880
            hd = [c for c in cards[:k] if not re.match(rb"(DATE|COMMENT|HISTORY)", c)]
            out[n] = (hd, b[o:])
        elif n.startswith("trace"):
            out[n] = b
        else:
            t = b.decode("latin-1").replace(d, "DIR")
            out[n] = [ln.rstrip() for ln in t.splitlines() if not re.search(r"[Gg]enerated by|^# *Date|written by|on (Mon|Tue|Wed|Thu|Fri|Sat|Sun) ", ln)]
    return out


def report(x, d):
    t = x.text.replace(d, "DIR")
    # times, dates
    return [ln.rstrip() for ln in t.splitlines()
            if not re.search(r"[Ee]lapsed time|seconds|\d\d:\d\d:\d\d|time per|ms\b", ln)]


def diff(a, b):
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            yield n, "file written by one run only"
        elif a[n] != b[n]:
            if isinstance(a[n], list):
                yield n, first_diff("\n".join(a[n]), "\n".join(b[n]))
            elif isinstance(a[n], bytes):
                k = next((i for i, (p, q) in enumerate(zip(a[n], b[n])) if p != q), min(len(a[n]), len(b[n])))
                yield n, "evaluation records differ from byte %d of %d/%d" % (k, len(a[n]), len(b[n]))
            else:
                what = "header" if a[n][0] != b[n][0] else "pixels"
                if what == "header":
                    w = [(p, q) for p, q in zip(a[n][0], b[n][0]) if p != q][:1]
                else:
                    w = sum(p != q for p, q in zip(a[n][1], b[n][1]))
                yield n, "%s differ (%s)" % (what, w)


class C(Check):
    id = "C13"
    harness = tuple(DET(p) for p in PROGS)
    rule = ("every program x solver x option set run twice: other directory, environment, heap fill pattern, clock, stale output files, "
            "absolute paths; all files, reports and (for fits) the whole sequence of evaluated parameter vectors compared bit for bit; memcheck runs; "
            "seeds varied; signature = program, solver, options")
    assumptions = ["PRAXIS of the installed NLopt is excused where it reads uninitialised memory of its own"]

    def cases(self, tier, seed):
        return mkcases({"fit": (160, 1600), "boot": (40, 400), "mcmc": (30, 300), "make": (80, 800), "multi": (40, 400), "makemulti": (20, 200),
                        "seeds": (40, 300), "memcheck": (20, 160)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        d = os.path.join(ctx.dir, "a")
        os.mkdir(d)
        self.kind = case["kind"]
        return getattr(self, "k_" + case["kind"])(r, ctx, d)

    # ---------------------------------------------------------------- problems: (program, arguments)
    def fitargs(self, r, d, boot=False, solver=None):
        st = str(r.choice(["data", "model", "err", "cash", "mlr"]))
        if boot:
            solver = solver or "lm"
        solver = solver or str(r.choice(L.SOLVERS, p=[.2, .15, .15, .1] + [.4 / 6] * 6))
        if st == "cash" and solver == "lm":
            solver = "nm"
        P = Q.make(r, stat=st, model="easy", size=(9, 16), nonfinite=r.random() < .3)
        f = L.make(r, d, P)
        nthr = int(r.choice([1, 1, 2, 4, 8])) if not solver.startswith("de") else int(r.choice([1, 1, 1, 2]))
        args = [a for a in f.args if a != "--no-subsampling" or r.random() < .8]
        args += L.CLIARG[solver] + ["--seed", str(int(r.integers(1, 10 ** 6))), "--max-threads", str(nthr), "--ftol", "1e-3"]
        for o, n in (("--save-params", "p.dat"), ("--save-model", "m.fits"), ("--save-residual", "res.fits"), ("--save-weights", "w.fits")):
            if r.random() < .8:
                args += [o, n]
        if boot:
            args += ["--bootstrap", str(int(r.integers(3, 7))), "--save-bootstrap", "b.dat"]
        self.sig = ("imfit", st, solver, nthr, boot, P.psf is not None, P.maskraw is not None, bool(f.sec))
        self.fit, self.solver = f, solver
        return "imfit", args

    def makeargs(self, r, d):
        nc, nr = int(r.integers(8, 30)), int(r.integers(8, 30))
        m = F.random_model(r, nc, nr)
        psf = r.random() < .6
        args = ["cfg.dat", "-o", "out.fits"]
        if psf:
            imf.write_fits(os.path.join(d, "psf.fits"), F.random_psf(r, int(r.integers(4, 9)), int(r.integers(4, 9))))
            args += ["--psf", "psf.fits"]
            if r.random() < .5:
                m["sets"][0]["funcs"].append(dict(name="PointSource", p=F.draw("PointSource", r)))
            if r.random() < .4:
                imf.write_fits(os.path.join(d, "ov.fits"), F.random_psf(r, 7, 9))
                args += ["--overpsf", "ov.fits", "--overpsf_scale", str(int(r.integers(1, 5))), "--overpsf_region", "2:6,3:7"]
            if r.random() < .2:
                args.append("--no-normalize")
        q = r.random()
        nthr = int(r.choice([1, 2, 4, 8]))
        if q < .3:
            args += ["--output-functions", "fn"]
        elif q < .5:
            args += ["--print-fluxes", "--save-fluxes", "flux.dat", "--estimation-size", "60", "--zero-point", "25"]
            nthr = 1     # a parallel sum is only defined up to its order
        args += ["--max-threads", str(nthr)]
        open(os.path.join(d, "cfg.dat"), "w").write(F.config_text(m, nc, nr))
        self.sig = ("makeimage", psf, nthr, len(args), tuple(sorted({f["name"] for s in m["sets"] for f in s["funcs"]})))
        return "makeimage", args

    def mcmcargs(self, r, d):
        P = Q.make(r, stat=str(r.choice(["data", "err", "mlr", "cash"])), model="easy", size=(8, 12), nonfinite=False)
        f = L.make(r, d, P, minfree=3, atlimit=0)
        nch = int(r.choice([0, 4, 6]))
        args = [a for a in f.args] + ["-o", "ch", "--seed", str(int(r.integers(1, 10 ** 6))), "--max-threads", str(int(r.choice([1, 4]))),
                                      "--max-chain-length", str(int(r.integers(30, 120))), "--burnin-length", str(int(r.integers(10, 40))),
                                      "--gelman-evals", str(int(r.integers(10, 40)))]
        if nch:
            args += ["--nchains", str(max(nch, 2 * f.n + 1) if r.random() < .5 else nch)]
        if r.random() < .3:
            args += [str(r.choice(["--uniform-offset", "--gaussian-offset"])), "0.01"]
        self.sig = ("imfit-mcmc", P.stat, nch, f.n, bool(f.sec))
        return "imfit-mcmc", args

    def multiargs(self, r, d):
        nim = int(r.integers(1, 4))
        P = Q.make(r, stat="data", model="easy", size=(9, 15), nonfinite=False, masked=False, psf=False)
        L.make(r, d, P, section=False, minfree=2, atlimit=0)
        info = []
        for k in range(nim):
            imf.write_fits(os.path.join(d, "d%d.fits" % k), P.truth + 5 * r.normal(size=P.truth.shape))
            info += ["IMAGE_START", "DATA d%d.fits" % k, "READNOISE 5"]
            if r.random() < .5:
                imf.write_fits(os.path.join(d, "k%d.fits" % k), (r.random(P.truth.shape) < .2).astype(float))
                info.append("MASK k%d.fits" % k)
            if r.random() < .5:
                imf.write_fits(os.path.join(d, "q%d.fits" % k), F.random_psf(r, 5, 6))
                info.append("PSF q%d.fits" % k)
            v = Q.vec(P.model)
            if k:
                info += ["PIXEL_SCALE 1.0", "IMAGE_PA 0.0", "FLUX_SCALE 1.0 0.5,2", "X0 %r %r,%r" % (v[0], v[0] - 1, v[0] + 1), "Y0 %r %r,%r" % (v[1], v[1] - 1, v[1] + 1)]
            else:
                info += ["X0 %r fixed" % v[0], "Y0 %r fixed" % v[1]]
        open(os.path.join(d, "info.dat"), "w").write("\n".join(info) + "\n")
        sv = str(r.choice(["lm", "nm", "de", "nl-SBPLX"]))
        args = ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", str(int(r.choice([1, 4])) if sv != "de" else 1), "--ftol", "1e-3", "--seed",
                str(int(r.integers(1, 9999))), "--save-params-root", "out", "--save-model", "mod"] + L.CLIARG[sv]
        bs = sv == "lm" and r.random() < .5
        if bs:
            args += ["--bootstrap", "3", "--save-bootstrap", "b.dat"]
        self.sig = ("multimfit", nim, sv, bs)
        return "multimfit", args

    def makemultiargs(self, r, d):
        self.multiargs(r, d)
        for ln in ("NCOLS 12\nNROWS 11\n",):
            t = open(os.path.join(d, "info.dat")).read()
            open(os.path.join(d, "info.dat"), "w").write(re.sub(r"DATA (\S+)\n", ln, re.sub(r"MASK \S+\n", "", t)))
        self.sig = ("makemultimages",) + self.sig[1:]
        return "makemultimages", ["cfg.dat", "--image-info", "info.dat", "-o", "mm", "--max-threads", str(int(r.choice([1, 4])))]

    # ---------------------------------------------------------------- two runs
    def twice(self, r, ctx, d, prog, args, trace=True):
        res = Res()
        exe = ctx.bins["d-" + prog]
        d2 = os.path.join(ctx.dir, "second-" + "x" * int(r.integers(1, 90)))
        shutil.copytree(d, d2)
        inputs = set(os.listdir(d))
        envs = [{"MALLOC_PERTURB_": "85", "VERIF_TIMESHIFT": "0"},
                {"MALLOC_PERTURB_": str(int(r.integers(1, 255))), "VERIF_TIMESHIFT": str(int(r.integers(1, 10 ** 7))),
                 "PADDING": "y" * int(r.integers(0, 9000)), "HOME": "/nonexistent", "OMP_WAIT_POLICY": "passive"}]
        args2 = list(args)
        var = "copy"
        q = r.random()
        if q < .35:
            var = "absolute paths"
            args2 = [os.path.join(d2, a) if a in inputs or (a.split("[")[0] in inputs) else a for a in args2]
        elif q < .6:
            var = "stale outputs"
            for i, a in enumerate(args2):
                if args2[i - 1] in ("--save-params", "--save-bootstrap", "--save-fluxes"):
                    open(os.path.join(d2, a), "w").write("stale contents\n" * 500)
                elif args2[i - 1] in ("--save-model", "--save-residual", "--save-weights") and a.endswith(".fits"):
                    imf.write_fits(os.path.join(d2, a), np.ones((50, 60)))
            if prog == "makeimage" and "--print-fluxes" not in args:
                imf.write_fits(os.path.join(d2, "out.fits"), np.ones((50, 60)))
        xs = []
        for dd, aa, e in ((d, args, envs[0]), (d2, args2, envs[1])):
            if trace:
                e = dict(e, VERIF_TRACE="trace")
            xs.append(imf.must(exe, aa, dd, timeout=150, env=e, threads=None))
        a, b = snapshot(d, inputs), snapshot(d2, inputs)
        ra, rb = report(xs[0], d), report(xs[1], d2)
        if var == "absolute paths":
            for s in (ra, rb):
                s[:] = [ln.replace("DIR/", "") for ln in s]
            for s in (a, b):
                for n in s:
                    if isinstance(s[n], list):
                        s[n] = [ln.replace("DIR/", "") for ln in s[n]]
        # order of the two streams against each other is not part of the report
        desc = "%s %s (second run: %s)" % (prog, " ".join(args), var)
        for n, w in diff(a, b):
            kind = "trace" if n == "trace" else "fits" if n.endswith(".fits") else "text"
            res.bad("%s:%s" % (prog, kind), "%s: %s: %s" % (desc, n, w))
        if ra != rb:
            res.bad(prog + ":report", "%s: report: %s" % (desc, first_diff("\n".join(ra), "\n".join(rb))))
        if not a:
            res.bad(prog + ":no-output", desc + ": no output file")
        res.seen("files_compared", len(a))
        res.seen("report_lines_compared", len(ra))
        if "trace" in a:
            res.seen("evaluations_compared", len(a["trace"]) // 100)
        res.seen(prog + "_pairs")
        res.evals = 2
        res.nontrivial(self.sig)
        return res

    def k_fit(self, r, ctx, d):
        p, a = self.fitargs(r, d)
        if self.solver in SEEDLESS:
            res = Res()
            res.seen("praxis_excused")
            return res
        return self.twice(r, ctx, d, p, a)

    def k_boot(self, r, ctx, d):
        p, a = self.fitargs(r, d, boot=True)
        return self.twice(r, ctx, d, p, a)

    def k_mcmc(self, r, ctx, d):
        p, a = self.mcmcargs(r, d)
        return self.twice(r, ctx, d, p, a)

    def k_make(self, r, ctx, d):
        p, a = self.makeargs(r, d)
        return self.twice(r, ctx, d, p, a, trace=False)

    def k_multi(self, r, ctx, d):
        p, a = self.multiargs(r, d)
        return self.twice(r, ctx, d, p, a)

    def k_makemulti(self, r, ctx, d):
        p, a = self.makemultiargs(r, d)
        return self.twice(r, ctx, d, p, a, trace=False)

    # ---------------------------------------------------------------- seeds
    def k_seeds(self, r, ctx, d):
        """the seed given on the command line decides the random sequence"""
        res = Res()
        what = str(r.choice(["de", "delhs", "boot", "mcmc"]))
        if what == "mcmc":
            prog, args = self.mcmcargs(r, d)
        else:
            prog, args = self.fitargs(r, d, boot=what == "boot", solver=None if what == "boot" else what)
        i = args.index("--seed") + 1
        seen = []
        for s in ("11", "12", "11"):
            args[i] = s
            e = {"VERIF_TRACE": "trace", "VERIF_TIMESHIFT": str(len(seen) * 1000), "MALLOC_PERTURB_": str(7 * len(seen) + 1)}
            imf.must(ctx.bins["d-" + prog], args, d, timeout=150, env=e, threads=None)
            seen.append(open(os.path.join(d, "trace"), "rb").read())
        if seen[0] == seen[1]:
            res.bad("seed-ignored:" + what, "%s %s: seeds 11 and 12 give the same sequence of evaluations" % (prog, " ".join(args)))
        if seen[0] != seen[2]:
            res.bad("seed-irreproducible:" + what, "%s %s: seed 11 gives two different sequences of evaluations" % (prog, " ".join(args)))
        res.seen("seed_triples")
        res.evals = 3
        res.nontrivial(("seeds", what) + self.sig)
        return res

    # ---------------------------------------------------------------- uninitialised memory
    def k_memcheck(self, r, ctx, d):
        """no decision or output depends on memory that was never written"""
        res = Res()
        what = str(r.choice(["fit", "make", "mcmc", "multi", "makemulti"], p=[.4, .25, .1, .15, .1]))
        prog, args = getattr(self, what + "args")(r, d)
        if what == "fit":
            args = args[:args.index("--seed")] + args[args.index("--seed"):]
            for a in [x for s in L.CLIARG.values() for x in s]:
                while a in args:
                    args.remove(a)
            if "--cashstat" in args:
                args += ["--nm"]
        args = [a for a in args]
        i = args.index("--max-threads") + 1
        args[i] = "1"
        x = imf.run("/usr/bin/valgrind", ["--error-exitcode=77", "--quiet", "--undef-value-errors=yes", "--track-origins=yes", "--suppressions=" + os.path.join(vf.VERIF, "lib", "valgrind.supp"),
                                          ctx.bins["d-" + prog]] + args, d, timeout=400, threads=1)
        if x.timeout:
            res.seen("memcheck_timeouts")
            return res
        if x.rc == 77 or re.search(r"==\d+== .*(uninitialised|Invalid (read|write))", x.err):
            m = [ln for ln in x.err.splitlines() if ln.startswith("==")]
            res.bad("memcheck:" + prog, "%s %s: %s" % (prog, " ".join(args), " | ".join(re.sub(r"==\d+==\s*", "", q) for q in m[:14])))
        elif x.rc != 0:
            res.bad("memcheck-status:" + prog, "%s %s: exit status %s %s" % (prog, " ".join(args), x.rc, x.err[-300:]))
        res.seen("memcheck_runs")
        res.nontrivial(("memcheck",) + self.sig)
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
