"""C23: a result that could not be written is reported and never costs other results; written results are complete."""
import re
import shutil

from common import *
import fitprob as Q

PROGS = ("imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages", "psfconvolve1d")
FAIL = lambda p: ("f-" + p, ["harness/failio.cpp"], p)  # noqa: E731
SAYS = re.compile(r"warning|error|unable|fail|problem|could ?n.t|couldn.t|not (?:be )?(?:open|save|writ|creat)|can ?not|could not", re.I)
DATES = re.compile(r"[Dd]ate|Generated by|\d\d:\d\d:\d\d|Command line|# +(?:imfit|makeimage|multimfit|\S*/f-)|^DATE|[Ee]lapsed")


def content(path):
    """what an output file says, apart from dates"""
    b = open(path, "rb").read()
    if b[:9] == b"SIMPLE  =":
        im = imf.read_fits(path)
        end = b.find(b"END" + b" " * 77)
        h = [b[i:i + 80] for i in range(0, end, 80)]
        return ("fits", im.shape, im.tobytes(), b"\n".join(x for x in h if not x.startswith((b"DATE", b"HISTORY", b"COMMENT"))), len(b))
    return ("text", "\n".join(x for x in b.decode("latin-1").split("\n") if not DATES.search(x)))


class C(Check):
    id = "C23"
    asan_harness = tuple(FAIL(p) for p in PROGS)
    rule = ("random runs of every program with all their outputs x failure of one or two output files at any point (file not created, device full after any number of bytes, "
            "close fails, a directory of that name, missing directory), injected below the C, C++ and FITS libraries: crash, sanitizer reports, message naming the file, other "
            "files against those of an undisturbed run; failures that do not happen leave complete files and no message; signature = program, file, failure and its place")
    assumptions = ["a run that cannot open one of its MCMC chains may be refused at its start", "failures are injected in the process, below fopen/write/fclose"]

    def cases(self, tier, seed):
        return mkcases({"imfit": (700, 8000), "makeimage": (500, 6000), "mcmc": (150, 2000), "multimfit": (450, 5000), "makemultimages": (240, 3000), "profile": (120, 1200), "sample": (10, 60)}, tier, seed, self.id)

    # ------------------------------------------------------------------ the runs: (program, arguments)
    def model(self, r, n, limits):
        m = F.random_model(r, n, n, nsets=int(r.integers(1, 3)), names=["Exponential", "Gaussian", "Sersic", "FlatSky", "Moffat"])
        lim = (lambda si, fi, pn, v: "fixed" if r.random() < .5 else "%r,%r" % (float(v) - abs(v) * .5 - 1, float(v) + abs(v) * .5 + 1)) if limits else None  # noqa: E731
        return m, lim

    def image(self, r, ctx, m, n, name):
        X, Y = F.grid(n, n)
        im = np.nan_to_num(F.render_points(m, X, Y)) + 30
        imf.write_fits(os.path.join(ctx.dir, name), r.normal(im, 3 + .02 * np.abs(im)))

    def outdir(self, r):
        return ""

    def p_imfit(self, r, ctx):
        n = int(r.integers(6, 12))
        P = Q.make(r, stat=str(r.choice(["data", "model", "mlr", "err"])), model="easy", size=(7, 12), nonfinite=False, nsets=1)
        import clifit as L
        f = L.make(r, ctx.dir, P)
        a = f.args + ["--seed", "5", "--ftol", "1e-2", "--max-threads", "1"]
        if r.random() < .8:
            a += ["--save-params", "p.dat"]
        for o, k in (("--save-model", "m.fits"), ("--save-residual", "r.fits"), ("--save-weights", "w.fits")):
            if r.random() < .7:
                a += [o, k]
        if r.random() < .5:
            a += ["--bootstrap", str(int(r.choice([3, 5]))), "--save-bootstrap", "b.dat"]
        return "imfit", a

    def p_makeimage(self, r, ctx):
        n = int(r.integers(5, 40))
        m, _ = self.model(r, n, False)
        open(os.path.join(ctx.dir, "c.dat"), "w").write(F.config_text(m, n, n))
        a = ["c.dat", "-o", "o.fits", "--max-threads", "1"]
        if r.random() < .6:
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, 5, 7))
            a += ["--psf", "psf.fits"]
            if r.random() < .5:
                a += ["--save-expanded"]
        if r.random() < .6:
            a += ["--output-functions", "fn"]
        if r.random() < .5:
            a += ["--save-fluxes", "fl.dat", "--estimation-size", "60"]
        return "makeimage", a

    def p_mcmc(self, r, ctx):
        P = Q.make(r, stat="data", model="easy", size=(6, 9), nonfinite=False, nsets=1)
        import clifit as L
        f = L.make(r, ctx.dir, P, atlimit=False)
        return "imfit-mcmc", f.args + ["-o", "ch", "--nchains", str(int(r.integers(3, 6))), "--max-chain-length", str(int(r.integers(5, 60))), "--burnin-length", "5", "--seed", "3", "--max-threads", "1"]

    def info(self, r, ctx, n, nim, fit):
        t = []
        for i in range(nim):
            t += ["IMAGE_START"] + (["DATA d%d.fits" % i, "GAIN 2", "READNOISE 4", "ORIGINAL_SKY 10"] if fit else ["NCOLS %d" % n, "NROWS %d" % n])
            if i:
                t += ["PIXEL_SCALE 1.1 fixed", "IMAGE_PA 10 -20,40", "FLUX_SCALE 1 0.5,2"]
            t += ["X0 %g %s" % (n / 2, "fixed" if not i else "1,%d" % n), "Y0 %g %s" % (n / 2, "fixed" if not i else "1,%d" % n)]
        open(os.path.join(ctx.dir, "i.dat"), "w").write("\n".join(t) + "\n")

    def p_multimfit(self, r, ctx):
        n, nim = int(r.integers(7, 11)), int(r.integers(1, 4))
        m = F.random_model(r, n, n, nsets=1, nfuncs=1, names=["Gaussian", "Exponential"])
        lim = lambda si, fi, pn, v: "%r,%r" % (float(v) - abs(v) * .2 - .2, float(v) + abs(v) * .2 + .2) if r.random() < .4 else "fixed"  # noqa: E731
        for i in range(nim):
            self.image(r, ctx, m, n, "d%d.fits" % i)
        t = F.config_text(m, limits=lim)
        open(os.path.join(ctx.dir, "c.dat"), "w").write(t)
        self.info(r, ctx, n, nim, True)
        a = ["-c", "c.dat", "-i", "i.dat", "--seed", "5", "--ftol", "1e-2", "--max-threads", "1"]
        if r.random() < .8:
            a += ["--save-params-root", "pp"]
        if r.random() < .7:
            a += ["--save-model", "mo"]
        if r.random() < .4:
            a += ["--bootstrap", "3", "--save-bootstrap", "b.dat"]
        return "multimfit", a

    def p_makemultimages(self, r, ctx):
        n = int(r.integers(5, 16))
        m, _ = self.model(r, n, False)
        open(os.path.join(ctx.dir, "c.dat"), "w").write(F.config_text(m))
        self.info(r, ctx, n, int(r.integers(1, 4)), False)
        return "makemultimages", ["c.dat", "--image-info", "i.dat", "-o", "mm"]

    def p_profile(self, r, ctx):
        x = np.arange(int(r.integers(8, 300)))
        open(os.path.join(ctx.dir, "p.dat"), "w").write("\n".join("%g %g" % (a, 100 * np.exp(-a / 7)) for a in x) + "\n")
        open(os.path.join(ctx.dir, "q.dat"), "w").write("\n".join("%g %g" % (a, np.exp(-a * a / 4)) for a in range(-3, 4)) + "\n")
        return "psfconvolve1d", ["p.dat", "q.dat", "out.dat"]

    def p_sample(self, r, ctx):
        return str(r.choice(["imfit", "makeimage"])), ["--sample-config"]

    # ------------------------------------------------------------------ one disturbed run
    def go(self, ctx, prog, args, sub, env, inputs):
        d = os.path.join(ctx.dir, sub)
        os.mkdir(d)
        for f in inputs:
            shutil.copyfile(os.path.join(ctx.dir, f), os.path.join(d, f))
        return d, (lambda: imf.run(ctx.bins["asan:f-" + prog], args, d, 120, env=env))

    def outputs(self, d, inputs):
        return {f for f in os.listdir(d) if f not in inputs and f != "events"}

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        prog, args = getattr(self, "p_" + case["kind"])(r, ctx)
        inputs = os.listdir(ctx.dir)
        ok = (0, 1) if case["kind"] == "sample" else (0,)
        d0, go = self.go(ctx, prog, args, "free", None, inputs)
        R0 = go()
        if R0.timeout or R0.sanitizer() or R0.rc not in ok:
            res.bad("undisturbed:" + prog, "%s %s: status %s %s" % (prog, " ".join(args), R0.rc, R0.sanitizer() or (R0.out + R0.err)[-300:]))
            return res
        want = {f: content(os.path.join(d0, f)) for f in self.outputs(d0, inputs)}
        if not want:
            return res
        files = sorted(want)
        # ---------------- faults
        for turn in range(3 if len(files) > 1 else 2):
            k = 2 if r.random() < .2 and len(files) > 1 else 1
            rules, desc, isdir = [], [], []
            for t in r.choice(files, k, replace=False):
                t = str(t)
                size = os.path.getsize(os.path.join(d0, t))
                mode = str(r.choice(["open", "full", "close", "dir", "never"], p=[.25, .45, .12, .1, .08]))
                if mode == "full":
                    at = int(r.choice([0, 1, size - 1, int(r.integers(0, size)), int(r.integers(0, size)), 2880 * int(r.integers(0, size // 2880 + 1))]))
                    rules.append((t, "full:%d" % at))
                elif mode == "never":
                    rules.append((t, "full:%d" % (10 * size + 100000)))
                elif mode == "dir":
                    isdir.append(t)
                else:
                    rules.append((t, mode))
                desc.append("%s: %s" % (t, rules[-1][1] if mode != "dir" else "is a directory"))
            self.judge(res, ctx, prog, args, "turn%d" % turn, inputs, rules, isdir, ", ".join(desc), want, ok)
            if res.viol:
                return res
        return res

    def judge(self, res, ctx, prog, args, sub, inputs, rules, isdir, desc, want, ok):
        d, go = self.go(ctx, prog, args, sub, {"VERIF_FAIL": ";".join("%s:%s" % x for x in rules), "VERIF_FAIL_LOG": "events"}, inputs)
        for t in isdir:
            os.mkdir(os.path.join(d, t))
            open(os.path.join(d, t, "keep"), "w").write("x")
        R = go()
        what = "%s %s; %s" % (prog, " ".join(args), desc)
        if R.timeout:
            R = go()
            if R.timeout:
                res.bad("hang:" + prog, what + ": no end after 120 s (twice)")
                return
        if R.sanitizer():
            res.bad("crash:" + prog, "%s: %s" % (what, R.sanitizer()))
            return
        ev = open(os.path.join(d, "events")).read() if os.path.exists(os.path.join(d, "events")) else ""
        failed = {ln.split(" ")[0] for ln in ev.splitlines() if "failed" in ln} | set(isdir)
        hit = {t for t, _ in rules} & failed | set(isdir)
        res.evals += 1
        res.seen("failures_injected", len(hit))
        for ln in ev.splitlines():
            if "failed" in ln:
                res.seen(ln.split(" ")[1])
        res.seen("directory_in_place", len(isdir))
        t = (R.out + R.err).splitlines()
        tail = " | ".join(t[-12:])[-600:]
        chain0 = prog == "imfit-mcmc" and (isdir or "open-failed" in ev)     # refused at its start: names the first
        for f in sorted(failed):
            if chain0 and any(g in ln and SAYS.search(ln) for g in failed for ln in t):
                continue
            if not any(f in " ".join(t[max(0, i - 1):i + 3]) and SAYS.search(ln) for i, ln in enumerate(t)):
                res.bad("silent:%s:%s" % (prog, re.sub(r"\d+", "N", f)), "%s: nothing says that %s could not be written (status %s); output ends %s" % (what, f, R.rc, tail))
        if not failed and R.rc not in ok:
            res.bad("status:" + prog, "%s: status %s without any failure; %s" % (what, R.rc, tail))
        if not failed and any(re.search(r"\*\*\* (?:WARNING|ERROR|Unable)[^\n]*(?:writ|open|sav)", ln) for ln in t):
            res.bad("warning:" + prog, "%s: a message although nothing failed: %s" % (what, tail))
        got = self.outputs(d, inputs)
        for f in sorted(want):
            if f in failed or chain0:
                continue
            if f not in got:
                res.bad("lost:" + prog, "%s: %s is missing; status %s, output ends %s" % (what, f, R.rc, tail))
                continue
            try:
                c = content(os.path.join(d, f))
            except Exception as ex:
                res.bad("damaged:" + prog, "%s: %s cannot be read: %s" % (what, f, ex))
                continue
            if c != want[f]:
                res.bad("damaged:" + prog, "%s: %s differs from that of the undisturbed run%s" % (what, f, ": " + first_diff(c[1], want[f][1]) if c[0] == "text" and want[f][0] == "text" else ""))
            else:
                res.seen("other_files_equal" if failed else "files_equal_no_failure")
        for f in sorted(got - set(want)):
            res.bad("extra:" + prog, "%s: also wrote %s" % (what, f))
        for t_ in isdir:
            if not os.path.isdir(os.path.join(d, t_)):
                res.bad("directory:" + prog, what + ": the directory was removed")
        kinds = tuple(sorted((re.sub(r"\d+", "N", a), b.split(":")[0], int(b.split(":")[1]) // 720 if ":" in b else 0) for a, b in rules if a in failed) + [(re.sub(r"\d+", "N", x), "dir") for x in isdir])
        res.nontrivial((prog, kinds, len(want)))


if __name__ == "__main__":
    vf.main(C())
