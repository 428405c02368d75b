"""C25: psfconvolve1d writes the direct linear convolution of profile and normalised PSF."""
from common import *


def number(r, v, full=False):
    return str(r.choice(["%r", "%.17g"] if full else ["%r", "%.8f", "%.10e", "%+.9g", "%.12g"])) % float(v)


def profile_text(r, x, y, full=False):
    """a profile file: comment lines, separators, further columns, last line without newline"""
    out = []
    sep = str(r.choice([" ", "\t", "   ", " \t "]))
    more = int(r.integers(0, 3)) if r.random() < .3 else 0
    lead = str(r.choice(["", "", " ", "\t"]))
    crlf = r.random() < .05
    com = r.random() < .5
    xs, ys = [], []
    for a, b in zip(x, y):
        while com and r.random() < .15:
            out.append(str(r.choice(["#", "# 3.0 4.0", "#x y", "#" + "-" * 200])))
        t = [number(r, a, full), number(r, b, full)]
        xs.append(float(t[0]))
        ys.append(float(t[1]))
        out.append(lead + sep.join(t + [number(r, r.normal()) for _ in range(more)]) + str(r.choice(["", "", " ", "\t"])))
    if com and r.random() < .3:
        out.append("# end")
    nl = "\r\n" if crlf else "\n"
    return nl.join(out) + (nl if r.random() < .8 else ""), np.array(xs), np.array(ys)


class C(Check):
    id = "C25"
    programs = ("psfconvolve1d",)
    asan_programs = ("psfconvolve1d",)
    rule = ("profiles of 2-4000 points and PSFs of 1-3000 points (odd, even, longer than the profile; with negative values, un-normalised, asymmetric) x number formats, "
            "separators, comments, further columns, line ends x options (names by default, debugging output) against the direct sum; both columns, number of rows; every "
            "case also under ASan+UBSan; signature = lengths, layout, options")

    def cases(self, tier, seed):
        return mkcases({"conv": (700, 8000), "long": (20, 200), "props": (60, 600)}, tier, seed, self.id, x=3)

    def once(self, ctx, r, x, y, psf, res, flavour="", opts=None, full=False):
        t, xs, ys = profile_text(r, x, y, full)
        open(os.path.join(ctx.dir, "prof.dat"), "w", newline="").write(t)
        t, _, ps = profile_text(r, np.arange(len(psf)) - len(psf) // 2, psf, full)
        open(os.path.join(ctx.dir, "psf.dat"), "w", newline="").write(t)
        out = "out%d.dat" % r.integers(1000000)
        if opts is None:
            opts = [[], [], [], ["--printProfiles"], ["--debug", "1"], ["--debug", "2"], ["--debug", "3"], ["--debug=4"]][int(r.integers(8))]
        args = ["prof.dat", "psf.dat", out]
        i = int(r.integers(len(args) + 1))
        args = args[:i] + opts + args[i:]
        R = imf.run(ctx.bins[flavour + "psfconvolve1d"], args, ctx.dir, timeout=120)
        desc = "profile of %d points, PSF of %d, %s" % (len(x), len(psf), " ".join(opts))
        if R.sanitizer():
            res.bad("sanitizer", "%s: %s" % (desc, R.sanitizer()))
            return None
        f = os.path.join(ctx.dir, out)
        if R.rc or not os.path.exists(f):
            res.bad("refused", "%s: status %s, %s" % (desc, R.rc, (R.out + R.err).strip().splitlines()[-1:]))
            return None
        try:
            o = np.array([[float(v) for v in ln.split()] for ln in open(f)])
        except ValueError as ex:
            res.bad("output", "%s: %s" % (desc, ex))
            return None
        if o.shape != (len(x), 2):
            res.bad("rows", "%s: output has shape %s" % (desc, o.shape))
            return None
        res.seen("rows", len(x))
        return desc, xs, ys, ps, o

    def judge(self, got, res):
        desc, xs, ys, ps, o = got
        c = len(ps) // 2
        w = np.convolve(ys, ps / np.sum(ps))[c:c + len(ys)]
        if not np.all(np.abs(o[:, 0] - xs) <= 5.1e-7 + 1e-15 * np.abs(xs)):
            i = int(np.argmax(np.abs(o[:, 0] - xs)))
            res.bad("positions", "%s: position %r of row %d is written as %r" % (desc, xs[i], i, o[i, 0]))
            return False
        cond = np.sum(np.abs(ps)) / abs(np.sum(ps))
        tol = 5.1e-7 + 1e-13 * np.max(np.abs(ys)) * cond * np.log2(len(ys) + len(ps) + 2) * 4
        d = np.abs(o[:, 1] - w)
        if not np.all(d <= tol):
            i = int(np.nanargmax(np.where(np.isfinite(d), d, np.inf)))
            res.bad("value", "%s: row %d is %r, direct convolution gives %r" % (desc, i, o[i, 1], w[i]))
            return False
        res.worst("excess_over_rounding", float(np.max(d - 5e-7) / (np.max(np.abs(ys)) * cond)))
        res.seen("values_compared", len(w))
        return True

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        k = case["kind"]
        n = int(r.choice([2, 3, int(r.integers(2, 40)), int(r.integers(2, 400))])) if k != "long" else int(r.integers(1000, 4001))
        m = int(r.choice([1, 2, 3, int(r.integers(1, 30)), int(r.integers(1, 120)), n, n + 1, n + int(r.integers(1, 60))])) if k != "long" else int(r.integers(1, 3000))
        x = float(np.round(r.uniform(-300, 300), 2)) + np.arange(n) * float(r.choice([1, .5, .25, 2, .1]))
        if r.random() < .2:
            x = x[::-1]
        amp = 10 ** r.uniform(-2, 6)
        f = int(r.integers(5))
        y = [amp * np.exp(-np.abs(np.arange(n) - n * r.random()) / r.uniform(.5, 60)), amp * r.random(n), amp * r.normal(size=n), np.full(n, amp), np.zeros(n)][f]
        if f == 4:
            y[int(r.integers(n))] = amp
        s = 10 ** r.uniform(-3, 4)
        g = int(r.integers(4))
        j = np.arange(m) - m // 2
        psf = s * [np.exp(-.5 * (j / r.uniform(.3, 8)) ** 2), .01 + r.random(m), np.exp(-np.abs(j - r.uniform(-2, 2)) / r.uniform(.5, 5)), r.normal(size=m) + 1][g]
        if abs(np.sum(psf)) < .05 * np.sum(np.abs(psf)):
            psf = np.abs(psf)
        if k in ("conv", "long"):
            for fl in ("",) if k == "long" else ("", "asan:"):
                got = self.once(ctx, r, x, y, psf, res, fl)
                if got is None or not self.judge(got, res):
                    return res
        else:
            # one-point PSF: identity; scaled PSF: same result; shifted profile: shifted result; options do not matter
            a = self.once(ctx, r, x, y, psf, res, full=True)
            b = self.once(ctx, r, x, y, psf * float(r.uniform(.1, 50)), res, full=True)
            c = self.once(ctx, r, x, y, np.array([s]), res, full=True)
            d = self.once(ctx, r, x, y, psf, res, opts=[], full=True)
            if None in (a, b, c, d):
                return res
            tol = 2.1e-6 + 1e-11 * amp * np.sum(np.abs(psf)) / abs(np.sum(psf))
            for what, p, q in (("scaled-psf", a[4][:, 1], b[4][:, 1]), ("identity", c[4][:, 1], c[2]), ("options", a[4][:, 1], d[4][:, 1])):
                if not np.all(np.abs(p - q) <= tol):
                    res.bad(what, "%s: differs by %r" % (a[0], float(np.max(np.abs(p - q)))))
                res.seen("relations")
        res.evals += 1
        res.nontrivial((k, n, m, f, g, case["i"]))
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
