"""C20: MCMC chains record valid states with their true likelihoods, in the requested number and length, and
sample the right distribution."""
import glob
import re

from common import *
import fitprob as Q
import clifit as L
import trace as T

TR = T.TRACED("imfit-mcmc")


def chains(d, root):
    """[(header lines, rows as lists of strings)] of all chain files, by number"""
    out = {}
    for p in glob.glob(os.path.join(d, root + ".*.txt")):
        k = int(re.search(r"\.(\d+)\.txt$", p)[1])
        h, rows = [], []
        for ln in open(p):
            (h if ln.startswith("#") else rows).append(ln.rstrip("\n"))
        out[k] = (h, [x.split() for x in rows])
    return out


def g10(x):
    """like %#.10g"""
    return "%#.10g" % x


class C(Check):
    id = "C20"
    programs = ("imfit", "imfit-mcmc")
    harness = (TR,)
    rule = ("random fitting problems (statistics, noise maps, masks, PSFs, sections, fixed values) x chain counts, lengths, burn-in, convergence and offset "
            "options, appended runs; every row compared with the trace of evaluated states and with an independent likelihood; every acceptance judged; "
            "linear models with Gaussian noise sampled to compare mean and spread with the exact posterior; signature = workload, statistic, options")
    assumptions = ["sampling is judged for at least four chains and after burn-in, with margins of several times the Monte-Carlo error"]

    def cases(self, tier, seed):
        return mkcases({"rows": (600, 6000), "append": (160, 1600), "post": (40, 400), "trunc": (20, 200), "few": (40, 300)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    # ------------------------------------------------------------------
    def problem(self, r, d, **k):
        P = Q.make(r, stat=str(r.choice(["data", "err", "cash", "mlr"])), size=(6, 22), nonfinite=False, **k)
        f = L.make(r, d, P, spread=1.0, fixprob=.3)
        return P, f

    def mcmc(self, ctx, f, root, n, burn, nch, extra, trace=None, seed=1):
        args = [a for a in f.args if a != "--no-subsampling"] + ["--no-subsampling", "-o", root, "--max-chain-length", n, "--burnin-length", burn,
                                                                  "--seed", seed, "--loud"] + (["--nchains", nch] if nch else []) + extra
        env = {"VERIF_TRACE": os.path.join(ctx.dir, trace)} if trace else None
        return imf.must(ctx.bins["t-imfit-mcmc"], args, ctx.dir, timeout=240, env=env)

    def table(self, f, path):
        """printed state -> set of printed likelihoods, from the trace of evaluations"""
        t = {}
        for typ, x, v, _ in T.read(path):
            if typ == T.FIT:
                t.setdefault(tuple(g10(a) for a in x + f.off), set()).add("%.12e" % (-0.5 * v))
        return t

    def judge_rows(self, r, res, f, ch, table, desc, first=0, ref=True):
        """every row: limits, fixed values, likelihood of exactly that state, repetition after rejection"""
        n = f.n
        P = f.P
        tolr = 1e-9
        distinct = {}
        for c, (h, rows) in ch.items():
            prev = None
            for t, w in enumerate(rows):
                if len(w) < n + 3:
                    res.bad("row-format", "%s: chain %d row %d has %d columns" % (desc, c, t, len(w)))
                    return
                x = np.array([float(a) for a in w[:n]])
                lo, hi = f.glo, f.ghi
                bad = (~f.fixed) & ((x < lo - tolr * (1 + abs(lo))) | (x > hi + tolr * (1 + abs(hi))) | ~np.isfinite(x))
                if bad.any():
                    j = int(np.argmax(bad))
                    res.bad("limits", "%s: chain %d row %d: %s = %s outside [%r, %r]" % (desc, c, t, f.names[j], w[j], lo[j], hi[j]))
                    return
                wrong = f.fixed & (abs(x - f.gstart) > tolr * (1 + abs(f.gstart)))
                if wrong.any():
                    j = int(np.argmax(wrong))
                    res.bad("fixed", "%s: chain %d row %d: fixed %s = %s instead of %r" % (desc, c, t, f.names[j], w[j], f.gstart[j]))
                    return
                key = tuple(w[:n])
                if t >= first:
                    res.seen("rows_judged")
                    if key not in table:
                        res.bad("state", "%s: chain %d row %d: the recorded state was never evaluated: %s" % (desc, c, t, w[:n]))
                        return
                    if w[n] not in table[key]:
                        res.bad("likelihood", "%s: chain %d row %d: recorded likelihood %s; -1/2 of the statistic of that state is %s" % (
                            desc, c, t, w[n], sorted(table[key])[:3]))
                        return
                acc = w[-1]
                if acc not in ("0", "1") or w[n + 1] not in ("0", "1"):
                    res.bad("row-format", "%s: chain %d row %d: flags %s %s" % (desc, c, t, w[n + 1], acc))
                    return
                if prev is not None and acc == "0" and (w[:n + 1] != prev[:n + 1]) and t > max(first, 1):
                    # an outlier chain is moved to the state of the best chain at the end of a block of generations
                    others = [q[1][t][:n] for k, q in ch.items() if k != c and t < len(q[1])]
                    if w[:n] in others:
                        res.seen("outlier_moves")
                    else:
                        res.bad("rejected", "%s: chain %d row %d: proposal rejected, but the row differs from the previous one" % (desc, c, t))
                        return
                if acc == "0":
                    res.seen("rejections")
                else:
                    res.seen("acceptances")
                distinct[key] = float(w[n])
                prev = w
        if ref:
            ks = list(distinct)
            for i in r.permutation(len(ks))[:25]:
                k = ks[int(i)]
                m = Q.setvec(P.model, np.array([float(a) for a in k]) - f.off)
                im = Q.image(P, m)
                s = Q.stat(P, im)
                if np.isfinite(s) and not abs(-2 * distinct[k] - s) <= 3e-6 * max(Q.stat_scale(P, im), abs(s)) + 5e-6:
                    res.bad("reference", "%s: state %s: recorded likelihood %r, independent value %r" % (desc, k, distinct[k], -s / 2))
                    return
                res.seen("likelihoods_recomputed")

    STEP = re.compile(r"(?<![\d.])(\d+) (\S+) <- ([01])\|(\d+) -> (\S+)$", re.M)

    def judge_steps(self, res, out, desc):
        """the acceptance rule, from the log of all steps; returns sum and variance of accept - probability"""
        s = v = 0.0
        n = 0
        for t, a, acc, u, b in self.STEP.findall(out):
            try:
                a, b = float(a), float(b)
            except ValueError:
                continue
            acc = int(acc)
            n += 1
            if int(u) == 0:
                if not acc and b > a + 1e-4 * abs(a):
                    res.bad("accept", "%s: generation %s: unchanged state rejected" % (desc, t))
                continue
            tol = 2e-5 * (abs(a) + abs(b)) if np.isfinite(a) and np.isfinite(b) else 0
            if b > a + tol and not acc:
                res.bad("accept", "%s: generation %s: proposal with likelihood %r rejected, previous %r" % (desc, t, b, a))
                return 0, 0, 0
            if acc and (b == -np.inf or b < a - 45 - tol):
                res.bad("accept", "%s: generation %s: proposal with likelihood %r accepted, previous %r" % (desc, t, b, a))
                return 0, 0, 0
            if np.isfinite(a) and np.isfinite(b) and b <= a and tol < .02:
                p = float(np.exp(b - a))
                s += acc - p
                v += p * (1 - p)
        res.seen("steps_judged", n)
        return s, v, n

    def shape(self, res, ch, nch, n, out, desc):
        if sorted(ch) != list(range(1, nch + 1)):
            res.bad("chains", "%s: chain files %s, %d requested" % (desc, sorted(ch), nch))
            return False
        ln = [len(q[1]) for q in ch.values()]
        conv = "Convergence detected" in out
        if len(set(ln)) != 1 or (ln[0] != n if not conv else ln[0] > n):
            res.bad("length", "%s: chain lengths %s, %d requested%s" % (desc, sorted(set(ln)), n, " (converged)" if conv else ""))
            return False
        if conv:
            res.seen("converged")
        return True

    def k_rows(self, r, ctx, res):
        P, f = self.problem(r, ctx.dir)
        free = int((~f.fixed).sum())
        nch = int(r.integers(3, 8)) if r.random() < .7 else 0
        n = int(r.integers(2, 90)) if r.random() < .8 else int(r.integers(100, 400))
        burn = int(r.choice([1, 5, 20, 50, 1000]))
        ex = []
        if r.random() < .4:
            ex += ["--gelman-evals", int(r.choice([10, 20, 30])), "--gelman-rubin-limit", "%.2f" % r.uniform(1.001, 3)]
        if r.random() < .3:
            ex += ["--uniform-offset", "%.3f" % r.uniform(0, .5)]
        if r.random() < .3:
            ex += ["--gaussian-offset", "%.6f" % 10 ** r.uniform(-6, -1)]
        desc = "imfit-mcmc %s %s" % (P.stat, " ".join(map(str, ["--nchains", nch, n, burn] + ex)))
        R = self.mcmc(ctx, f, "k", n, burn, nch, ex, "tr", int(r.integers(1, 10000)))
        ch = chains(ctx.dir, "k")
        want = nch or max(free, 3)
        if not self.shape(res, ch, want, n, R.out, desc):
            return
        self.judge_rows(r, res, f, ch, self.table(f, os.path.join(ctx.dir, "tr")), desc)
        s, v, k = self.judge_steps(res, R.out, desc)
        res.data = (s, v)
        # the burn-in flag: the requested number of generations, longer only when outliers were found
        if "re-entering burn-in" not in R.out:
            for c, (h, rows) in ch.items():
                fl = [w[f.n + 1] for w in rows]
                # row 0 is flagged when there is a burn-in at all
                exp = ["1" if t < burn else "0" for t in range(len(rows))]
                if fl != exp:
                    res.bad("burn-in", "%s: chain %d: burn-in flags %s" % (desc, c, "".join(fl)[:100]))
                    break
        h = "\n".join(ch[1][0])
        for q in f.names:
            if q + "_" not in h.splitlines()[-1]:
                res.bad("header", "%s: column header lacks %s: %s" % (desc, q, h.splitlines()[-1]))
                break
        res.nontrivial(("rows", P.stat, f.n, want, len(ex), burn > n, bool(f.sec)))
        if res.sample is None:
            res.sample = {"problem": desc, "config": f.text, "row": ch[1][1][-1]}

    def finalize(self, results, tier):
        s = sum(r.data[0] for _, r in results if isinstance(r.data, tuple))
        v = sum(r.data[1] for _, r in results if isinstance(r.data, tuple))
        if v > 0 and abs(s) > 5.5 * np.sqrt(v) + 1:
            return [("acceptance-rate", "downhill proposals accepted %.1f times more often than exp(difference), standard deviation %.1f" % (s, np.sqrt(v)))]
        return []

    def k_append(self, r, ctx, res):
        P, f = self.problem(r, ctx.dir)
        nch = int(r.integers(3, 6))
        n1, n2 = int(r.integers(3, 40)), int(r.integers(5, 40))
        burn = int(r.choice([1, 10, 1000]))
        desc = "imfit-mcmc %s --append %d+%d burn %d" % (P.stat, n1, n2, burn)
        R = self.mcmc(ctx, f, "k", n1, burn, nch, [], "t1", 3)
        a = chains(ctx.dir, "k")
        if not self.shape(res, a, nch, n1, R.out, desc):
            return
        tab = self.table(f, os.path.join(ctx.dir, "t1"))
        steps = 2 if r.random() < .3 else 1
        tot = n1
        for k in range(steps):
            tot += n2
            R = self.mcmc(ctx, f, "k", tot, burn, nch, ["--append"], "t%d" % (2 + k), 17 + k)
            b = chains(ctx.dir, "k")
            if not self.shape(res, b, nch, tot, R.out, desc):
                return
            for c in a:
                if b[c][1][:len(a[c][1])] != a[c][1]:
                    res.bad("append-lost", "%s: chain %d: earlier rows changed" % (desc, c))
                    return
                # the continuation starts from the last recorded state
                w, p = b[c][1][len(a[c][1])], a[c][1][-1]
                if w[-1] == "0" and w[:f.n] != p[:f.n]:
                    x, y = np.array(w[:f.n], float), np.array(p[:f.n], float)
                    if (abs(x - y) > 2e-9 * (1 + abs(y))).any():
                        res.bad("append-start", "%s: chain %d: first new row is marked as a repetition of the last old one, but is %s, not %s" % (desc, c, w[:f.n], p[:f.n]))
                        return
                # a proposal moves by combinations of differences between chains: the parts that did not move are the old ones
                res.seen("continuations")
            # a continued chain is near its end point in parameters that no proposal could have moved
            self.judge_rows(r, res, f, {c: b[c] for c in b}, {**tab, **self.table(f, os.path.join(ctx.dir, "t%d" % (2 + k)))}, desc, first=len(a[1][1]) + 1)
            # the states of the first new rows: each coordinate is the old one, or moved
            same = sum(1 for c in a for j in range(f.n) if not f.fixed[j] and float(b[c][1][len(a[c][1])][j]) == float(a[c][1][-1][j]))
            res.seen("coordinates_carried_over", same)
            self.judge_steps(res, R.out, desc)
            g = self.STEP.findall(R.out)
            # likelihood of the state continued from = that of the last recorded row
            first = [x for x in g if int(x[0]) == len(a[1][1])]
            for c, x in zip(sorted(a), first):
                old = float(a[c][1][-1][f.n])
                if abs(float(x[1]) - old) > 2e-5 * abs(old) + 1e-5:
                    res.bad("append-likelihood", "%s: chain %d continues from a state of likelihood %s, last recorded %r" % (desc, c, x[1], old))
                    return
            a = b
            tab.update(self.table(f, os.path.join(ctx.dir, "t%d" % (2 + k))))
        res.nontrivial(("append", P.stat, nch, burn, steps, bool(f.sec)))

    # ------------------------------------------------------------------ known posteriors
    def linear(self, r, d, kind):
        nr, nc = int(r.integers(4, 9)), int(r.integers(4, 9))
        sig = r.uniform(2, 8, (nr, nc))
        yy, xx = np.mgrid[1:nr + 1, 1:nc + 1].astype(float)
        if kind == "plane":
            x0, y0 = 3.0, 3.0
            B = [np.ones((nr, nc)), xx - x0, yy - y0]
            names = ["I_0", "m_x", "m_y"]
            fn = "TiltedSkyPlane"
            tr = [100.0, r.uniform(-3, 3), r.uniform(-3, 3)]
        else:
            B, names, fn, tr = [np.ones((nr, nc))], ["I_sky"], "FlatSky", [r.uniform(50, 150)]
        A = np.stack([(b / sig).ravel() for b in B], 1)
        data = sum(t * b for t, b in zip(tr, B)) + sig * r.normal(size=(nr, nc))
        imf.write_fits(os.path.join(d, "d.fits"), data)
        form = str(r.choice(["sigma", "var", "weight"]))
        imf.write_fits(os.path.join(d, "n.fits"), {"sigma": sig, "var": sig ** 2, "weight": 1 / sig ** 2}[form])
        C = np.linalg.inv(A.T @ A)
        mu = C @ (A.T @ (data / sig).ravel())
        opt = ["--noise", "n.fits"] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[form]
        return fn, names, mu, C, opt

    def sample(self, ctx, r, fn, names, lims, opt, nch, n, burn, ex=()):
        # every case has its own seed: the errors of the estimates are independent
        t = "X0 3 fixed\nY0 3 fixed\nFUNCTION %s\n" % fn
        for q, (s, lo, hi) in zip(names, lims):
            t += "%s %r %r,%r\n" % (q, float(s), float(lo), float(hi))
        open(os.path.join(ctx.dir, "c.dat"), "w").write(t)
        imf.must(ctx.bins["imfit-mcmc"], ["d.fits", "-c", "c.dat", "-o", "k", "--nchains", nch, "--max-chain-length", n, "--burnin-length", burn, "--quiet",
                                          "--gelman-rubin-limit", "0.5", "--seed", int(r.integers(1, 1000000))] + opt + list(ex), ctx.dir, timeout=400)
        ch = chains(ctx.dir, "k")
        X = []
        for c in sorted(ch):
            X.append([[float(a) for a in w[2:2 + len(names)]] for w in ch[c][1] if w[2 + len(names) + 1] == "0"])
        m = min(len(x) for x in X)
        return np.array([x[-m:] for x in X])      # chain, generation, parameter

    def compare(self, res, X, mu, sd, desc, names):
        """mean and spread within 6 standard errors estimated by batches over time (all chains together)"""
        c, n, p = X.shape
        nb = 20
        k = n // nb
        for j in range(p):
            b = X[:, :k * nb, j].reshape(c, nb, k)
            bm = b.mean((0, 2))
            bv = ((b - mu[j]) ** 2).mean((0, 2))
            se = bm.std(ddof=1) / np.sqrt(nb)
            sev = bv.std(ddof=1) / np.sqrt(nb)
            if abs(bm.mean() - mu[j]) > 6 * se + .03 * sd[j]:
                res.bad("posterior-mean", "%s: %s: mean of the chains %.6g, posterior mean %.6g, standard deviation %.3g, standard error %.3g" % (desc, names[j], bm.mean(), mu[j], sd[j], se))
            if abs(bv.mean() - sd[j] ** 2) > 6 * sev + .04 * sd[j] ** 2:
                res.bad("posterior-spread", "%s: %s: variance of the chains %.6g, posterior variance %.6g, standard error %.3g" % (desc, names[j], bv.mean(), sd[j] ** 2, sev))
            res.seen("marginals_compared")
        res.seen("samples", c * n)

    def k_post(self, r, ctx, res):
        kind = str(r.choice(["plane", "flat"], p=[.7, .3]))
        fn, names, mu, C, opt = self.linear(r, ctx.dir, kind)
        sd = np.sqrt(np.diag(C))
        w = r.uniform(12, 40)
        lims = [(m + s * r.uniform(-5, 5), m - w * s, m + w * s) for m, s in zip(mu, sd)]
        ex = []
        if r.random() < .3:
            ex += ["--uniform-offset", "0.1"]
        if r.random() < .3:
            ex += ["--gaussian-offset", "0.01"]
        X = self.sample(ctx, r, fn, names, lims, opt, int(r.integers(4, 9)), 12000, 1500, ex)
        self.compare(res, X, mu, sd, "%s %s" % (fn, " ".join(opt + ex)), names)
        # correlations too
        if len(names) == 3:
            Z = X.reshape(-1, 3)
            R1, R0 = np.corrcoef(Z.T), C / np.outer(sd, sd)
            if np.abs(R1 - R0).max() > .12:
                res.bad("posterior-correlation", "%s: correlations %s, posterior %s" % (fn, R1.round(3).tolist(), R0.round(3).tolist()))
        res.nontrivial(("post", kind, opt[-1], X.shape[0]))

    def k_trunc(self, r, ctx, res):
        """a limit inside the distribution cuts it off"""
        fn, names, mu, C, opt = self.linear(r, ctx.dir, "flat")
        sd = float(np.sqrt(C[0, 0]))
        cut = float(r.uniform(-1.0, 1.0))
        from scipy.stats import truncnorm
        low = r.random() < .5
        a, b = (cut, 12.0) if low else (-12.0, cut)
        lims = [(mu[0] + sd * (a + b) / 2, mu[0] + sd * a, mu[0] + sd * b)]
        d = truncnorm(a, b)
        X = self.sample(ctx, r, fn, names, lims, opt, int(r.integers(5, 9)), 12000, 1500)
        self.compare(res, X, [mu[0] + sd * d.mean()], [sd * d.std()], "FlatSky cut off at %+.2f sigma" % cut, names)
        res.nontrivial(("trunc", low, round(cut, 1)))

    def k_few(self, r, ctx, res):
        """very few free parameters, chains, generations"""
        P, f = self.problem(r, ctx.dir, nsets=1)
        keep = int(r.integers(0, 3))
        fx = np.ones(f.n, bool)
        fx[r.permutation(f.n)[:keep]] = False
        f.fixed = fx
        cnt = [0]

        def lim(si, fi, pn, x):
            i = cnt[0]
            cnt[0] += 1
            return "fixed" if fx[i] else "%r,%r" % (f.glo[i], f.ghi[i])
        open(os.path.join(ctx.dir, "cfg.dat"), "w").write(F.config_text(Q.setvec(P.model, f.gstart), limits=lim, head=Q.ccd_config(P)))
        nch = int(r.choice([0, 0, 3]))
        n = int(r.integers(1, 25))
        desc = "imfit-mcmc %s, %d free parameters, --nchains %d, %d generations" % (P.stat, keep, nch, n)
        if keep == 0:
            # nothing to sample: a refusal is as good as constant chains
            R = imf.run(ctx.bins["imfit-mcmc"], f.args + ["-o", "k", "--max-chain-length", n, "--seed", 1], ctx.dir, timeout=120)
            if R.sanitizer() or R.timeout:
                res.bad("crash", "%s: %s" % (desc, R.sanitizer() or "no end"))
            res.nontrivial(("few", 0))
            return
        R = self.mcmc(ctx, f, "k", n, int(r.choice([1, 5])), nch, [], "tr", 5)
        ch = chains(ctx.dir, "k")
        if self.shape(res, ch, nch or 3, n, R.out, desc):
            self.judge_rows(r, res, f, ch, self.table(f, os.path.join(ctx.dir, "tr")), desc)
        res.nontrivial(("few", keep, nch, n))


sys.exit(vf.main(C()))
