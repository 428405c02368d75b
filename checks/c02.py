"""C02: every function against an independent statement of its documented formula."""
from common import *

EDGE = {  # extra parameter corners per function: overrides
    "EdgeOnDisk": [dict(n=500.0, z_0=0.7), dict(n=1.0), dict(n=2.0)],
    "Sersic": [dict(n=0.5), dict(n=1.0), dict(n=4.0), dict(n=0.3), dict(n=0.36)],
    "Sersic_GenEllipse": [dict(c0=0.0), dict(n=0.25)],
    "Core-Sersic": [dict(alpha=100.0), dict(gamma=0.0), dict(alpha=30.0, r_b=2.0, r_e=20.0, n=3.0)],
    "BrokenExponential": [dict(alpha=20.0, r_break=3.0), dict(alpha=50.0, r_break=2.0)],
    "BrokenExponential2D": [dict(alpha=40.0, r_break=2.0)],
    "FlatBar": [dict(alpha=30.0, r_break=2.0, h1=30.0), dict(deltaPA_max=20.0)],
    "ExponentialDisk3D": [dict(inc=0.0), dict(inc=90.0), dict(inc=60.0, n=100.0)],
    "BrokenExponentialDisk3D": [dict(inc=0.0), dict(inc=90.0), dict(alpha=20.0)],
    "GaussianRing3D": [dict(inc=0.0), dict(inc=90.0)],
    "FerrersBar3D": [dict(inc=0.0), dict(inc=90.0), dict(inc=45.0)],
    "DattathriPeanut3D": [dict(inc=0.0), dict(inc=90.0)],
    "GaussianRingAz": [dict(A_min_rel=1.0), dict(A_min_rel=0.0)],
    "ModifiedKing": [dict(alpha=2.0, r_t=6.0)],
    "ModifiedKing2": [dict(alpha=2.0, c=2.0, r_c=3.0)],
    "EdgeOnRing2Side": [dict(r=8.0, sigma_r_in=1.0, sigma_r_out=6.0)],
}
# documented limits of the numerical integration (relative to the peak)
TOL3D = {"FerrersBar3D": 1.5e-2, "GaussianRing3D": 3e-3, "ExponentialDisk3D": 3e-3,
         "BrokenExponentialDisk3D": 3e-3, "DattathriPeanut3D": 3e-3}


class C(Check):
    id = "C02"
    programs = ("makeimage",)
    rule = ("for each of the listed functions, random legal parameters plus corner values, random centre (in and out of "
            "the image), non-square images; sub-sampling off: value at every pixel centre against the formula; "
            "sub-sampling on: value against the dense pixel average; signature = function + PA quadrant + branch set")
    assumptions = ["3D functions are compared at the accuracy of the programs' adaptive integration; a small share of "
                   "pixels at the sharp edge of the Ferrers bar may be off by up to 1.5% of the peak",
                   "sub-sampled values are compared within the discretisation error of a coarser sampling"]

    def cases(self, tier, seed):
        out = []
        q, t = (80, 600)
        for n in F.G:
            k = q if tier == "quick" else t
            if n in F.IS3D:
                k = 12 if tier == "quick" else 80
            for i in range(k):
                out.append({"kind": "point", "name": n, "i": i, "seed": seed_of("C02", n, seed, i)})
            if n not in F.IS3D:
                for i in range(k):
                    out.append({"kind": "point", "name": n, "i": i, "wide": 1, "seed": seed_of("C02w", n, seed, i)})
            if n not in F.IS3D and n not in F.BACKGROUND:
                for i in range(16 if tier == "quick" else 120):
                    out.append({"kind": "subsample", "name": n, "i": i, "seed": seed_of("C02s", n, seed, i)})
            for i, o in enumerate(EDGE.get(n, [])):
                out.append({"kind": "point", "name": n, "i": 1000 + i, "over": o, "seed": seed_of("C02e", n, seed, i)})
        out.append({"kind": "list", "name": "", "seed": 0})
        return out

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        n = case["name"]
        if case["kind"] == "list":
            # every function the program lists has an oracle and the documented parameters, in order
            o = imf.must(ctx.bins["makeimage"], ["--list-parameters"], ctx.dir, ok=(0, 1)).out
            cur = None
            got = {}
            for ln in o.splitlines():
                w = ln.split()
                if ln.startswith("FUNCTION "):
                    cur = w[1]
                    got[cur] = []
                elif cur and w:
                    got[cur].append(w[0])
            for k, v in got.items():
                want = F.PARAMS.get(k) or F.PAD.get(k)
                if k == "PointSourceRot":
                    want = sorted(want)
                    v = sorted(v)
                v = ["PA" if x == "PA_lon" else x for x in v]
                if want is None:
                    res.seen("functions_without_oracle")
                elif list(want) != list(v):
                    res.bad("parameters", "%s lists parameters %s, documented %s" % (k, v, want))
            for k in F.PARAMS:
                if k not in got:
                    res.bad("missing-function", "%s is no longer listed" % k)
            res.seen("functions_listed", len(got))
            return res
        p = F.draw(n, r)
        p.update(case.get("over") or {})
        is3d = n in F.IS3D
        if case.get("wide"):       # far from the usual sizes
            sc = float(np.exp(r.uniform(np.log(.05), np.log(30))))
            for k in p:
                if k in F.LENGTH:
                    p[k] = float("%.4g" % (p[k] * sc * r.uniform(.7, 1.4)))
                elif k in F.INTENSITY:
                    p[k] = float("%.4g" % (p[k] * 10 ** r.uniform(-6, 8)))
                elif k in ("PA",):
                    p[k] = float(np.round(r.uniform(-720, 720), 2))
        nc, nr = (int(r.integers(8, 18)), int(r.integers(8, 18))) if is3d else (int(r.integers(8, 60)), int(r.integers(8, 60)))
        x0 = float(np.round(r.uniform(-3, nc + 4), 3))
        y0 = float(np.round(r.uniform(-3, nr + 4), 3))
        if r.random() < 0.25:
            x0, y0 = float(int(x0)), float(int(y0))
        m = dict(sets=[dict(x0=x0, y0=y0, funcs=[dict(name=n, p=p)])])
        args = ["--no-subsampling"] if case["kind"] == "point" else []
        im, _ = makeimage(ctx, F.config_text(m, nc, nr), args=args)
        if not same_shape(res, "shape:" + n, im, nr, nc, n):
            return res
        X, Y = F.grid(nc, nr)
        o = F.VALUE[n](p, X - x0, Y - y0)
        pk = np.abs(o).max()
        res.seen("pixels", im.size)
        if case["kind"] == "point":
            d = np.abs(im - o)
            if is3d:
                bad = (d > TOL3D[n] * pk) | (d > 0.02 * np.abs(o) + 2e-3 * pk) if n != "FerrersBar3D" else (d > TOL3D[n] * pk)
                if (d > 3e-4 * pk).mean() > 0.12:
                    bad |= d > 3e-4 * pk
                if n == "FerrersBar3D":
                    bad |= (o == 0) & (im != 0) & (d > TOL3D[n] * pk)
            else:
                bad = d > 3e-6 * np.abs(o) + 2e-37 + 1e-9 * pk
                if n in ("FerrersBar2D", "ModifiedKing", "ModifiedKing2", "GaussianRing2Side", "EdgeOnRing2Side"):
                    bad = d > 3e-6 * np.abs(o) + 2e-37 + 1e-7 * pk
            if bad.any():
                j, i = np.argwhere(bad)[0]
                res.bad("value:" + n, "%s at (%g,%g) with %s: pixel (%d,%d) is %.9g, formula gives %.9g (%d of %d pixels off)" % (
                    n, x0, y0, p, i + 1, j + 1, im[j, i], o[j, i], int(bad.sum()), bad.size))
        else:
            # pixel averages from three sampling densities
            def avg(N):
                a = np.zeros_like(X)
                for ii in range(N):
                    for jj in range(N):
                        a += F.VALUE[n](p, X - 0.5 + (ii + .5) / N - x0, Y - 0.5 + (jj + .5) / N - y0)
                return a / (N * N)
            A = avg(21)
            A10, A2 = avg(10), avg(2)
            dx, dy = X - x0, Y - y0
            if "ell" in p:
                rr = F._ell(dx, dy, p["PA"], p["ell"], p.get("c0", 0.0))
            else:
                rr = np.hypot(dx, dy)
            nosub = n in ("GaussianRing", "GaussianRing2Side", "GaussianRingAz", "EdgeOnRing", "EdgeOnRing2Side")
            near = (rr < 2.9) & (not nosub)
            small = min([p[k] for k in ("h", "h1", "r_e", "sigma", "fwhm", "r_c", "a_bar", "z_0") if k in p] or [9]) < 1.6
            spread = np.zeros_like(A)
            if near.any():      # how much the average depends on where the samples fall (cusps)
                lo = hi = A[near]
                for N in (10, 13, 16, 17, 18, 19, 20, 22, 23, 24):
                    a = np.zeros(int(near.sum()))
                    for ii in range(N):
                        for jj in range(N):
                            a += F.VALUE[n](p, X[near] - 0.5 + (ii + .5) / N - x0, Y[near] - 0.5 + (jj + .5) / N - y0)
                    a /= N * N
                    lo, hi = np.minimum(lo, a), np.maximum(hi, a)
                spread[near] = hi - lo
            # generous between the point value and the dense average away from the centre
            tol = np.where(near, (3.0 if small else 2.0) * np.abs(A10 - A) + 1.5 * spread + 3e-3 * np.abs(A) + 1e-7 * pk,
                           1.6 * np.maximum(np.abs(A2 - A), np.abs(o - A)) + 3e-3 * np.abs(A) + 1e-7 * pk)
            bad = np.abs(im - A) > tol
            if bad.any():
                j, i = np.argwhere(bad)[0]
                res.bad("average:" + n, "%s at (%g,%g) with %s: pixel (%d,%d) r=%.3g is %.9g, pixel average %.9g, centre value %.9g" % (
                    n, x0, y0, p, i + 1, j + 1, rr[j, i], im[j, i], A[j, i], o[j, i]))
            res.seen("subsampled_near_pixels", int(near.sum()))
            if near.any() and np.abs(o - A)[near].max() > 0.01 * np.abs(A)[near].max():
                res.seen("images_where_subsampling_matters")
        if pk > 0:
            q = int(p.get("PA", 0) % 360 // 90)
            res.nontrivial((n, case["kind"], q, round(p.get("c0", 0)), int(np.log2(p.get("n", 1) + .01)), x0 == int(x0)))
        res.sample = {"function": n, "centre": [x0, y0], "params": p, "kind": case["kind"]}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
