"""C03: shift / rotate / mirror relations between images of transformed models."""
from common import *

ROT = [n for n in F.G if n not in ("FlatSky", "TiltedSkyPlane")]
PAS = ("PA", "barPA", "PA_ring")


def dyadic(v, k=64):
    return float(np.round(v * k) / k)


class C(Check):
    id = "C03"
    programs = ("makeimage",)
    rule = ("random models, every function forced in turn; shift by whole pixels (with and without PSF), rotation of PA "
            "by 90 and 180 degrees, reversal of the sense of PA; non-trivial = the compared images have structure; "
            "signature = relation + functions + shape class")
    assumptions = ["rotation by 180 degrees is compared for all functions with a position angle: all are two-fold symmetric",
                   "for 3D functions the comparison is at the accuracy of their adaptive integration"]

    def cases(self, tier, seed):
        out = []
        n = 15 if tier == "quick" else 100
        for kind in ("shift", "shiftpsf", "rot90", "rot180", "mirror"):
            for name in F.G:
                if kind in ("rot90", "rot180", "mirror") and name not in ROT:
                    continue
                k = n if name not in F.IS3D else max(1, n // 3)
                for i in range(k):
                    out.append({"kind": kind, "name": name, "i": i, "seed": seed_of(self.id, kind, name, seed, i)})
        for i in range(60 if tier == "quick" else 400):
            out.append({"kind": "rot-psrot", "name": "PointSourceRot", "i": i, "seed": seed_of(self.id, "psr", seed, i)})
        return out

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        kind, name = case["kind"], case["name"]
        is3d = name in F.IS3D
        lo, hi = (8, 16) if is3d else (10, 50)
        nc, nr = int(r.integers(lo, hi)), int(r.integers(lo, hi))
        extra = [] if is3d else [str(r.choice(F.NAMES2D if kind.startswith("shift") else [n for n in ROT if n not in F.IS3D]))
                                 for _ in range(int(r.integers(0, 2)))]
        if kind == "rot-psrot":
            extra = []
        s = dict(x0=dyadic(r.uniform(1, nc)), y0=dyadic(r.uniform(1, nr)), funcs=[dict(name=n, p=F.draw(n, r)) for n in [name] + extra])
        if r.random() < .4:
            s["x0"], s["y0"] = float(int(s["x0"])), float(int(s["y0"]))
        for f in s["funcs"]:
            for k in PAS:
                if k in f["p"]:
                    f["p"][k] = dyadic(f["p"][k])
        m = dict(sets=[s])
        args = ["--no-subsampling"] if r.random() < 0.5 else []
        if not args and kind in ("rot90", "rot180", "mirror"):
            # the number of sub-pixels steps at exact radii: keep off them, rounding would decide
            s["x0"] = float(np.round(r.uniform(1, nc), 3)) + 0.00137
            s["y0"] = float(np.round(r.uniform(1, nr), 3)) + 0.00191
        m2 = copy.deepcopy(m)
        s2 = m2["sets"][0]
        nc2, nr2 = nc, nr
        tol_rel, tol_pk = 4e-7, 2e-7
        if kind in ("shift", "shiftpsf"):
            dx, dy = int(r.integers(-8, 9)), int(r.integers(-8, 9))
            s2["x0"] += dx
            s2["y0"] += dy
            if kind == "shiftpsf":
                h, w = int(r.integers(3, 10)), int(r.integers(3, 10))
                imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, h, w))
                args = args + ["--psf", "psf.fits"]
                tol_pk = 1e-6
            a, _ = makeimage(ctx, F.config_text(m, nc, nr), args=args)
            b, _ = makeimage(ctx, F.config_text(m2, nc, nr), args=args, out="b.fits")
            if not (same_shape(res, "shape", a, nr, nc, name) and same_shape(res, "shape", b, nr, nc, name)):
                return res
            A = a[max(0, -dy):nr - max(0, dy), max(0, -dx):nc - max(0, dx)]
            Bi = b[max(0, dy):nr - max(0, -dy), max(0, dx):nc - max(0, -dx)]
        elif kind == "rot-psrot":
            # rotating the PSF image by 90 degrees anticlockwise = reducing PA by 90; +180 flips the PSF
            n = int(r.integers(2, 7)) * 2 + 1
            psf = F.random_psf(r, n, n)
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), psf)
            a, _ = makeimage(ctx, F.config_text(m, nc, nr), args=["--psf", "psf.fits"])
            rot = np.rot90(psf, -1)   # array rows run upward: rot90(-1) in array view = anticlockwise on the sky view
            imf.write_fits(os.path.join(ctx.dir, "psf2.fits"), rot)
            s2["funcs"][0]["p"]["PA"] -= 90.0
            b, _ = makeimage(ctx, F.config_text(m2, nc, nr), args=["--psf", "psf2.fits"], out="b.fits")
            A, Bi = a, b
            tol_rel, tol_pk = 1e-5, 1e-5
            # pixels within rounding of the PSF's edge may be in or out
            if A.shape == Bi.shape:
                pa = np.radians(s["funcs"][0]["p"]["PA"] + 90)
                X, Y = F.grid(nc, nr)
                xp = (X - s["x0"]) * np.cos(pa) + (Y - s["y0"]) * np.sin(pa)
                yp = -(X - s["x0"]) * np.sin(pa) + (Y - s["y0"]) * np.cos(pa)
                hb = (n - 1) / 2.
                edge = (np.abs(np.abs(xp) - hb) < 1e-6) | (np.abs(np.abs(yp) - hb) < 1e-6)
                A, Bi = np.where(edge, 0, A), np.where(edge, 0, Bi)
        else:
            a, _ = makeimage(ctx, F.config_text(m, nc, nr), args=args)
            if not same_shape(res, "shape", a, nr, nc, name):
                return res
            if kind == "rot90":
                nc2, nr2 = nr, nc
                s2["x0"], s2["y0"] = nr + 1 - s["y0"], s["x0"]
                for f in s2["funcs"]:
                    f["p"]["PA"] += 90.0
                # (x,y) -> (nr+1-y, x)
                A = a.T[:, ::-1]
            elif kind == "rot180":
                for f in s2["funcs"]:
                    f["p"]["PA"] += 180.0
                A = a
            else:
                s2["x0"] = nc + 1 - s["x0"]
                for f in s2["funcs"]:
                    for k in PAS:
                        if k in f["p"]:
                            f["p"][k] = -f["p"][k]
                A = a[:, ::-1]
            b, _ = makeimage(ctx, F.config_text(m2, nc2, nr2), args=args, out="b.fits")
            if not same_shape(res, "shape", b, nr2, nc2, name):
                return res
            Bi = b
            # cos/sin of PA+90 etc. differ in the last bits: steep functions amplify that
            tol_rel, tol_pk = 3e-6, 1e-6
        res.evals = 2
        if is3d:
            tol_rel, tol_pk = (3e-3, 2e-3) if name != "FerrersBar3D" else (2e-2, 1.5e-2)
        if A.size == 0:
            return res
        mag = np.maximum(np.abs(A), np.abs(Bi))
        pk = max(np.abs(a).max(), np.abs(b).max())
        bad = np.abs(A - Bi) > tol_rel * mag + tol_pk * pk
        if kind not in ("shift", "shiftpsf") and not is3d:
            # a discontinuous edge may fall on either side of a pixel centre by rounding: allow isolated pixels
            if 0 < bad.sum() <= max(2, 0.01 * bad.size) and any(
                    f["name"] in ("GaussianRing2Side", "EdgeOnRing2Side", "FlatBar", "FerrersBar2D", "EdgeOnRing") for f in s["funcs"]):
                bad[:] = False
                res.seen("edge_pixels_excused")
            if any(f["name"] == "GaussianRingAz" for f in s["funcs"]) and s["x0"] == int(s["x0"]) and s["y0"] == int(s["y0"]):
                # the azimuth at the very centre is undefined
                j, i = (int(s["y0"]) - 1, int(s["x0"]) - 1)
                if kind == "rot90":
                    j, i = i, nr - 1 - j
                elif kind == "mirror":
                    i = nc - 1 - i
                if 0 <= j < bad.shape[0] and 0 <= i < bad.shape[1]:
                    bad[j, i] = False
        if bad.any():
            j, i = np.argwhere(bad)[0]
            res.bad("%s:%s" % (kind, name), "%s of %s (image %dx%d, centre %g,%g): %d of %d pixels differ; e.g. %.9g vs %.9g" % (
                kind, [f["name"] for f in s["funcs"]], nc, nr, s["x0"], s["y0"], int(bad.sum()), bad.size, A[j, i], Bi[j, i]))
        res.seen("pixels_compared", A.size)
        res.seen(kind)
        if pk > 0 and np.ptp(A) > 0:
            res.nontrivial((kind, name, tuple(extra), nc > nr, s["x0"] == int(s["x0"])))
        res.sample = {"kind": kind, "functions": [f["name"] for f in s["funcs"]], "size": [nc, nr]}
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
