"""C21: a member of a multi-image description shows the global model shifted, rotated, scaled in size and in flux, plus its
own local components; the statistic is the sum over images; one image gives the same fit as the single-image program."""
import re

from common import *
import fitprob as Q
import clifit as L
import trace as T

ALPHA_LENGTH = {"BrokenExponential", "BrokenExponential2D", "FlatBar", "BrokenExponentialDisk3D"}
NOT_INVARIANT = F.IS3D | {"EdgeOnDisk"}     # luminosity densities: integrated along a line of sight measured in pixels
ROT = {"PA"}


def transform(m, ip):
    """the global model as seen in an image with description ip = (pixel scale, rotation, flux scale, X0, Y0)"""
    s, th, fl, X, Y = ip
    c, sn = np.cos(th * F.D), np.sin(th * F.D)
    out = dict(sets=[])
    bx, by = m["sets"][0]["x0"], m["sets"][0]["y0"]
    for st in m["sets"]:
        dx, dy = st["x0"] - bx, st["y0"] - by
        n = dict(x0=float(X + (dx * c + dy * sn) / s), y0=float(Y + (-dx * sn + dy * c) / s), funcs=[])
        for f in st["funcs"]:
            p = {}
            for k, v in f["p"].items():
                if k == "PA":
                    v = v - th
                elif k in F.LENGTH:
                    v = v / s
                elif k in F.INTENSITY:
                    v = v * fl
                elif k == "alpha" and f["name"] in ALPHA_LENGTH:
                    v = v * s
                p[k] = float(v)
            if f["name"] == "TiltedSkyPlane":
                a, b = f["p"]["m_x"], f["p"]["m_y"]
                p["m_x"], p["m_y"] = float(fl * s * (a * c + b * sn)), float(fl * s * (-a * sn + b * c))
            n["funcs"].append(dict(f, p=p))
        out["sets"].append(n)
    return out


def seen_through(m, ip, X, Y):
    """the global model evaluated at the places of the reference image that the pixels of this image look at"""
    s, th, fl, x0, y0 = ip
    c, sn = np.cos(th * F.D), np.sin(th * F.D)
    dx, dy = X - x0, Y - y0
    bx, by = m["sets"][0]["x0"], m["sets"][0]["y0"]
    return fl * F.render_points(m, bx + s * (c * dx - sn * dy), by + s * (sn * dx + c * dy))


def q4(x):
    return float("%.4g" % x)


def image_params(r, nc, nr, mild=False):
    if mild:
        return (q4(r.uniform(.8, 1.25)), q4(r.uniform(-40, 40)), q4(r.uniform(.7, 1.4)), q4(nc / 2 + r.uniform(-1, 1)), q4(nr / 2 + r.uniform(-1, 1)))
    s = 1.0 if r.random() < .1 else q4(np.exp(r.uniform(np.log(.4), np.log(2.5))))
    th = 0.0 if r.random() < .1 else q4(r.uniform(-180, 180))
    fl = 1.0 if r.random() < .1 else q4(np.exp(r.uniform(np.log(.2), np.log(5))))
    return (s, th, fl, float(np.round(r.uniform(.1, .9) * nc, 3)), float(np.round(r.uniform(.1, .9) * nr, 3)))


def join(*ms):
    return dict(sets=[s for m in ms if m for s in m["sets"]])


def info_function_lines(m, limits=None):
    t = F.config_text(m, limits=limits).splitlines()
    return ["FUNCTIONS_START"] + t


def near(res, key, desc, got, want, tol):
    if got.shape != want.shape:
        res.bad(key, "%s: image of %s, expected %s" % (desc, got.shape, want.shape))
        return False
    pk = float(np.max(np.abs(want)))
    fin = np.isfinite(want)
    e = np.where(fin, np.abs(got - want), 0) / (pk + 1e-300)
    if not np.all(np.isfinite(got) == fin) or e.max() > tol:
        j = np.unravel_index(np.argmax(e), e.shape)
        res.bad(key, "%s: pixel (%d,%d) is %.8g, expected %.8g (peak %.4g; %d pixels off)" % (desc, j[1] + 1, j[0] + 1, got[j], want[j], pk, int(np.sum(e > tol))))
        return False
    res.seen("images_compared")
    res.seen("pixels_compared", int(got.size))
    res.worst("image_difference_of_peak", float(e.max()))
    res.evals += 1
    return True


class C(Check):
    id = "C21"
    programs = ("makeimage", "makemultimages")
    harness = (T.TRACED("imfit"), T.TRACED("multimfit"))
    rule = ("random global model (1-3 function sets, all functions) x 1-4 images of different sizes x random pixel scale, rotation, flux scale, centre, "
            "PSF, oversampled region, mask, noise map, local functions; each image against the single-image program with transformed parameters and, for "
            "scale-free functions, against the formula evaluated at the mapped-back pixel positions; statistics and best fits against an independent sum")
    assumptions = ["luminosity densities (3D functions, EdgeOnDisk) and total fluxes (PointSource) are multiplied by FLUX_SCALE only, as their parameters are"]

    def cases(self, tier, seed):
        return mkcases({"make": (220, 2600), "geom": (160, 1600), "stat": (150, 1600), "files": (50, 500), "one": (90, 900), "fit": (60, 600)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    # ------------------------------------------------------------------ images
    def k_make(self, r, ctx, res):
        nim = int(r.integers(1, 5))
        nc0, nr0 = int(r.integers(8, 30)), int(r.integers(8, 30))
        names = F.NAMES2D + ([str(r.choice(sorted(F.IS3D)))] if r.random() < .25 else [])
        m = F.random_model(r, nc0, nr0, names=names)
        nosub = r.random() < .5
        point = str(r.choice(["", "PointSource", "PointSourceRot"], p=[.6, .3, .1]))
        if point:
            k = int(r.integers(len(m["sets"])))
            m["sets"][k]["funcs"].insert(int(r.integers(len(m["sets"][k]["funcs"]) + 1)), dict(name=point, p=F.draw(point, r), extra={"method": str(r.choice(["bicubic", "lanczos2", "lanczos3"]))} if r.random() < .5 else {}))
        if any(not np.isfinite(F.render_points(m, *F.grid(nc0, nr0))).all() for _ in (0,)):
            return
        info, jobs = [], []
        for k in range(nim):
            nc, nr = (nc0, nr0) if r.random() < .2 else (int(r.integers(6, 34)), int(r.integers(6, 34)))
            L_ = [["NCOLS %d" % nc, "NROWS %d" % nr], ["NCOLS,NROWS %d,%d" % (nc, nr)]][int(r.integers(2))]
            args = ["--no-subsampling"] if nosub else []
            if point or r.random() < .4:
                imf.write_fits(os.path.join(ctx.dir, "p%d.fits" % k), F.random_psf(r, int(r.integers(5, 12)), int(r.integers(5, 12))))
                L_.append("PSF p%d.fits" % k)
                args += ["--psf", "p%d.fits" % k]
                if r.random() < .4 and not point:
                    sc = int(r.integers(1, 5))
                    imf.write_fits(os.path.join(ctx.dir, "o%d.fits" % k), F.random_psf(r, int(r.integers(3, 10)), int(r.integers(3, 10))))
                    a, b = sorted(r.choice(np.arange(1, nc + 1), 2, replace=False))
                    c, d = sorted(r.choice(np.arange(1, nr + 1), 2, replace=False))
                    L_ += ["OVERSAMPLED_PSF o%d.fits" % k, "OVERSAMPLE_SCALE %d" % sc, "OVERSAMPLED_REGION %d:%d,%d:%d" % (a, b, c, d)]
                    args += ["--overpsf", "o%d.fits" % k, "--overpsf_scale", str(sc), "--overpsf_region", "%d:%d,%d:%d" % (a, b, c, d)]
            if k:
                ip = image_params(r, nc, nr)
                key = ["PIXEL_SCALE %r" % ip[0], "IMAGE_PA %r" % ip[1], "FLUX_SCALE %r" % ip[2], "X0 %r" % ip[3], "Y0 %r" % ip[4]]
                key = [x + (" fixed" if r.random() < .3 else "") for x in key]
                L_ += [key[i] for i in r.permutation(5)]
                t = transform(m, ip)
            else:
                ip = None
                L_ += ["X0 %r fixed" % m["sets"][0]["x0"], "Y0 %r fixed" % m["sets"][0]["y0"]]
                t = m
            loc = None
            if r.random() < .35:
                loc = F.random_model(r, nc, nr, nsets=int(r.integers(1, 3)), nfuncs=int(r.integers(1, 3)), names=["Gaussian", "Sersic", "Exponential", "Moffat", "FlatSky", "TiltedSkyPlane"])
            info.append("\n".join(["IMAGE_START"] + L_ + (info_function_lines(loc) if loc else [])))
            jobs.append((nc, nr, ip, join(t, loc), args, loc))
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info) + "\n")
        open(os.path.join(ctx.dir, "m.dat"), "w").write(F.config_text(m))
        nth = int(r.choice([1, 1, 3]))
        imf.must(ctx.bins["makemultimages"], ["m.dat", "--image-info", "info.dat", "-o", "mm", "--max-threads", str(nth)] + (["--nosubsampling"] if nosub else []), ctx.dir, timeout=120)
        for k, (nc, nr, ip, t, args, loc) in enumerate(jobs):
            want, _ = makeimage(ctx, F.config_text(t, nc, nr), "s%d.fits" % k, args, name="s%d.dat" % k, threads=nth)
            try:
                got = imf.read_fits(os.path.join(ctx.dir, "mm_%d.fits" % k))
            except OSError as e:
                res.bad("make:missing", "makemultimages wrote no image %d of %d: %s" % (k + 1, nim, e))
                return
            desc = "makemultimages: image %d of %d, %dx%d, %s, %s%s%s" % (k + 1, nim, nc, nr, [[f["name"] for f in s["funcs"]] for s in m["sets"]],
                                                                      "reference" if ip is None else "scale %r rotation %r flux %r" % ip[:3], " local functions" if loc else "", " " + " ".join(args) if args else "")
            if not near(res, "make:image", desc, got, want, 1e-6):
                return
            res.nontrivial(("make", nim, k, ip is not None and ip[:3], bool(loc), tuple(args[::2]), tuple(f["name"] for s in m["sets"] for f in s["funcs"])))

    def k_geom(self, r, ctx, res):
        """against the formulas themselves, at positions mapped back to the reference image"""
        nim = int(r.integers(2, 4))
        nc0, nr0 = int(r.integers(8, 30)), int(r.integers(8, 30))
        m = F.random_model(r, nc0, nr0, nsets=int(r.integers(1, 4)), nfuncs=int(r.integers(1, 3)), names=[n for n in F.NAMES2D if n not in NOT_INVARIANT])
        info, jobs = [], []
        for k in range(nim):
            nc, nr = int(r.integers(6, 34)), int(r.integers(6, 34))
            ip = image_params(r, nc, nr) if k else (1.0, 0.0, 1.0, m["sets"][0]["x0"], m["sets"][0]["y0"])
            L_ = ["IMAGE_START", "NCOLS %d" % nc, "NROWS %d" % nr]
            if k:
                L_ += ["PIXEL_SCALE %r" % ip[0], "IMAGE_PA %r" % ip[1], "FLUX_SCALE %r" % ip[2]]
            L_ += ["X0 %r" % ip[3], "Y0 %r" % ip[4]]
            info += L_
            jobs.append((nc, nr, ip))
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info) + "\n")
        open(os.path.join(ctx.dir, "m.dat"), "w").write(F.config_text(m))
        imf.must(ctx.bins["makemultimages"], ["m.dat", "--image-info", "info.dat", "-o", "mm", "--max-threads", "1", "--nosubsampling"], ctx.dir, timeout=120)
        for k, (nc, nr, ip) in enumerate(jobs):
            X, Y = F.grid(nc, nr)
            with np.errstate(all="ignore"):
                want = seen_through(m, ip, X, Y)
                # positions where a function jumps (edges of two-sided rings, truncation): value on either side
                jit = [seen_through(m, ip, X + a, Y + b) for a, b in ((1e-9, 1e-9), (-1e-9, 1e-9), (1e-9, -1e-9), (-1e-9, -1e-9))]
            if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e20:
                return
            spread = np.max([np.abs(j - want) for j in jit], axis=0)
            got = imf.read_fits(os.path.join(ctx.dir, "mm_%d.fits" % k))
            desc = "image %d of %d, %dx%d, %s, scale %r rotation %r flux %r" % (k + 1, nim, nc, nr, [[f["name"] for f in s["funcs"]] for s in m["sets"]], *ip[:3])
            j = spread > 1e-6 * np.abs(want).max()
            if got.shape == want.shape:
                got = np.where(j, want, got)
            if not near(res, "geom:image", desc, got, want, 1e-6):
                return
            res.nontrivial(("geom", nim, k, ip[:3], tuple(f["name"] for s in m["sets"] for f in s["funcs"])))

    # ------------------------------------------------------------------ statistics
    def problem(self, r, ctx, st, mild=False, limits=False):
        """several images of one model: info file, configuration, oracles"""
        nim = int(r.integers(1, 4))
        base = Q.make(r, stat="data", model="easy" if mild else "pos", size=(12, 18), masked=False, psf=False, nonfinite=False, nsets=int(r.integers(1, 3)))
        m = base.model
        S = dict(nim=nim, model=m, ims=[], ip=[], loc=[], st=st)
        info = []
        lim = (lambda a, w: "%r,%r" % (a - w, a + w)) if limits else (lambda a, w: "fixed")
        for k in range(nim):
            for _ in range(30):
                nc, nr = int(r.integers(10, 18)), int(r.integers(10, 18))
                ip = image_params(r, nc, nr, mild or r.random() < .5) if k else None
                t = transform(m, ip) if k else m
                loc = None
                if r.random() < .3:
                    loc = dict(sets=[dict(x0=q4(r.uniform(3, nc - 3)), y0=q4(r.uniform(3, nr - 3)), funcs=[dict(name="Gaussian", p=dict(PA=q4(r.uniform(10, 80)), ell=.25, I_0=q4(r.uniform(20, 90)), sigma=q4(r.uniform(1.2, 2.5))))])])
                P = Q.make(r, stat=st, model=join(t, loc), size=(min(nc, nr), min(nc, nr) + 5), nonfinite=r.random() < .2)
                P.norm = True
                im = P.image(P.model) if hasattr(P, "image") else Q.image(P, P.model)
                if np.all(np.isfinite(im)) and im.min() + P.sky > 1e-2 and np.abs(im).max() < 1e6 and P.valid.sum() > 30:
                    break
            else:
                return None
            Q.write(P, ctx.dir, pre="i%d" % k)
            sec, (ox, oy) = "", (0, 0)
            L_ = ["DATA i%dd.fits%s" % (k, sec)]
            if P.psf is not None:
                L_.append("PSF i%dpsf.fits" % k)
            if P.maskraw is not None:
                L_.append("MASK i%dmask.fits" % k)
                if P.zbad:
                    L_.append("MASK_ZERO_IS_BAD yes")
            if P.err is not None:
                L_.append("ERROR i%dnoise.fits" % k)
                L_ += {"sigma": [], "var": ["ERRORS_ARE_VARIANCES yes"], "weight": ["ERRORS_ARE_WEIGHTS yes"]}[P.noise]
            L_ += [x for x in Q.ccd_config(P).splitlines() if x]
            if ip:
                for kk, v, w in zip(("PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"), ip, (.05, 5., .1, 2., 2.)):
                    L_.append("%s %r %s" % (kk, v, lim(v, w) if r.random() < .7 else "fixed"))
            else:
                L_ += ["X0 %r fixed" % m["sets"][0]["x0"], "Y0 %r fixed" % m["sets"][0]["y0"]]
            L_ = [L_[i] for i in r.permutation(len(L_))]
            fn = []
            if loc:
                fn = info_function_lines(loc, limits=lambda si, fi, pn, v: ("fixed" if pn in ("X0", "Y0", "PA", "ell", "sigma") else "%r,%r" % (v * .5, v * 2)))
            info += ["IMAGE_START"] + L_ + fn
            S["ims"].append(P)
            S["ip"].append(ip)
            S["loc"].append(loc)
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info) + "\n")
        fixed = [bool(x) for x in r.random(len(Q.vec(m))) < .35]
        names = Q.names(m)
        cnt = [0]

        def lm(si, fi, pn, v):
            i = cnt[0]
            cnt[0] += 1
            if fixed[i]:
                return "fixed"
            w = {"X0": 2, "Y0": 2, "PA": 40, "ell": .1, "n": .4, "beta": .3}.get(names[i], .3 * abs(v) + .05)
            lo, hi = v - w, v + w
            if names[i] == "ell":
                lo, hi = max(lo, min(v, .001)), min(hi, .95)
            return "%r,%r" % (lo, hi)
        open(os.path.join(ctx.dir, "cfg.dat"), "w").write(F.config_text(m, limits=lm))
        S["fixed"] = fixed
        v = []
        for k in range(1, nim):
            v += list(S["ip"][k])
        v += list(Q.vec(m))
        for l_ in S["loc"]:
            if l_:
                v += list(Q.vec(l_))
        S["vec"] = np.array(v)
        S["args"] = {"data": [], "err": [], "model": ["--model-errors"], "cash": ["--cashstat"], "mlr": ["--poisson-mlr" if r.random() < .5 else "--mlr"]}[st]
        return S

    def models_at(self, S, x):
        """model of every image at the full parameter vector"""
        n = 5 * (S["nim"] - 1)
        ip = [None] + [tuple(x[5 * k:5 * k + 5]) for k in range(S["nim"] - 1)]
        ng = len(Q.vec(S["model"]))
        g = Q.setvec(S["model"], x[n:n + ng])
        o = n + ng
        out = []
        for k in range(S["nim"]):
            l_ = S["loc"][k]
            if l_:
                nl = len(Q.vec(l_))
                l_ = Q.setvec(l_, x[o:o + nl])
                o += nl
            out.append(join(transform(g, ip[k]) if ip[k] else g, l_))
        return out, g

    def total(self, S, x):
        ms, _ = self.models_at(S, x)
        t = sc = 0.0
        for P, m in zip(S["ims"], ms):
            im = Q.image(P, m)
            t += Q.stat(P, im)
            sc += Q.stat_scale(P, im)
        return t, sc

    def describe(self, S):
        return "multimfit %s, %d images, %s%s%s" % (S["st"], S["nim"], [[f["name"] for f in s["funcs"]] for s in S["model"]["sets"]], " local" if any(S["loc"]) else "",
                                                   "" if S["nim"] == 1 else ", " + "; ".join("scale %r rotation %r flux %r" % ip[:3] for ip in S["ip"][1:]))

    def k_stat(self, r, ctx, res):
        S = self.problem(r, ctx, str(r.choice(["data", "model", "err", "cash", "mlr"])))
        if S is None:
            return
        x = imf.must(ctx.bins["t-multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--fitstat-only", "--nosubsampling", "--max-threads", "1"] + S["args"], ctx.dir, timeout=100, env={"VERIF_TRACE": "tr"})
        want, sc = self.total(S, S["vec"])
        desc = self.describe(S)
        tr = T.read(os.path.join(ctx.dir, "tr"))
        got = [e for e in tr if e[0] == 1]
        if not got:
            res.bad("stat:none", desc + ": no evaluation of the statistic")
            return
        p = np.asarray(got[-1][1])
        if len(p) != len(S["vec"]) or not np.allclose(p, S["vec"], rtol=1e-12, atol=0):
            res.bad("stat:params", "%s: evaluated at %s, described as %s" % (desc, p, S["vec"]))
            return
        err = abs(got[-1][2] - want) / (sc + 1e-9)
        res.worst("statistic_relative_error", err)
        if not err < 1e-9:
            each = ", ".join("%.8g" % Q.stat(P, Q.image(P, m)) for P, m in zip(S["ims"], self.models_at(S, S["vec"])[0]))
            res.bad("stat:sum", "%s: statistic %.10g, sum over images %.10g (%s)" % (desc, got[-1][2], want, each))
            return
        key = Q_STAT[S["st"]]
        mm = re.search(re.escape(key) + r"\s*=\s*([-+0-9.eE]+)", x.out)
        if not mm or abs(float(mm.group(1)) - want) > 1e-5 * sc + 1e-5:
            res.bad("stat:report", "%s: reports %r, sum over images %.10g" % (desc, mm and mm.group(0), want))
        res.seen("statistics_summed", S["nim"])
        res.evals += 1
        res.nontrivial(("stat", S["st"], S["nim"], tuple(ip[:3] for ip in S["ip"][1:]), tuple((P.psf is not None, P.maskraw is not None, P.err is not None, P.zbad) for P in S["ims"]), tuple(bool(l_) for l_ in S["loc"])))

    def k_files(self, r, ctx, res):
        """the parameter files saved for every image, for all functions"""
        nim = int(r.integers(2, 4))
        nc, nr = 12, 12
        m = F.random_model(r, nc, nr, names=F.NAMES2D + sorted(F.IS3D))
        for s in m["sets"]:
            if r.random() < .2:
                s["funcs"].append(dict(name="PointSourceRot" if r.random() < .5 else "PointSource", p=F.draw("PointSourceRot", r)))
        info, ips, locs = [], [], []
        offs = []
        for k in range(nim):
            dx, dy = (int(r.integers(0, 4)), int(r.integers(0, 4))) if r.random() < .5 else (0, 0)
            sec = "[%d:%d,%d:%d]" % (dx + 1, dx + nc, dy + 1, dy + nr) if dx or dy else ""
            offs.append((dx, dy))
            imf.write_fits(os.path.join(ctx.dir, "d%d.fits" % k), 100 + r.random((nr + dy, nc + dx)))
            imf.write_fits(os.path.join(ctx.dir, "p.fits"), F.random_psf(r, 7, 7))
            ip = image_params(r, nc, nr) if k else None
            ips.append(ip)
            L_ = ["IMAGE_START", "DATA d%d.fits%s" % (k, sec), "GAIN 2", "READNOISE 5", "PSF p.fits"]
            if k:
                L_ += ["PIXEL_SCALE %r fixed" % ip[0], "IMAGE_PA %r fixed" % ip[1], "FLUX_SCALE %r fixed" % ip[2], "X0 %r 0,1000" % (ip[3] + dx), "Y0 %r -1000,1000" % (ip[4] + dy)]
            else:
                L_ += ["X0 %r fixed" % m["sets"][0]["x0"], "Y0 %r fixed" % m["sets"][0]["y0"]]
            loc = None
            if r.random() < .4:
                loc = dict(sets=[dict(x0=4.25 + dx, y0=5.5 + dy, funcs=[dict(name=n, p=F.draw(n, r)) for n in r.choice(["Sersic", "TiltedSkyPlane", "FlatSky"], int(r.integers(1, 3)))])])
            locs.append(loc)
            info += L_ + (info_function_lines(loc) if loc else [])
        # X0,Y0 of the global model belong to the reference image
        g = copy.deepcopy(m)
        for s in g["sets"]:
            s["x0"] += offs[0][0]
            s["y0"] += offs[0][1]
        info = [x for x in info]
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(info).replace("X0 %r fixed" % m["sets"][0]["x0"], "X0 %r fixed" % g["sets"][0]["x0"]).replace("Y0 %r fixed" % m["sets"][0]["y0"], "Y0 %r fixed" % g["sets"][0]["y0"]) + "\n")
        open(os.path.join(ctx.dir, "cfg.dat"), "w").write(F.config_text(g))
        imf.must(ctx.bins["t-multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--fitstat-only", "--nosubsampling", "--max-threads", "1", "--save-params-root", "b"], ctx.dir, timeout=100)
        desc = "multimfit, %d images, %s; %s" % (nim, [[f["name"] for f in s["funcs"]] for s in m["sets"]], "; ".join("scale %r rotation %r flux %r" % ip[:3] for ip in ips[1:]))
        for k in range(nim):
            n_, val, er, h = L.values(os.path.join(ctx.dir, "b_%s.dat" % ("image%d" % (k + 1) if k else "refimage")))
            t = transform(m, ips[k]) if k else m
            want, names = list(Q.vec(t)), Q.names(t)
            for i, n in enumerate(names):
                want[i] += offs[k][0] if n == "X0" else offs[k][1] if n == "Y0" else 0
            if locs[k]:
                want += list(Q.vec(locs[k]))
                names = names + Q.names(locs[k])
            if [{"PA_lon": "PA"}.get(n, n) for n in n_] != names:
                res.bad("files:names", "%s: file of image %d has %s, should have %s" % (desc, k + 1, n_, names))
                return
            for n, a, b in zip(names, val, want):
                if abs(a - b) > (6e-5 if n in ("X0", "Y0") else 6e-6 * abs(b) + 1e-9):
                    res.bad("files:values", "%s: %s saved for image %d is %r, should be %r" % (desc, n, k + 1, a, b))
                    return
            res.seen("parameter_files")
        res.evals += 1
        res.nontrivial(("files", nim, tuple(f["name"] for s in m["sets"] for f in s["funcs"])))

    def k_one(self, r, ctx, res):
        """a description with one image = the single-image program"""
        st = str(r.choice(["data", "model", "err", "cash", "mlr"]))
        P = Q.make(r, stat=st, model="easy", size=(9, 18), nonfinite=r.random() < .2, nsets=int(r.integers(1, 3)))
        if P.valid.sum() < 40:
            return
        if not P.norm:
            P.norm = True
        f = L.make(r, ctx.dir, P, cfg="a.dat", section=False)
        L_ = ["IMAGE_START", "DATA " + f.image]
        if P.psf is not None:
            L_.append("PSF psf.fits")
        if P.maskraw is not None:
            L_.append("MASK mask.fits")
            if P.zbad:
                L_.append("MASK_ZERO_IS_BAD yes")
        if P.err is not None:
            L_.append("ERROR noise.fits")
            L_ += {"sigma": [], "var": ["ERRORS_ARE_VARIANCES yes"], "weight": ["ERRORS_ARE_WEIGHTS yes"]}[P.noise]
        L_ += [x for x in Q.ccd_config(P).splitlines() if x]
        # L.make may put the description of the detector into the config file or on the command line: give it to both programs
        x0, y0 = f.start[0] if len(f.start) else 1, f.start[1]
        L_ += ["X0 %r fixed" % float(x0), "Y0 %r fixed" % float(y0)]
        over = []
        if P.psf is not None and r.random() < .4:
            sc = int(r.integers(2, 4))
            imf.write_fits(os.path.join(ctx.dir, "o.fits"), F.random_psf(r, 7, 9))
            reg = "%d:%d,%d:%d" % (2, r.integers(5, P.nc), 3, r.integers(5, P.nr))
            L_ += ["OVERSAMPLED_PSF o.fits", "OVERSAMPLE_SCALE %d" % sc, "OVERSAMPLED_REGION " + reg]
            over = ["--overpsf", "o.fits", "--overpsf_scale", str(sc), "--overpsf_region", reg]
        open(os.path.join(ctx.dir, "info.dat"), "w").write("\n".join(L_) + "\n")
        body = [ln for ln in f.text.splitlines() if ln.split(None, 1)[:1] and ln.split()[0] not in ("GAIN", "READNOISE", "EXPTIME", "NCOMBINED", "ORIGINAL_SKY", "SKY")]
        open(os.path.join(ctx.dir, "g.dat"), "w").write("\n".join(body) + "\n")
        solver = str(r.choice([s for s in ("lm", "nm", "de", "nl-BOBYQA", "nl-NM", "fitstat") if not (s == "lm" and st == "cash")]))
        com = (["--fitstat-only"] if solver == "fitstat" else L.CLIARG[solver]) + ["--seed", "3", "--max-threads", "1", "--ftol", "1e-4"]
        nosub = r.random() < .5
        sopt = {"data": [], "err": [], "model": ["--model-errors"], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}[st]
        io = [q for q in Q.opts(P) if q != "--no-normalize"]
        a = ["-c", "g.dat", f.image] + io + Q.ccd(P) + over + com + (["--no-subsampling"] if nosub else [])
        b = ["-c", "g.dat", "-i", "info.dat"] + sopt + com + (["--nosubsampling"] if nosub else [])
        imf.must(ctx.bins["t-imfit"], a + ["--save-params", "pa.dat", "--save-model", "ma.fits"], ctx.dir, timeout=150, env={"VERIF_TRACE": "tr-a"})
        imf.must(ctx.bins["t-multimfit"], b + ["--save-params-root", "pb", "--save-model", "mb"], ctx.dir, timeout=150, env={"VERIF_TRACE": "tr-b"})
        A, B = T.read(os.path.join(ctx.dir, "tr-a")), T.read(os.path.join(ctx.dir, "tr-b"))
        desc = "one image, %s, %s%s%s" % (solver, st, " oversampled region" if over else "", " PSF" if P.psf is not None else "")
        if len(A) != len(B) or not A:
            res.bad("one:count", "%s: imfit makes %d evaluations, multimfit %d" % (desc, len(A), len(B)))
            return
        for k, (u, v) in enumerate(zip(A, B)):
            if u[0] != v[0] or not np.array_equal(u[1], v[1]) or not (u[2] == v[2] or (u[2] != u[2] and v[2] != v[2]) or abs(u[2] - v[2]) <= 1e-13 * abs(u[2])):
                res.bad("one:trace", "%s: evaluation %d of %d: imfit %s %s %.17g, multimfit %s %s %.17g" % (desc, k + 1, len(A), u[0], np.asarray(u[1])[:8], u[2], v[0], np.asarray(v[1])[:8], v[2]))
                return
        res.seen("evaluations_compared", len(A))
        if solver != "fitstat":
            # saved results: same values
            na, va, ea, _ = L.values(os.path.join(ctx.dir, "pa.dat"))
            nb, vb, eb, _ = L.values(os.path.join(ctx.dir, "pb_refimage.dat"))
            if na != nb or not np.allclose(va, vb, rtol=1e-12, atol=0):
                res.bad("one:params", "%s: saved parameters %s against %s" % (desc, va, vb))
            mb = [p for p in os.listdir(ctx.dir) if p.startswith("mb") and p.endswith(".fits")]
            if len(mb) != 1:
                res.bad("one:model", "%s: model images saved by multimfit: %s" % (desc, mb))
            else:
                near(res, "one:model", desc + ": saved model", imf.read_fits(os.path.join(ctx.dir, mb[0])), imf.read_fits(os.path.join(ctx.dir, "ma.fits")), 1e-12)
        res.evals += len(A)
        res.nontrivial(("one", solver, st, nosub, bool(over), P.psf is not None, P.maskraw is not None, tuple(f.names), tuple(f.fixed)))

    def k_fit(self, r, ctx, res):
        st = str(r.choice(["data", "model", "err", "cash", "mlr"]))
        S = self.problem(r, ctx, st, mild=True, limits=True)
        if S is None:
            return
        solver = str(r.choice([s for s in ("lm", "lm", "nm", "nl-BOBYQA") if not (s == "lm" and st == "cash")]))
        x = imf.must(ctx.bins["t-multimfit"], ["-c", "cfg.dat", "-i", "info.dat", "--nosubsampling", "--max-threads", "1", "--ftol", "1e-4", "--save-params-root", "b", "--save-model", "m"] + S["args"] + L.CLIARG[solver],
                     ctx.dir, timeout=200, env={"VERIF_TRACE": "tr"})
        desc = self.describe(S) + " " + solver
        tr = T.read(os.path.join(ctx.dir, "tr"))
        ev = [e for e in tr if e[0] == T.FIT]
        if not ev:
            res.bad("fit:none", desc + ": no evaluation was seen")
            return
        v = np.asarray(ev[-1][1])[:len(S["vec"])]   # the parameters are evaluated once more when they are saved
        # every evaluation of the fit is the sum over the images
        for i in r.choice(len(ev), min(6, len(ev)), replace=False):
            p = np.asarray(ev[i][1])
            want, sc = self.total(S, p)
            e = abs(ev[i][2] - want) / (sc + 1e-9)
            res.worst("statistic_relative_error", e)
            if np.isfinite(want) and not e < 1e-9:
                res.bad("fit:sum", "%s: evaluation %d: %.10g, sum over images %.10g at %s" % (desc, i + 1, ev[i][2], want, p))
                return
            res.seen("statistics_summed", S["nim"])
        ms, g = self.models_at(S, v)
        rep = os.path.join(ctx.dir, "b_summary.dat")
        files = [p for p in os.listdir(ctx.dir)]
        for k, (P, mod) in enumerate(zip(S["ims"], ms)):
            c = [p for p in files if re.fullmatch(r"m_%d\.fits" % k, p)]
            if not c:
                res.bad("fit:model-missing", "%s: no saved model of image %d: %s" % (desc, k + 1, sorted(files)))
                return
            if not near(res, "fit:model", desc + ": saved model of image %d" % (k + 1), imf.read_fits(os.path.join(ctx.dir, c[0])), Q.image(P, mod), 1e-5):
                return
        # parameters saved for each image
        names = ["refimage"] + ["image%d" % (k + 1) for k in range(1, S["nim"])]
        for k, nm in enumerate(names):
            p = os.path.join(ctx.dir, "b_%s.dat" % nm)
            if not os.path.exists(p):
                alt = [q for q in files if q.startswith("b_")]
                res.bad("fit:params-missing", "%s: no parameter file for image %d: %s" % (desc, k + 1, alt))
                return
            if os.path.exists(p):
                n_, val, er, h = L.values(p)
                want = Q.vec(transform(g, tuple(v[5 * (k - 1):5 * k])) if k else g)
                if len(val) < len(want):
                    res.bad("fit:params", "%s: %d parameters saved for image %d" % (desc, len(val), k + 1))
                    return
                wn = Q.names(g)
                for j, (a, b) in enumerate(zip(val, want)):
                    tol = 6e-5 if wn[j] in ("X0", "Y0") else 6e-6 * abs(b) + 6e-7
                    if abs(a - b) > tol:
                        res.bad("fit:params", "%s: %s saved for image %d is %r, the best fit has %r" % (desc, wn[j], k + 1, a, b))
                        return
                res.seen("parameter_files", 1)
        if os.path.exists(rep):
            h = re.search(r"Best-fit value:\s*([-+0-9.eE]+)", open(rep).read())
            want, sc = self.total(S, v)
            if h and abs(float(h.group(1)) - want) > 1e-5 * sc + 1e-5:
                res.bad("fit:summary", "%s: summary has best-fit value %s, sum over images at the saved parameters %.9g" % (desc, h.group(1), want))
        res.evals += 1
        res.nontrivial(("fit", st, solver, S["nim"], tuple(bool(l_) for l_ in S["loc"]), tuple(S["fixed"])))


Q_STAT = {"data": "CHI-SQUARE", "model": "CHI-SQUARE", "err": "CHI-SQUARE", "cash": "CASH STATISTIC", "mlr": "POISSON-MLR STATISTIC"}

if __name__ == "__main__":
    sys.exit(vf.main(C()))
