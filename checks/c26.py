"""C26: fluxes, fractions and magnitudes reported by makeimage are those of the components."""
import re

from common import *
import layout as Y

ANALYTIC = {
    "Exponential": lambda p: 2 * np.pi * p["I_0"] * p["h"] ** 2 * (1 - p["ell"]),
    "Gaussian": lambda p: 2 * np.pi * p["I_0"] * p["sigma"] ** 2 * (1 - p["ell"]),
    "Sersic": lambda p: 2 * np.pi * p["n"] * np.exp(F.bn(p["n"])) * p["I_e"] * p["r_e"] ** 2 * (1 - p["ell"]) * F.special.gamma(2 * p["n"]) / F.bn(p["n"]) ** (2 * p["n"]),
    "PointSource": lambda p: p["I_tot"], "PointSourceRot": lambda p: p["I_tot"],
}


def table(lines):
    """rows (name, flux, magnitude or None, fraction, label) of a table of fluxes"""
    out = []
    on = False
    for ln in lines:
        t = ln.rstrip("\n")
        if re.match(r"#?\s*Component\s+Flux", t):
            on = True
            continue
        if not on or not t.strip() or t.startswith("#"):
            continue
        m = re.match(r"(\S+)\s+(\S+)\s+(---|\S+)\s+(\S+)(?:\s{4}(.*))?$", t)
        if not m:
            break
        try:
            out.append((m[1], float(m[2]), None if m[3] == "---" else float(m[3]), float(m[4]), m[5] or ""))
        except ValueError:
            break
        if m[1] == "Total":
            break
    return out


def same_label(a, b):
    return a.strip() in (b.strip(), b.strip().encode("utf8").decode("latin1"))


class C(Check):
    id = "C26"
    programs = ("makeimage",)
    rule = ("random models (all functions, negative intensities, backgrounds anywhere, point sources, labels) x estimation size x zero point x threads x "
            "subsampling x positions: each reported flux against the analytic total or the summed image of that component alone over the estimation area, and "
            "against the formula; fractions, magnitudes, totals, table on screen and in file; signature = functions, size, options")

    def cases(self, tier, seed):
        return mkcases({"flux": (1500, 12000), "big": (12, 60), "back": (100, 600)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        k = case["kind"]
        nf = int(r.integers(1, 6))
        names = list(F.NAMES2D) + ["PointSource", "PointSourceRot", "FlatSky", "TiltedSkyPlane", "Sersic", "Exponential", "Gaussian"]
        if k == "flux" and r.random() < .25:
            names += sorted(F.IS3D) * 3
        if k == "big":
            names = ["Sersic", "Gaussian", "Exponential", "FlatSky", "Moffat"]
        if k == "back":
            names = ["FlatSky", "TiltedSkyPlane"]
        fs = []
        for _ in range(nf):
            n = str(r.choice(names))
            p = F.draw(n, r)
            if r.random() < .12:
                for q in F.INTENSITY & set(p):
                    if q not in ("I_b",):
                        p[q] = -p[q]
            fs.append(dict(name=n, p=p, label=str(r.choice(Y.LABELS)) if r.random() < .4 else None))
        if k == "back" and r.random() < .5:
            n = str(r.choice(["Sersic", "Moffat", "GaussianRing"]))
            fs.insert(int(r.integers(len(fs) + 1)), dict(name=n, p=F.draw(n, r), label=None))
        sets = []
        for f in fs:
            if not sets or r.random() < .4:
                sets.append(dict(x0=float(np.round(r.uniform(-50, 90), 2)), y0=float(np.round(r.uniform(-50, 90), 2)), funcs=[]))
            sets[-1]["funcs"].append(f)
        m = dict(sets=sets)
        three = any(f["name"] in F.IS3D for f in fs)
        size = 5000 if k == "big" and case["i"] % 3 == 0 else int(r.integers(300, 2500)) if k == "big" else int(r.integers(1, 26)) if three else int(r.choice([1, 2, 3, int(r.integers(4, 150)), int(r.integers(4, 300))]))
        nosub = r.random() < .5 and k != "big"
        zp = None if r.random() < .35 else float(np.round(r.uniform(-5, 35), 3))
        nth = int(r.choice([1, 1, 2, 5]))
        want_print = r.random() < .5
        args = ["--estimation-size", str(size)] if size != 5000 or r.random() < .5 else []
        args += ["--zero-point", repr(zp)] if zp is not None else []
        args += ["--no-subsampling"] if nosub else []
        args += ["--max-threads", str(nth)]
        psf = any(f["name"].startswith("Point") for f in fs) or r.random() < .3
        if psf:
            imf.write_fits(os.path.join(ctx.dir, "psf.fits"), F.random_psf(r, 7, 9))
            args += ["--psf", "psf.fits"]
        head = ""
        if want_print and r.random() < .5:
            size_opt = []
        else:
            size_opt = ["--ncols", "9", "--nrows", "8"]
        open(os.path.join(ctx.dir, "m.dat"), "w").write(F.config_text(m, head=head))
        mode = (["--print-fluxes"] if want_print else []) + (["--save-fluxes", "f.dat"] if not want_print or r.random() < .6 else [])
        x = imf.must(ctx.bins["makeimage"], ["m.dat", "-o", "o.fits"] + size_opt + args + mode, ctx.dir, timeout=300)
        desc = "makeimage %s: %s" % (" ".join(mode + args), [f["name"] for f in fs])
        tabs = []
        if want_print:
            tabs.append(("screen", table(x.out.split("\n"))))
        if "--save-fluxes" in mode:
            tabs.append(("file", table(open(os.path.join(ctx.dir, "f.dat"), encoding="latin1").read().split("\n"))))
        if len(tabs) == 2 and str(tabs[0][1]) != str(tabs[1][1]):
            res.bad("screen-file", "%s: table on the screen %s, in the file %s" % (desc, tabs[0][1], tabs[1][1]))
            return res
        T_ = tabs[0][1]
        if [t[0] for t in T_] != [f["name"] for f in fs] + ["Total"]:
            res.bad("rows", "%s: rows %s" % (desc, [t[0] for t in T_]))
            return res
        c = .5 * size
        want = []
        for i, f in enumerate(fs):
            n, p = f["name"], f["p"]
            if n in F.BACKGROUND:
                w, tol = 0.0, 0.0
                if T_[i][1] != 0.0 or T_[i][3] != 0.0:
                    res.bad("background", "%s: background function %s has flux %r, fraction %r" % (desc, n, T_[i][1], T_[i][3]))
                    return res
            elif n in ANALYTIC:
                w, tol = float(ANALYTIC[n](p)), 1e-6
                res.seen("analytic_totals")
            else:
                # its own image over the estimation area (the area is the pixels of an image of that size)
                one = dict(sets=[dict(x0=c, y0=c, funcs=[dict(f, label=None)])])
                im, _ = makeimage(ctx, F.config_text(one, size, size), "one.fits", ["--no-subsampling"] if nosub else [], name="one.dat", threads=4, timeout=300)
                w, tol = float(np.sum(im, dtype=float)), 2e-6
                tol *= float(np.sum(np.abs(im), dtype=float)) / (abs(w) + 1e-300)
                res.seen("images_summed")
                res.seen("pixels_summed", int(im.size))
                if nosub and n not in F.IS3D and k != "big":
                    X, Yg = F.grid(size, size)
                    with np.errstate(all="ignore"):
                        v = F.VALUE[n](p, X - c, Yg - c)
                    if np.all(np.isfinite(v)) and np.sum(np.abs(v)) > 1e-33 and n not in ("GaussianRingAz", "GaussianRing2Side", "EdgeOnRing2Side", "FerrersBar2D"):
                        d = abs(float(np.sum(v)) - w) / (float(np.sum(np.abs(v))) + 1e-300)
                        res.worst("formula_difference", d)
                        if d > 1e-4:
                            res.bad("formula", "%s: image of %s sums to %.8g, formula to %.8g" % (desc, n, w, float(np.sum(v))))
                            return res
            want.append(w)
            if not abs(T_[i][1] - w) <= (6e-5 + tol) * abs(w) + 1e-36:
                res.bad("flux", "%s: flux of %s (component %d) reported as %r, should be %.6g" % (desc, n, i + 1, T_[i][1], w))
                return res
            res.seen("fluxes_compared")
            if not same_label(T_[i][4], f.get("label") or ""):
                res.bad("label", "%s: label %r of %s printed as %r" % (desc, f.get("label"), n, T_[i][4]))
        tot = float(np.sum(want))
        mag = float(np.sum(np.abs(want)))
        if not abs(T_[-1][1] - tot) <= 6e-5 * abs(tot) + 3e-6 * mag + 1e-36:
            res.bad("total", "%s: total flux %r, components sum to %.6g" % (desc, T_[-1][1], tot))
            return res
        cond = abs(tot) > 1e-3 * mag and abs(tot) > 1e-30
        fsum = 0.0
        for i, w in enumerate(want):
            fr = w / tot if tot != 0 else 0.0
            if not np.isfinite(T_[i][3]):
                res.bad("fraction-nan", "%s: fraction of %s reported as %r" % (desc, fs[i]["name"], T_[i][3]))
                return res
            if cond and not abs(T_[i][3] - fr) <= 6e-6 + 1e-5 * abs(fr) * mag / abs(tot) + (6e-4 * abs(fr) if fr < 1e-4 else 0):
                res.bad("fraction", "%s: fraction of %s reported as %r, should be %.6g" % (desc, fs[i]["name"], T_[i][3], fr))
                return res
            fsum += T_[i][3]
        if cond and mag > 0 and abs(fsum - 1) > 1e-5 * len(want) + 1e-3 * sum(abs(T_[i][3]) for i in range(len(want)) if T_[i][3] < 1e-4):
            res.bad("fraction-sum", "%s: fractions add up to %.6f" % (desc, fsum))
        for i, w in enumerate(want + [tot]):
            if i == len(want) and not cond or 0 < abs(w) < 1e-33 or (w == 0 and i < len(want) and fs[i]["name"] not in F.BACKGROUND):
                continue
            g = T_[i][2]
            if zp is None or not w > 0:
                if g is not None:
                    res.bad("magnitude", "%s: magnitude %r for flux %.6g, zero point %r" % (desc, g, w, zp))
            elif g is None or abs(g - (zp - 2.5 * np.log10(w))) > 1.2e-4 + 1e-4 * (mag / abs(tot) if i == len(want) else 1):
                res.bad("magnitude", "%s: magnitude %r reported for flux %.6g and zero point %r, should be %.4f" % (desc, g, w, zp, zp - 2.5 * np.log10(w)))
                return res
            res.seen("magnitudes_compared")
        res.evals += len(want)
        res.nontrivial((k, tuple(f["name"] for f in fs), size, zp is not None, nosub, nth, tuple(mode)))
        return res


if __name__ == "__main__":
    sys.exit(vf.main(C()))
