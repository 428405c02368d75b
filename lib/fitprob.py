"""Random fitting problems (files + options) with an independent statement of the noise model,
the mask rules and the fit statistic."""
import os

import numpy as np

import funcs as F
import imf

POS = ["Exponential", "Sersic", "Gaussian", "Moffat", "Exponential_GenEllipse", "Core-Sersic",
       "BrokenExponential", "GaussianRing", "ModifiedKing", "EdgeOnDisk"]
EASY = ["Exponential", "Sersic", "Gaussian", "Moffat"]


class Prob:
    pass


def easy_draw(name, r, size):
    """well-conditioned parameters for a component of an image of the given size"""
    p = dict(PA=float(np.round(r.uniform(10, 170), 2)), ell=float(np.round(r.uniform(.15, .6), 3)))
    I = float("%.4g" % np.exp(r.uniform(np.log(80), np.log(800))))
    s = size / 10.0
    if name == "Exponential":
        p.update(I_0=I, h=float(np.round(r.uniform(1.2, 2.2) * s, 3)))
    elif name == "Sersic":
        p.update(n=float(np.round(r.uniform(.8, 3), 3)), I_e=I / 4, r_e=float(np.round(r.uniform(1.2, 2.5) * s, 3)))
    elif name == "Gaussian":
        p.update(I_0=I, sigma=float(np.round(r.uniform(1, 2) * s, 3)))
    elif name == "Moffat":
        p.update(I_0=I, fwhm=float(np.round(r.uniform(2, 4) * s, 3)), beta=float(np.round(r.uniform(1.5, 4), 3)))
    elif name == "FlatSky":
        return dict(I_sky=float(np.round(r.uniform(5, 60), 3)))
    return p


def make(r, stat=None, masked=None, psf=None, model="pos", size=(8, 40), region=False, nonfinite=None, noise_level=1.0,
         nsets=None, ncomb=True, sky=None, errsigma=None):
    """stat: data|model|err|cash|mlr"""
    P = Prob()
    P.stat = stat or str(r.choice(["data", "model", "err", "cash", "mlr"]))
    P.nc, P.nr = int(r.integers(*size)), int(r.integers(*size))
    P.psf = None
    P.norm = True
    if psf is None:
        psf = r.random() < .5
    if psf:
        P.psf = F.random_psf(r, int(r.integers(1, 10)), int(r.integers(1, 10)))
        P.norm = r.random() < .85
        if not P.norm:
            P.psf = P.psf / P.psf.sum() * r.uniform(.5, 2)
    P.gain = float(r.choice([1.0, float(np.round(r.uniform(.3, 6), 2))]))
    P.rdn = float(r.choice([0.0, float(np.round(r.uniform(.5, 12), 2))]))
    P.exptime = float(r.choice([1.0, 1.0, float(np.round(r.uniform(.5, 30), 1))]))
    P.ncomb = int(r.choice([1, 1, 2, 5])) if ncomb else 1
    P.sky = float(r.choice([0.0, float(np.round(r.uniform(1, 300), 1))])) if sky is None else sky
    for _ in range(50):
        if model == "pos":
            m = F.random_model(r, P.nc, P.nr, nsets or int(r.integers(1, 3)), int(r.integers(1, 3)), POS)
            m["sets"][0]["funcs"].append(dict(name="FlatSky", p=dict(I_sky=float(np.round(r.uniform(2, 40), 2)))))
        elif model == "easy":
            m = dict(sets=[])
            ns = nsets or 1
            for k in range(ns):
                f = str(r.choice(EASY))
                m["sets"].append(dict(x0=float(np.round(r.uniform(.3, .7) * P.nc, 3)), y0=float(np.round(r.uniform(.3, .7) * P.nr, 3)),
                                      funcs=[dict(name=f, p=easy_draw(f, r, min(P.nc, P.nr)))]))
            if r.random() < .7:
                m["sets"][0]["funcs"].append(dict(name="FlatSky", p=easy_draw("FlatSky", r, 10)))
        else:
            m = model
        P.model = m
        im = P.image(m) if hasattr(P, "image") else image(P, m)
        if np.all(np.isfinite(im)) and im.min() + P.sky > 1e-3 and np.abs(im).max() < 1e8:
            break
    P.truth = im
    eg = P.eg = P.gain * P.exptime * P.ncomb
    var = np.maximum(im + P.sky, 0) / eg + P.ncomb * P.rdn ** 2 / eg ** 2
    P.noise = None
    P.err = None
    if P.stat in ("cash", "mlr"):
        d = r.poisson(np.minimum(eg * (im + P.sky), 1e8)) / eg - P.sky
        if noise_level == 0:
            d = im.copy()
    else:
        if P.stat == "err":
            if errsigma is not None:
                sg = np.full(im.shape, float(errsigma))
            else:
                sg = np.sqrt(var + 1e-3) * np.exp(r.normal(0, .3, im.shape))
            P.noise = str(r.choice(["sigma", "var", "weight"]))
            P.sigma_map = sg
            P.err = {"sigma": sg, "var": sg ** 2, "weight": sg ** -2.0}[P.noise]
        else:
            sg = np.sqrt(var)
        d = im + noise_level * sg * r.normal(0, 1, im.shape)
    P.data = d
    P.maskraw = None
    P.zbad = False
    if masked is None:
        masked = r.random() < .5
    if masked:
        mk = r.random(im.shape) < r.uniform(.02, .3)
        if r.random() < .4:
            y, x = int(r.integers(P.nr)), int(r.integers(P.nc))
            mk[y:y + 3, x:x + 4] = True
        P.zbad = r.random() < .4
        raw = np.zeros(im.shape)
        if P.zbad:
            raw = np.where(mk, r.choice([0.0, -1.0, 0.5], size=im.shape), r.choice([1.0, 2.0, 1000.0], size=im.shape))
        else:
            raw = np.where(mk, r.choice([1.0, 255.0, 0.5, 3e4], size=im.shape), r.choice([0.0, 0.0, -2.0], size=im.shape))
        P.maskraw = raw
    P.fixdata(r, nonfinite) if hasattr(P, "fixdata") else fixdata(P, r, nonfinite)
    return P


def fixdata(P, r, nonfinite):
    """valid-pixel bookkeeping; optionally plant non-finite pixels"""
    if nonfinite is None:
        nonfinite = r.random() < .25
    v = np.ones((P.nr, P.nc), bool)
    if P.maskraw is not None:
        if nonfinite and r.random() < .5:
            k = int(r.integers(1, 4))
            P.maskraw.flat[r.integers(0, v.size, k)] = r.choice([np.nan, np.inf, -np.inf], k)
        v &= maskok(P.maskraw, P.zbad)
    if nonfinite:
        k = int(r.integers(1, 5))
        P.data.flat[r.integers(0, v.size, k)] = r.choice([np.nan, np.inf, -np.inf], k)
        if P.err is not None and r.random() < .6:
            bad = {"sigma": [np.nan, 0.0], "var": [np.nan, 0.0, -1.0], "weight": [np.nan, -1.0, np.inf]}[P.noise]
            P.err = P.err.copy()
            P.err.flat[r.integers(0, v.size, k)] = r.choice(bad, k)
    v &= np.isfinite(P.data)
    if P.err is not None:
        with np.errstate(all="ignore"):
            w = {"sigma": 1 / P.err, "var": 1 / np.sqrt(P.err), "weight": np.sqrt(P.err)}[P.noise]
        v &= np.isfinite(w)
        P.w = w
    if P.stat == "data":
        # a pixel with no noise at all is not a valid configuration: give it some flux
        tot = P.data + P.sky
        zero = v & (np.maximum(tot, 0) / P.eg + P.ncomb * P.rdn ** 2 / P.eg ** 2 <= 0)
        P.data[zero] = 1.0
    P.valid = v
    return P


def maskok(raw, zbad):
    with np.errstate(invalid="ignore"):
        return np.isfinite(raw) & ((raw >= 1.0) if zbad else ~(raw > 0.0))


def image(P, m, psf=True):
    if P.psf is not None:
        return F.render_psf(m, P.nc, P.nr, P.psf, P.norm)
    return F.render_points(m, *F.grid(P.nc, P.nr))


def weights(P, im):
    """1/sigma of each valid pixel (0 elsewhere) for model image im"""
    v = P.valid
    if P.stat in ("cash", "mlr"):
        return v.astype(float)
    if P.stat == "err":
        return np.where(v, P.w, 0.0)
    base = P.data if P.stat == "data" else im
    tot = np.where(v, base, 1.0) + P.sky
    if P.stat == "data":
        tot = np.maximum(tot, 0)
    var = tot / P.eg + P.ncomb * P.rdn ** 2 / P.eg ** 2
    with np.errstate(all="ignore"):
        return np.where(v, 1 / np.sqrt(var), 0.0)


def terms(P, im):
    """per-pixel contributions to the fit statistic"""
    v = P.valid
    d = np.where(v, P.data, 0.0)
    if P.stat in ("cash", "mlr"):
        M = P.eg * (im + P.sky)
        Dt = P.eg * (d + P.sky)
        t = M - Dt * np.log(np.where(v, M, 1.0))
        if P.stat == "mlr":
            t = t + np.where(Dt > 0, Dt * np.log(np.where(Dt > 0, Dt, 1.0)) - Dt, 0.0)
        return np.where(v, 2 * t, 0.0)
    return np.where(v, (weights(P, im) * (d - im)) ** 2, 0.0)


def stat(P, im):
    return float(np.sum(terms(P, im)))


def stat_scale(P, im):
    """magnitude against which round-off of the statistic is to be judged"""
    v = P.valid
    if P.stat in ("cash", "mlr"):
        d = np.where(v, P.data, 0.0)
        M = P.eg * (im + P.sky)
        Dt = P.eg * (d + P.sky)
        return float(np.sum(np.where(v, np.abs(M) + np.abs(Dt) * (np.abs(np.log(np.where(v, M, 1.0))) + np.abs(np.log(np.maximum(Dt, 1e-30)))), 0)))
    return stat(P, im)


def opts(P):
    a = []
    if P.psf is not None:
        a += ["--psf", "psf.fits"] + ([] if P.norm else ["--no-normalize"])
    if P.maskraw is not None:
        a += ["--mask", "mask.fits"] + (["--mask-zero-is-bad"] if P.zbad else [])
    if P.err is not None:
        a += ["--noise", "noise.fits"] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[P.noise]
    a += {"data": [], "model": ["--model-errors"], "err": [], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}[P.stat]
    return a


def ccd(P):
    a = []
    if P.gain != 1:
        a += ["--gain", repr(P.gain)]
    if P.rdn:
        a += ["--readnoise", repr(P.rdn)]
    if P.exptime != 1:
        a += ["--exptime", repr(P.exptime)]
    if P.ncomb != 1:
        a += ["--ncombined", str(P.ncomb)]
    if P.sky:
        a += ["--sky", repr(P.sky)]
    return a


def ccd_config(P):
    L = []
    if P.gain != 1:
        L.append("GAIN %r" % P.gain)
    if P.rdn:
        L.append("READNOISE %r" % P.rdn)
    if P.exptime != 1:
        L.append("EXPTIME %r" % P.exptime)
    if P.ncomb != 1:
        L.append("NCOMBINED %d" % P.ncomb)
    if P.sky:
        L.append("ORIGINAL_SKY %r" % P.sky)
    return "\n".join(L)


def write(P, d, pre="", image_pad=None):
    imf.write_fits(os.path.join(d, pre + "d.fits"), P.data)
    if P.psf is not None:
        imf.write_fits(os.path.join(d, pre + "psf.fits"), P.psf)
    if P.maskraw is not None:
        imf.write_fits(os.path.join(d, pre + "mask.fits"), P.maskraw)
    if P.err is not None:
        imf.write_fits(os.path.join(d, pre + "noise.fits"), P.err)


def from_params(ps, dx=0.0, dy=0.0):
    """model from a parsed parameter file"""
    m = dict(sets=[])
    lastx = True
    for n, v, e in ps:
        if n == "X0":
            m["sets"].append(dict(x0=v - dx, y0=None, funcs=[], e={"X0": e}))
        elif n == "Y0":
            m["sets"][-1]["y0"] = v - dy
            m["sets"][-1]["e"]["Y0"] = e
        elif n == "FUNCTION":
            m["sets"][-1]["funcs"].append(dict(name=v, p={}, e={}))
        else:
            m["sets"][-1]["funcs"][-1]["p"][n] = v
            m["sets"][-1]["funcs"][-1]["e"][n] = e
    return m


def vec(m):
    o = []
    for s in m["sets"]:
        o += [s["x0"], s["y0"]]
        for f in s["funcs"]:
            o += [f["p"][k] for k in F.params_of(f["name"])]
    return np.array(o)


def setvec(m, x):
    import copy
    m = copy.deepcopy(m)
    k = 0
    for s in m["sets"]:
        s["x0"], s["y0"] = float(x[k]), float(x[k + 1])
        k += 2
        for f in s["funcs"]:
            for n in F.params_of(f["name"]):
                f["p"][n] = float(x[k])
                k += 1
    return m


def names(m):
    o = []
    for s in m["sets"]:
        o += ["X0", "Y0"]
        for f in s["funcs"]:
            o += F.params_of(f["name"])
    return o


RANGES = {"PA": (-1000, 1000), "ell": (0, .95), "n": (.2, 10), "beta": (.6, 12), "c0": (-1.5, 4), "alpha": (.05, 50), "gamma": (0, 1.5)}


def limit_of(pn, v, wide=True):
    if pn in ("X0", "Y0"):
        return v - 20.0, v + 20.0
    if pn in RANGES:
        return RANGES[pn]
    if pn == "I_sky":
        return -1000.0, 1000.0
    return max(v / 50.0, 1e-6), v * 50.0 + 1e-3
