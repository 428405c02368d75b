"""Independent statements of the image functions' documented formulas (numpy), with parameter
generators, and rendering of whole models on the pixel grid (direct convolution, oversampling,
point sources)."""
import numpy as np
from scipy import special

D = np.pi / 180.0


def _frame(dx, dy, PA):
    t = (PA + 90.0) * D
    c, s = np.cos(t), np.sin(t)
    return dx * c + dy * s, -dx * s + dy * c


def _ell(dx, dy, PA, ell, c0=0.0):
    x, y = _frame(dx, dy, PA)
    y = y / (1.0 - ell)
    if c0 == 0.0:
        return np.hypot(x, y)
    e = c0 + 2.0
    return (np.abs(x) ** e + np.abs(y) ** e) ** (1.0 / e)


def bn(n):
    if n > 0.36:
        return (2 * n - 1.0 / 3 + 4.0 / (405 * n) + 46.0 / (25515 * n ** 2) + 131.0 / (1148175 * n ** 3)
                - 2194697.0 / (30690717750 * n ** 4))
    return 0.01945 - 0.8902 * n + 10.95 * n ** 2 - 19.67 * n ** 3 + 13.43 * n ** 4


def _brexp(r, h1, h2, rb, alpha):
    """log-space, so no overflow: S * exp(-r/h1) * (1+exp(alpha(r-rb)))^((1/alpha)(1/h1-1/h2))"""
    ex = (1.0 / alpha) * (1.0 / h1 - 1.0 / h2)
    return np.exp(-r / h1 + ex * (np.logaddexp(0, alpha * (r - rb)) - np.logaddexp(0, -alpha * rb)))


def _sech_a(z, n, z0):
    """sech^(2/n)(n z / (2 z0)), overflow-free"""
    u = np.abs(n * z / (2 * z0))
    return np.exp((2.0 / n) * (np.log(2.0) - u - np.log1p(np.exp(-2 * u))))


def f_exp(p, dx, dy):
    return p["I_0"] * np.exp(-_ell(dx, dy, p["PA"], p["ell"]) / p["h"])


def f_genexp(p, dx, dy):
    return p["I_0"] * np.exp(-_ell(dx, dy, p["PA"], p["ell"], p["c0"]) / p["h"])


def _sersic(r, n, Ie, re):
    return Ie * np.exp(-bn(n) * ((r / re) ** (1.0 / n) - 1.0))


def f_sersic(p, dx, dy):
    return _sersic(_ell(dx, dy, p["PA"], p["ell"]), p["n"], p["I_e"], p["r_e"])


def f_gensersic(p, dx, dy):
    return _sersic(_ell(dx, dy, p["PA"], p["ell"], p["c0"]), p["n"], p["I_e"], p["r_e"])


def f_coresersic(p, dx, dy):
    r = np.maximum(_ell(dx, dy, p["PA"], p["ell"]), 0.001)
    a, g, n, rb, re = p["alpha"], p["gamma"], p["n"], p["r_b"], p["r_e"]
    b = bn(n)
    lip = np.log(p["I_b"]) - g / a * np.log(2.0) + b * (2.0 ** (1.0 / a) * rb / re) ** (1.0 / n)
    inner = g / a * np.logaddexp(0, a * np.log(rb / r))
    outer = -b * np.exp((np.logaddexp(a * np.log(r), a * np.log(rb)) - a * np.log(re)) / (a * n))
    return np.exp(lip + inner + outer)


def f_brexp(p, dx, dy):
    return p["I_0"] * _brexp(_ell(dx, dy, p["PA"], p["ell"]), p["h1"], p["h2"], p["r_break"], p["alpha"])


def f_brexp2d(p, dx, dy):
    x, z = _frame(dx, dy, p["PA"])
    return p["I_0"] * _brexp(np.abs(x), p["h1"], p["h2"], p["r_break"], p["alpha"]) * np.exp(-np.abs(z) / p["h_z"])


def f_moffat(p, dx, dy):
    a = p["fwhm"] / (2 * np.sqrt(2.0 ** (1.0 / p["beta"]) - 1))
    return p["I_0"] / (1 + (_ell(dx, dy, p["PA"], p["ell"]) / a) ** 2) ** p["beta"]


def f_gauss(p, dx, dy):
    return p["I_0"] * np.exp(-_ell(dx, dy, p["PA"], p["ell"]) ** 2 / (2 * p["sigma"] ** 2))


def f_flat(p, dx, dy):
    return p["I_sky"] + 0 * dx


def f_tilt(p, dx, dy):
    return p["I_0"] + p["m_x"] * dx + p["m_y"] * dy


def f_ring(p, dx, dy):
    return p["A"] * np.exp(-(_ell(dx, dy, p["PA"], p["ell"]) - p["R_ring"]) ** 2 / (2 * p["sigma_r"] ** 2))


def f_ring2(p, dx, dy):
    r = _ell(dx, dy, p["PA"], p["ell"])
    s = np.where(r < p["R_ring"], p["sigma_r_in"], p["sigma_r_out"])
    return p["A"] * np.exp(-(r - p["R_ring"]) ** 2 / (2 * s ** 2))


def f_ringaz(p, dx, dy):
    r = _ell(dx, dy, p["PA"], p["ell"])
    th = np.arctan2(dy, dx) - (p["PA"] + 90) * D
    amin = p["A_min_rel"] * p["A_maj"]
    A = 0.5 * (p["A_maj"] + amin) + 0.5 * (p["A_maj"] - amin) * np.cos(2 * th)
    return A * np.exp(-(r - p["R_ring"]) ** 2 / (2 * p["sigma_r"] ** 2))


def f_king(p, dx, dy):
    r = _ell(dx, dy, p["PA"], p["ell"])
    rt = p["r_t"] if "r_t" in p else p["c"] * p["r_c"]
    a = p["alpha"]
    ct = (1 + (rt / p["r_c"]) ** 2) ** (-1.0 / a)
    vt = (1 + (r / p["r_c"]) ** 2) ** (-1.0 / a)
    with np.errstate(invalid="ignore"):
        v = p["I_0"] * ((vt - ct) / (1 - ct)) ** a
    return np.where(r < rt, v, 0.0)


def f_ferrers2d(p, dx, dy):
    m2 = (_ell(dx, dy, p["PA"], p["ell"], p["c0"]) / p["a_bar"]) ** 2
    with np.errstate(invalid="ignore"):
        v = p["I_0"] * np.maximum(1 - m2, 0) ** p["n"]
    return np.where(m2 > 1, 0.0, v)


def f_eoring(p, dx, dy):
    x, z = _frame(dx, dy, p["PA"])
    s2 = 2 * p["sigma_r"] ** 2
    v = np.exp(-z ** 2 / (2 * p["sigma_z"] ** 2))
    return p["I_0"] * v * (np.exp(-(x - p["r"]) ** 2 / s2) + np.exp(-(x + p["r"]) ** 2 / s2))


def f_eoring2(p, dx, dy):
    x, z = _frame(dx, dy, p["PA"])
    v = np.exp(-z ** 2 / (2 * p["sigma_z"] ** 2))
    si, so, R = p["sigma_r_in"], p["sigma_r_out"], p["r"]
    sl = np.where(x < -R, so, si)      # the component at -R: outer side is x < -R
    sr = np.where(x >= R, so, si)
    return p["I_0"] * v * (np.exp(-(x + R) ** 2 / (2 * sl ** 2)) + np.exp(-(x - R) ** 2 / (2 * sr ** 2)))


def f_eodisk(p, dx, dy):
    x, z = _frame(dx, dy, p["PA"])
    u = np.abs(x) / p["h"]
    with np.errstate(invalid="ignore"):
        rad = np.where(u == 0, 1.0, u * special.k1(np.where(u == 0, 1.0, u)))
    return 2 * p["h"] * p["L_0"] * rad * _sech_a(z, p["n"], p["z_0"])


def f_flatbar(p, dx, dy):
    x, y = _frame(dx, dy, p["PA"])
    q = 1 - p["ell"]
    r = np.hypot(x, y / q)
    rc = np.hypot(x, y)
    with np.errstate(invalid="ignore", divide="ignore"):
        dpa = np.abs(np.arctan(y / x))
        rb = np.where(rc > 0, r / np.where(rc > 0, rc, 1) * p["r_break"], p["r_break"])
    dpa = np.where(np.isnan(dpa), 0.0, dpa)
    m = p["deltaPA_max"] * D
    h2 = np.where(dpa > m, p["h1"], p["h2"] + (p["h1"] - p["h2"]) * (dpa / m) ** 2)
    return p["I_0"] * _brexp(r, p["h1"], h2, rb, p["alpha"])


# ---- 3D: line-of-sight integrals
_GL = {}


def _gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def _integrate(fn, pts, n=64):
    """composite Gauss-Legendre over consecutive breakpoints pts (arrays broadcastable)."""
    xg, wg = _gl(n)
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        h = 0.5 * (b - a)
        m = 0.5 * (a + b)
        for xi, wi in zip(xg, wg):
            tot = tot + wi * h * fn(m + h * xi)
    return tot


def _los(p, dx, dy):
    xp, yp = _frame(dx, dy, p["PA"])
    i = p["inc"] * D
    ci, si = np.cos(i), np.sin(i)
    return xp, yp, ci, si


def _breaks(lim, *special_pts):
    """breakpoints: geometric refinement around each special s, within [-lim, lim]"""
    pts = [-lim + 0 * special_pts[0], lim + 0 * special_pts[0]]
    for s in special_pts:
        for d in (0.0, 0.3, 1.0, 3.0, 10.0, 30.0, 100.0):
            for sg in (-1, 1):
                pts.append(np.clip(s + sg * d, -lim, lim))
    return list(np.sort(np.array(np.broadcast_arrays(*pts)), axis=0))


def _disk3d(p, dx, dy, radial, lim):
    xp, yp, ci, si = _los(p, dx, dy)

    def lum(s):
        yd = yp * ci + s * si
        zd = yp * si - s * ci
        return radial(np.hypot(xp, yd)) * _sech_a(zd, p["n"], p["z_0"])
    # nearest to disk axis: yd = 0 ; nearest to midplane: zd = 0
    sp = []
    if si > 1e-12:
        sp.append(np.clip(-yp * ci / si, -lim, lim))
    if abs(ci) > 1e-12:
        sp.append(np.clip(yp * si / ci, -lim, lim))
    return _integrate(lum, _breaks(lim, *sp), 24)


def f_expdisk3d(p, dx, dy):
    return p["J_0"] * _disk3d(p, dx, dy, lambda R: np.exp(-R / p["h"]), 20 * p["h"])


def f_brexpdisk3d(p, dx, dy):
    return p["J_0"] * _disk3d(p, dx, dy, lambda R: _brexp(R, p["h1"], p["h2"], p["r_break"], p["alpha"]),
                              20 * max(p["r_break"], p["h2"]))


def _objframe(p, pa_deg, xp, yp, ci, si, s):
    yd = yp * ci + s * si
    zd = yp * si - s * ci
    t = pa_deg * D
    return xp * np.cos(t) + yd * np.sin(t), -xp * np.sin(t) + yd * np.cos(t), np.abs(zd)


def f_ring3d(p, dx, dy):
    xp, yp, ci, si = _los(p, dx, dy)
    q = 1 - p["ell"]
    lim = 2 * p["a_ring"]

    def lum(s):
        x, y, z = _objframe(p, p["PA_ring"] + 90, xp, yp, ci, si, s)
        R = np.hypot(x, y / q)
        return p["J_0"] * np.exp(-(R - p["a_ring"]) ** 2 / (2 * p["sigma"] ** 2) - z / p["h_z"])
    sp = [0 * xp]
    if abs(ci) > 1e-12:
        sp.append(np.clip(yp * si / ci, -lim, lim))
    return _integrate(lum, _breaks(lim, *sp), 32)


def f_ferrers3d(p, dx, dy):
    """exact chord through the ellipsoid, then Gauss-Jacobi-like substitution"""
    xp, yp, ci, si = _los(p, dx, dy)
    a, b, c = p["R_bar"], p["q"] * p["R_bar"], p["q_z"] * p["R_bar"]
    t = (p["barPA"] + 90) * D
    ct, st = np.cos(t), np.sin(t)
    # m2(s) = A s^2 + B s + C ; bar major axis along y_bar
    x0 = xp * ct + yp * ci * st
    y0 = -xp * st + yp * ci * ct
    z0 = yp * si
    x1, y1, z1 = si * st, si * ct, -ci
    A = y1 ** 2 / a ** 2 + x1 ** 2 / b ** 2 + z1 ** 2 / c ** 2
    Bq = 2 * (y0 * y1 / a ** 2 + x0 * x1 / b ** 2 + z0 * z1 / c ** 2)
    C = y0 ** 2 / a ** 2 + x0 ** 2 / b ** 2 + z0 ** 2 / c ** 2
    # 1 - m2 = -A (s - s1)(s - s2): integral of (1-m2)^n ds closed form
    disc = Bq ** 2 - 4 * A * (C - 1)
    half = np.sqrt(np.maximum(disc, 0)) / (2 * A)
    n = p["n"]
    # int (A (h^2-u^2))^n du over [-h,h] = A^n h^(2n+1) B(1/2, n+1)
    return p["J_0"] * A ** n * half ** (2 * n + 1) * special.beta(0.5, n + 1)


def f_peanut(p, dx, dy):
    xp, yp, ci, si = _los(p, dx, dy)
    Rx = p["R_bar_x"]
    Ry, Rz = p["q"] * Rx, p["q_z"] * Rx
    lim = 10 * Rx
    cp, cs = p["c_bar_par"], p["c_bar_perp"]

    def lum(s):
        x, y, z = _objframe(p, p["barPA"], xp, yp, ci, si, s)
        g = 2 * p["sigma_peanut"] ** 2
        z0 = Rz + p["A_peanut"] * (np.exp(-((x - p["R_peanut"]) ** 2 + y ** 2) / g)
                                   + np.exp(-((x + p["R_peanut"]) ** 2 + y ** 2) / g))
        Rs = (((np.abs(x) / Rx) ** cs + (np.abs(y) / Ry) ** cs) ** (cp / cs) + (z / z0) ** cp) ** (1 / cp)
        return p["J0_bar"] / np.cosh(Rs) ** 2
    sp = [0 * xp]
    if abs(ci) > 1e-12:
        sp.append(np.clip(yp * si / ci, -lim, lim))
    if si > 1e-12:
        sp.append(np.clip(-yp * ci / si, -lim, lim))
    return _integrate(lum, _breaks(lim, *sp), 24)


# name -> (parameter names in order, function, has PA, is3d, generator)
def _u(r, a, b):
    return float(np.round(r.uniform(a, b), 3))


def _lu(r, a, b):
    return float("%.4g" % np.exp(r.uniform(np.log(a), np.log(b))))


def _pa(r):
    if r.random() < 0.15:
        return float(r.choice([0.0, 45.0, 90.0, 135.0, 180.0, -90.0]))
    return _u(r, -200, 380)


def _e(r):
    return 0.0 if r.random() < 0.1 else _u(r, 0.0, 0.85)


G = {
    "Exponential": ("PA ell I_0 h", f_exp, lambda r: dict(PA=_pa(r), ell=_e(r), I_0=_lu(r, .5, 500), h=_lu(r, .5, 40))),
    "Exponential_GenEllipse": ("PA ell c0 I_0 h", f_genexp, lambda r: dict(PA=_pa(r), ell=_e(r), c0=_u(r, -1, 3), I_0=_lu(r, .5, 500), h=_lu(r, .5, 40))),
    "Sersic": ("PA ell n I_e r_e", f_sersic, lambda r: dict(PA=_pa(r), ell=_e(r), n=_lu(r, .2, 7), I_e=_lu(r, .5, 200), r_e=_lu(r, .7, 40))),
    "Sersic_GenEllipse": ("PA ell c0 n I_e r_e", f_gensersic, lambda r: dict(PA=_pa(r), ell=_e(r), c0=_u(r, -1, 3), n=_lu(r, .2, 7), I_e=_lu(r, .5, 200), r_e=_lu(r, .7, 40))),
    "Core-Sersic": ("PA ell n I_b r_e r_b alpha gamma", f_coresersic, lambda r: dict(PA=_pa(r), ell=_e(r), n=_lu(r, .7, 6), I_b=_lu(r, .5, 200), r_e=_lu(r, 5, 40), r_b=_lu(r, 1, 8), alpha=_lu(r, 1, 40), gamma=_u(r, 0, .9))),
    "BrokenExponential": ("PA ell I_0 h1 h2 r_break alpha", f_brexp, lambda r: dict(PA=_pa(r), ell=_e(r), I_0=_lu(r, .5, 500), h1=_lu(r, 2, 40), h2=_lu(r, 1, 20), r_break=_u(r, 2, 30), alpha=_lu(r, .1, 20))),
    "BrokenExponential2D": ("PA I_0 h1 h2 r_break alpha h_z", f_brexp2d, lambda r: dict(PA=_pa(r), I_0=_lu(r, .5, 500), h1=_lu(r, 2, 40), h2=_lu(r, 1, 20), r_break=_u(r, 2, 30), alpha=_lu(r, .1, 20), h_z=_lu(r, 1, 10))),
    "Moffat": ("PA ell I_0 fwhm beta", f_moffat, lambda r: dict(PA=_pa(r), ell=_e(r), I_0=_lu(r, .5, 500), fwhm=_lu(r, 1.5, 20), beta=_lu(r, .8, 8))),
    "Gaussian": ("PA ell I_0 sigma", f_gauss, lambda r: dict(PA=_pa(r), ell=_e(r), I_0=_lu(r, .5, 500), sigma=_lu(r, .6, 20))),
    "FlatSky": ("I_sky", f_flat, lambda r: dict(I_sky=_u(r, -50, 200))),
    "TiltedSkyPlane": ("I_0 m_x m_y", f_tilt, lambda r: dict(I_0=_u(r, -50, 200), m_x=_u(r, -2, 2), m_y=_u(r, -2, 2))),
    "GaussianRing": ("PA ell A R_ring sigma_r", f_ring, lambda r: dict(PA=_pa(r), ell=_e(r), A=_lu(r, .5, 200), R_ring=_u(r, 0, 20), sigma_r=_lu(r, .7, 8))),
    "GaussianRing2Side": ("PA ell A R_ring sigma_r_in sigma_r_out", f_ring2, lambda r: dict(PA=_pa(r), ell=_e(r), A=_lu(r, .5, 200), R_ring=_u(r, 0, 20), sigma_r_in=_lu(r, .7, 8), sigma_r_out=_lu(r, .7, 8))),
    "GaussianRingAz": ("PA ell A_maj A_min_rel R_ring sigma_r", f_ringaz, lambda r: dict(PA=_pa(r), ell=_e(r), A_maj=_lu(r, .5, 200), A_min_rel=_u(r, 0, 1.5), R_ring=_u(r, 0, 20), sigma_r=_lu(r, .7, 8))),
    "ModifiedKing": ("PA ell I_0 r_c r_t alpha", f_king, lambda r: dict(PA=_pa(r), ell=_e(r), I_0=_lu(r, .5, 500), r_c=_lu(r, 1, 10), r_t=_lu(r, 8, 40), alpha=_lu(r, .7, 4))),
    "ModifiedKing2": ("PA ell I_0 r_c c alpha", f_king, lambda r: dict(PA=_pa(r), ell=_e(r), I_0=_lu(r, .5, 500), r_c=_lu(r, 1, 10), c=_lu(r, 1.5, 10), alpha=_lu(r, .7, 4))),
    "FerrersBar2D": ("PA ell c0 n I_0 a_bar", f_ferrers2d, lambda r: dict(PA=_pa(r), ell=_e(r), c0=_u(r, -1, 3), n=_lu(r, .5, 4), I_0=_lu(r, .5, 500), a_bar=_lu(r, 4, 30))),
    "FlatBar": ("PA ell deltaPA_max I_0 h1 h2 r_break alpha", f_flatbar, lambda r: dict(PA=_pa(r), ell=_e(r), deltaPA_max=_u(r, 5, 80), I_0=_lu(r, .5, 500), h1=_lu(r, 5, 40), h2=_lu(r, 1, 20), r_break=_u(r, 2, 20), alpha=_lu(r, .1, 8))),
    "EdgeOnRing": ("PA I_0 r sigma_r sigma_z", f_eoring, lambda r: dict(PA=_pa(r), I_0=_lu(r, .5, 200), r=_u(r, 0, 20), sigma_r=_lu(r, .7, 8), sigma_z=_lu(r, .7, 8))),
    "EdgeOnRing2Side": ("PA I_0 r sigma_r_in sigma_r_out sigma_z", f_eoring2, lambda r: dict(PA=_pa(r), I_0=_lu(r, .5, 200), r=_u(r, 0, 20), sigma_r_in=_lu(r, .7, 8), sigma_r_out=_lu(r, .7, 8), sigma_z=_lu(r, .7, 8))),
    "EdgeOnDisk": ("PA L_0 h n z_0", f_eodisk, lambda r: dict(PA=_pa(r), L_0=_lu(r, .1, 50), h=_lu(r, 1, 30), n=_lu(r, .5, 200), z_0=_lu(r, .7, 10))),
    "ExponentialDisk3D": ("PA inc J_0 h n z_0", f_expdisk3d, lambda r: dict(PA=_pa(r), inc=_u(r, 0, 90), J_0=_lu(r, .1, 20), h=_lu(r, 3, 20), n=_lu(r, .6, 50), z_0=_lu(r, .7, 5))),
    "BrokenExponentialDisk3D": ("PA inc J_0 h1 h2 r_break alpha n z_0", f_brexpdisk3d, lambda r: dict(PA=_pa(r), inc=_u(r, 0, 90), J_0=_lu(r, .1, 20), h1=_lu(r, 3, 20), h2=_lu(r, 2, 12), r_break=_u(r, 3, 15), alpha=_lu(r, .2, 8), n=_lu(r, .6, 50), z_0=_lu(r, .7, 5))),
    "GaussianRing3D": ("PA inc PA_ring ell J_0 a_ring sigma h_z", f_ring3d, lambda r: dict(PA=_pa(r), inc=_u(r, 0, 90), PA_ring=_u(r, -90, 180), ell=_u(r, 0, .7), J_0=_lu(r, .1, 20), a_ring=_u(r, 5, 15), sigma=_lu(r, 1, 4), h_z=_lu(r, .7, 4))),
    "FerrersBar3D": ("PA inc barPA J_0 R_bar q q_z n", f_ferrers3d, lambda r: dict(PA=_pa(r), inc=_u(r, 0, 90), barPA=_u(r, -90, 180), J_0=_lu(r, .1, 20), R_bar=_u(r, 6, 20), q=_u(r, .2, 1), q_z=_u(r, .2, 1), n=_lu(r, 1, 4))),
    "DattathriPeanut3D": ("PA inc barPA J0_bar R_bar_x q q_z R_peanut A_peanut sigma_peanut c_bar_par c_bar_perp", f_peanut, lambda r: dict(PA=_pa(r), inc=_u(r, 0, 90), barPA=_u(r, -90, 180), J0_bar=_lu(r, .1, 20), R_bar_x=_u(r, 3, 10), q=_u(r, .3, 1), q_z=_u(r, .2, .6), R_peanut=_u(r, 3, 10), A_peanut=_u(r, 0, 3), sigma_peanut=_u(r, 1, 5), c_bar_par=_u(r, 1.5, 3), c_bar_perp=_u(r, 1.5, 3))),
}
PARAMS = {k: v[0].split() for k, v in G.items()}
VALUE = {k: v[1] for k, v in G.items()}
IS3D = {"ExponentialDisk3D", "BrokenExponentialDisk3D", "GaussianRing3D", "FerrersBar3D", "DattathriPeanut3D"}
NAMES2D = [k for k in G if k not in IS3D]
PAD = {"PointSource": ["I_tot"], "PointSourceRot": ["PA", "I_tot"]}
BACKGROUND = {"FlatSky", "TiltedSkyPlane"}
INTENSITY = {"I_0", "I_e", "I_b", "A", "A_maj", "L_0", "J_0", "J0_bar", "I_sky", "I_tot"}
LENGTH = {"h", "h1", "h2", "h_z", "r_e", "r_b", "r_break", "sigma", "sigma_r", "sigma_r_in", "sigma_r_out",
          "sigma_z", "R_ring", "r_c", "r_t", "a_bar", "r", "z_0", "fwhm", "R_bar", "a_ring", "R_bar_x",
          "R_peanut", "A_peanut", "sigma_peanut"}


def params_of(name):
    return PARAMS.get(name) or PAD[name]


def draw(name, r):
    if name == "PointSource":
        return dict(I_tot=_lu(r, 1, 5000))
    if name == "PointSourceRot":
        return dict(I_tot=_lu(r, 1, 5000), PA=_pa(r))
    return G[name][2](r)


# ------------------------------------------------------------------ configurations
# model: {"sets":[{"x0":..,"y0":..,"funcs":[{"name":..,"p":{...},"label":None,"extra":{}}]}]}
def config_text(model, ncols=None, nrows=None, limits=None, head=""):
    """limits: optional function(set_index, func_index or None, pname, value) -> text after value"""
    L = []
    if head:
        L.append(head.rstrip("\n"))
    if ncols:
        L += ["NCOLS %d" % ncols, "NROWS %d" % nrows]
    for si, s in enumerate(model["sets"]):
        for k in ("x0", "y0"):
            t = limits(si, None, k.upper(), s[k]) if limits else ""
            L.append("%s %s %s" % (k.upper(), repr(float(s[k])), t))
        for fi, f in enumerate(s["funcs"]):
            L.append("FUNCTION %s%s" % (f["name"], ("   # LABEL " + f["label"]) if f.get("label") else ""))
            for pn in params_of(f["name"]):
                t = limits(si, fi, pn, f["p"][pn]) if limits else ""
                L.append("%s %s %s" % (pn, repr(float(f["p"][pn])), t))
            if f.get("extra"):
                L.append("OPTIONAL_PARAMS_START")
                L += ["%s %s" % kv for kv in f["extra"].items()]
                L.append("OPTIONAL_PARAMS_END")
    return "\n".join(L) + "\n"


def grid(ncols, nrows, margin=(0, 0)):
    mx, my = margin
    x = np.arange(1 - mx, ncols + mx + 1, dtype=float)
    y = np.arange(1 - my, nrows + my + 1, dtype=float)
    return np.meshgrid(x, y)


def render_points(model, X, Y, skip=("PointSource", "PointSourceRot")):
    im = np.zeros_like(X)
    for s in model["sets"]:
        for f in s["funcs"]:
            if f["name"] in skip:
                continue
            im = im + VALUE[f["name"]](f["p"], X - s["x0"], Y - s["y0"])
    return im


def convolve_direct(big, psf, ncols, nrows, margin, normalise=True):
    """direct linear convolution evaluated on the ncols x nrows core of 'big', which extends the
    image by margin (>= psf half size).  The PSF's centre pixel is (n-1)/2 rounded as documented:
    0-based index floor(n/2)... for odd n the middle."""
    p = np.array(psf, float)
    if normalise:
        p = p / p.sum()
    ph, pw = p.shape
    cy, cx = ph // 2, pw // 2
    mx, my = margin
    out = np.zeros((nrows, ncols))
    for j in range(ph):
        for i in range(pw):
            v = p[j, i]
            if v == 0:
                continue
            y0 = my - (j - cy)
            x0 = mx - (i - cx)
            out += v * big[y0:y0 + nrows, x0:x0 + ncols]
    return out


def render_psf(model, ncols, nrows, psf, normalise=True):
    ph, pw = psf.shape
    m = (pw, ph)
    X, Y = grid(ncols, nrows, m)
    big = render_points(model, X, Y)
    return convolve_direct(big, psf, ncols, nrows, m, normalise)


def random_model(r, ncols, nrows, nsets=None, nfuncs=None, names=None, centre_margin=0.1):
    names = names or NAMES2D
    sets = []
    for _ in range(nsets if nsets else int(r.integers(1, 4))):
        sets.append(dict(
            x0=float(np.round(r.uniform(-centre_margin * ncols, (1 + centre_margin) * ncols), 3)),
            y0=float(np.round(r.uniform(-centre_margin * nrows, (1 + centre_margin) * nrows), 3)),
            funcs=[]))
        for _ in range(nfuncs if nfuncs else int(r.integers(1, 4))):
            n = str(r.choice(names))
            sets[-1]["funcs"].append(dict(name=n, p=draw(n, r)))
    return dict(sets=sets)


def random_psf(r, h, w, asym=True, normalised=False, signed=False):
    y, x = np.mgrid[0:h, 0:w]
    cy, cx = h // 2, w // 2
    s = max(0.6, min(h, w) / 5.0)
    p = np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2 * s * s))
    if asym:
        p = p * (1 + 0.8 * r.random((h, w))) + 0.3 * np.exp(-((x - cx - s) ** 2 + (y - cy - 0.6 * s) ** 2) / (2 * s * s))
    if signed:
        p = p - 0.03 * r.random((h, w)) * p.max()
    p = p * float(r.choice([1.0, 7.3, 0.01]))
    if normalised:
        p = p / p.sum()
    return p
