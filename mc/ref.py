"""Independent reference model of the physics LEGWORK documents.

Plain numpy in SI units, written from the published equations (Peters & Mathews 1963, Peters 1964, Robson+19,
Huang+20, Karnesis+21, Thiele+21, Yagi & Seto 11/17, Cornish & Larson 03).  Imports nothing from /repo.
"""
import numpy as np
from astropy import constants as _c, units as _u
from scipy.integrate import quad, solve_ivp
from scipy.special import jv

G, C = _c.G.si.value, _c.c.si.value
MSUN, AU = _u.Msun.to(_u.kg), _u.AU.to(_u.m)
YR, KPC = _u.yr.to(_u.s), _u.kpc.to(_u.m)
GYR = 1e9 * YR


# ---- elementary relations -------------------------------------------------------------------------------
def chirp_mass(m1, m2):
    return (m1 * m2)**0.6 * (m1 + m2)**-0.2


def g(n, e):
    """Peters & Mathews 1963 Eq. 20, using the recurrences J_{n-1}-J_{n+1}=2J', J_{n-1}+J_{n+1}=2J/e"""
    n, e = np.broadcast_arrays(np.asarray(n, float), np.asarray(e, float))
    x = n * e
    jm2, jm1, j0, jp1, jp2 = (jv(n + k, x) for k in (-2, -1, 0, 1, 2))
    b1 = (jm2 - jp2) - 2 * e * (jm1 - jp1) + 2 * j0 / n
    b2 = (jm2 + jp2) - 2 * j0
    return n**4 / 32.0 * (b1 * b1 + (1 - e * e) * b2 * b2) + n**2 / 24.0 * j0 * j0


def F(e):
    e = np.asarray(e, float)
    return (1 + 73 / 24 * e**2 + 37 / 96 * e**4) * (1 - e * e)**-3.5


def a_of_f(f, m1, m2):
    return np.cbrt(G * (m1 + m2) / (2 * np.pi * f)**2)


def f_of_a(a, m1, m2):
    return np.sqrt(G * (m1 + m2) / a**3) / (2 * np.pi)


def beta(m1, m2):
    return 64 * G**3 * m1 * m2 * (m1 + m2) / (5 * C**5)


def shape(e):
    """a / c_0 as a function of e, Peters 1964 Eq. 5.11"""
    e = np.asarray(e, float)
    return e**(12 / 19) / (1 - e * e) * (1 + 121 / 304 * e * e)**(870 / 2299)


def c0(a, e):
    return a / shape(e)


def fn_dot(mc, f, e, n):
    return 48 * n / (5 * np.pi) * (G * mc)**(5 / 3) / C**5 * (2 * np.pi * f)**(11 / 3) * F(e)


# ---- merger times ---------------------------------------------------------------------------------------
def _integral(e):
    return quad(lambda x: x**(29 / 19) * (1 + 121 / 304 * x * x)**(1181 / 2299) / (1 - x * x)**1.5, 0, e,
                epsabs=0, epsrel=1e-11, limit=400)[0]


def mandel(e):
    """Mandel 2021 fit x LEGWORK's polynomial correction"""
    p = [-1.20317749e+03, 5.67211219e+03, -1.13935479e+04, 1.27306422e+04, -8.66281737e+03, 3.69447796e+03,
         -9.79864734e+02, 1.54873214e+02, -1.32267683e+01, 5.32494018e-01, 9.93382093e-01]
    return (1 + 0.27 * e**10 + 0.33 * e**20 + 0.2 * e**1000) * (1 - e * e)**3.5 / np.polyval(p, e)


def t_merge(a, e, bt, small=0.15, large=1 - 1e-4, exact=True):
    """scalar; Peters 1964 Eq. 5.10, 5.14 and the two limits after it"""
    tc = a**4 / (4 * bt)
    if e == 0.0:
        return tc
    if e < small:
        return c0(a, e)**4 / (4 * bt) * e**(48 / 19)
    if e > large:
        return tc * 768 / 425 * (1 - e * e)**3.5
    if exact:
        return 12 / 19 * c0(a, e)**4 / bt * _integral(e)
    return tc * mandel(e)


def t_merge_true(a, e, bt):
    """no limits: the full Peters integral"""
    return a**4 / (4 * bt) if e == 0 else 12 / 19 * c0(a, e)**4 / bt * _integral(e)


# ---- orbital evolution ----------------------------------------------------------------------------------
def evolve_circ(a, bt, t):
    x = a**4 - 4 * bt * np.asarray(t, float)
    return np.where(x <= 0, 0.0, np.maximum(x, 0.0)**0.25)


def evolve_ecc(a, e, bt, ts, rtol=1e-11):
    """(a, e) at the increasing times ts (ts[0] = 0): integrates de/dt in ln e (Peters 1964 Eq. 5.13)"""
    k = 19 / 12 * bt / c0(a, e)**4

    def rhs(t, y):
        x = np.exp(y[0])
        return [-k * x**(-48 / 19) * (1 - x * x)**1.5 / (1 + 121 / 304 * x * x)**(1181 / 2299)]
    ts = np.asarray(ts, float)
    uniq = np.unique(ts)
    if len(uniq) == 1:
        es = np.full(len(ts), e)
    else:
        sol = solve_ivp(rhs, (uniq[0], uniq[-1]), [np.log(e)], method="DOP853", t_eval=uniq, rtol=rtol,
                        atol=1e-13)
        assert sol.success and len(sol.t) == len(uniq), sol.message
        es = np.exp(sol.y[0])[np.searchsorted(uniq, ts)]
    return c0(a, e) * shape(es), es


def f_circ_later(f, mc, t, e=0.0):
    """frequency after t with e held fixed; nan if merged"""
    x = f**(-8 / 3) - 2**(32 / 3) * np.pi**(8 / 3) / 5 * (G * mc)**(5 / 3) / C**5 * F(e) * t
    with np.errstate(all="ignore"):
        return np.where(x > 0, np.abs(x)**(-3 / 8), np.where(x == 0, np.inf, np.nan))


# ---- strains --------------------------------------------------------------------------------------------
def h0(mc, f, e, n, d, gfun=g):
    """quadrupole strain amplitude in harmonic n"""
    return np.sqrt(2**(28 / 3) / 5) * (G * mc)**(5 / 3) / C**4 * (np.pi * f)**(2 / 3) / d \
        * np.sqrt(np.maximum(gfun(n, e), 0)) / n


def hc(mc, f, e, n, d, gfun=g):
    """characteristic strain in harmonic n: h_c^2 = h_0^2 f_n^2 / fdot_n  (n f)^2/(fdot_n)"""
    return h0(mc, f, e, n, d, gfun) * n * f / np.sqrt(fn_dot(mc, f, e, n))


def D2(theta, phi):
    ct, st = np.cos(theta), np.sin(theta)
    s2, c2 = np.sin(2 * phi), np.cos(2 * phi)
    dp = 3 / 2048 * (487 + 158 * ct**2 + 7 * ct**4 - 162 * s2**2 * (1 + ct**2)**2)
    dx = 3 / 512 * (120 * st**2 + ct**2 + 162 * s2**2 * ct**2)
    dpx = 243 / 512 * ct * s2 * c2 * (1 + ct**2)
    return dp, dx, dpx


def F2(theta, phi, psi):
    dp, dx, dpx = D2(theta, phi)
    c, s = np.cos(2 * psi), np.sin(2 * psi)
    return (0.25 * (c * c * dp - 2 * s * c * dpx + s * s * dx),
            0.25 * (c * c * dx + 2 * s * c * dpx + s * s * dp))


def modulation(lon, lat, psi, inc):
    fp, fx = F2(np.pi / 2 - lat, lon, psi)
    ci = np.cos(inc)
    return 1.25 * (((1 + ci * ci) / 2)**2 * fp + ci * ci * fx)


# ---- noise ----------------------------------------------------------------------------------------------
def _nearest(t, grid):
    """index of the nearest mission length in years (first on ties)"""
    return int(np.argmin(np.abs(t / YR - np.asarray(grid))))


def cn_robson(f, t):
    i = _nearest(t, [0.5, 1, 2, 4])
    al, be, ka, ga, fk = [(0.133, 243., 482., 917., 2.58e-3), (0.171, 292., 1020., 1680., 2.15e-3),
                          (0.165, 299., 611., 1340., 1.73e-3), (0.138, -221., 521., 1680., 1.13e-3)][i]
    # 1 + tanh(x) = 2 / (1 + exp(-2x)), kept in the exponent so that nothing overflows
    return 18e-45 * f**(-7 / 3) * np.exp(-f**al + be * f * np.sin(ka * f) - np.logaddexp(0, -2 * ga * (fk - f)))


def cn_huang(f, t):
    i = _nearest(t, [0.5, 1, 2, 4, 5])
    a = [[-18.6, -1.22, 0.009, -1.87, 0.65, 3.6, -4.6], [-18.6, -1.13, -0.945, -1.02, 4.05, -4.5, -0.5],
         [-18.6, -1.45, 0.315, -1.19, -4.48, 10.8, -9.4], [-18.6, -1.43, -0.687, 0.24, -0.15, -1.8, -3.2],
         [-18.6, -1.51, -0.71, -1.13, -0.83, 13.2, -19.1]][i]
    f = np.asarray(f, float)
    return np.where((f < 1e-4) | (f > 1), 0.0, 10**(2 * np.polyval(a[::-1], np.log10(f / 1e-3))))


def cn_thiele(f, t):
    x = np.log10(f)
    return 10**np.polyval([-3.112634, -44.021504, -233.748834, -554.061115, -540.315450], x) * 4 * YR


def cn_karnesis(f, t):
    y = t / YR
    f1, fk = y**-0.15 * 10**-2.72, y**-0.37 * 10**-2.49
    return 1.15e-44 / 2 * f**(-7 / 3) * np.exp(-(f / f1)**1.56) * (1 + np.tanh((fk - f) / 0.00067))


CN = {"robson19": cn_robson, "huang20": cn_huang, "thiele21": cn_thiele, "karnesis21": cn_karnesis,
      None: lambda f, t: np.zeros_like(np.asarray(f, float))}

_R = {}


def response(f, fstar):
    """Cubic spline through the tabulated R(f/f*)"""
    from scipy.interpolate import splev, splrep
    if "table" not in _R:
        from . import env
        import os
        x, y = np.load(os.path.join(env.PKG, "R.npy"), allow_pickle=True)
        _R["table"] = (np.asarray(x, float), np.asarray(y, float))
    if fstar not in _R:
        x, y = _R["table"]
        _R[fstar] = splrep(x * fstar, y, s=0)
    # no published values beyond the table: the same paper's approximation
    return np.where(f > _R["table"][0][-1] * fstar, approx_response(f, fstar), splev(f, _R[fstar]))


def approx_response(f, fstar):
    return 0.3 / (1 + 0.6 * (f / fstar)**2)


def psd_lisa(f, t, L, approx, cn):
    f = np.asarray(f, float)
    ok = (f >= 1e-7) & (f <= 2.0)
    x = np.where(ok, f, 1e-3)
    fs = C / (2 * np.pi * L)
    poms = (1.5e-11)**2 * (1 + (2e-3 / x)**4)
    pacc = (3e-15)**2 * (1 + (0.4e-3 / x)**2) * (1 + (x / 8e-3)**4)
    R = approx_response(x, fs) if approx else response(x, fs)
    s = (poms + 2 * (1 + np.cos(x / fs)**2) * pacc / (2 * np.pi * x)**4) / L**2 / R + cn(x, t)
    return np.where(ok, s, np.inf)


def psd_tianqin(f, t, L, approx, cn):
    f = np.asarray(f, float)
    fs = C / (2 * np.pi * L)
    return 10 / (3 * L**2) * (4e-30 / (2 * np.pi * f)**4 * (1 + 1e-4 / f) + 1e-24) \
        * (1 + 0.6 * (f / fs)**2) + cn(f, t)


def psd_decigo(f, t, L, approx, cn, lo=1e-3, hi=1e2):
    f = np.asarray(f, float)
    ok = (f >= lo) & (f <= hi)
    x = np.where(ok, f, 1.0)
    r = 1 + (x / 7.36)**2
    s = 6.53e-48 * r + 4.8e-51 * x**-4 / r + 5.33e-52 * x**-4 + cn(x, t)
    return np.where(ok, s, np.inf)


DEFAULT_L = {"LISA": 2.5e9, "TianQin": np.sqrt(3) * 1e8, "DECIGO": None}
DEFAULT_CN = {"LISA": "karnesis21", "TianQin": "huang20", "DECIGO": "karnesis21"}
DEFAULT_T = {"LISA": 4 * YR, "TianQin": 5 * YR, "DECIGO": 5 * YR, "custom": 5 * YR}
PSD = {"LISA": psd_lisa, "TianQin": psd_tianqin, "DECIGO": psd_decigo}


def psd(f, instrument="LISA", t="auto", L="auto", approx=False, cn="auto"):
    t = DEFAULT_T[instrument] if isinstance(t, str) else t
    L = DEFAULT_L[instrument] if isinstance(L, str) else L
    cn = DEFAULT_CN[instrument] if isinstance(cn, str) and cn == "auto" else cn
    cn = CN[cn] if (cn is None or isinstance(cn, str)) else cn
    return PSD[instrument](f, t, L, approx, cn)


# ---- signal to noise ------------------------------------------------------------------------------------
def snr2_stat(mc, f, e, d, t, ns, noise, gfun=g, mod=1.0):
    """per-harmonic SNR^2 of one stationary source; noise(f) -> 1/Hz"""
    ns = np.asarray(ns)
    return mod * h0(mc, f, e, ns, d, gfun)**2 * t / noise(ns * f)


def snr2_evol(mc, d, fs, es, ns, noise, gfun=g):
    """per-harmonic SNR^2 of one source along its evolution fs, es (trapezium rule over the given steps)"""
    out = []
    for n in ns:
        x = n * np.asarray(fs)
        y = hc(mc, np.asarray(fs), np.asarray(es), n, d, gfun)**2 / (x**2 * noise(x))
        out.append(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))
    return np.array(out)
