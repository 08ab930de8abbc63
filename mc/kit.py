"""Helpers shared by the checks: building collections, observing them, comparing observations.

Only the public interface is used (constructors, methods, attributes named in the documentation).
"""
import itertools
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from . import env, ref

lw = None           # set by setup()
YR = u.yr


def setup(**kw):
    global lw
    lw = env.load(**kw)
    warm()
    return lw


def warm():
    """Run each compiled function once so that no forked branch has to compile it again"""
    import gc
    try:
        s = build(Spec.of("cs", "es", "ce", "ee"))
        s.get_snr(n_step=3)
        s.get_merger_time()
        s.evolve_sources(1 * u.yr)
    except Exception:                   # broken code is for the check to report
        pass
    for L in (2.5e9, 2e9, 1e9):
        ref.psd(PROBE_F, L=L)
    gc.collect()
    gc.freeze()


# ---- sources --------------------------------------------------------------------------------------------
# name -> (m1, m2 [Msun], ecc, dist [kpc], f_orb [Hz]);   class under the default settings (LISA 4 yr, tol 0.05)
POOL = {
    "cs": (0.6, 0.4, 0.0, 1.0, 2e-3),        # circular stationary (white dwarfs)
    "cs2": (10.0, 8.0, 0.0, 8.0, 3e-4),      # circular stationary (black holes)
    "ce": (30.0, 20.0, 0.0, 50.0, 8e-3),     # circular evolving
    "es": (10.0, 5.0, 0.3, 6.0, 2e-4),       # eccentric stationary
    "es2": (1.4, 1.2, 0.55, 3.0, 4e-4),      # eccentric stationary, more harmonics
    "ee": (30.0, 30.0, 0.35, 40.0, 6e-3),    # eccentric evolving
    "nc": (8.0, 7.0, 0.02, 5.0, 5e-4),       # nearly circular: treated as circular, stationary
    "cm": (35.0, 30.0, 0.0, 100.0, 1.6e-2),  # circular, merges within 4 yr
    "em": (35.0, 30.0, 0.25, 100.0, 1.5e-2), # eccentric, merges within 4 yr
}


class Spec:
    """A plain-python description of a set of sources (masses in Msun, distance in kpc, frequency in Hz)"""
    KEYS = ("m1", "m2", "ecc", "dist", "f")

    def __init__(self, rows, weights=None, sky=None):
        self.rows = [tuple(float(x) for x in r) for r in rows]
        self.weights = None if weights is None else [float(w) for w in weights]
        self.sky = None if sky is None else [tuple(float(x) for x in s) for s in sky]   # lon, lat, psi, inc

    @classmethod
    def of(cls, *names, **kw):
        return cls([POOL[n] for n in names], **kw)

    def __len__(self):
        return len(self.rows)

    def take(self, idx):
        return Spec([self.rows[i] for i in idx],
                    None if self.weights is None else [self.weights[i] for i in idx],
                    None if self.sky is None else [self.sky[i] for i in idx])

    def col(self, k):
        return np.array([r[k] for r in self.rows], dtype=float)

    @property
    def m1(self):
        return self.col(0)

    @property
    def m2(self):
        return self.col(1)

    @property
    def ecc(self):
        return self.col(2)

    @property
    def dist(self):
        return self.col(3)

    @property
    def f(self):
        return self.col(4)

    @property
    def mc(self):
        return ref.chirp_mass(self.m1, self.m2)

    def kwargs(self):
        kw = dict(m_1=self.m1 * u.Msun, m_2=self.m2 * u.Msun, ecc=self.ecc, dist=self.dist * u.kpc,
                  f_orb=self.f * u.Hz)
        if self.weights is not None:
            kw["weights"] = np.array(self.weights)
        if self.sky is not None:
            lon, lat, psi, inc = np.array(self.sky).reshape(-1, 4).T
            kw["position"] = SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=self.dist * u.kpc,
                                      frame="barycentrictrueecliptic")
            kw["polarisation"] = psi * u.rad
            kw["inclination"] = inc * u.rad
        return kw


SKY = [(0.3, 0.2, 0.4, 0.5), (2.1, -0.9, 1.1, 1.2), (4.4, 1.1, 2.9, 0.1), (5.9, -0.1, 0.0, 1.5),
       (1.0, 0.7, 1.7, 0.9), (3.3, -1.3, 2.2, 0.3)]


def build(spec, cls="Source", **settings):
    settings.setdefault("interpolate_g", False)
    settings.setdefault("interpolate_sc", True)
    return getattr(lw.source, cls)(**spec.kwargs(), **settings)


# ---- observing ------------------------------------------------------------------------------------------
PROBE_F = np.array([1.2e-7, 3e-6, 5e-5, 2e-4, 3.3e-4, 6.7e-4, 1.3e-3, 2.2e-3, 4.1e-3, 8e-3, 1.9e-2, 0.07, 0.31,
                    0.83, 1.1])
PROBE_E = np.array([0.0, 0.01, 0.05, 0.1, 0.2, 0.35, 0.5, 0.7, 0.85, 0.95])
SI = {"m_1": u.Msun, "m_2": u.Msun, "dist": u.kpc, "f_orb": u.Hz, "inclination": u.rad, "polarisation": u.rad,
      "t_merge": u.Gyr}
PER_SOURCE = ("m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation", "lon", "lat",
              "pdist", "t_merge", "snr", "max_snr_harmonic", "merged")


def val(x, unit):
    if x is None:
        return None
    if unit is None:
        return np.array(x, copy=True)
    return np.array(x.to(unit).value, copy=True)


def canon_setting(v):
    if isinstance(v, u.Quantity):
        return ("q", float("%.12g" % v.si.value), str(v.si.unit))
    if callable(v):
        return ("fn", getattr(v, "tag", id(v)))
    return ("v", v)


def settings_of(src):
    return {k: canon_setting(src.sc_params[k]) for k in sorted(src.sc_params)}


def observe(src, curves=True):
    """Everything the collection reports about itself, as plain values"""
    o = {"class": type(src).__name__, "n_sources": int(src.n_sources), "len": len(src)}
    for k in ("m_1", "m_2", "dist", "f_orb", "inclination", "polarisation", "t_merge"):
        o[k] = val(getattr(src, k), SI[k])
    for k in ("ecc", "weights", "snr", "max_snr_harmonic", "merged"):
        o[k] = val(getattr(src, k), None)
    p = src.position
    o["lon"] = None if p is None else np.atleast_1d(p.lon.to(u.rad).value).copy()
    o["lat"] = None if p is None else np.atleast_1d(p.lat.to(u.rad).value).copy()
    o["pdist"] = None if p is None else np.atleast_1d(p.distance.to(u.kpc).value).copy()
    o["m_c"] = val(src.m_c, u.Msun)
    o["a"] = val(src.a, u.AU)
    for k in ("gw_lum_tol", "stat_tol", "ecc_tol"):
        o[k] = float(getattr(src, k))
    o["n_proc"] = int(src.n_proc)
    o["interpolate_g"], o["interpolate_sc"] = bool(src.interpolate_g), bool(src.interpolate_sc)
    o["settings"] = settings_of(src)
    if curves:
        o["harmonics"] = np.array(src.harmonics_required(PROBE_E))
        o["peak"] = np.array(src.max_strain_harmonic(PROBE_E))
        o["sc"] = None if src.sc is None else src.sc(PROBE_F * u.Hz).to(1 / u.Hz).value
        o["g"] = None if src.g is None else np.array(src.g(np.array([1, 2, 3]), np.array([0.1, 0.2, 0.3])))
    return o


def same(x, y, rtol=0.0, atol=0.0):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype == bool or y.dtype == bool or (rtol == 0 and atol == 0):
            return bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f" and y.dtype.kind == "f"))
        return bool(np.all(close(x, y, rtol, atol)))
    if isinstance(x, float) or isinstance(y, float):
        return bool(close(x, y, rtol, atol)) if rtol or atol else x == y
    return x == y


def close(x, y, rtol=1e-9, atol=0.0):
    x, y = np.asarray(x, float), np.asarray(y, float)
    with np.errstate(invalid="ignore"):
        near = np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y))
        return (near & np.isfinite(x) & np.isfinite(y)) | (x == y) | (np.isnan(x) & np.isnan(y))


def allclose(x, y, rtol=1e-9, atol=0.0):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    return bool(np.all(close(x, y, rtol, atol)))


def diff(a, b, skip=(), rtol=0.0, atol=0.0):
    return [k for k in a if k not in skip and not same(a[k], b[k], rtol, atol)]


def show(o, keys):
    return "; ".join("%s=%r" % (k, o[k]) for k in keys)


# ---- what a freshly built collection would be --------------------------------------------------------------
def rebuild(src, **over):
    """A fresh collection with the same current sources and settings (built through the constructor)"""
    kw = dict(m_1=src.m_1.copy(), m_2=src.m_2.copy(), ecc=np.array(src.ecc), dist=src.dist.copy(),
              f_orb=src.f_orb.copy(), n_proc=src.n_proc, gw_lum_tol=src.gw_lum_tol, stat_tol=src.stat_tol,
              interpolate_g=src.interpolate_g, interpolate_sc=src.interpolate_sc, sc_params=dict(src.sc_params))
    if src.weights is not None:
        kw["weights"] = np.array(src.weights)
    if src.position is not None:
        kw.update(position=SkyCoord(lon=src.position.lon, lat=src.position.lat, distance=src.position.distance,
                                    frame="barycentrictrueecliptic"),
                  polarisation=src.polarisation.copy(), inclination=src.inclination.copy())
    kw.update(over)
    cls = over.pop("cls", type(src)) if "cls" in over else type(src)
    kw.pop("cls", None)
    new = cls(**kw)
    new.merged = np.array(src.merged)
    return new


# ---- noise ------------------------------------------------------------------------------------------------
def resolved(settings):
    """(t_obs seconds, instrument) implied by a settings dictionary"""
    ins = settings["instrument"]
    t = settings["t_obs"]
    t = ref.DEFAULT_T[ins] if isinstance(t, str) else t.to(u.s).value
    return t, ins


def noise_of(settings):
    """f [Hz] -> noise power [1/Hz] implied by a settings dictionary, from the reference model"""
    t, ins = resolved(settings)
    L, cn, approx = settings["L"], settings["confusion_noise"], settings["approximate_R"]
    if ins == "custom":
        fn = settings["custom_psd"]
        return lambda f: fn.plain(np.asarray(f, float), t, L, approx, cn)
    L = L if isinstance(L, str) else L.to(u.m).value
    if callable(cn):
        cn = cn.plain
    return lambda f: ref.psd(np.asarray(f, float), ins, t, L, approx, cn)


class CountingPSD:
    """A user-supplied noise function that counts its calls"""
    def __init__(self, tag, scale=1e-40):
        self.tag, self.scale, self.calls = tag, scale, 0

    def plain(self, f, t, L, approx, cn):
        lf = 1.0 if isinstance(L, str) or L is None else (L if isinstance(L, float) else L.to(u.m).value) / 1e9
        k = 1.0 if isinstance(cn, str) else 2.0
        return self.scale * (1 + (1e-3 / f)**2 + (f / 1e-1)**2) * (t / ref.YR) * lf * (3.0 if approx else 1.0) * k

    def __call__(self, f, t_obs=None, L=None, approximate_R=False, confusion_noise="auto", **kw):
        self.calls += 1
        return self.plain(f.to(u.Hz).value, t_obs.to(u.s).value, L, approximate_R, confusion_noise) / u.Hz


class CountingCN:
    """A user-supplied confusion noise that counts its calls"""
    def __init__(self, tag, scale=1e-40):
        self.tag, self.scale, self.calls = tag, scale, 0

    def plain(self, f, t):
        return self.scale * (1e-3 / f)**0.5 * (t / ref.YR)

    def __call__(self, f, t_obs):
        self.calls += 1
        f = f.to(u.Hz).value if isinstance(f, u.Quantity) else f
        return self.plain(f, t_obs.to(u.s).value) / u.Hz


def product(**dims):
    """All combinations, simplest first, as dictionaries"""
    keys = list(dims)
    for combo in itertools.product(*[dims[k] for k in keys]):
        yield dict(zip(keys, combo))


# ---- call sequences -----------------------------------------------------------------------------------------
def plain_result(x):
    """A result as comparable plain data (exact)"""
    if isinstance(x, (list, tuple)):
        return tuple(plain_result(y) for y in x)
    if isinstance(x, u.Quantity):
        v = np.asarray(x.value)
        return ("q", str(x.unit), v.shape, v.dtype.str, v.tobytes())
    v = np.asarray(x)
    return ("a", v.shape, v.dtype.str, v.tobytes() if v.dtype != object else repr(x))


def sequences(ctx, calls, depth, key="sequence"):
    """Every sequence of `depth` calls from {name: zero-argument function}, in one process: each call must give bit for
    bit what it gives as the very first call of a process (no call may be influenced by earlier ones)."""
    from .explore import in_child
    import pickle
    import tempfile
    first = {}
    for name, fn in calls.items():
        with tempfile.NamedTemporaryFile() as tmp:
            def branch(child, fn=fn, path=tmp.name):
                with open(path, "wb") as f:
                    pickle.dump(plain_result(fn()), f)
            in_child(ctx, branch)
            with open(tmp.name, "rb") as f:
                data = f.read()
        if data:
            first[name] = pickle.loads(data)
        else:
            ctx.fail(key + "." + name, "the call failed on its own")
    for seq in itertools.product(first, repeat=depth):
        for name in seq:
            with ctx.guard("%s.%s" % (key, ">".join(seq))):
                got = plain_result(calls[name]())
                ctx.expect(got == first[name], "%s.%s" % (key, ">".join(seq)),
                           "%s gives another result after the calls before it" % name)
            ctx.transitions += 1
        ctx.traces += 1
        ctx.state((key, seq))
