"""C09: results do not depend on units or container form, and inputs are never modified.

Every public function is called with the same physical input in every combination of units (per argument), every
documented container form (array, strided view, read-only array, big-endian-free copies, one-element array, scalar,
0-d array, list where plain numbers are taken) and compared with the canonical call; every argument is compared with
a snapshot after each call.  Collections are built from every combination too, and every sequence of operations up
to a depth is run on collections that alias the caller's own objects, which must not move.
"""
import copy
import itertools
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from .. import kit, ref
from ..explore import histories

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: all unit x container combinations of every public call against the canonical "
             "call, and all operation sequences up to a depth on collections sharing the caller's objects")
NOTE = ("All combinations of 2-4 units per argument and 4-8 container forms for 40 calls; snapshots of all arguments "
        "around every call; all operation sequences to depth 3 on collections built from the caller's own arrays.")
BOUNDS = {"quick": "42 calls, full unit product (<= 256 per call), 8 containers; collections: unit product of 5 inputs, "
                   "6 containers; aliasing histories depth 2 (all 17 operations), depth 3 (core 6)",
          "thorough": "as quick with up to 4096 unit combinations per call, aliasing histories one deeper"}

UNITS = {
    "mass": [u.Msun, u.kg, u.jupiterMass, u.g], "freq": [u.Hz, u.mHz, 1 / u.yr, 1 / u.s], "dist": [u.kpc, u.Mpc, u.m, u.lyr],
    "len": [u.AU, u.m, u.Rsun, u.km], "time": [u.yr, u.s, u.Myr, u.day], "span": [u.yr, u.Gyr, u.s, u.Myr], "ang": [u.rad, u.deg, u.arcmin, u.hourangle],
    "beta": [u.m**4 / u.s, u.AU**4 / u.yr, u.Rsun**4 / u.Gyr, u.km**4 / u.s], "none": [None],
}


def setup(tier):
    kit.setup()


# ---- values ----------------------------------------------------------------------------------------------------
def plain(x):
    """result -> list of (name, SI array)"""
    if isinstance(x, (list, tuple)):
        return [p for y in x for p in plain(y)]
    if isinstance(x, u.Quantity):
        return [(str(u.get_physical_type(x.unit)), np.array(x.si.value, float))]
    return [("plain", np.array(x, dtype=float))]


def snap(x):
    if isinstance(x, u.Quantity):
        return ("q", x.value.tobytes() if isinstance(x.value, np.ndarray) else float(x.value), str(x.unit), np.shape(x))
    if isinstance(x, np.ndarray):
        return ("a", x.tobytes(), x.dtype.str, x.shape)
    if isinstance(x, SkyCoord):
        return ("s", x.frame.name, snap(np.array(x.spherical.lon.rad)), snap(np.array(x.spherical.lat.rad)),
                snap(np.array(x.spherical.distance.value)))
    if isinstance(x, dict):
        return ("d", sorted((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("l", type(x).__name__, [snap(v) for v in x])
    if callable(x):
        return ("f", id(x))
    return ("v", x)


# ---- containers ------------------------------------------------------------------------------------------------
def strided(v):
    out = np.full((len(v), 3), 7.7, dtype=np.asarray(v).dtype)
    out[:, 1] = v
    return out[:, 1]


def readonly(v):
    v = np.array(v)
    v.setflags(write=False)
    return v


ARRAYS = {"array": np.array, "strided": strided, "readonly": readonly, "reversed": lambda v: np.array(v[::-1])[::-1]}


def wrap(value, unit, form, i):
    """value: 1-d floats; gives all of them or the i-th in the given form"""
    v = np.array(value, copy=True)
    if form in ARRAYS:
        v = ARRAYS[form](v)
    elif form == "list":
        v = v.tolist() if unit is None else np.array(v)
    elif form == "one":
        v = v[i:i + 1].copy()
    elif form == "scalar":
        v = v[i].item()
    elif form == "0d":
        v = np.array(v[i]) if unit is not None else v[i]
    if unit is None:
        return v
    return v << unit if isinstance(v, np.ndarray) else v * unit


# ---- calls -----------------------------------------------------------------------------------------------------
M1, M2 = np.array([30.0, 0.7, 12.0]), np.array([20.0, 0.5, 9.0])
E = np.array([0.3, 0.05, 0.7])
D = np.array([40.0, 1.0, 8.0])
FO = np.array([2e-3, 3e-3, 2e-4])
A = ref.a_of_f(FO, M1 * ref.MSUN, M2 * ref.MSUN) / ref.AU
B = ref.beta(M1 * ref.MSUN, M2 * ref.MSUN)
MC = ref.chirp_mass(M1, M2)
C0 = ref.c0(A, E)
TE = np.array([1.0, 2.5, 0.75])
TM = np.array([ref.t_merge_true(A[i] * ref.AU, E[i], B[i]) for i in range(3)]) / ref.YR
FMG = np.array([1.5e-2, 3e-3, 1.2e-2])                      # (the first and the last merge while observed)
TMG = np.array([ref.t_merge_true(ref.a_of_f(FMG[i], M1[i] * ref.MSUN, M2[i] * ref.MSUN), E[i], B[i]) for i in range(3)]) / ref.YR
LON, LAT, PSI, INC = np.array(kit.SKY[:3]).T
N = np.array([1.0, 2.0, 5.0])
PF = np.array([3e-4, 2e-3, 0.05])


class Call:
    """args: (name, kind, value, per_source): per_source arguments go through every container; others are fixed
    (scalars stay scalars, arrays stay arrays) but still change units"""
    def __init__(self, name, fn, args, extra=None, tol=1e-9, elementwise=True, scalars=True, lists=(), squeeze=True):
        self.name, self.fn, self.args, self.extra = name, fn, args, extra or {}
        self.tol, self.elementwise, self.scalars, self.lists = tol, elementwise, scalars, lists

    def make(self, units, form, i=0):
        kw = {}
        for (name, kind, value, per), unit in zip(self.args, units):
            base = UNITS[kind][0]
            v = np.array(value, copy=True)
            f = form
            if per and form == "list" and name not in self.lists:
                f = "array"
            if base is None:
                kw[name] = wrap(v, None, f, i) if per else copy.deepcopy(value)
                continue
            q = u.Quantity(v, base).to(unit).value
            if per:
                kw[name] = wrap(q, unit, f, i)
            else:
                kw[name] = u.Quantity(q, unit) if np.ndim(value) else q.item() * unit
        kw.update(copy.deepcopy(self.extra))
        return kw


def power(n, e):
    """power factors that undershoot, as an interpolation may"""
    return ref.g(n, e) - 1e-6


def table():
    lw = kit.lw
    U, V, S, P, H = lw.utils, lw.evol, lw.strain, lw.psd, lw.snr
    m1, m2 = ("m_1", "mass", M1, True), ("m_2", "mass", M2, True)
    mc, fo, d = ("m_c", "mass", MC, True), ("f_orb", "freq", FO, True), ("dist", "dist", D, True)
    ecc, eci = ("ecc", "none", E, True), ("ecc_i", "none", E, True)
    foi, ai, be = ("f_orb_i", "freq", FO, True), ("a_i", "len", A, True), ("beta", "beta", B, True)
    te, t1 = ("t_evol", "time", TE, True), ("t_evol", "time", 1.5, False)
    to = ("t_obs", "time", 4.0, False)
    ang = [("theta", "ang", LAT, True), ("phi", "ang", LON, True)]
    psi = ("psi", "ang", PSI, True)
    f = ("f", "freq", PF, True)
    L = ("L", "len", 2e9 / ref.AU, False)
    g = dict(lists=("ecc", "ecc_i", "n"))

    def pos(fn):
        def call(lon, lat, **kw):
            return fn(position=SkyCoord(lon=lon, lat=lat, distance=np.ones(np.shape(lon)) * u.kpc,
                                        frame="barycentrictrueecliptic"), **kw)
        return call
    sky = [("lon", "ang", LON, True), ("lat", "ang", LAT, True), ("polarisation", "ang", PSI, True),
           ("inclination", "ang", INC, True)]
    steps = np.array([0.0, 0.2, 0.7, 1.5])
    yield Call("chirp_mass", U.chirp_mass, [m1, m2])
    yield Call("peters_g", U.peters_g, [("n", "none", N, True), ("e", "none", E, True)])
    yield Call("peters_f", U.peters_f, [("e", "none", E, True)])
    yield Call("get_a_from_f_orb", U.get_a_from_f_orb, [m1, m2, fo])
    yield Call("get_f_orb_from_a", U.get_f_orb_from_a, [m1, m2, ("a", "len", A, True)])
    yield Call("beta", U.beta, [m1, m2])
    yield Call("c_0", U.c_0, [ai, eci])
    yield Call("get_a_from_ecc", U.get_a_from_ecc, [ecc, ("c_0", "len", C0, True)])
    yield Call("fn_dot", U.fn_dot, [mc, fo, ("e", "none", E, True), ("n", "none", N, True)])
    for n in ("D_plus_squared", "D_cross_squared", "D_plus_D_cross"):
        yield Call(n, getattr(U, n), ang)
    for n in ("F_plus_squared", "F_cross_squared"):
        yield Call(n, getattr(U, n), ang + [psi])
    yield Call("get_t_merge_circ(m,f)", V.get_t_merge_circ, [m1, m2, foi])
    yield Call("get_t_merge_circ(beta,a)", V.get_t_merge_circ, [be, ai])
    for exact in (True, False):
        x = {"exact": exact}
        yield Call("get_t_merge_ecc(m,f,%d)" % exact, V.get_t_merge_ecc, [m1, m2, foi, eci], x, **g)
        yield Call("get_t_merge_ecc(m,a,%d)" % exact, V.get_t_merge_ecc, [m1, m2, ai, eci], x, **g)
        yield Call("get_t_merge_ecc(beta,a,%d)" % exact, V.get_t_merge_ecc, [be, ai, eci], x, **g)
    yield Call("t_merge_mandel_fit", V.t_merge_mandel_fit, [eci])
    ov = ["timesteps", "a", "f_orb", "f_GW"]
    for tn, t in (("t_evol", te), ("t_evol1", t1)):
        yield Call("evol_circ(m,f,%s)" % tn, V.evol_circ, [m1, m2, foi, t], {"output_vars": ov, "n_step": 4})
    yield Call("evol_circ(m,a,steps)", V.evol_circ, [m1, m2, ai, ("timesteps", "time", steps, False)], {"output_vars": ov})
    yield Call("evol_circ(beta,a)", V.evol_circ, [be, ai, te], {"output_vars": ["timesteps", "a"], "n_step": 4})
    ove = ["ecc", "timesteps", "a", "f_orb", "f_GW"]
    for avoid in (False, True):
        x = {"output_vars": ove, "n_step": 3, "avoid_merger": avoid}
        tb = [("t_before", "time", 0.3, False)] if avoid else []
        yield Call("evol_ecc(m,f,%d)" % avoid, V.evol_ecc, [m1, m2, foi, eci, t1] + tb, x, tol=1e-6, **g)
        yield Call("evol_ecc(beta,a,%d)" % avoid, V.evol_ecc, [be, ai, eci, te] + tb,
                   dict(x, output_vars=["timesteps", "ecc", "a"]), tol=1e-6, **g)
        yield Call("evol_ecc(steps,%d)" % avoid, V.evol_ecc,
                   [m1, m2, ai, eci, ("timesteps", "time", steps, False)] + tb, x, tol=1e-6, **g)
    yield Call("evol_ecc(t_merge)", V.evol_ecc, [m1, m2, foi, eci, ("t_merge", "span", TM, True), t1,
                                                 ("t_before", "time", 0.3, False)],
               {"output_vars": ["ecc", "f_orb"], "n_step": 3}, tol=1e-6)
    yield Call("evolve_f_orb_circ", V.evolve_f_orb_circ, [foi, mc, t1, eci])
    yield Call("determine_stationarity(m_c)", V.determine_stationarity, [foi, mc, t1, eci])
    yield Call("determine_stationarity(m)", V.determine_stationarity, [foi, m1, m2, t1, eci])
    yield Call("create_timesteps_array", V.create_timesteps_array, [ai, be, eci, te], {"n_step": 4}, scalars=False)
    for n in ("h_0_n", "h_c_n"):
        yield Call(n, getattr(S, n), [mc, fo, ecc, d, ("n", "none", np.array([1, 2, 5]), False)], **g)
        yield Call(n + "(sky)", pos(getattr(S, n)), [mc, fo, d] + sky, {"n": 2, "ecc": np.zeros(3)}, scalars=False)
    yield Call("amplitude_modulation", pos(S.amplitude_modulation), sky)
    yield Call("snr_circ_stationary", H.snr_circ_stationary, [mc, fo, d, to])
    yield Call("snr_circ_stationary(sky)", pos(H.snr_circ_stationary), [mc, fo, d, to] + sky, scalars=False)
    yield Call("snr_ecc_stationary", H.snr_ecc_stationary, [mc, fo, ecc, d, to], {"harmonics_required": 12}, **g)
    yield Call("snr_circ_evolving", H.snr_circ_evolving, [m1, m2, foi, d, to], {"n_step": 4})
    yield Call("snr_circ_evolving(t_merge)", H.snr_circ_evolving, [m1, m2, foi, d, to, ("t_merge", "span", TM, True)],
               {"n_step": 4})
    yield Call("snr_ecc_evolving", H.snr_ecc_evolving, [m1, m2, foi, d, ecc, to],
               {"n_step": 3, "harmonics_required": 4}, tol=1e-6, **g)
    yield Call("snr_ecc_evolving(t_merge)", H.snr_ecc_evolving,
               [m1, m2, foi, d, ecc, to, ("t_merge", "span", TM, True)],
               {"n_step": 3, "harmonics_required": 4}, tol=1e-6, **g)
    fm, tmg = ("f_orb_i", "freq", FMG, True), ("t_merge", "span", TMG, True)
    x = {"n_step": 3, "harmonics_required": 4}
    yield Call("snr_circ_evolving(merging)", H.snr_circ_evolving, [m1, m2, fm, d, to], {"n_step": 4}, tol=1e-6)
    yield Call("snr_circ_evolving(merging,t_merge)", H.snr_circ_evolving, [m1, m2, fm, d, to, tmg], {"n_step": 4}, tol=1e-6)
    yield Call("snr_ecc_evolving(merging)", H.snr_ecc_evolving, [m1, m2, fm, d, ecc, to], x, tol=1e-5, **g)
    yield Call("snr_ecc_evolving(merging,t_merge)", H.snr_ecc_evolving, [m1, m2, fm, d, ecc, to, tmg], x, tol=1e-5, **g)
    yield Call("evol_ecc(merging,t_merge)", V.evol_ecc, [m1, m2, fm, eci, tmg, ("t_evol", "time", 4.0, False), ("t_before", "time", 0.3, False)],
               {"output_vars": ["timesteps", "ecc", "f_orb"], "n_step": 7}, tol=1e-5, **g)
    for n in ("h_0_n", "h_c_n"):
        yield Call(n + "(interpolated)", getattr(S, n), [mc, fo, ("ecc", "none", np.array([0.3, 5e-5, 0.02]), True), d,
                                                         ("n", "none", np.array([1, 2, 5]), False)], {"interpolated_g": power}, **g)
    for ins in ("LISA", "TianQin", "DECIGO"):
        yield Call("power_spectral_density(%s)" % ins, P.power_spectral_density, [f, L, to], {"instrument": ins})
    def own(f, L, t_obs, approximate_R, confusion_noise):
        return (f.to(u.Hz) / u.Hz**2 * 1e-40 + 1e-60 * L.to(u.m).value * t_obs.to(u.s).value / u.Hz).to(1 / u.Hz)
    yield Call("power_spectral_density(custom)", P.power_spectral_density, [f, L, to], {"instrument": "custom", "custom_psd": own, "confusion_noise": None})
    yield Call("power_spectral_density(approx)", P.power_spectral_density, [f, L, to], {"approximate_R": True})
    yield Call("lisa_psd", P.lisa_psd, [f, L, to])
    yield Call("tianqin_psd", P.tianqin_psd, [f, L, to])
    yield Call("decigo_psd", P.decigo_psd, [f, to, ("f_low", "freq", 1e-3, False), ("f_high", "freq", 0.02, False)])
    for m in ("robson19", "huang20", "karnesis21", "thiele21", None):
        yield Call("get_confusion_noise(%s)" % m, P.get_confusion_noise, [f, to], {"model": m})
    for m in ("robson19", "huang20", "karnesis21"):
        yield Call("get_confusion_noise_" + m, getattr(P, "get_confusion_noise_" + m), [f, to])
    yield Call("get_confusion_noise_thiele21", P.get_confusion_noise_thiele21, [f])


def same(got, want, tol):
    if len(got) != len(want):
        return "%d results, expected %d" % (len(got), len(want))
    for k, ((gk, gv), (wk, wv)) in enumerate(zip(got, want)):
        if gk != wk:
            return "result %d has dimensions %s, expected %s" % (k, gk, wk)
        if gv.shape != wv.shape:
            return "result %d has shape %s, expected %s" % (k, gv.shape, wv.shape)
        if not np.all(kit.close(gv, wv, tol, 0)):
            return "result %d is %r, expected %r" % (k, gv, wv)
    return None


def run_call(ctx, c, key, units, form, i, want, exact_shape=True):
    kw = c.make(units, form, i)
    before = {k: snap(v) for k, v in kw.items()}
    with ctx.guard(key):
        got = plain(c.fn(**kw))
        if not exact_shape:
            # the single-source result: the i-th row of the whole, however many unit axes it keeps
            got = [(k, v.reshape(-1)) for k, v in got]
            want = [(k, v.reshape(-1)) for k, v in want]
        msg = same(got, want, c.tol)
        ctx.expect(msg is None, key, msg)
    changed = [k for k, v in kw.items() if snap(v) != before[k]]
    ctx.expect(not changed, key + ".inputs", lambda: "the caller's %s changed" % ", ".join(changed))
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state((c.name, key))


def call_unit(name, tier):
    cap = 256 if tier == "quick" else 4096

    def run(ctx):
        c = next(c for c in table() if c.name == name)
        kinds = [a[1] for a in c.args]
        first = [UNITS[k][0] for k in kinds]
        want = plain(c.fn(**c.make(first, "array")))
        ctx.expect(all(np.all(~np.isnan(v)) for _, v in want), "canonical", "nan in the canonical result")
        # containers (canonical units and one other unit for each argument at once)
        last = [UNITS[k][-1] for k in kinds]
        for un, units in (("first", first), ("last", last)):
            for form in list(ARRAYS) + ["list"]:
                run_call(ctx, c, "%s.%s" % (form, un), units, form, 0, want)
            if any(a[3] for a in c.args):
                for i in range(3):
                    rows = [(k, v[i]) for k, v in want]
                    forms = ["scalar", "0d"] if c.scalars else []
                    if c.name.endswith("(sky)") or "steps" in c.name and False:
                        forms = []
                    for form in forms:
                        run_call(ctx, c, "%s.%s.%d" % (form, un, i), units, form, i, rows, exact_shape=False)
                    if "(sky)" not in c.name:
                        run_call(ctx, c, "one.%s.%d" % (un, i), units, "one", i,
                                 [(k, v[i:i + 1]) for k, v in want], exact_shape=True)
        # the same call again: nothing was left behind
        run_call(ctx, c, "again", first, "array", 0, want)
        # every combination of units
        per = 4
        while np.prod([min(per, len(UNITS[k])) for k in kinds]) > cap and per > 2:
            per -= 1
        combos = list(itertools.product(*[UNITS[k][:per] for k in kinds]))
        if len(combos) > cap:
            combos = combos[:cap]
        for units in combos:
            run_call(ctx, c, "units:" + ",".join(str(x) for x in units), units, "array", 0, want)
    return run


# ---- collections -------------------------------------------------------------------------------------------------
SOURCES = ("cs", "ee", "es", "cm")


def collection(units, form, a=False, sky=False, pos_frame=None, ints=False):
    names = ("cs", "ce", "cs2", "cm") if sky else SOURCES
    spec = kit.Spec.of(*names, sky=kit.SKY[:4] if sky else None, weights=[1.0, 2.0, 3.0, 4.0])
    um, uf, ud, ua, ul = units
    um, um2 = um if isinstance(um, tuple) else (um, um)

    def q(v, base, unit):
        v = u.Quantity(np.array(v), base).to(unit).value
        return wrap(v, None, form, 0) << unit if form in ARRAYS else \
            u.Quantity(v.tolist(), unit)

    def p(v):
        return wrap(np.array(v), None, form, 0)
    kw = dict(m_1=q(spec.m1, u.Msun, um), m_2=q(spec.m2, u.Msun, um2), dist=q(spec.dist, u.kpc, ud),
              ecc=p(spec.ecc), weights=p(spec.weights))
    if a:
        sep = ref.a_of_f(spec.f, spec.m1 * ref.MSUN, spec.m2 * ref.MSUN)
        kw["a"] = q(sep, u.m, ul)
    else:
        kw["f_orb"] = q(spec.f, u.Hz, uf)
    if sky:
        lon, lat, psi, inc = np.array(spec.sky).T
        kw["polarisation"], kw["inclination"] = q(psi, u.rad, ua), q(inc, u.rad, ua)
        kw["position"] = SkyCoord(lon=q(lon, u.rad, ua), lat=q(lat, u.rad, ua), distance=kw["dist"],
                                  frame="barycentrictrueecliptic")
    kw["sc_params"] = {"t_obs": (3 * u.yr).to(u.day), "L": (2e9 * u.m).to(u.km)}
    return kw


def results(s):
    o = kit.observe(s, curves=False)
    out = {k: o[k] for k in ("m_1", "m_2", "dist", "f_orb", "ecc", "weights", "m_c", "a", "lon", "lat", "inclination",
                             "polarisation", "ecc_tol")}
    out["h0"] = s.get_h_0_n([1, 2, 3])
    out["hc"] = s.get_h_c_n(2)
    out["mask"] = s.get_source_mask(circular=True, stationary=True)
    out["tm"] = s.get_merger_time().to(u.yr).value
    out["snr"] = s.get_snr(n_step=4)
    out["snr9"] = s.get_snr(t_obs=9 * u.yr, n_step=3)
    out["loud"] = s.max_snr_harmonic
    s.evolve_sources(np.array([0.1, 0.5, 1.0, 1.5]) * u.yr)
    out["f2"], out["e2"], out["merged"] = s.f_orb.to(u.Hz).value, s.ecc, s.merged
    out["t2"] = s.t_merge.to(u.yr).value
    return out


def collections_unit(a, sky, tier):
    def run(ctx):
        base = [u.Msun, u.Hz, u.kpc, u.rad, u.m]
        want = results(kit.lw.source.Source(interpolate_g=False, **collection(base, "array", a, sky)))
        alts = [UNITS["mass"][:3], [u.Hz] if a else UNITS["freq"][:3], UNITS["dist"][:3],
                UNITS["ang"][:3] if sky else [u.rad], UNITS["len"][:3] if a else [u.m]]
        combos = [(c, "array") for c in itertools.product(*alts)]
        combos += [([pair] + [x[-1] for x in alts[1:]], "array") for pair in itertools.permutations(UNITS["mass"], 2)]
        combos += [(base, f) for f in list(ARRAYS) + ["list"]]
        combos += [([x[-1] for x in alts], f) for f in list(ARRAYS) + ["list"]]
        for units, form in combos:
            key = "%s:%s" % (form, ",".join(map(str, units)))
            kw = collection(units, form, a, sky)
            before = {k: snap(v) for k, v in kw.items()}
            with ctx.guard(key):
                got = results(kit.lw.source.Source(interpolate_g=False, **kw))
                bad = [k for k in want if not kit.same(want[k], got[k], 1e-6)]
                ctx.expect(not bad, key, lambda: "; ".join("%s is %r, expected %r" % (k, got[k], want[k]) for k in bad[:3]))
            changed = [k for k, v in kw.items() if snap(v) != before[k]]
            ctx.expect(not changed, key + ".inputs", lambda: "the caller's %s changed" % ", ".join(changed))
            ctx.transitions += 8
            ctx.traces += 1
            ctx.state((a, sky, key))
    return run


def settings_unit(ctx):
    """times, arm lengths etc. of requests in every unit, on one collection"""
    def fresh():
        return kit.build(kit.Spec.of("cs", "ee", "es", "cm", "ce"))
    want = None
    for ut, ul in itertools.product(UNITS["time"], UNITS["len"]):
        key = "%s,%s" % (ut, ul)
        with ctx.guard(key):
            s = fresh()
            t, L = (3 * u.yr).to(ut), (2e9 * u.m).to(ul)
            got = {"snr": s.get_snr(t_obs=t, L=L, n_step=4), "again": s.get_snr(n_step=4),
                   "stat": s.get_snr_stationary(t_obs=t, L=L), "evol": s.get_snr_evolving(t_obs=t, L=L, n_step=4),
                   "mask": s.get_source_mask(stationary=True, t_obs=t),
                   "sc": s.sc((kit.PROBE_F * u.Hz).to(u.mHz)).to(1 / u.Hz).value}
            s2 = s.evolve_sources((1 * u.yr).to(ut), create_new_class=True)
            got["f"], got["e"], got["t"] = s2.f_orb.to(u.Hz).value, s2.ecc, s2.t_merge.to(u.s).value
            s3 = kit.build(kit.Spec.of("cs", "ee", "es", "cm", "ce"), sc_params={"t_obs": t, "L": L})
            got["set"] = s3.get_snr(n_step=4)
            s3.sc_params["t_obs"] = (5 * u.yr).to(ut)
            got["set5"] = s3.get_snr(n_step=4)
            want = want or got
            bad = [k for k in want if not kit.same(want[k], got[k], 1e-6)]
            ctx.expect(not bad, key, lambda: "; ".join("%s is %r, expected %r" % (k, got[k], want[k]) for k in bad[:3]))
        ctx.transitions += 9
        ctx.traces += 1
        ctx.state(key)


def functions_unit(ctx):
    """noise and confusion functions of the user's own that answer in any unit of inverse frequency"""
    P = kit.lw.psd
    f = kit.PROBE_F * u.Hz

    def answer(x, kind, un):
        x = x.to(u.Hz).value if isinstance(x, u.Quantity) else np.asarray(x)
        v = (1e-40 * (1 + (1e-3 / x)**2) if kind == "psd" else 3e-39 * (1e-3 / x)**0.5) / u.Hz
        return v.to(un)
    for kind, ins in (("psd", "custom"), ("cn", "LISA"), ("cn", "TianQin"), ("cn", "DECIGO")):
        want = None
        for un in (1 / u.Hz, 1 / u.mHz, u.s, u.ms, 1 / u.kHz, u.yr):
            key = "%s.%s.%s" % (kind, ins, un)
            par = {"instrument": ins}
            if kind == "psd":
                par["custom_psd"] = lambda f, t_obs, L, approximate_R, confusion_noise, un=un: answer(f, "psd", un)
            else:
                par["confusion_noise"] = lambda f, t_obs, un=un: answer(f, "cn", un)
            with ctx.guard(key):
                direct = P.power_spectral_density(f, **par)
                got = {"psd": direct.to(1 / u.Hz).value, "one": P.power_spectral_density(2e-3 * u.Hz, **par).to(1 / u.Hz).value}
                for isc in (False, True):
                    s = kit.build(kit.Spec.of("cs", "ee", "es", "cm", "ce"), interpolate_sc=isc, sc_params=par)
                    got["snr%d" % isc] = s.get_snr(n_step=4)
                    s = kit.build(kit.Spec.of("cs", "ee", "es", "cm", "ce"), interpolate_sc=isc)
                    got["call%d" % isc] = s.get_snr(n_step=4, **par)
                    if isc:
                        got["sc"] = s.sc(f).to(1 / u.Hz).value
                want = want or got
                bad = [k for k in want if not kit.same(want[k], got[k], 1e-9)]
                ctx.expect(not bad, key, lambda: "; ".join("%s is %r, expected %r" % (k, got[k], want[k]) for k in bad[:3]))
            ctx.transitions += 7
            ctx.traces += 1
            ctx.state(key)


def single_unit(ctx):
    """A collection of one source given as scalars, 0-d or one-element arrays: the single-source result"""
    for name, sky in itertools.product(("cs", "ce", "es", "ee", "cm", "em"), (False, True)):
        m1, m2, e, d, f = kit.POOL[name]
        if sky and e > 0:
            continue
        want = None
        for form, un in itertools.product(("one", "scalar", "0d", "list1"), range(4)):
            key = "%s.%d.%s.%d" % (name, sky, form, un)
            um, uf, ud, ua = (UNITS[k][un] for k in ("mass", "freq", "dist", "ang"))
            wr = {"one": lambda v: np.array([v]), "scalar": float, "0d": np.array, "list1": lambda v: [v]}[form]
            kw = dict(m_1=wr((m1 * u.Msun).to(um).value) * um, m_2=wr((m2 * u.Msun).to(um).value) * um,
                      dist=wr((d * u.kpc).to(ud).value) * ud, f_orb=wr((f * u.Hz).to(uf).value) * uf, ecc=e if form in ("scalar", "0d") else wr(e))
            if sky:
                kw.update(position=SkyCoord(lon=wr((0.3 * u.rad).to(ua).value) * ua, lat=wr((0.2 * u.rad).to(ua).value) * ua, distance=wr(d) * u.kpc,
                                            frame="barycentrictrueecliptic"),
                          polarisation=wr((0.4 * u.rad).to(ua).value) * ua, inclination=wr((0.5 * u.rad).to(ua).value) * ua)
            before = {k: snap(v) for k, v in kw.items()}
            with ctx.guard(key):
                s = kit.lw.source.Source(interpolate_g=False, **kw)
                o = kit.observe(s, curves=False)
                got = {k: o[k] for k in ("m_1", "m_2", "dist", "f_orb", "ecc", "m_c", "a", "n_sources")}
                got["h0"], got["tm"], got["snr"] = s.get_h_0_n([1, 2]), s.get_merger_time().to(u.yr).value, s.get_snr(n_step=4)
                s.evolve_sources(0.1 * u.yr)
                got["f"], got["e"] = s.f_orb.to(u.Hz).value, s.ecc
                want = want or got
                bad = [k for k in want if not kit.same(want[k], got[k], 1e-6)]
                ctx.expect(not bad, key, lambda: "; ".join("%s %r, expected %r" % (k, got[k], want[k]) for k in bad[:3]))
            ctx.expect(all(snap(v) == before[k] for k, v in kw.items()), key + ".inputs", "the caller's inputs changed")
            ctx.transitions += 6
            ctx.traces += 1
            ctx.state(key)


# ---- aliasing histories ------------------------------------------------------------------------------------------
class World:
    def __init__(self, kind):
        sky = kind == "sky"
        names = ("cs", "ce", "cs2", "cm") if sky else SOURCES
        spec = kit.Spec.of(*names, sky=kit.SKY[:4] if sky else None, weights=[1.0, 2.0, 3.0, 4.0])
        self.given = spec.kwargs()
        self.given["sc_params"] = {"t_obs": 3 * u.yr, "confusion_noise": "robson19"}
        self.mask = np.array([True, False, True, True])
        self.times = np.array([0.2, 0.1, 0.3, 0.4]) * u.yr
        self.harmonics = np.array([1, 2, 3])
        self.ind = np.array([2, 0])
        self.extra = dict(mask=self.mask, times=self.times, harmonics=self.harmonics, ind=self.ind, list=[0, 1],
                          new={"instrument": "TianQin"})
        self.s = kit.lw.source.Source(interpolate_g=False, **self.given)
        self.part = None
        self.results = []
        self.before = self.snapshot()
        self.ref_snr = None

    def snapshot(self):
        return {k: snap(v) for k, v in list(self.given.items()) + list(self.extra.items())}


def op(fn):
    OPS.append((fn.__name__, fn))
    return fn


OPS = []


@op
def evolve(w, ctx):
    w.s.evolve_sources(0.3 * u.yr)


@op
def evolve_each(w, ctx):
    w.s.evolve_sources(w.times)


@op
def evolve_new(w, ctx):
    if w.part is not None and w.part.n_sources != 4:
        return False
    w.part = w.s.evolve_sources(w.times, create_new_class=True)


@op
def snr(w, ctx):
    w.s.get_snr(n_step=3)


@op
def snr_mask(w, ctx):
    w.s.get_snr(n_step=3, which_sources=w.mask)


@op
def snr_stat(w, ctx):
    w.s.get_snr_stationary(which_sources=w.mask)


@op
def snr_evol(w, ctx):
    w.s.get_snr_evolving(which_sources=w.mask, n_step=3)


@op
def times(w, ctx):
    w.s.get_merger_time()


@op
def times_part(w, ctx):
    w.s.get_merger_time(which_sources=w.mask, save_in_class=False)


@op
def strains(w, ctx):
    w.s.get_h_0_n(w.harmonics, which_sources=w.mask)
    w.s.get_h_c_n(w.harmonics)


@op
def take(w, ctx):
    w.part = w.s[w.ind]
    w.s[w.mask], w.s[w.extra["list"]]


@op
def part_changes(w, ctx):
    if w.part is None:
        return False
    p = w.part
    p.sc_params["t_obs"] = 1 * u.yr
    p.get_snr(n_step=3)
    p.evolve_sources(0.2 * u.yr)


@op
def set_params(w, ctx):
    w.s.sc_params = w.extra["new"]


@op
def update_params(w, ctx):
    w.s.sc_params.update(w.extra["new"])
    w.s.sc_params["L"] = 1e9 * u.m


@op
def set_a(w, ctx):
    w.s.a = w.s.a * 1.1


@op
def new_snr_settings(w, ctx):
    w.s.get_snr(t_obs=2 * u.yr, L=2e9 * u.m, confusion_noise=None, n_step=3)


@op
def tolerances(w, ctx):
    w.s.gw_lum_tol = 0.01
    w.s.stat_tol = 0.1


def check(w, ctx):
    ctx.evaluations += 1
    now = w.snapshot()
    bad = [k for k in now if now[k] != w.before[k]]
    ctx.expect(not bad, "inputs", lambda: "the caller's %s changed" % ", ".join(bad))
    # defaults are not shared: a collection built now with no settings has the documented ones
    if len(ctx.path) >= 1:
        s = kit.build(kit.Spec.of("cs"), interpolate_sc=False)
        ctx.expect(kit.settings_of(s) == kit.settings_of(SimpleDefaults), "defaults",
                   lambda: "a new collection starts with %r" % dict(s.sc_params))


class SimpleDefaults:
    sc_params = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False,
                 "confusion_noise": "auto"}


CORE = ("evolve", "evolve_each", "snr_mask", "take", "part_changes", "update_params")


def alias_unit(kind, first, ops, depth):
    def run(ctx):
        w = World(kind)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, ops, check, depth - 1, canon=lambda w: (kind, kit.observe(w.s, curves=False).__repr__()))
    return run


def output_vars_unit(ctx):
    """The caller's lists of wanted quantities survive (and so do the functions' defaults)"""
    V = kit.lw.evol
    kw = dict(m_1=M1 * u.Msun, m_2=M2 * u.Msun, f_orb_i=FO * u.Hz, t_evol=1 * u.yr, n_step=3)
    first = V.evol_ecc(ecc_i=E, avoid_merger=False, **kw)
    for vars_ in ("a", ["a"], ("ecc", "a"), ["ecc", "f_GW"], np.array(["timesteps", "f_orb"]), ["f_orb", "ecc", "a"]):
        given = copy.deepcopy(vars_)
        with ctx.guard(str(vars_)):
            V.evol_ecc(ecc_i=E, avoid_merger=False, output_vars=vars_, **kw)
            ctx.expect(snap(vars_) == snap(given), str(vars_), "the caller's output_vars changed")
            again = V.evol_ecc(ecc_i=E, avoid_merger=False, **kw)
            ctx.expect(len(again) == 2 and same(plain(again), plain(first), 1e-12) is None, str(vars_) + ".default",
                       "the default call changed its answer")
        ctx.transitions += 2
        ctx.traces += 1
        ctx.state(str(vars_))


def units(tier):
    for c in table():
        yield "call/" + c.name, call_unit(c.name, tier)
    for a, sky in itertools.product((False, True), (False, True)):
        yield "collection/%s%s" % ("a" if a else "f", "/sky" if sky else ""), collections_unit(a, sky, tier)
    yield "settings", settings_unit
    yield "functions", functions_unit
    yield "single", single_unit
    yield "output_vars", output_vars_unit
    d = 2 if tier == "quick" else 3
    core = [(n, f) for n, f in OPS if n in CORE]
    for kind in ("plain", "sky"):
        for name, _ in OPS:
            yield "alias/%s/%s" % (kind, name), alias_unit(kind, name, OPS, d)
        for name, _ in core:
            yield "alias-core/%s/%s" % (kind, name), alias_unit(kind, name, core, d + 1)
