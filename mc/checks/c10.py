"""C10: every source falls in exactly one orbit class, by the documented thresholds.

(a) The functions: every combination of masses, eccentricities, times, tolerances, input forms, with frequencies
constructed to sit at / just below / just above the stationarity threshold and the merger within the time.
(b) Collections: every (stored | given | automatic) observing time x instrument x tolerance pair, populated with
sources on, just below and just above both thresholds; all nine class requests form the documented partition.
(c) Every sequence of operations up to a depth; in every state all class requests are compared with the model.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref
from ..explore import histories
from . import c05

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: every operation sequence (forked real states), all class requests in every state "
             "against threshold formulae; boundary populations for every tolerance x time x instrument")
NOTE = ("Sources placed at both thresholds (relative offsets 0, 1e-15..1e-3 either side); all nine class requests with "
        "two observing times in every state of every operation sequence up to the bound.")
BOUNDS = {"quick": "functions: 7 masses x 6 e x 4 tolerances x 5 times x 8 offsets x 4 forms; collections: 4 lum x 5 stat "
                   "tolerances x 5 stored times x 4 instruments; histories depth 2 (27 operations; then the core 11 for two further kinds), 3 (core 11)",
          "thorough": "histories one deeper"}

LUM = (0.05, 0.01, 0.2, 0.001)
STAT = (1e-2, 0.0, 1e-5, 0.3, 5.0)
TIMES = (0.5, 4.0, 5.0, 10.0, 1e-3)
OFFSETS = (-2e-4, -1e-3, -1e-6, -1e-9, 1e-9, 1e-6, 1e-3)
MASSES = [(0.6, 0.4), (1.4, 1.4), (10.0, 5.0), (30.0, 30.0), (1e3, 50.0), (1e5, 1e5), (0.1, 0.01)]


def setup(tier):
    kit.setup()
    from .. import fixtures
    t = np.load(fixtures.harmonics_path("small"))
    c05.E_GRID = fixtures.e_grid("small")
    c05.G_CUM = np.cumsum(t["g_vals"], axis=1)
    for tol in LUM + (0.1,):
        c05.curves(tol)


def rate(mc, e):
    return 2**(32 / 3) * np.pi**(8 / 3) / 5 * (ref.G * mc)**(5 / 3) / ref.C**5 * ref.F(e)


def threshold_f(mc, e, t, tol):
    """frequency that grows by exactly tol over t"""
    return ((1 - (1 + tol)**(-8 / 3)) / (rate(mc, e) * t))**(3 / 8)


def merge_f(mc, e, t):
    return (rate(mc, e) * t)**(-3 / 8)


def is_stationary(mc, f, e, t, tol):
    """fractional growth over t is at most tol (a merger within t grows without bound); nan where too close to call"""
    g = ref.f_circ_later(f, mc, t, e) / f - 1
    with np.errstate(invalid="ignore"):
        out = np.where(np.isnan(g), 0.0, (g <= tol).astype(float))
        return np.where(np.abs(g - tol) <= 1e-10 * (1 + tol), np.nan, out)


# ---- functions -------------------------------------------------------------------------------------------------
def function_unit(tol):
    V = kit.lw.evol if kit.lw else None

    def run(ctx):
        V = kit.lw.evol
        for t, e in itertools.product(TIMES, (0.0, 0.01, 0.3, 0.6, 0.9, 0.99)):
            m1, m2 = np.array(MASSES).T
            mc = ref.chirp_mass(m1, m2) * ref.MSUN
            fs, ms = [], []
            for i, m in enumerate(mc):
                for o in OFFSETS:
                    if tol > 0:
                        fs.append(threshold_f(m, e, t * ref.YR, tol) * (1 + o))
                        ms.append(i)
                    fs.append(merge_f(m, e, t * ref.YR) * (1 + o))
                    ms.append(i)
                for f in (1e-7, 1e-4, 1e-2, 1.0, 100.0):
                    fs.append(f)
                    ms.append(i)
            fs, ms = np.array(fs), np.array(ms)
            M1, M2, MC = m1[ms], m2[ms], mc[ms]
            want = is_stationary(MC, fs, e, t * ref.YR, tol)
            sure = ~np.isnan(want)
            later = ref.f_circ_later(fs, MC, t * ref.YR, e)
            key = "t=%g,e=%g" % (t, e)
            E = np.full(len(fs), e)
            calls = {
                "m_c": dict(m_c=MC / ref.MSUN * u.Msun, ecc_i=E), "m": dict(m_1=M1 * u.Msun, m_2=M2 * u.Msun, ecc_i=E),
                "swap": dict(m_1=M2 * u.Msun, m_2=M1 * u.Msun, ecc_i=E), "e1": dict(m_c=MC / ref.MSUN * u.Msun, ecc_i=e),
                "t": dict(m_c=MC / ref.MSUN * u.Msun, ecc_i=E, t_evol=np.full(len(fs), t) * u.yr),
                "override": dict(m_c=MC / ref.MSUN * u.Msun, m_1=M1 * 3 * u.Msun, m_2=M2 * u.Msun, ecc_i=E),
            }
            for c, kw in calls.items():
                with ctx.guard(key + "." + c):
                    kw.setdefault("t_evol", t * u.yr)
                    got = np.asarray(V.determine_stationarity(f_orb_i=fs * u.Hz, stat_tol=tol, **kw))
                    ctx.expect(got.shape == fs.shape and got.dtype == bool and np.array_equal(got[sure], want[sure] == 1),
                               key + "." + c, lambda: "stationary differs at f=%r, M=%r" % (
                                   fs[sure][got[sure] != want[sure]][:3], MC[sure][got[sure] != want[sure]][:3] / ref.MSUN))
                ctx.transitions += 1
            with ctx.guard(key + ".default"):
                if tol == 1e-2:
                    got = V.determine_stationarity(f_orb_i=fs * u.Hz, t_evol=t * u.yr, ecc_i=E, m_c=MC / ref.MSUN * u.Msun)
                    ctx.expect(np.array_equal(got[sure], want[sure] == 1), key + ".default", "default tolerance differs")
            near = np.array([abs((f / merge_f(m, e, t * ref.YR)) - 1) < 1e-5 for f, m in zip(fs, MC)])
            for mf in (None, 7.0):
                kw = {} if mf is None else {"merge_f": mf * u.Hz}
                with ctx.guard(key + ".evolve"):
                    got = V.evolve_f_orb_circ(f_orb_i=fs * u.Hz, m_c=MC / ref.MSUN * u.Msun, t_evol=t * u.yr, ecc_i=E, **kw)
                    got = got.to(u.Hz).value
                    w = np.where(np.isnan(later), 1e9 if mf is None else mf, later)
                    ok = kit.close(got, w, 1e-8) | (near & ((got > fs) | (got == w)))
                    ctx.expect(np.all(ok), key + ".evolve", lambda: "later frequency %r, expected %r" % (got[~ok][:3], w[~ok][:3]))
                    if e == 0.0:
                        g0 = V.evolve_f_orb_circ(f_orb_i=fs * u.Hz, m_c=MC / ref.MSUN * u.Msun, t_evol=t * u.yr, **kw)
                        ctx.expect(np.array_equal(g0.to(u.Hz).value, got), key + ".evolve0", "default eccentricity differs")
                ctx.transitions += 1
            for j in range(0, len(fs), 5):          # single sources
                with ctx.guard(key + ".single%d" % j):
                    g = V.determine_stationarity(f_orb_i=fs[j] * u.Hz, t_evol=t * u.yr, ecc_i=e, stat_tol=tol,
                                                 m_1=M1[j] * u.Msun, m_2=M2[j] * u.Msun)
                    ctx.expect(not sure[j] or bool(g) == (want[j] == 1), key + ".single%d" % j,
                               lambda: "single source: %r, expected %r" % (g, want[j]))
                ctx.transitions += 1
            ctx.traces += len(fs)
            ctx.state((tol, key))
    return run


# ---- collections ---------------------------------------------------------------------------------------------------
AUTO = {"LISA": 4.0, "TianQin": 5.0, "DECIGO": 5.0, "custom": 5.0}
PSD = kit.CountingPSD("c10")


def population(lum, stat, t):
    """sources around both thresholds for observing time t [yr]"""
    et = c05.curves(lum)[0]
    es = [0.0, et * 0.5, et - 5e-5, et + 5e-5, et + 0.05, 0.5, 0.9]
    rows = []
    for e in es:
        for (m1, m2) in MASSES[:4]:
            mc = ref.chirp_mass(m1, m2) * ref.MSUN
            for o in (-1e-3, -1e-9, 1e-9, 1e-3):
                if stat > 0:
                    rows.append((m1, m2, e, 1.0, threshold_f(mc, e, t * ref.YR, stat) * (1 + o)))
            rows.append((m1, m2, e, 1.0, merge_f(mc, e, t * ref.YR) * 0.999))
            rows.append((m1, m2, e, 1.0, merge_f(mc, e, t * ref.YR) * 1.001))
            rows.append((m1, m2, e, 1.0, 1e-5))
    return kit.Spec(rows)


def check_masks(ctx, key, s, lum, stat, t_default, times):
    """all nine class requests, with each observing time given (None: the current one)"""
    m1, m2 = s.m_1.to(u.kg).value, s.m_2.to(u.kg).value
    f, e = s.f_orb.to(u.Hz).value, np.asarray(s.ecc, float)
    mc = ref.chirp_mass(m1, m2)
    et = c05.curves(lum)[0]
    n = len(f)
    sure_c = np.abs(e - et) > 4.1e-5
    circ = e <= et
    for t in times:
        tt = t_default if t is None or t == "auto" else t
        if t == "auto":
            tt = AUTO[s.sc_params["instrument"]]
        st = is_stationary(mc, f, e, tt * ref.YR, stat)
        sure = sure_c & ~np.isnan(st)
        kw = {} if t is None else {"t_obs": t if t == "auto" else t * u.yr}
        got = {}
        with ctx.guard("%s%s" % (key, t)):
            brief = key in ("", "other.") and t is not None
            for c, sta in itertools.product((None, True, False), repeat=2):
                if brief and (c is not None or sta is None):
                    continue
                got[c, sta] = s.get_source_mask(circular=c, stationary=sta, **kw)
                want = np.ones(n, bool)
                if c is not None:
                    want &= circ == c
                if sta is not None:
                    want &= (st == 1) == sta
                ok = got[c, sta].shape == (n,) and np.array_equal(got[c, sta][sure], want[sure])
                ctx.expect(ok, "%s%s.%s%s" % (key, t, c, sta), lambda: "circular=%s stationary=%s: %r, expected %r" % (
                    c, sta, got[c, sta][sure], want[sure]))
                ctx.evaluations += 1
            if brief:
                continue
            cm, em, sm, vm = got[True, None], got[False, None], got[None, True], got[None, False]
            ctx.expect(np.all(cm ^ em) and np.all(sm ^ vm) and np.all(got[None, None]), "%s%s.partition" % (key, t),
                       "the classes overlap or miss sources")
            ctx.expect(all(np.array_equal(got[c, sta], got[c, None] & got[None, sta]) for c in (True, False)
                           for sta in (True, False)), "%s%s.intersection" % (key, t), "combined request is no intersection")
            exact = e <= s.ecc_tol
            ctx.expect(np.array_equal(cm, exact), "%s%s.ecc_tol" % (key, t), lambda: "circular %r, e <= ecc_tol %r" % (cm, exact))
            ctx.expect(et - 1e-9 <= s.ecc_tol <= et + 4.1e-5, "%s%s.threshold" % (key, t),
                       lambda: "ecc_tol %r, expected %r" % (s.ecc_tol, et))


def collection_unit(lum, stat):
    def run(ctx):
        cases = itertools.product(("auto",) + TIMES[:4], ("LISA", "TianQin", "DECIGO", "custom"), (True, False))
        for t, ins, via_set in cases:
            tt = AUTO[ins] if t == "auto" else t
            key = "%s.%s.%d." % (t, ins, via_set)
            params = {"instrument": ins, "t_obs": t if t == "auto" else t * u.yr}
            if ins == "custom":
                params["custom_psd"] = PSD
            spec = population(lum, stat, tt)
            with ctx.guard(key):
                if via_set:
                    s = kit.build(spec, gw_lum_tol=0.1, stat_tol=0.02, interpolate_sc=False)
                    s.gw_lum_tol, s.stat_tol = lum, stat
                    s.sc_params.update(params)
                else:
                    s = kit.build(spec, gw_lum_tol=lum, stat_tol=stat, sc_params=params, interpolate_sc=False)
                check_masks(ctx, key, s, lum, stat, tt, (None, "auto", 4.0, 0.5, 10.0, 1e-4, None))
                # sources exactly at the eccentricity threshold
                et = s.ecc_tol
                e = np.array([et, np.nextafter(et, 0), np.nextafter(et, 1), 0.0])
                s2 = kit.build(kit.Spec([(1, 1, x, 1, 1e-3) for x in e]), gw_lum_tol=lum, stat_tol=stat, interpolate_sc=False)
                ctx.expect(s2.get_source_mask(circular=True).tolist() == [True, True, False, True]
                           and s2.get_source_mask(circular=False).tolist() == [False, False, True, False], key + "exact",
                           lambda: "at the threshold: %r" % s2.get_source_mask(circular=True))
            ctx.transitions += 60
            ctx.traces += 1
            ctx.state((lum, stat, key))
    return run


# ---- histories ---------------------------------------------------------------------------------------------------
class World:
    def __init__(self, kind):
        self.lum, self.stat, self.t, self.ins = 0.05, 1e-2, "auto", "LISA"
        cls = {"plain": "Source", "stat": "Stationary", "direct": "Source"}[kind]
        rows = population(0.05, 1e-2, 4.0).rows[::9] + [kit.POOL[k] for k in ("cs", "ce", "es", "ee", "cm", "em", "nc")]
        self.s = kit.build(kit.Spec(rows), cls=cls, interpolate_sc=kind != "direct")
        self.other = None

    def check(self, ctx):
        t = AUTO[self.ins] if self.t == "auto" else self.t
        check_masks(ctx, "", self.s, self.lum, self.stat, t, (None, 4.0))
        if self.other is not None:
            s, lum, stat, tt, ins = self.other
            check_masks(ctx, "other.", s, lum, stat, AUTO[ins] if tt == "auto" else tt, (None,))


OPS = []


def op(name, fn):
    OPS.append((name, fn))


def setter(attr, value):
    def run(w, ctx):
        setattr(w.s, {"lum": "gw_lum_tol", "stat": "stat_tol"}[attr], value)
        setattr(w, attr, value)
    return run


for _v in (0.01, 0.2):
    op("lum=%g" % _v, setter("lum", _v))
for _v in (0.3, 0.0):
    op("stat=%g" % _v, setter("stat", _v))


def t_item(v):
    def run(w, ctx):
        w.s.sc_params["t_obs"] = v if v == "auto" else v * u.yr
        w.t = v
    return run


for _v in (1.0, 9.0, "auto"):
    op("t=%s" % _v, t_item(_v))


def ins_item(v):
    def run(w, ctx):
        w.s.sc_params["instrument"] = v
        w.ins = v
    return run


for _v in ("LISA", "TianQin", "DECIGO"):
    op(_v, ins_item(_v))


def update(w, ctx):
    w.s.sc_params.update({"t_obs": 2 * u.yr, "instrument": "TianQin"})
    w.t, w.ins = 2.0, "TianQin"


def assign(w, ctx):
    w.s.sc_params = {"instrument": "TianQin"}
    w.t, w.ins = "auto", "TianQin"


def custom(w, ctx):
    w.s.sc_params.update({"instrument": "custom", "custom_psd": PSD})
    w.ins = "custom"


def snr_t(t, ins=None, which="get_snr"):
    def run(w, ctx):
        kw = dict(t_obs=t * u.yr)
        if ins:
            kw["instrument"] = ins
        if which == "get_snr" and type(w.s).__name__ == "Source":
            kw["n_step"] = 3
        getattr(w.s, which)(**kw)
        w.t, w.ins = t, ins or w.ins
    return run


def mask_given(w, ctx):
    """giving a time classifies with it but does not keep it"""
    w.s.get_source_mask(stationary=True, t_obs=7 * u.yr)


def evolve(t):
    def run(w, ctx):
        w.s.evolve_sources(t * u.yr)
    return run


def evolve_new(w, ctx):
    w.other = (w.s, w.lum, w.stat, w.t, w.ins)
    w.s = w.s.evolve_sources(1 * u.yr, create_new_class=True)


def take(w, ctx):
    if w.s.n_sources < 6:
        return False
    w.other = (w.s, w.lum, w.stat, w.t, w.ins)
    w.s = w.s[::2]


def copy(w, ctx):
    w.other = (w.s, w.lum, w.stat, w.t, w.ins)
    w.s = w.s.copy()


def set_a(w, ctx):
    w.s.a = w.s.a * 1.05


def set_f(w, ctx):
    w.s.f_orb = w.s.f_orb * 1.2


def set_ecc(w, ctx):
    w.s.ecc = np.where(np.asarray(w.s.ecc) > 0.3, 0.0, np.asarray(w.s.ecc) + 0.05)


def set_m(w, ctx):
    w.s.m_1 = w.s.m_1 * 2


def merger(w, ctx):
    w.s.get_merger_time()


op("update", update), op("assign", assign), op("custom", custom)
op("snr(2yr)", snr_t(2.0)), op("snr(6yr,TianQin)", snr_t(6.0, "TianQin")), op("stationary(3yr)", snr_t(3.0, None, "get_snr_stationary"))
op("evolving(8yr)", snr_t(8.0, None, "get_snr_evolving"))
op("mask(7yr)", mask_given), op("evolve(1yr)", evolve(1.0)), op("evolve(30yr)", evolve(30.0)), op("evolve new", evolve_new)
op("take", take), op("copy", copy), op("set a", set_a), op("set f", set_f), op("set ecc", set_ecc), op("set m_1", set_m)
op("merger", merger)
CORE = ("lum=0.01", "stat=0.3", "t=1.0", "t=auto", "TianQin", "snr(2yr)", "stationary(3yr)", "evolve(1yr)", "take", "mask(7yr)",
        "evolve new")


def canon(w):
    return (w.lum, w.stat, w.t, w.ins, type(w.s).__name__, w.s.n_sources, np.round(np.log(w.s.f_orb.value), 9).tobytes(),
            np.round(w.s.ecc, 9).tobytes(), w.other is not None)


def hist_unit(kind, first, ops, depth):
    def run(ctx):
        w = World(kind)
        w.check(ctx)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, ops, lambda w, c: w.check(c), depth - 1, canon)
    return run


def units(tier):
    for tol in STAT + (0.02,):
        yield "functions/%g" % tol, function_unit(tol)
    for lum, stat in itertools.product(LUM, STAT):
        yield "collection/%g,%g" % (lum, stat), collection_unit(lum, stat)
    d = 2 if tier == "quick" else 3
    core = [(n, f) for n, f in OPS if n in CORE]
    for kind in ("plain", "stat", "direct"):
        ops = core if tier == "quick" and kind != "plain" else OPS
        for name, _ in OPS:
            yield "hist/%s/%s" % (kind, name), hist_unit(kind, name, ops, d)
    for kind in ("plain",) if tier == "quick" else ("plain", "direct"):
        for name, _ in core:
            yield "core/%s/%s" % (kind, name), hist_unit(kind, name, core, d + 1)
