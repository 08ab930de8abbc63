"""C24: automatic settings resolve by instrument, identically everywhere.

(a) Every instrument x every subset of the settings given explicitly (at the instrument's documented default, or at another
value) x every consumer: noise functions, interpolated curve, classification, SNRs, plots.  Explicit defaults must change
nothing at all; every consumer must use the documented value.  (b) Every history of instrument changes by every route, mixed
with explicit times, calculations and plots: settings left automatic stay automatic and every consumer follows the instrument
in force.  Sources sit between the mission lengths, so the wrong length shows up as another class and another SNR.
"""
import itertools
import numpy as np
from astropy import units as u
from scipy.optimize import brentq

from .. import kit, ref, explore

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every subset of automatic settings x instrument x consumer, and every history of instrument "
             "changes (forked real collections), against the documented defaults and independent references; explicit twin compared bit by bit")
NOTE = ("Full lattice of automatic/explicit-default/other values of four settings for every instrument and consumer; all histories of "
        "instrument changes by every route with calculations between them.")
BOUNDS = {"quick": "4 instruments x 3^3 x 2 settings x 10 consumers; histories of 3 of 9 core changes and 2 of 19 x 3 starting collections",
          "thorough": "histories of 4 of 9 core changes and 3 of 19 x 3 starting collections"}
P1 = kit.CountingPSD("p1")
P2 = kit.CountingPSD("p2", 4e-40)
C1 = kit.CountingCN("c1")
DEFAULT = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}
# the documented defaults
DOC = {"LISA": {"t_obs": 4 * u.yr, "L": 2.5e9 * u.m, "confusion_noise": "karnesis21"},
       "TianQin": {"t_obs": 5 * u.yr, "L": np.sqrt(3) * 1e5 * u.km, "confusion_noise": "huang20"},
       "DECIGO": {"t_obs": 5 * u.yr, "confusion_noise": "karnesis21"},
       "custom": {"t_obs": 5 * u.yr}}
F = kit.PROBE_F[(kit.PROBE_F > 1.1e-3) & (kit.PROBE_F < 0.9)]
ALLF = kit.PROBE_F
N_STEP = 5
ROWS = []


def between(m1, m2, e, years):
    """orbital frequency whose change over `years` is just the 1% allowed for stationary sources"""
    mc = ref.chirp_mass(m1, m2) * ref.MSUN
    return brentq(lambda lf: float(np.nan_to_num(ref.f_circ_later(np.exp(lf), mc, years * ref.YR, e) / np.exp(lf), nan=9.0)) - 1.01, np.log(1e-5), np.log(1.0))


def setup(tier):
    from . import c20, c21
    c20.setup(tier)
    c21.prepare()
    globals()["c20"], globals()["c21"] = c20, c21
    ROWS[:] = [(0.6, 0.4, 0.0, 1.0, 2e-3), (30.0, 20.0, 0.0, 50.0, 8e-3), (10.0, 8.0, 0.0, 8.0, np.exp(between(10.0, 8.0, 0.0, 4.5))),
               (12.0, 9.0, 0.2, 5.0, np.exp(between(12.0, 9.0, 0.2, 4.5))), (9.0, 7.0, 0.0, 6.0, np.exp(between(9.0, 7.0, 0.0, 2.5))), (10.0, 5.0, 0.3, 6.0, 7e-4)]


def spec():
    return kit.Spec(ROWS, weights=[1, 2, 3, 1, 2, 1])


def expected_mask(model, t=None):
    t = kit.resolved(model)[0] if t is None else t
    f = spec().f
    return np.array([bool(ref.f_circ_later(r[4], ref.chirp_mass(r[0], r[1]) * ref.MSUN, t, r[2]) / r[4] - 1 <= 1e-2) for r in ROWS])


# ---- consumers ------------------------------------------------------------------------------------------------
def module_noise(model, f):
    """the module-level functions under the same settings"""
    P = kit.lw.psd
    return P.power_spectral_density(f * u.Hz, **model)


def check_noise(ctx, key, model):
    """power_spectral_density and the instrument's own function"""
    P = kit.lw.psd
    f = F if model["instrument"] == "DECIGO" else ALLF
    want = kit.noise_of(model)(f)
    got = module_noise(model, f).to(1 / u.Hz).value
    ctx.expect(kit.allclose(got, want, 1e-6), key + ".psd", lambda: "noise %r, expected %r" % (got[:4], want[:4]))
    own = {"LISA": P.lisa_psd, "TianQin": P.tianqin_psd, "DECIGO": P.decigo_psd}.get(model["instrument"])
    if own is not None:
        full = dict(DOC[model["instrument"]])
        full.update({k: v for k, v in model.items() if k in ("t_obs", "L", "confusion_noise") and not (isinstance(v, str) and v == "auto")})
        full.setdefault("L", 1e9 * u.m)
        got = own(f * u.Hz, approximate_R=model["approximate_R"], **full).to(1 / u.Hz).value
        ctx.expect(kit.allclose(got, want, 1e-6), key + ".own", lambda: "the instrument's function gives %r, expected %r" % (got[:4], want[:4]))


def check_collection(ctx, key, s, model, plots=True, routes=("get_snr", "get_snr_stationary", "get_snr_evolving"), call={}):
    """everything the collection does with the settings in force; works on a forked copy"""
    noise = kit.noise_of(model)
    have = kit.settings_of(s)
    if not call:
        ctx.expect(have == {k: kit.canon_setting(v) for k, v in model.items()}, key + ".settings", lambda: "settings %r" % have)
        if s.interpolate_sc:
            got = s.sc(F * u.Hz).to(1 / u.Hz).value
            ctx.expect(kit.allclose(got, noise(F), 3e-3), key + ".sc", lambda: "curve %r, expected %r" % (got, noise(F)))
        want = expected_mask(model)
        for name, kw in (("mask", {}), ("mask auto", {"t_obs": "auto"} if isinstance(model["t_obs"], str) else {"t_obs": model["t_obs"]})):
            got = s.get_source_mask(stationary=True, **kw)
            ctx.expect(np.array_equal(got, want), key + "." + name, lambda: "stationary %r, expected %r" % (got, want))
            got2 = s.get_source_mask(stationary=False, **kw)
            ctx.expect(np.array_equal(got2, ~want), key + "." + name, lambda: "evolving %r, expected %r" % (got2, ~want))
    tol = 1e-2 if s.interpolate_sc else 1e-3
    for route in routes:
        with ctx.guard(key + "." + route):
            kw = dict(call) if route == "get_snr_stationary" else dict(call, n_step=N_STEP)
            got = getattr(s, route)(**kw)
            c20.compare(ctx, key + "." + route, s, got, c20.expected(ROWS, model, route), tol=tol)
            have = kit.settings_of(s)
            ctx.expect(have == {k: kit.canon_setting(v) for k, v in model.items()}, key + "." + route + ".settings", lambda: "settings became %r" % have)
            ctx.evaluations += 1
    if plots:
        import matplotlib.pyplot as plt
        with ctx.guard(key + ".plot"):
            s.get_snr(n_step=N_STEP, **call)
            fig, ax = s.plot_sources_on_sc(show=False)
            keep = expected_mask(model) & (np.asarray(s.snr) > 0)
            fd = spec().f * np.array(s.max_snr_harmonic)
            if ax is not None:
                c21.points(ctx, key + ".plot", ax, fd[keep], (np.array(s.snr) * np.sqrt(noise(fd)))[keep], np.array(spec().weights)[keep], 20, 1e-6)
                for c in [c for c in ax.collections if type(c).__name__ == "PathCollection"]:
                    c.remove()
                c21.curve_ok(ctx, key + ".plot", ax, c21.CURVE_F, noise, False, True, tol=1e-6)
            else:
                ctx.expect(not keep.any(), key + ".plot", "nothing drawn")
        plt.close("all")


def check_plots(ctx, key, model):
    """the module's plots under the same settings"""
    import matplotlib.pyplot as plt
    V = kit.lw.visualisation
    noise = kit.noise_of(model)
    with ctx.guard(key + ".curve"):
        for h_c in (False, True):
            fig, ax = V.plot_sensitivity_curve(show=False, y_quantity="h_c" if h_c else "ASD", **model)
            c21.curve_ok(ctx, key + ".curve", ax, c21.CURVE_F, noise, h_c, True, tol=1e-6)
        f = np.array([2e-3, 5e-3, 2e-2])
        snr = np.array([3.0, 10.0, 50.0])
        fig, ax = V.plot_sources_on_sc(f * u.Hz, snr, show=False, **model)
        c21.points(ctx, key + ".on", ax, f, snr * np.sqrt(noise(f)), None, 20, 1e-6)
        for c in [c for c in ax.collections if type(c).__name__ == "PathCollection"]:
            c.remove()
        c21.curve_ok(ctx, key + ".on", ax, c21.CURVE_F, noise, False, True, tol=1e-6)
    plt.close("all")


# ---- (a) lattice ----------------------------------------------------------------------------------------------
OTHER = {"t_obs": 2 * u.yr, "L": 1e9 * u.m, "confusion_noise": "robson19"}


def value(ins, k, how):
    if how == "auto":
        return "auto"
    if how == "other":
        return OTHER[k]
    return DOC[ins].get(k, "auto")


def models(ins):
    for hows in itertools.product(("auto", "doc", "other"), repeat=3):
        for approx in (False, True):
            m = dict(DEFAULT, instrument=ins, custom_psd=P1 if ins == "custom" else None, approximate_R=approx)
            if any(h == "doc" and k not in DOC[ins] for k, h in zip(("t_obs", "L", "confusion_noise"), hows)):
                continue
            for k, h in zip(("t_obs", "L", "confusion_noise"), hows):
                m[k] = value(ins, k, h)
            yield ".".join((ins,) + hows + ("approx" if approx else "full",)), m


def lattice(ins, part, tier):
    def run(ctx):
        for i, (key, m) in enumerate(models(ins)):
            if i % 3 != part:
                continue
            check_noise(ctx, key, m)
            check_plots(ctx, key, m)
            for mode, isc in (("direct", False), ("interpolated", True)):
                full = tier == "thorough" or (i // 3 + isc) % 2 == 0
                # stored when built, stored afterwards, given in the call
                with ctx.guard(key):
                    s = kit.build(spec(), interpolate_sc=isc, sc_params={k: v for k, v in m.items()})
                    check_collection(ctx, "%s.%s.built" % (key, mode), s, m, plots=full)
                    s = kit.build(spec(), interpolate_sc=isc)
                    s.get_snr(n_step=N_STEP)
                    s.sc_params.update(m)
                    check_collection(ctx, "%s.%s.changed" % (key, mode), s, m, plots=False)
                    for route in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
                        s = kit.build(spec(), interpolate_sc=isc)
                        call = {k: v for k, v in m.items() if kit.canon_setting(v) != kit.canon_setting(DEFAULT[k])}
                        check_collection(ctx, "%s.%s.call" % (key, mode), s, m, plots=full and route == "get_snr", routes=(route,), call=call)
                        # and afterwards
                        check_collection(ctx, "%s.%s.after" % (key, mode), s, m, plots=False, routes=())
                        ctx.transitions += 1
            ctx.case(key)
            ctx.state(key)
            ctx.traces += 1
    return run


def twin_results(s):
    return [kit.plain_result(x) for x in (s.get_source_mask(stationary=True), s.get_snr(n_step=N_STEP), s.max_snr_harmonic, s.get_snr_stationary(), s.get_snr_evolving(n_step=N_STEP),
                                          s.sc(F * u.Hz) if s.interpolate_sc else 0)]


def twins(ins, tier):
    """settings automatic, or given explicitly at the documented default: bit for bit the same"""
    def run(ctx):
        keys = [k for k in ("t_obs", "L", "confusion_noise") if k in DOC[ins]]
        f = F * u.Hz
        for approx in (False, True):
            base = dict(DEFAULT, instrument=ins, custom_psd=P1 if ins == "custom" else None, approximate_R=approx)
            want = module_noise(base, F)
            ref_s = {isc: twin_results(kit.build(spec(), interpolate_sc=isc, sc_params=base)) for isc in (False, True)}
            for given in itertools.product((False, True), repeat=len(keys)):
                exp = {k: DOC[ins][k] for k, g in zip(keys, given) if g}
                key = "%s.%s.%s" % (ins, approx, "+".join(sorted(exp)))
                # and in other units of the same length
                for unit in (None, "other"):
                    e = dict(exp)
                    if unit:
                        e = {k: v.to(u.s if k == "t_obs" else u.AU) if isinstance(v, u.Quantity) else v for k, v in e.items()}
                    tol = 0 if unit is None else 1e-9
                    m = dict(base, **e)
                    with ctx.guard(key):
                        got = module_noise(m, F)
                        ctx.expect(kit.same(got.value, want.value, tol) and got.unit == want.unit, key + ".psd", lambda: "noise differs")
                        for isc in (False, True):
                            s = kit.build(spec(), interpolate_sc=isc, sc_params=m)
                            r = twin_results(s)
                            bad = [i for i, (a, b) in enumerate(zip(r, ref_s[isc])) if not (a == b if unit is None else True)]
                            ctx.expect(not bad, key + ".twin", lambda: "explicit defaults change results %r" % bad)
                            if unit:
                                c20.compare(ctx, key + ".units", s, s.get_snr(n_step=N_STEP), c20.expected(ROWS, base, "get_snr"), tol=1e-2)
                            for k in e:            # back to automatic
                                s.sc_params[k] = "auto"
                            r = twin_results(s)
                            ctx.expect(r == ref_s[isc], key + ".back", "returning to automatic does not give the automatic results")
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state(key + str(unit))
                # confusion noise on its own
            for model in ("robson19", "huang20", "thiele21", "karnesis21"):
                P = kit.lw.psd
                a = P.get_confusion_noise(f=f, model=model)
                b = P.get_confusion_noise(f=f, model=model, t_obs={"huang20": 5 * u.yr}.get(model, 4 * u.yr))
                c = P.get_confusion_noise(f=f, model=model, t_obs="auto")
                ctx.expect(np.array_equal(a.value, b.value) and np.array_equal(a.value, c.value), "confusion.%s" % model, "automatic observing time of the confusion noise")
    return run


# ---- (b) histories ----------------------------------------------------------------------------------------------
class World:
    def __init__(self, start):
        self.interp = start != "direct"
        self.m = dict(DEFAULT)
        if start == "custom":
            self.m.update(instrument="custom", custom_psd=P1)
        self.s = kit.build(spec(), interpolate_sc=self.interp, sc_params=dict(self.m))


def change(how, **kw):
    def op(w, ctx):
        if how != "read" and all(kit.canon_setting(w.m[k]) == kit.canon_setting(v) for k, v in kw.items()):
            return False
        with ctx.guard("change"):
            s = w.s
            if how == "item":
                for k, v in kw.items():
                    s.sc_params[k] = v
            elif how == "update":
                s.sc_params.update(kw)
            elif how == "assign":
                s.sc_params = dict(kw)
                w.m = dict(DEFAULT)
            elif how == "snr":
                s.get_snr(n_step=N_STEP, **kw)
            elif how == "stat":
                s.get_snr_stationary(**kw)
            elif how == "evol":
                s.get_snr_evolving(n_step=N_STEP, which_sources=np.arange(6) != 2, **kw)
        w.m.update(kw)
    return op


def calc(fn):
    def op(w, ctx):
        with ctx.guard("calculate"):
            r = fn(w.s)
            if r is not None:
                w.s = r
    return op


def plot(w, ctx):
    import matplotlib.pyplot as plt
    with ctx.guard("calculate"):
        if w.s.snr is None:
            w.s.get_snr(n_step=N_STEP)
        w.s.plot_sources_on_sc(show=False)
    plt.close("all")


def reload(w, ctx):
    import os, tempfile
    from .. import env
    if w.m["custom_psd"] is not None or callable(w.m["confusion_noise"]):    # (functions are not saved)
        return False
    fd, name = tempfile.mkstemp(dir=env.SCRATCH, suffix=".h5")
    os.close(fd)
    os.unlink(name)
    with ctx.guard("calculate"):
        w.s.save(name)
        w.s = kit.lw.source.Source.from_file(name)
        os.unlink(name)


CORE = [("LISA item", change("item", instrument="LISA")), ("TianQin update", change("update", instrument="TianQin")), ("DECIGO snr", change("snr", instrument="DECIGO")),
        ("TianQin stat", change("stat", instrument="TianQin")), ("custom evol", change("evol", instrument="custom", custom_psd=P1)), ("LISA assign", change("assign", instrument="LISA")),
        ("2 yr item", change("item", t_obs=2 * u.yr)), ("auto yr snr", change("snr", t_obs="auto")), ("mask", calc(lambda s: s.get_source_mask(stationary=True) is None or None))]
OPS = CORE + [("LISA snr", change("snr", instrument="LISA")), ("LISA stat", change("stat", instrument="LISA")), ("DECIGO item", change("item", instrument="DECIGO")),
              ("custom assign", change("assign", instrument="custom", custom_psd=P2, t_obs=1 * u.yr)), ("huang evol", change("evol", confusion_noise="huang20")),
              ("auto confusion item", change("item", confusion_noise="auto")), ("arm stat", change("stat", L=1e9 * u.m)), ("auto arm item", change("item", L="auto")), ("plot", plot), ("reload", reload),
              ("copy", calc(lambda s: s[np.arange(6)])), ("confusion function", change("update", confusion_noise=C1, instrument="TianQin"))]


def check(w, ctx):
    def look(child):
        check_collection(child, "state", w.s, w.m, plots=len(ctx.path) < 2 or "plot" in ctx.path[-1:])
    explore.in_child(ctx, look)
    ctx.evaluations += 1


def history_unit(start, first, depth, ops):
    def run(ctx):
        w = World(start)
        canon = lambda w: (w.interp,) + tuple(sorted((k, str(kit.canon_setting(v))) for k, v in w.m.items()))
        fn = dict(ops)[first]

        def begin(child):
            child.path = (first,)
            if fn(w, child) is False:
                return
            child.transitions += 1
            explore.histories(child, w, ops, check, depth - 1, canon=canon)
        explore.in_child(ctx, begin)
    return run


def units(tier):
    deep = tier == "thorough"
    for start in ("interpolated", "direct", "custom"):
        if start == "interpolated" or deep:
            for name, _ in CORE:
                yield "core/%s/%s" % (start, name), history_unit(start, name, 4 if deep else 3, CORE)
        for name, _ in OPS:
            yield "history/%s/%s" % (start, name), history_unit(start, name, 3 if deep else 2, OPS)
    for ins in DOC:
        for part in range(3):
            yield "lattice/%s/%d" % (ins, part), lattice(ins, part, tier)
        yield "twins/%s" % ins, twins(ins, tier)
