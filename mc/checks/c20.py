"""C20: a collection's SNR applies the right estimator and settings to each source.

One collection with a source per orbit class and harmonic group; every way of giving every observing setting (not at all,
stored, in the call, both and different), every route and class, interpolated and direct noise and power factors, every
subset, every merged pattern, merger times known or not, with and without sky positions.  Oracle: sums and integrals computed
independently per source for the class the source falls in under the settings in force, and the module-level estimators.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every combination of stored and call settings x route x class x interpolation x "
             "subset x merged pattern executed on real collections against an independent per-source reference")
NOTE = ("Full product of the ways of giving each of the six observing settings; all subsets and merged patterns of four "
        "sources and all pairs for eight; SNR, loudest harmonic, what is recorded and what persists are all compared.")
BOUNDS = {"quick": "9 instrument x 4 time x 3 arm x 4 response x 3 confusion ways x 3 routes x 2 noise modes, 4 sources (10 elsewhere); 16 subsets x 16 merged patterns x 3 routes x 2 start states",
          "thorough": "x 3 collections, 4 tolerances; 32 subsets x 32 merged patterns"}

# (m1, m2, ecc, dist, f_orb): all four classes, harmonic groups 10, 100, 1000 (and 10000 where the tolerance is strict)
ROWS = {"cs": (0.6, 0.4, 0.0, 1.0, 2e-3), "cs2": (10.0, 8.0, 0.01, 8.0, 4e-4), "ce": (30.0, 20.0, 0.0, 50.0, 8e-3), "cev": (12.0, 9.0, 0.045, 9.0, 1.1e-2),
        "es10": (10.0, 5.0, 0.2, 6.0, 2.3e-4), "es100": (1.4, 1.2, 0.6, 3.0, 3e-4), "es1000": (0.8, 0.6, 0.9, 0.5, 4e-5),
        "ee10": (30.0, 30.0, 0.25, 40.0, 6e-3), "ee100": (8.0, 7.0, 0.62, 10.0, 4e-3), "em": (35.0, 30.0, 0.25, 100.0, 1.5e-2)}
P1, P2 = kit.CountingPSD("p1"), kit.CountingPSD("p2", 4e-40)
C1 = kit.CountingCN("c1")
N_STEP = 5
DEFAULT = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}


def setup(tier):
    kit.setup(interp_g=True)
    from .. import fixtures
    from . import c05
    t = np.load(fixtures.harmonics_path("small"))
    c05.E_GRID, c05.G_CUM = fixtures.e_grid("small"), np.cumsum(t["g_vals"], axis=1)
    c05.PROBE = None


# ---- reference ------------------------------------------------------------------------------------------
_TAB = {}


def threshold(tol):
    from scipy.optimize import brentq
    return brentq(lambda x: ref.g(2, x) - (1 - tol) * ref.F(x), 1e-5, 0.4)


def group(e, tol):
    """harmonics summed: the group (10, 100, 1000, 10000) the required number falls in"""
    from . import c05
    k = ("need", tol)
    if k not in _TAB:
        need = np.argmax(c05.G_CUM >= (1 - tol) * ref.F(c05.E_GRID)[:, None], axis=1) + 1
        short = c05.G_CUM[:, -1] < (1 - tol) * ref.F(c05.E_GRID)
        _TAB[k] = np.maximum.accumulate(np.maximum(np.where(short, c05.G_CUM.shape[1], need), 2))
    n = np.ceil(np.interp(e, c05.E_GRID, _TAB[k]) - 1e-9)
    return int(min(x for x in (10, 100, 1000, 10000) if n <= x))


def spectrum(row, kind, t, n_step, H):
    """frequencies and weights such that SNR^2 per harmonic = sum over the last axis of weight / noise(frequency)"""
    k = (row, kind, t, n_step, H)
    if k not in _TAB:
        m1, m2, e, d, f = row
        mc = ref.chirp_mass(m1, m2) * ref.MSUN
        ns = np.array([2]) if H is None else np.arange(1, H + 1)
        e0 = 0.0 if H is None else e
        if kind == "stat":
            x = (ns * f)[:, None]
            w = (ref.h0(mc, f, e0, ns, d * ref.KPC)**2 * t)[:, None]
        else:
            r0 = (m1, m2, e0, d, f)
            a, bt = ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN), ref.beta(m1 * ref.MSUN, m2 * ref.MSUN)
            tm = ref.t_merge(a, e0, bt)
            ts = np.linspace(0, min(t, tm - (1.0 if H is None else 0.1 * ref.YR)), n_step)
            aa, es = (ref.evolve_circ(a, bt, ts), 0 * ts) if H is None else ref.evolve_ecc(a, e0, bt, ts)
            fs = ref.f_of_a(aa, m1 * ref.MSUN, m2 * ref.MSUN)
            x = ns[:, None] * fs[None, :]
            y = ref.hc(mc, fs[None, :], es[None, :], ns[:, None], d * ref.KPC)**2 / x**2
            dx = np.diff(x, axis=1)
            w = np.zeros_like(x)
            w[:, 1:] += dx / 2
            w[:, :-1] += dx / 2
            w *= y
        _TAB[k] = x, w
    return _TAB[k]


def snr2(row, kind, t, n_step, H, noise, mod=1.0):
    x, w = spectrum(row, kind, t, n_step, H)
    return mod * (w / noise(x)).sum(axis=1)


def route_kind(row, t, tol, stat_tol, route):
    circ = row[2] <= threshold(tol)
    if route != "get_snr":
        stat = route == "get_snr_stationary"
    else:
        f = ref.f_circ_later(row[4], ref.chirp_mass(row[0], row[1]) * ref.MSUN, t, row[2])
        stat = bool(f / row[4] - 1 <= stat_tol)
    return circ, stat


def expected(rows, settings, route, tol=0.05, stat_tol=1e-2, n_step=N_STEP, mods=None):
    """[(per-harmonic SNR^2, circular, stationary)] of each source"""
    t, _ = kit.resolved(settings)
    noise = kit.noise_of(settings)
    out = []
    for i, r in enumerate(rows):
        circ, stat = route_kind(r, t, tol, stat_tol, route)
        H = None if circ else group(r[2], tol)
        out.append((snr2(r, "stat" if stat else "evol", t, n_step, H, noise, mods[i] if mods is not None and circ and stat else 1.0), circ, stat))
    return out


def compare(ctx, key, s, got, want, requested=None, tol=1e-3):
    """requested: mask; SNRs and loudest harmonics of the requested sources"""
    n = len(want)
    m = np.ones(n, bool) if requested is None else requested
    snr = np.array([np.sqrt(w[0].sum()) for w in want])
    snr = np.where(s.merged, 0.0, snr)
    ctx.evaluations += n
    got = np.asarray(got)
    sub = got if got.shape == (m.sum(),) and not m.all() else got[m] if got.shape == (n,) else None
    if not ctx.expect(sub is not None, key, lambda: "gives %r for %d of %d sources" % (got, m.sum(), n)):
        return
    ok = kit.close(sub, snr[m], tol)
    ctx.expect(np.all(ok), key, lambda: "SNR %r, expected %r (sources %r)" % (sub[~ok], snr[m][~ok], np.flatnonzero(m)[~ok]))
    ctx.expect(s.snr is not None and kit.allclose(np.asarray(s.snr)[m], snr[m], tol), key + ".recorded", lambda: "recorded SNR %r, expected %r" % (s.snr, snr))
    for i in np.flatnonzero(m & ~np.asarray(s.merged)):
        h = None if s.max_snr_harmonic is None else int(s.max_snr_harmonic[i])
        s2, circ, _ = want[i]
        good = h == 2 if circ else (h is not None and 1 <= h <= len(s2) and s2[h - 1] >= s2.max() * (1 - 3 * tol))
        ctx.expect(good, key + ".loudest", lambda: "loudest harmonic %r of source %d, expected %r" % (h, i, 2 if circ else int(s2.argmax()) + 1))


# ---- (a) settings ---------------------------------------------------------------------------------------
INS = [("-", {}, {}), ("stored", {"instrument": "TianQin"}, {}), ("call", {}, {"instrument": "TianQin"}), ("both", {"instrument": "DECIGO"}, {"instrument": "LISA"}),
       ("custom", {"instrument": "custom", "custom_psd": P1}, {}), ("custom call", {"custom_psd": P1}, {"instrument": "custom", "custom_psd": P2}),
       ("custom unused", {"custom_psd": P1}, {}), ("custom unused call", {"instrument": "TianQin"}, {"custom_psd": P1}),
       ("custom mixed", {"instrument": "custom", "custom_psd": P2}, {"custom_psd": P1})]
TIME = [("-", {}, {}), ("stored", {"t_obs": 2 * u.yr}, {}), ("call", {}, {"t_obs": 1 * u.yr}), ("both", {"t_obs": 8 * u.yr}, {"t_obs": 36 * u.month if hasattr(u, "month") else 3 * u.yr})]
ARM = [("-", {}, {}), ("stored", {"L": 1e9 * u.m}, {}), ("call", {}, {"L": 2e6 * u.km}), ("both", {"L": 1e9 * u.m}, {"L": 2e9 * u.m})]
RESP = [("-", {}, {}), ("stored", {"approximate_R": True}, {}), ("call", {}, {"approximate_R": True}), ("both", {"approximate_R": True}, {"approximate_R": False})]
CONF = [("-", {}, {}), ("stored", {"confusion_noise": None}, {}), ("call", {}, {"confusion_noise": "robson19"}), ("both", {"confusion_noise": C1}, {"confusion_noise": "huang20"}),
        ("function", {}, {"confusion_noise": C1})]


def settings_unit(ins, mode, tier):
    def run(ctx):
        names = ("cs", "es10", "ce", "ee10") if tier == "quick" else list(ROWS)
        rows = [ROWS[n] for n in names]
        spec = kit.Spec(rows)
        iname, istore, icall = ins
        combos = list(itertools.product(TIME, ARM, RESP, CONF))
        s = None
        for k, (tt, aa, rr, cc) in enumerate(combos):
            if tier == "quick" and mode == "direct" and k % 2 and iname not in ("-", "call"):
                continue
            stored, call = dict(istore), dict(icall)
            for _, st, ca in (tt, aa, rr, cc):
                stored.update(st)
                call.update(ca)
            model = dict(DEFAULT, **stored)
            model.update(call)
            name = ".".join([iname, tt[0], aa[0], rr[0], cc[0]])
            for j, route in enumerate(("get_snr", "get_snr_stationary", "get_snr_evolving")):
                if route != "get_snr" and (k + j) % 3:
                    continue                        # (each route still meets every setting's every way)
                key = "%s.%s.%s" % (name, route, mode)
                with ctx.guard(key):
                    if s is None:
                        s = kit.build(spec, interpolate_sc=mode == "interpolated")
                        wide = s
                    s.sc_params = stored
                    s.snr = s.max_snr_harmonic = None
                    kw = dict(call) if route == "get_snr_stationary" else dict(call, n_step=N_STEP)
                    got = getattr(s, route)(**kw)
                    compare(ctx, key, s, got, expected(rows, model, route), tol=1e-2 if mode == "interpolated" else 1e-3)
                    have = kit.settings_of(s)
                    want = {a: kit.canon_setting(b) for a, b in model.items()}
                    ctx.expect(have == want, key + ".stored", lambda: "settings %r, expected %r" % (have, want))
                ctx.transitions += 1
                ctx.state(key)
            ctx.traces += 1
    return run


# ---- (b) subsets, merged sources, earlier results -----------------------------------------------------------
def subsets_unit(route, cls, start, tier):
    def run(ctx):
        pick = ("cs", "es100", "ce", "ee10") + (("cev",) if tier == "thorough" else ())
        rows = [ROWS[n] for n in pick]
        n = len(rows)
        want = expected(rows, DEFAULT, route)
        alt = expected(rows, dict(DEFAULT, L=1e9 * u.m), route)
        for merged in itertools.product((False, True), repeat=n):
            s = kit.build(kit.Spec(rows), cls=cls, interpolate_sc=False)
            s.merged = np.array(merged)
            if start == "known":
                s.get_snr_stationary(L=1e9 * u.m)
                s.sc_params = {}
            snr0 = None if s.snr is None else np.array(s.snr)
            msh0 = None if s.max_snr_harmonic is None else np.array(s.max_snr_harmonic)
            for mask in itertools.product((False, True), repeat=n):
                m = np.array(mask)
                key = "%s.%s.%s.%s" % (route, start, "".join("%d" % x for x in mask), "".join("%d" % x for x in merged))
                with ctx.guard(key):
                    s.snr = None if snr0 is None else snr0.copy()
                    s.max_snr_harmonic = None if msh0 is None else msh0.copy()
                    kw = {} if route == "get_snr_stationary" else dict(n_step=N_STEP)
                    got = getattr(s, route)(which_sources=m, **kw)
                    compare(ctx, key, s, got, want, m)
                    rest = ~m
                    if snr0 is not None and rest.any() and s.snr is not None:
                        r = np.asarray(s.snr)[rest]
                        ctx.expect(np.array_equal(r, snr0[rest]) or (route == "get_snr" and np.all(r == 0)), key + ".others",
                                   lambda: "SNRs of sources not asked for became %r, were %r" % (r, snr0[rest]))
                    if msh0 is not None and rest.any():
                        r = np.asarray(s.max_snr_harmonic)[rest]
                        ctx.expect(np.array_equal(r, msh0[rest]), key + ".others", lambda: "loudest harmonics of other sources became %r" % r)
                ctx.transitions += 1
                ctx.state(key)
            ctx.traces += 1
    return run


# ---- (c) subclasses, tolerances, interpolation, processes, merger times ----------------------------------------
def classes_unit(cls, part, tier):
    """get_snr of each class, with every call setting it takes, stored settings, tolerances and interpolation switches"""
    def run(ctx):
        route = {"Source": "get_snr", "Stationary": "get_snr_stationary", "Evolving": "get_snr_evolving"}[cls]
        calls = [{}, {"t_obs": 1 * u.yr}, {"instrument": "TianQin"}, {"instrument": "custom", "custom_psd": P1}, {"t_obs": 2 * u.yr, "instrument": "DECIGO"}]
        stores = [{}, {"t_obs": 8 * u.yr, "L": 1e9 * u.m, "approximate_R": True}, {"instrument": "TianQin", "confusion_noise": None}]
        for k, (call, store, ig, isc, known, lt, st) in enumerate(itertools.product(calls, stores, (False, True), (False, True), (False, True), (0.05, 0.01, 0.3), (1e-2, 1e-6, 0.5))):
            if k % 2 != part or (tier == "quick" and ig and (isc or store or len(call) > 1 or lt != 0.05)):
                continue
            rows = [ROWS[n] for n in (("cs", "cev", "es10", "es100", "ce", "ee10", "em") if tier == "quick" and (ig or isc or call or store) else ROWS)]
            if (ig or known or isc) and (lt, st) not in ((0.05, 1e-2), (0.01, 0.5)):
                continue
            model = dict(DEFAULT, **store)
            model.update(call)
            key = "%s.%s.%s.g%d.sc%d.t%d.%g.%g" % (cls, sorted(call), sorted(store), ig, isc, known, lt, st)
            if any(abs(r[2] - threshold(lt)) < 1e-3 for r in rows):
                raise AssertionError("a source sits on the threshold")
            with ctx.guard(key):
                s = kit.build(kit.Spec(rows), cls=cls, interpolate_g=ig, interpolate_sc=isc, gw_lum_tol=lt, stat_tol=st, sc_params=dict(store))
                if known:
                    s.get_merger_time()
                kw = dict(call) if cls == "Stationary" else dict(call, n_step=N_STEP)
                got = s.get_snr(**kw)
                compare(ctx, key, s, got, expected(rows, model, route, lt, st), tol=1e-2 if isc or ig else 1e-3)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def steps_unit(tier):
    def run(ctx):
        rows = list(ROWS.values()) if tier == "thorough" else [ROWS[n] for n in ("cs", "es10", "ce", "ee10", "ee100", "em")]
        for n_step, n_proc, cls in itertools.product((2, 3, 5, 20, 100, None), (1, 2), ("Source", "Evolving")):
            key = "steps.%s.%d.%s" % (n_step, n_proc, cls)
            with ctx.guard(key):
                s = kit.build(kit.Spec(rows), cls=cls, interpolate_sc=False, n_proc=n_proc)
                got = s.get_snr(**({} if n_step is None else dict(n_step=n_step)))
                compare(ctx, key, s, got, expected(rows, DEFAULT, "get_snr" if cls == "Source" else "get_snr_evolving", n_step=n_step or 100))
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
        # wordy or not makes no difference
        for cls, route in (("Source", "get_snr"), ("Source", "get_snr_stationary"), ("Source", "get_snr_evolving"), ("Stationary", "get_snr"), ("Evolving", "get_snr")):
            with ctx.guard("verbose"):
                a, b = kit.build(kit.Spec(rows), cls=cls), kit.build(kit.Spec(rows), cls=cls)
                x, y = getattr(a, route)(verbose=True), getattr(b, route)()
                ctx.expect(np.array_equal(x, y) and np.array_equal(a.max_snr_harmonic, b.max_snr_harmonic), "verbose", "verbose changes the result")
            ctx.transitions += 2
    return run


def sky_unit(only, tier):
    """sources with sky positions: modulated where stationary, averaged where evolving, for every class, subset and order"""
    def run(ctx):
        rows = [ROWS["cs"], ROWS["ce"], (3.0, 2.0, 0.0, 2.0, 7e-4), (5.0, 4.0, 0.0, 4.0, 3e-4)]
        for cls, order, isc in itertools.product((only,), itertools.permutations(range(4)), (False, True)):
            if isc and order != tuple(range(4)):
                continue
            route = {"Source": "get_snr", "Stationary": "get_snr_stationary", "Evolving": "get_snr_evolving"}[cls]
            rr, sky = [rows[i] for i in order], [kit.SKY[i] for i in order]
            mods = [ref.modulation(*x) for x in sky]
            want = expected(rr, DEFAULT, route, mods=mods)
            with ctx.guard("sky.%s" % cls):
                s = kit.build(kit.Spec(rr, sky=sky), cls=cls, interpolate_sc=isc)
                got = s.get_snr(**({} if cls == "Stationary" else dict(n_step=N_STEP)))
                compare(ctx, "sky.%s.%s" % (cls, order), s, got, want, tol=1e-2 if isc else 1e-3)
                if cls == "Source":
                    for mask in itertools.product((False, True), repeat=4):
                        m = np.array(mask)
                        for r2, kw in (("get_snr", dict(n_step=N_STEP)), ("get_snr_stationary", {}), ("get_snr_evolving", dict(n_step=N_STEP))):
                            w2 = expected(rr, DEFAULT, r2, mods=mods)
                            compare(ctx, "sky.%s.%s.%s" % (r2, order, mask), s, getattr(s, r2)(which_sources=m, **kw), w2, m, tol=1e-2 if isc else 1e-3)
                            ctx.transitions += 1
                if cls == "Source" and (tier == "thorough" or order in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2))):
                    for gone, mask in itertools.product(itertools.product((False, True), repeat=4), repeat=2):
                        if sum(mask) < 2 and tier == "quick":
                            continue
                        s.merged, m = np.array(gone), np.array(mask)
                        for r2, kw in (("get_snr", dict(n_step=N_STEP)), ("get_snr_stationary", {})):
                            w2 = expected(rr, DEFAULT, r2, mods=mods)
                            compare(ctx, "sky.%s.%s.%s.gone%s" % (r2, order, mask, gone), s, getattr(s, r2)(which_sources=m, **kw), w2, m, tol=1e-2 if isc else 1e-3)
                            ctx.transitions += 1
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("sky", cls, order, isc))
    return run


def order_unit(tier):
    """every source's SNR and loudest harmonic are its own, whatever company it keeps: every pair, every rotation"""
    def run(ctx):
        names = list(ROWS)
        want = dict(zip(names, expected([ROWS[n] for n in names], DEFAULT, "get_snr")))
        groups = list(itertools.permutations(names, 2)) + [tuple(names[i:] + names[:i]) for i in range(len(names))] + [(n,) for n in names] + [(n, n) for n in names]
        if tier == "thorough":
            groups += list(itertools.permutations(names, 3))
        for g in groups:
            key = "order." + ",".join(g)
            with ctx.guard(key):
                s = kit.build(kit.Spec([ROWS[n] for n in g]), interpolate_sc=False)
                compare(ctx, key, s, s.get_snr(n_step=N_STEP), [want[n] for n in g])
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def direct_unit(tier):
    """the same as calling the module's estimator by hand with the collection's own interpolants and settings"""
    def run(ctx):
        S = kit.lw.snr
        rows = list(ROWS.values()) if tier == "thorough" else [r for n, r in ROWS.items() if n != "es1000"]
        stores = [{}, {"t_obs": 2 * u.yr, "L": 1e9 * u.m, "approximate_R": True, "confusion_noise": "huang20"}, {"instrument": "TianQin", "confusion_noise": None},
                  {"instrument": "DECIGO"}, {"instrument": "custom", "custom_psd": P1, "L": 1e9 * u.m}]
        for store, ig, isc in itertools.product(stores, (False, True), (False, True)):
            if tier == "quick" and ig and store != stores[1]:
                continue
            key = "direct.%s.%d.%d" % (sorted(store), ig, isc)
            with ctx.guard(key):
                s = kit.build(kit.Spec(rows), interpolate_g=ig, interpolate_sc=isc, sc_params=dict(store))
                got = s.get_snr(n_step=N_STEP)
                t = kit.resolved(dict(DEFAULT, **store))[0] * u.s
                kw = dict(DEFAULT, **store, **{})
                kw.update(t_obs=t, interpolated_g=s.g, interpolated_sc=s.sc)
                for i, r in enumerate(rows):
                    circ, stat = route_kind(r, t.value, 0.05, 1e-2, "get_snr")
                    one = slice(i, i + 1)
                    m1, m2, e, d, f = s.m_1[one], s.m_2[one], s.ecc[one], s.dist[one], s.f_orb[one]
                    H = {} if circ else dict(harmonics_required=group(r[2], 0.05))
                    if stat:
                        w = S.snr_circ_stationary(m_c=s.m_c[one], f_orb=f, dist=d, **kw) if circ else S.snr_ecc_stationary(m_c=s.m_c[one], f_orb=f, ecc=e, dist=d, **H, **kw)
                    else:
                        w = S.snr_circ_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, n_step=N_STEP, **kw) if circ else \
                            S.snr_ecc_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, ecc=e, n_step=N_STEP, **H, **kw)
                    ctx.expect(kit.close(w[0], got[i], 1e-9), key, lambda: "source %d: %r, the estimator gives %r" % (i, got[i], w[0]))
                    ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def power_unit(cls, tier):
    """the collection's own interpolant of the power factors is the one used, in every route, for every eccentric source"""
    def run(ctx):
        rows = list(ROWS.values()) if tier == "thorough" else [r for n, r in ROWS.items() if n != "es1000"]
        routes = ("get_snr", "get_snr_stationary", "get_snr_evolving") if cls == "Source" else ("get_snr",)
        for route, (isc, known), factor, (cname, call) in itertools.product(routes, ((False, False), (True, True)), (0.25,) if tier == "quick" else (0.25, 1.0, 4.0),
                                                                            (("-", {}), ("tq", {"instrument": "TianQin", "t_obs": 2 * u.yr}))):
            key = "power.%s.%s.%d.%g.%d.%s" % (cls, route, isc, factor, known, cname)
            with ctx.guard(key):
                s = kit.build(kit.Spec(rows), cls=cls, interpolate_g=True, interpolate_sc=isc)
                s.g = lambda n, e, plain=s.g: plain(n, e) * np.where(np.asarray(e) > 0, factor, 1.0)
                if known:
                    s.get_merger_time()
                kind = {"Source": route, "Stationary": "get_snr_stationary", "Evolving": "get_snr_evolving"}[cls]
                got = getattr(s, route)(**dict(call, **({} if kind == "get_snr_stationary" else dict(n_step=N_STEP))))
                want = expected(rows, dict(DEFAULT, **call), kind)
                want = [(w * (1.0 if circ else factor), circ, st) for w, circ, st in want]
                compare(ctx, key, s, got, want, tol=1e-2)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def many_unit(route, tier):
    """sources that need thousands of harmonics, alone and among others, every subset"""
    def run(ctx):
        rows = [ROWS["cs"], ROWS["es100"], (0.8, 0.6, 0.977, 0.5, 6e-6), (20.0, 15.0, 0.979, 9.0, 4e-5)] + ([ROWS["es1000"]] if tier == "thorough" else [])
        want = expected(rows, DEFAULT, route)
        for ig, isc in ((False, False),) if tier == "quick" else itertools.product((False, True), repeat=2):
            s = kit.build(kit.Spec(rows), interpolate_g=ig, interpolate_sc=isc)
            kw = {} if route == "get_snr_stationary" else dict(n_step=N_STEP)
            for mask in itertools.product((False, True), repeat=len(rows)):
                m = np.array(mask)
                if not (m[2] or m[3]):
                    continue
                key = "many.%s.%d.%d.%s" % (route, ig, isc, "".join("%d" % x for x in mask))
                with ctx.guard(key):
                    compare(ctx, key, s, getattr(s, route)(which_sources=m, **kw), want, m, tol=2e-2 if ig else 1e-2 if isc else 2e-3)
                ctx.transitions += 1
                ctx.state(key)
            ctx.traces += 1
    return run


HIGH = {"cs": (1e-3, 1e-3, 0.0, 1.0, 0.7), "cs5": (1e-3, 2e-3, 0.0, 2.0, 5.0), "cs20": (1e-4, 1e-4, 0.0, 0.1, 20.0), "cs.9": (0.1, 0.05, 0.0, 30.0, 0.1),
        "es": (1e-3, 1e-3, 0.3, 1.0, 1.3), "es100": (1e-3, 1e-3, 0.6, 1.0, 0.4), "ce": (0.01, 0.01, 0.0, 3.0, 1.2), "ee": (0.01, 0.01, 0.25, 3.0, 0.6)}


def high_unit(route, tier):
    """DECIGO is sensitive far above the other instruments' bands: sources of 0.2 to 40 Hz, every subset, interpolated or direct noise"""
    def run(ctx):
        rows = list(HIGH.values())
        for isc, (cname, store, call) in itertools.product((False, True), (("stored", {"instrument": "DECIGO"}, {}), ("call", {}, {"instrument": "DECIGO"}),
                                                                           ("time", {"instrument": "DECIGO", "t_obs": 1 * u.yr, "confusion_noise": None}, {}),
                                                                           ("both", {"instrument": "TianQin"}, {"instrument": "DECIGO", "t_obs": 2 * u.yr}))):
            s = kit.build(kit.Spec(rows), interpolate_sc=isc, sc_params=dict(store))
            want = expected(rows, dict(DEFAULT, **dict(store, **call)), route)
            kw = dict(call, **({} if route == "get_snr_stationary" else dict(n_step=N_STEP)))
            for mask in itertools.product((False, True), repeat=len(rows)):
                m = np.array(mask)
                if not m.any() or (tier == "quick" and 2 < m.sum() < len(rows)):
                    continue
                key = "high.%s.%d.%s.%s" % (route, isc, cname, "".join("%d" % x for x in mask))
                with ctx.guard(key):
                    compare(ctx, key, s, getattr(s, route)(which_sources=m, **kw), want, m, tol=5e-3)
                ctx.transitions += 1
                ctx.state(key)
            ctx.traces += 1
    return run


# massive sources seconds before their merger (nothing is left to integrate within the last second)
LAST = [(1e6, 1e6, 0.0, 1e5, 0.02), (1e6, 1e6, 0.0, 1e5, 0.012), (1e5, 2e5, 0.0, 1e5, 0.1), (2e6, 1e6, 0.3, 1e5, 0.008), (1e6, 1e6, 0.0, 1e5, 1e-3)]


def last_unit(tier):
    """sources that are about to merge are finite, never spoil the others, and are never louder than when observed from earlier on"""
    def run(ctx):
        rows = LAST + [ROWS["cs"], ROWS["ce"], ROWS["ee10"]]
        alone = {}
        for route, known, isc in itertools.product(("get_snr", "get_snr_evolving"), (False, True), (False, True)):
            for n in (1, 2, 3) if tier == "quick" else range(1, len(rows) + 1):
                for pick in itertools.combinations(range(len(rows)), n):
                    if not any(i < len(LAST) for i in pick):
                        continue
                    key = "last.%s.%d.%d.%s" % (route, known, isc, pick)
                    with ctx.guard(key):
                        s = kit.build(kit.Spec([rows[i] for i in pick]), interpolate_sc=isc)
                        tm = s.get_merger_time().to(u.s).value
                        if not known:
                            s.t_merge = None
                        got = s.get_snr(n_step=N_STEP) if route == "get_snr" else s.get_snr_evolving(n_step=N_STEP)
                        ctx.expect(np.all(np.isfinite(got)) and np.all(got >= 0), key, lambda: "SNR %r with %r s left" % (got, tm))
                        for j, i in enumerate(pick):
                            if tm[j] <= 1.0:
                                ctx.expect(got[j] == 0, key, lambda: "SNR %r with %r s left" % (got[j], tm[j]))
                            if n == 1:
                                alone[route, isc, i] = got[j]
                            elif (route, isc, i) in alone:
                                ctx.expect(kit.close(got[j], alone[route, isc, i], 1e-6), key, lambda: "SNR %r among others, %r alone" % (got[j], alone[route, isc, i]))
                    ctx.transitions += 1
                    ctx.state(key)
            ctx.traces += 1
    return run


def units(tier):
    yield "last", last_unit(tier)
    for route in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
        yield "high/%s" % route, high_unit(route, tier)
    for i, ins in enumerate(INS):
        for mode in ("direct", "interpolated"):
            yield "settings/%s/%s" % (ins[0], mode), settings_unit(ins, mode, tier)
    for route in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
        for start in ("fresh", "known"):
            yield "subsets/%s/%s" % (route, start), subsets_unit(route, "Source", start, tier)
    for cls in ("Source", "Stationary", "Evolving"):
        for part in (0, 1):
            yield "classes/%s/%d" % (cls, part), classes_unit(cls, part, tier)
        yield "power/%s" % cls, power_unit(cls, tier)
    for route in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
        yield "many/%s" % route, many_unit(route, tier)
    yield "steps", steps_unit(tier)
    for cls in ("Source", "Stationary", "Evolving"):
        yield "sky/%s" % cls, sky_unit(cls, tier)
    yield "order", order_unit(tier)
    yield "direct", direct_unit(tier)
