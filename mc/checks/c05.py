"""C05: derived quantities always agree with the sources they describe.

(a) Every way of constructing a collection (frequency, separation, both; units; containers; classes; tolerances).
(b) Every sequence of assignments (separation, frequency, masses, eccentricity, luminosity tolerance), selections,
copies, evolutions, reloads and results up to the depth, on real objects, with up to two further live collections
derived on the way whose derived quantities must not move.  Oracle: reference formulae on the abstract sources.
"""
import os
import tempfile
import numpy as np
from astropy import units as u

from .. import kit, ref
from ..explore import histories

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of every operation sequence (forked real states) against an abstract model of "
             "masses, orbits and tolerance")
NOTE = ("Every sequence up to the bound on real objects; derived quantities compared with independent formulae and an "
        "independently tabulated power spectrum in every state, also those of collections derived earlier.")
BOUNDS = {"quick": "all sequences of <= 2 operations from an alphabet of 27 (4 initial states), <= 3 from a core of 12; "
                   "construction grid of 3 classes x 7 forms x 4 unit systems x 6 tolerances",
          "thorough": "all sequences of <= 3 from 27 (4 initial states), <= 4 from the core"}

TOLS = (0.05, 0.01, 0.3, 0.001, 0.1, 0.2)


def setup(tier):
    kit.setup()
    from .. import fixtures
    t = np.load(fixtures.harmonics_path("small"))
    global E_GRID, G_CUM
    E_GRID = fixtures.e_grid("small")
    G_CUM = np.cumsum(t["g_vals"], axis=1)
    for tol in TOLS + (0.15, 0.02):
        curves(tol)


_CURVES = {}


def curves(tol):
    """(ecc_tol, harmonics at PROBE_E) implied by a tolerance, from the reference spectrum"""
    if tol not in _CURVES:
        from scipy.optimize import brentq
        e = brentq(lambda x: ref.g(2, x) - (1 - tol) * ref.F(x), 1e-4, 0.35)
        need = np.argmax(G_CUM >= (1 - tol) * ref.F(E_GRID)[:, None], axis=1) + 1
        short = G_CUM[:, -1] < (1 - tol) * ref.F(E_GRID)
        need = np.where(short, G_CUM.shape[1], need)
        need = np.maximum.accumulate(np.maximum(need, 2))
        _CURVES[tol] = (e, np.interp(kit.PROBE_E, E_GRID, need))
    return _CURVES[tol]


class Model:
    """what the collection should be: masses [Msun], eccentricity, f [Hz], tolerance"""
    def __init__(self, spec, tol):
        self.m1, self.m2, self.ecc, self.f = spec.m1, spec.m2, spec.ecc, spec.f
        self.tol = tol

    def take(self, idx):
        m = Model.__new__(Model)
        for k in ("m1", "m2", "ecc", "f"):
            setattr(m, k, getattr(self, k)[idx].copy())
        m.tol = self.tol
        return m


def check_one(ctx, key, s, m):
    n = len(m.m1)
    ok = lambda name, cond, msg: ctx.expect(cond, key + name, msg)                                          # noqa
    ok("n_sources", s.n_sources == n and len(s) == n, lambda: "n_sources %r len %r, %d sources" % (s.n_sources, len(s), n))
    f, a, mc = s.f_orb.to(u.Hz).value, s.a.to(u.m).value, s.m_c.to(u.Msun).value
    ok("f_orb", kit.allclose(f, m.f, 1e-9), lambda: "f_orb %r, expected %r" % (f, m.f))
    wa = ref.a_of_f(m.f, m.m1 * ref.MSUN, m.m2 * ref.MSUN)
    ok("a", kit.allclose(a, wa, 1e-9), lambda: "a %r, expected %r" % (a, wa))
    wm = ref.chirp_mass(m.m1, m.m2)
    ok("m_c", kit.allclose(mc, wm, 1e-9), lambda: "m_c %r, expected %r" % (mc, wm))
    ok("ecc", kit.allclose(s.ecc, m.ecc, 1e-7), lambda: "ecc %r, expected %r" % (s.ecc, m.ecc))
    ok("gw_lum_tol", s.gw_lum_tol == m.tol, lambda: "gw_lum_tol %r, expected %r" % (s.gw_lum_tol, m.tol))
    et, need = curves(m.tol)
    ok("ecc_tol", abs(s.ecc_tol - et) < 4.1e-5, lambda: "ecc_tol %r, expected %r" % (s.ecc_tol, et))
    got = np.asarray(s.harmonics_required(kit.PROBE_E))
    ok("harmonics", np.all((got >= need - 1e-6) & (got <= need + 1.0 + 1e-6)),
       lambda: "harmonics %r, expected %r rounded up (tolerance %r)" % (got, need, m.tol))
    ok("scalar", int(s.harmonics_required(0.5)) == got[list(kit.PROBE_E).index(0.5)], "scalar harmonics differ")
    circ = s.get_source_mask(circular=True)
    far = np.abs(m.ecc - et) > 1e-4
    ok("circular", np.array_equal(circ[far], (m.ecc <= et)[far]), lambda: "circular %r for e=%r, threshold %r" % (
        circ, m.ecc, et))


class World:
    def __init__(self, src, model):
        self.cur = (src, model)
        self.others = []            # collections left behind
        self.dir = None

    def check(self, ctx):
        check_one(ctx, "", *self.cur)
        for i, (s, m) in enumerate(self.others):
            check_one(ctx, "other%d." % i, s, m)
        ctx.evaluations += 1 + len(self.others)

    def derive(self, src, model):
        self.others.append(self.cur)
        self.cur = (src, model)


# ---- operations --------------------------------------------------------------------------------------------
def set_f(factor, unit):
    def op(w, ctx):
        s, m = w.cur
        m.f = m.f * factor * (1 + 0.1 * np.arange(len(m.f)))
        s.f_orb = (m.f * u.Hz).to(unit)
    return op


def others_kept(ctx, s, before):
    """an assigned orbit leaves everything else alone; a merger time may stay, be dropped or follow the orbit"""
    o = kit.observe(s, curves=False)
    bad = kit.diff({k: before[k] for k in ("m_1", "m_2", "dist", "ecc", "weights", "snr", "max_snr_harmonic", "merged", "lon", "inclination", "settings", "stat_tol")}, o)
    if o["t_merge"] is not None and not kit.same(before["t_merge"], o["t_merge"]) and not kit.allclose(o["t_merge"], s.copy().get_merger_time(save_in_class=False).to(u.Gyr).value, 1e-3):
        bad.append("t_merge")
    ctx.expect(not bad, "assignment", lambda: "assigning the orbit changed %s: %s, was %s" % (bad, kit.show(o, bad), kit.show(before, bad)))


def set_a(factor, unit):
    def op(w, ctx):
        s, m = w.cur
        before = kit.observe(s, curves=False)
        m1, m2 = m.m1 * ref.MSUN, m.m2 * ref.MSUN
        a = ref.a_of_f(m.f, m1, m2) * factor * (1 + 0.05 * np.arange(len(m.f)))
        m.f = ref.f_of_a(a, m1, m2)
        s.a = (a * u.m).to(unit)
        others_kept(ctx, s, before)
    return op


def bump(name, attr, factor):
    """in place, through the array the collection reports"""
    def op(w, ctx):
        s, m = w.cur
        if name == "ecc" and s.position is not None:
            return False
        arr = getattr(s, name)
        arr[0] = arr[0] * factor
        getattr(m, attr)[0] *= factor
        if name == "ecc":
            arr[0] = m.ecc[0] = 0.4
    return op


def set_mass(w, ctx):
    s, m = w.cur
    m.m1, m.m2 = m.m2 * 1.5, m.m1.copy()
    s.m_1, s.m_2 = (m.m1 * u.Msun).to(u.kg), m.m2 * u.Msun


def set_ecc(w, ctx):
    s, m = w.cur
    if s.position is not None:
        return False
    m.ecc = np.where(m.ecc == 0, 0.06, m.ecc * 0.5)
    s.ecc = m.ecc.copy()


def tol(value):
    def op(w, ctx):
        s, m = w.cur
        s.gw_lum_tol = value
        m.tol = value
    return op


def select(sel, leave=True):
    def op(w, ctx):
        s, m = w.cur
        n = s.n_sources
        if n < 2:
            return False
        idx = np.atleast_1d(np.arange(n)[sel])
        w.derive(s[sel], m.take(idx))
    return op


def copy(w, ctx):
    s, m = w.cur
    w.derive(s.copy(), m.take(np.arange(len(m.f))))


def swap(w, ctx):
    if not w.others:
        return False
    w.cur, w.others[-1] = w.others[-1], w.cur


def evolve(t, new):
    def op(w, ctx):
        s, m = w.cur
        if new:
            # the new form shares the mass and distance arrays with the original; give it its own here, as sharing
            # is not what this property is about
            r = s.evolve_sources(t, create_new_class=True)
            r.m_1, r.m_2 = r.m_1.copy(), r.m_2.copy()
            nm = m.take(np.arange(len(m.f)))
            w.derive(r, nm)
            s, m = w.cur
        else:
            s.evolve_sources(t)
        # the evolved orbit itself is the business of C06: here only what is derived from it
        m.f, m.ecc = s.f_orb.to(u.Hz).value.copy(), np.array(s.ecc)
    return op


def reload(w, ctx):
    s, m = w.cur
    d = tempfile.mkdtemp(dir=kit.env.scratch())
    s.save(os.path.join(d, "x"))
    w.derive(type(s).from_file(os.path.join(d, "x")), m.take(np.arange(len(m.f))))
    os.unlink(os.path.join(d, "x.h5"))
    os.rmdir(d)


def use(w, ctx):
    w.cur[0].get_snr(**({} if type(w.cur[0]).__name__ == "Stationary" else {"n_step": 4}))


def merger(w, ctx):
    w.cur[0].get_merger_time()


def setting(w, ctx):
    w.cur[0].sc_params["t_obs"] = 2 * u.yr


OPS = [
    ("f*2", set_f(2, u.Hz)), ("f/3 1/yr", set_f(1 / 3, 1 / u.yr)), ("a*0.8", set_a(0.8, u.AU)), ("a*2 Rsun", set_a(2, u.Rsun)),
    ("f[0]", bump("f_orb", "f", 1.7)), ("m_1[0]", bump("m_1", "m1", 1.3)), ("m_2[0]", bump("m_2", "m2", 0.5)),
    ("ecc[0]", bump("ecc", "ecc", 1)), ("mass", set_mass), ("ecc", set_ecc),
    ("tol 0.01", tol(0.01)), ("tol 0.3", tol(0.3)), ("tol 0.001", tol(0.001)), ("tol 0.05", tol(0.05)),
    ("tol 0.0495", tol(0.0495)), ("tol 0.0011", tol(0.0011)),
    ("reverse", select(slice(None, None, -1))), ("tail", select(slice(1, None))), ("one", select(0)),
    ("dup", select([1, 1, 0])), ("copy", copy), ("swap", swap),
    ("evolve", evolve(0.7 * u.yr, False)), ("evolve(new)", evolve(1.5 * u.yr, True)),
    ("merge some", evolve(300 * u.yr, False)), ("file", reload), ("snr", use), ("merger", merger), ("setting", setting),
]
CORE = ["f*2", "a*0.8", "tol 0.01", "tol 0.3", "reverse", "copy", "swap", "evolve", "file", "m_1[0]", "snr", "evolve(new)"]


def check(w, ctx):
    w.check(ctx)


def canon(w):
    return tuple((tuple("%.8g" % x for x in np.concatenate([m.m1, m.m2, m.ecc, m.f])), m.tol)
                 for _, m in [w.cur] + w.others)


def initial(kind):
    if kind == "sky":
        spec = kit.Spec.of("cs", "ce", "cs2", sky=kit.SKY[:3], weights=[1, 2, 3])
        return World(kit.build(spec, cls="Stationary", gw_lum_tol=0.15), Model(spec, 0.15))
    if kind == "from_a":
        spec = kit.Spec.of("es", "cs", "ce")
        kw = spec.kwargs()
        kw["a"] = (ref.a_of_f(spec.f, spec.m1 * ref.MSUN, spec.m2 * ref.MSUN) * u.m).to(u.Rsun)
        del kw["f_orb"]
        return World(kit.lw.source.Source(**kw, interpolate_g=False), Model(spec, 0.05))
    if kind == "evolved":
        spec = kit.Spec.of("es", "cm", "nc", "ee")
        s = kit.build(spec, gw_lum_tol=0.02, n_proc=1)
        m = Model(spec, 0.02)
        s.evolve_sources(1.5 * u.yr)
        m.f, m.ecc = s.f_orb.to(u.Hz).value.copy(), np.array(s.ecc)
        return World(s, m)
    spec = kit.Spec.of("cs", "es", "ce", "nc")
    return World(kit.build(spec), Model(spec, 0.05))


def unit(kind, first, depth, ops):
    def run(ctx):
        w = initial(kind)
        check(w, ctx)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, ops, check, depth - 1, canon)
    return run


# ---- construction --------------------------------------------------------------------------------------------
def construct_unit(cls):
    def run(ctx):
        spec = kit.Spec.of("es", "cs", "ce", "nc")
        spec.rows += [(10.0, 1e6, 0.4, 1e6, 1e-3), (3e6, 1.4, 0.0, 3e5, 2e-3)]          # extreme mass ratios
        a = ref.a_of_f(spec.f, spec.m1 * ref.MSUN, spec.m2 * ref.MSUN)
        klass = getattr(kit.lw.source, cls)
        kept = []
        for tolerance in TOLS:
            for mu, du, fu, au in ((u.Msun, u.kpc, u.Hz, u.m), (u.kg, u.Mpc, 1 / u.yr, u.AU), (u.g, u.pc, u.mHz, u.Rsun),
                                   (u.Mjup, u.m, 1 / u.day, u.km)):
                for form in ("f", "a", "both", "f1", "a1", "both1", "f scalar", "a scalar", "kw dict"):
                    n = 6 if "1" not in form and "scalar" not in form else 1
                    sub = spec.take(range(n))
                    pick = (lambda x: x[0]) if "scalar" in form else (lambda x: x[:n])
                    kw = dict(m_1=(pick(spec.m1) * u.Msun).to(mu), m_2=(pick(spec.m2) * u.Msun).to(mu),
                              ecc=pick(spec.ecc), dist=(pick(spec.dist) * u.kpc).to(du))
                    if form[0] != "a":
                        kw["f_orb"] = (pick(spec.f) * u.Hz).to(fu)
                    if form[0] == "a":
                        kw["a"] = (pick(a) * u.m).to(au)
                    if form.startswith("both"):
                        kw["a"] = (pick(a) * 2.5 * u.m).to(au)
                    key = "%s %s %s" % (form, mu, tolerance)
                    with ctx.guard(key):
                        s = klass(gw_lum_tol=tolerance, interpolate_g=False, interpolate_sc=False, **kw)
                        m = Model(sub, tolerance)
                        check_one(ctx, key, s, m)
                        ctx.state((cls, key))
                        ctx.transitions += 1
                        ctx.traces += 1
                        kept.append((key, s, m))
        for key, s, m in kept[::5]:          # later constructions changed nothing
            check_one(ctx, "later." + key, s, m)
    return run


def units(tier):
    core = [(n, f) for n, f in OPS if n in CORE]
    extra = 0 if tier == "quick" else 1
    for cls in ("Source", "Stationary", "Evolving"):
        yield "construct/" + cls, construct_unit(cls)
    for first in CORE:
        yield "default/%s/core" % first, unit("default", first, 3 + extra, core)
    for kind in ("default", "sky", "from_a", "evolved"):
        for first, _ in OPS:
            yield "%s/%s" % (kind, first), unit(kind, first, 2 + extra, OPS)
