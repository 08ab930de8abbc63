"""C02: SNRs never depend on what was done with the collection before.

Every sequence of SNR calls, setting changes, merger-time calculations, selections, evolutions and save/load
steps up to the depth, on the real objects.  In every state reached the SNRs and loudest harmonics that the next
calculation reports are compared with those of a collection freshly built from the current sources and settings;
the settings that persisted are compared with the abstract model; every array returned earlier must be unchanged.
"""
import os
import numpy as np
from astropy import units as u

from .. import kit
from ..explore import histories, in_child
from .c01 import DEFAULT, valid

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of every operation sequence (forked real states); differential oracle: "
             "freshly built collection")
NOTE = ("Every sequence up to the bound on the real objects; in each state SNRs equal a fresh collection's to 1e-9 "
        "(1e-6 for integrated orbits), only explicitly given settings persist, results returned earlier keep their values. "
        "Assumes a fresh collection is right (decided by C18/C20).")
BOUNDS = {"quick": "all sequences of <= 2 operations from an alphabet of 34 (4 initial states), <= 3 from a core of 9",
          "thorough": "all sequences of <= 3 operations from 34 (4 initial states), <= 4 from the core"}

MERGING = (35.0, 30.0, 0.03, 100.0, 1.5e-2)


def setup(tier):
    kit.setup()


class World:
    def __init__(self, src, model):
        self.src, self.model = src, dict(model)
        self.kept = []              # results returned so far, with a private copy

    def keep(self, arr):
        self.kept.append((arr, np.array(arr, copy=True)))


P1, P2 = kit.CountingPSD("p1"), kit.CountingPSD("p2", 3e-41)
C1 = kit.CountingCN("c1")


def snr(which=None, route="get_snr", **kw):
    def op(w, ctx):
        new = dict(w.model, **kw)
        if not valid(new):
            return False
        args = dict(kw)
        if route != "get_snr_stationary":
            args["n_step"] = 6
        if which is not None:
            args["which_sources"] = np.arange(w.src.n_sources) % 2 == which
        w.model = new
        fresh = kit.rebuild(w.src) if which is not None else None
        w.keep(getattr(w.src, route)(**args))
        if fresh is not None:
            fresh.sc_params = dict(new)
            got, want = np.asarray(w.kept[-1][0]), np.asarray(getattr(fresh, route)(**args))
            ctx.expect(got.shape == want.shape and kit.allclose(got, want, 1e-6), "subset",
                       lambda: "%s of a subset gives %r, fresh collection %r" % (route, got, want))
        w.keep(w.src.snr)
        if w.src.max_snr_harmonic is not None:
            w.keep(w.src.max_snr_harmonic)
    return op


def setting(how, **kw):
    def op(w, ctx):
        new = dict(DEFAULT, **kw) if how == "replace" else dict(w.model, **kw)
        if not valid(new):
            return False
        if how == "replace":
            w.src.sc_params = dict(kw)
        else:
            w.src.sc_params.update(kw)
        w.model = new
    return op


def call(name, *a, **kw):
    def op(w, ctx):
        r = getattr(w.src, name)(*a, **kw)
        if isinstance(r, u.Quantity):
            w.keep(r.value)
        elif isinstance(r, np.ndarray):
            w.keep(r)
    return op


def select(fn):
    def op(w, ctx):
        if w.src.n_sources < 2:
            return False
        w.src = fn(w.src)
    return op


def reload(w, ctx):
    path = os.path.join(kit.env.scratch(), "c02-%d" % os.getpid())
    w.src.save(path, overwrite=True)
    w.src = type(w.src).from_file(path)
    os.unlink(path + ".h5")
    w.model = {k: DEFAULT[k] if callable(v) else v for k, v in w.model.items()}
    if w.model["instrument"] == "custom":
        w.src.sc_params["custom_psd"] = w.model["custom_psd"] = P1


def evolve(t, new=False):
    def op(w, ctx):
        if new:
            w.src = w.src.evolve_sources(t, create_new_class=True)
        else:
            w.src.evolve_sources(t)
    return op


def attr(name, value):
    def op(w, ctx):
        setattr(w.src, name, value)
    return op


def reassign(what):
    """the user gives the sources new orbits (and discards the merger times of the old ones)"""
    def op(w, ctx):
        s = w.src
        if what == "ecc":
            s.ecc = 0.0 * s.ecc
        elif what == "a":
            s.a = 1.2 * s.a
        elif what == "dist":
            s.dist = 0.5 * s.dist
        else:
            s.m_1, s.m_2 = 0.9 * s.m_2, 1.1 * s.m_1
        if what != "dist":
            s.t_merge = None
    return op


OPS = [
    ("snr", snr()),
    ("snr(tq)", snr(instrument="TianQin")),
    ("snr(1yr)", snr(t_obs=1 * u.yr)),
    ("snr(lisa,8yr,robson)", snr(instrument="LISA", t_obs=8 * u.yr, confusion_noise="robson19")),
    ("snr(p1)", snr(instrument="custom", custom_psd=P1)),
    ("snr(L,R)", snr(L=2e9 * u.m, approximate_R=True)),
    ("snr(R=0)", snr(L="auto", approximate_R=False, confusion_noise="auto")),
    ("snr(c1)", snr(confusion_noise=C1)),
    ("snr[even]", snr(which=0)),
    ("snr[odd](decigo)", snr(which=1, instrument="DECIGO")),
    ("stat", snr(route="get_snr_stationary")),
    ("stat[odd](tq)", snr(which=1, route="get_snr_stationary", instrument="TianQin")),
    ("evol", snr(route="get_snr_evolving")),
    ("evol[even](2yr)", snr(which=0, route="get_snr_evolving", t_obs=2 * u.yr)),
    ("set(3yr)", setting("set", t_obs=3 * u.yr)),
    ("set(auto)", setting("set", t_obs="auto", instrument="TianQin")),
    ("set(none)", setting("set", confusion_noise=None)),
    ("replace{}", setting("replace")),
    ("merger", call("get_merger_time")),
    ("merger(fit)", call("get_merger_time", exact=False)),
    ("merger(unsaved)", call("get_merger_time", save_in_class=False)),
    ("strain", call("get_h_0_n", [1, 2, 3])),
    ("mask", call("get_source_mask", circular=True, stationary=True, t_obs=100 * u.yr)),
    ("reverse", select(lambda s: s[::-1])),
    ("drop", select(lambda s: s[1:])),
    ("copy", select(lambda s: s.copy())),
    ("file", reload),
    ("evolve", evolve(0.3 * u.yr)),
    ("evolve(new)", evolve(1 * u.yr, True)),
    ("tol", attr("gw_lum_tol", 0.3)),
    ("ecc=0", reassign("ecc")),
    ("a*1.2", reassign("a")),
    ("dist/2", reassign("dist")),
    ("masses", reassign("masses")),
]
CORE = ["snr", "snr(tq)", "stat[odd](tq)", "evol[even](2yr)", "set(auto)", "merger", "reverse", "file", "evolve"]


def check(w, ctx):
    s = w.src
    got, want = kit.settings_of(s), {k: kit.canon_setting(v) for k, v in w.model.items()}
    ctx.expect(got == want, "settings", lambda: "settings %r, expected %r" % (got, want))
    for arr, old in w.kept:
        ctx.expect(kit.same(np.asarray(arr), old), "returned", "a result returned earlier has changed")

    def probe(c):
        fresh = kit.rebuild(s)
        insp = ~np.asarray(s.merged)
        odd = len(ctx.path) % 2
        for args in ((True, None), (None, True), (False, False)):
            a, b = s.get_source_mask(*args), fresh.get_source_mask(*args)
            c.expect(np.array_equal(a, b), "classes", lambda: "get_source_mask%r gives %r, fresh collection %r" % (args, a, b))
        for name, args in (("get_snr", dict(n_step=6)),
                           ("get_snr_stationary", {}) if odd else ("get_snr_evolving", dict(n_step=6))):
            a, b = getattr(s, name)(**args), getattr(fresh, name)(**args)
            c.evaluations += 1
            have = kit.settings_of(s)
            c.expect(have == want, name + ".settings", lambda: "settings after %s(%r) are %r, expected %r" % (name, args, have, want))
            c.expect(kit.allclose(a, b, 1e-6), name, lambda: "%s(%r) gives %r, fresh collection %r" % (name, args, a, b))
            c.expect(kit.allclose(s.snr, fresh.snr, 1e-6), name + ".snr",
                     lambda: "recorded %r, fresh collection %r" % (s.snr, fresh.snr))
            c.expect(np.array_equal(s.max_snr_harmonic[insp], fresh.max_snr_harmonic[insp]), name + ".harmonic",
                     lambda: "recorded %r, fresh collection %r" % (s.max_snr_harmonic, fresh.max_snr_harmonic))
    in_child(ctx, probe)


def canon(w):
    s = w.src
    return (tuple("%.9g" % x for x in s.f_orb.value), tuple("%.7g" % x for x in s.ecc), tuple(s.merged), s.gw_lum_tol, tuple("%.9g" % x for x in s.dist.value), tuple("%.9g" % x for x in s.m_1.value),
            s.t_merge is None, s.snr is None, tuple(sorted((k, kit.canon_setting(v)) for k, v in w.model.items())))


def initial(kind):
    spec = kit.Spec.of("cs", "ce", "es2", "ee")         # (es2 and ee need different numbers of harmonics)
    spec.rows += [MERGING, kit.POOL["cm"]]
    if kind == "nointerp":
        kw = {"t_obs": 6 * u.yr}
        return World(kit.build(spec, interpolate_sc=False, sc_params=kw), dict(DEFAULT, **kw))
    if kind == "sky":
        spec = kit.Spec.of("cs", "ce", "cs2", "cm", sky=kit.SKY[:4], weights=[1, 2, 3, 4])
        return World(kit.build(spec, stat_tol=0.05), DEFAULT)
    return World(kit.build(spec), DEFAULT)


def unit(kind, first, depth, ops):
    def run(ctx):
        w = initial(kind)
        check(w, ctx)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, ops, check, depth - 1, canon)
    return run


def units(tier):
    core = [(n, f) for n, f in OPS if n in CORE]
    extra = 0 if tier == "quick" else 1
    for first in CORE:
        yield "default/%s/3" % first, unit("default", first, 3 + extra, core)
    for kind in ("default", "nointerp", "sky"):
        for first, _ in OPS:
            yield "%s/%s" % (kind, first), unit(kind, first, 2 + extra, OPS)
