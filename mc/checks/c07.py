"""C07: merged sources are silent and stay merged.

Every sequence of evolutions (merging some of the sources), merger-time, strain, SNR (total, stationary, evolving,
subset), selection and reload operations up to the depth, on real collections that mix merged and inspiralling,
circular and eccentric sources.  In every state: silence of the merged sources by every route, zero remaining time,
and the inspiralling sources' results equal those of a collection that holds only them.
"""
import os
import tempfile
import numpy as np
from astropy import units as u

from .. import kit
from ..explore import histories, in_child
from .c06 import source

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of every operation sequence (forked real states); monitor for silence and "
             "differential oracle: the collection of the inspiralling sources alone")
NOTE = ("Every sequence up to the bound on real objects; every route to a strain or SNR probed in every state reached "
        "(in forked branches), inspiralling sources compared with a collection without the merged ones.")
BOUNDS = {"quick": "all sequences of <= 2 operations from an alphabet of 27 (4 initial states, the second one from the "
                   "core in three of them), <= 3 from a core of 8",
          "thorough": "all sequences of <= 3 from 27 (4 initial states), <= 4 from the core"}

ROWS = [source(30, 20, 0.0, 2.0, 50), source(25, 25, 0.3, 3.0, 40), source(10, 8, 0.05, 12.0, 9),
        source(1.4, 1.3, 0.0, 40000.0, 8), source(12, 5, 0.62, 9000.0, 6), source(20, 20, 0.25, 30.0, 30)]
SKYROWS = [source(30, 20, 0.0, 2.0, 50), source(9, 6, 0.0, 5.5, 10), source(0.7, 0.5, 0.0, 1e7, 1),
           source(20, 20, 0.0, 30.0, 30)]


def setup(tier):
    kit.setup()


class World:
    def __init__(self, src, kind):
        self.src, self.kind = src, kind
        self.merged = np.array(src.merged)
        self.quiet = np.zeros(src.n_sources, bool)      # merged and SNR recalculated since: recorded SNR must be 0


def check(w, ctx):
    s = w.src
    m = w.merged
    ctx.expect(np.all(s.merged[m]), "un-merged", lambda: "merged %r, previously %r" % (s.merged, m))
    w.merged = m = np.array(s.merged)
    if s.t_merge is not None:
        ctx.expect(np.all(s.t_merge[m].value == 0), "t_merge", lambda: "remaining %r, merged %r" % (s.t_merge, m))
    if s.snr is not None:
        ctx.expect(np.all(s.snr[w.quiet] == 0), "snr", lambda: "recorded SNR %r, merged %r" % (s.snr, m))
    n = s.n_sources

    def probe(c):
        insp = np.flatnonzero(~m)
        alone = kit.rebuild(s[insp]) if len(insp) else None
        every = np.ones(n, bool)
        odd = np.arange(n) % 2 == 1
        step = {"n_step": 4}

        def route(name, **kw):
            if name == "get_snr" and type(s).__name__ != "Source":
                if type(s).__name__ == "Stationary":
                    kw.pop("n_step", None)
            full = getattr(s, name)(**kw)
            c.evaluations += 1
            c.expect(len(full) == n and np.all(np.asarray(full)[m] == 0), name,
                     lambda: "%s gives %r, merged %r" % (name, full, m))
            if alone is not None:
                part = getattr(alone, name)(**kw)
                c.expect(kit.allclose(np.asarray(full)[insp], part, 1e-7), name + ".others",
                         lambda: "%s gives %r, without the merged sources %r" % (name, full[insp], part))
            return full
        for name, kw in (("get_h_0_n", dict(harmonics=[1, 2, 3])), ("get_h_c_n", dict(harmonics=2)),
                         ("get_snr", step), ("get_snr_stationary", {}), ("get_snr_evolving", step)):
            if name == "get_snr" and type(s).__name__ != "Source":
                kw = {k: v for k, v in kw.items() if k != "n_step" or type(s).__name__ == "Evolving"}
            full = route(name, **kw)
            if "snr" in name:
                c.expect(np.all(s.snr[m] == 0), name + ".recorded", lambda: "recorded %r, merged %r" % (s.snr, m))
                c.expect(kit.allclose(s.snr, full, 1e-12), name + ".recorded", lambda: "recorded %r, returned %r" % (
                    s.snr, full))
                if alone is not None:
                    c.expect(np.array_equal(s.max_snr_harmonic[insp], alone.max_snr_harmonic), name + ".harmonic",
                             lambda: "loudest harmonics %r, without the merged sources %r" % (
                                 s.max_snr_harmonic[insp], alone.max_snr_harmonic))
        # subsets
        for name, kw in (("get_h_0_n", dict(harmonics=[2])), ("get_snr_stationary", {}), ("get_snr_evolving", step)):
            before = None if s.snr is None else s.snr.copy()
            got = getattr(s, name)(which_sources=odd, **kw)
            c.expect(len(got) == odd.sum() and np.all(np.asarray(got)[m[odd]] == 0), name + ".subset",
                     lambda: "%s of a subset gives %r, merged %r" % (name, got, m[odd]))
            if "snr" in name:
                c.expect(kit.same(s.snr[~odd], before[~odd]), name + ".subset", "other sources' recorded SNRs changed")
        t = s.get_merger_time(save_in_class=False)
        c.expect(np.all(t[m].value == 0) and np.all(t[~m].value > 0), "get_merger_time",
                 lambda: "merger times %r, merged %r" % (t, m))
        if alone is not None:
            c.expect(kit.allclose(t[insp].value, alone.get_merger_time(save_in_class=False).value, 1e-9),
                     "get_merger_time.others", "merger times differ without the merged sources")
        # further evolution, both forms
        if alone is not None:
            alone.t_merge = None if s.t_merge is None else s.t_merge[insp].copy()
        new = s.evolve_sources(0.3 * u.yr, create_new_class=True)
        c.expect(np.all(new.merged[m]), "evolve(new)", lambda: "merged %r, previously %r" % (new.merged, m))
        s.evolve_sources(0.3 * u.yr)
        c.expect(np.all(s.merged[m]), "evolve", lambda: "merged %r, previously %r" % (s.merged, m))
        if alone is not None:
            alone.evolve_sources(0.3 * u.yr)
            for x in (s, new):
                c.expect(kit.allclose(x.f_orb[insp].value, alone.f_orb.value, 1e-9) and
                         kit.allclose(x.ecc[insp], alone.ecc, 1e-9) and
                         np.array_equal(x.merged[insp], alone.merged), "evolve.others",
                         lambda: "orbits evolve differently without the merged sources")
        for x in (s, new):
            h = x.get_h_0_n([2])
            c.expect(np.all(h[x.merged] == 0), "h_0 after", lambda: "strain %r, merged %r" % (h, x.merged))
            g = x.get_snr_stationary()
            c.expect(np.all(g[x.merged] == 0) and np.all(x.snr[x.merged] == 0), "snr after",
                     lambda: "SNR %r recorded %r, merged %r" % (g, x.snr, x.merged))
    in_child(ctx, probe)


def evolve(t, new=False):
    def op(w, ctx):
        q = t(w.src) if callable(t) else t
        if new:
            w.src = w.src.evolve_sources(q, create_new_class=True)
            w.quiet = np.zeros(w.src.n_sources, bool)
        else:
            w.src.evolve_sources(q)
    return op


def evens(s):
    return np.where(np.arange(s.n_sources) % 2 == 0, 50.0, 0.1) * u.yr


def merger(**kw):
    def op(w, ctx):
        w.src.get_merger_time(**kw)
    return op


def snr(route, which=None, **kw):
    def op(w, ctx):
        s = w.src
        if route == "get_snr" and type(s).__name__ != "Source":
            if which is not None or type(s).__name__ == "Stationary":
                return False
        mask = np.ones(s.n_sources, bool) if which is None else np.arange(s.n_sources) % 2 == which
        args = dict(kw)
        if which is not None:
            args["which_sources"] = mask
        if route != "get_snr_stationary":
            args["n_step"] = 5
        getattr(s, route)(**args)
        w.quiet = (w.quiet | mask) & s.merged
        if route == "get_snr":          # records every source
            w.quiet = np.array(s.merged)
    return op


def strain(w, ctx):
    w.src.get_h_0_n([2, 3])
    w.src.get_h_c_n(1)


def select(sel):
    def op(w, ctx):
        if w.src.n_sources < 3:
            return False
        w.src = w.src[sel]
        w.merged, w.quiet = w.merged[sel].copy(), w.quiet[sel].copy()
    return op


def keep_merged(w, ctx):
    if not w.merged.any():
        return False
    sel = w.merged.copy()
    w.src = w.src[sel]
    w.merged, w.quiet = w.merged[sel], w.quiet[sel]


def reload(w, ctx):
    d = tempfile.mkdtemp(dir=kit.env.scratch())
    w.src.save(os.path.join(d, "x"))
    w.src = type(w.src).from_file(os.path.join(d, "x"))
    os.unlink(os.path.join(d, "x.h5"))
    os.rmdir(d)


def setting(w, ctx):
    w.src.sc_params.update(instrument="TianQin", t_obs=3 * u.yr)


def wider(w, ctx):
    w.src.a = w.src.a * 2


def tol(w, ctx):
    w.src.gw_lum_tol = 0.2


def nearly(s):
    """all sources to 98 % of their merger time (or of 5 yr)"""
    t = s.get_merger_time(save_in_class=False).to(u.yr).value
    return np.minimum(t * 0.97, 5.0) * u.yr


OPS = [
    ("evolve 1yr", evolve(1 * u.yr)), ("evolve 2.5yr", evolve(2.5 * u.yr)), ("evolve 60yr", evolve(60 * u.yr)),
    ("evolve 1Gyr", evolve(1 * u.Gyr)), ("evolve evens", evolve(evens)), ("evolve 0", evolve(0 * u.s)),
    ("evolve nearly", evolve(nearly)),
    ("new 2.5yr", evolve(2.5 * u.yr, True)), ("new evens", evolve(evens, True)), ("new 0", evolve(0 * u.yr, True)),
    ("merger", merger()), ("merger(fit)", merger(exact=False)), ("merger(unsaved)", merger(save_in_class=False)),
    ("strain", strain), ("snr", snr("get_snr")), ("snr[even]", snr("get_snr", 0)), ("stat", snr("get_snr_stationary")),
    ("stat[odd]", snr("get_snr_stationary", 1)), ("evol", snr("get_snr_evolving")),
    ("evol[even]", snr("get_snr_evolving", 0)), ("reverse", select(slice(None, None, -1))), ("drop", select(slice(1, None))),
    ("merged", keep_merged), ("file", reload), ("setting", setting), ("tol", tol),
    ("a*2", wider),
]
CORE = ["evolve 2.5yr", "evolve evens", "new 2.5yr", "merger", "snr", "stat[odd]", "reverse", "file"]


def canon(w):
    s = w.src
    return (w.kind, tuple("%.8g" % x for x in s.f_orb.value), tuple("%.7g" % x for x in s.ecc), tuple(w.merged),
            tuple(w.quiet), s.t_merge is None, s.snr is None, s.gw_lum_tol, repr(kit.settings_of(s)))


def initial(kind):
    if kind == "sky":
        return World(kit.build(kit.Spec(SKYROWS, weights=[1, 2, 4, 8], sky=kit.SKY[:4]), stat_tol=0.1), kind)
    if kind == "evolving":
        return World(kit.build(kit.Spec(ROWS[:4]), cls="Evolving", interpolate_sc=False), kind)
    s = kit.build(kit.Spec(ROWS))
    w = World(s, kind)
    if kind == "merged":
        s.get_snr(n_step=5)
        s.evolve_sources(2.5 * u.yr)
        w.merged = np.array(s.merged)
    return w


def unit(kind, first, depth, ops, then=None):
    """`first`, then every sequence of depth - 1 operations from `then`"""
    then = ops if then is None else then

    def run(ctx):
        w = initial(kind)
        check(w, ctx)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, then, check, depth - 1, canon)
    return run


def units(tier):
    core = [(n, f) for n, f in OPS if n in CORE]
    extra = 0 if tier == "quick" else 1
    for first in CORE:
        yield "mixed/%s/core" % first, unit("mixed", first, 3 + extra, core)
    for kind in ("mixed", "merged", "sky", "evolving"):
        for first, _ in OPS:
            short = tier == "quick" and kind in ("merged", "evolving", "sky")
            yield "%s/%s" % (kind, first), unit(kind, first, 2 + extra, OPS, core if short else None)
