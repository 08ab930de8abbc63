"""C06: evolving a collection is consistent however it is split or returned.

Every sequence of evolutions (single or per-source times, any unit, in place or into a new collection) interleaved
with merger-time, SNR, selection and reload operations up to the depth, on the real objects.  Abstract state: the
original orbits, the time each source has evolved for, the merger times last reported.  Oracle: an independent
integration of Peters' equations from the *original* orbit over the *total* time, so every way of splitting must
agree with the single step.
"""
import os
import tempfile
import numpy as np
from astropy import units as u

from .. import kit, ref
from ..explore import histories

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of every evolution/merger-time/selection sequence (forked real states) against an "
             "abstract model with an independent integration over the total time")
NOTE = ("Every sequence up to the bound on real objects; orbits compared with an independent integrator (to ~1e-5, scaled "
        "near merger), merged flags and counted-down merger times exactly, everything else bit for bit.")
BOUNDS = {"quick": "all sequences of <= 2 operations from an alphabet of 33 (3 initial states), <= 3 from a core of 12, <= 2 with tabulated power factors; "
                   "time grid of 11 fractions of the merger time x 9 containers x 2 forms x 4 first splits",
          "thorough": "all sequences of <= 3 from 33 (3 initial states), <= 4 from the core"}


def setup(tier):
    kit.setup()


def source(m1, m2, e, t_yr, dist):
    """a source that merges after t_yr years"""
    bt = ref.beta(m1 * ref.MSUN, m2 * ref.MSUN)
    a1 = 1e9
    t1 = ref.t_merge_true(a1, e, bt)
    a = a1 * (t_yr * ref.YR / t1)**0.25
    return (m1, m2, e, dist, ref.f_of_a(a, m1 * ref.MSUN, m2 * ref.MSUN))


ROWS = [source(30, 20, 0.0, 2.0, 50), source(25, 25, 0.3, 3.0, 40), source(10, 8, 0.05, 12.0, 9),
        source(1.4, 1.3, 0.0, 4000.0, 8), source(12, 5, 0.62, 90.0, 6)]
SKYROWS = [source(30, 20, 0.0, 2.0, 50), source(9, 6, 0.0, 5.5, 10), source(0.7, 0.5, 0.0, 1e7, 1)]
WIDE = [source(0.7, 0.6, 0.5, 9e9, 3.0), source(0.6, 0.5, 0.0, 4e11, 1.0), source(1.4, 0.3, 0.3, 7e12, 5.0), source(40, 30, 0.7, 3e4, 60)]
SINGLE = [source(25, 15, 0.4, 3.0, 40)]
_REF = {}


def truth(row, t):
    """(f, e, merged) after t years, from the original orbit"""
    key = (row, round(t, 12))
    if key not in _REF:
        m1, m2, e, _, f = row
        M1, M2 = m1 * ref.MSUN, m2 * ref.MSUN
        bt, a = ref.beta(M1, M2), ref.a_of_f(f, M1, M2)
        tm = ref.t_merge_true(a, e, bt) / ref.YR
        if t >= tm:
            _REF[key] = (100.0, 0.0, True, tm)
        elif e == 0:
            _REF[key] = (ref.f_of_a(ref.evolve_circ(a, bt, t * ref.YR), M1, M2), 0.0, False, tm)
        else:
            at, et = ref.evolve_ecc(a, e, bt, [0, t * ref.YR])
            _REF[key] = (ref.f_of_a(at[-1], M1, M2), et[-1], False, tm)
    return _REF[key]


CONST = ("m_1", "m_2", "dist", "weights", "inclination", "polarisation", "lon", "lat", "pdist", "n_sources", "len", "m_c",
         "gw_lum_tol", "stat_tol", "ecc_tol", "n_proc", "interpolate_g", "interpolate_sc", "settings", "harmonics", "peak",
         "sc", "g")


class World:
    def __init__(self, src, rows):
        self.src, self.rows = src, [tuple(r) for r in rows]
        self.elapsed = np.zeros(len(rows))          # years
        self.merged = np.zeros(len(rows), bool)
        self.tm = None                              # reported merger times counted down [yr]
        self.const = kit.observe(src)
        self.slack = 1e-9           # absolute accuracy of the remaining merger times [yr]
        self.others = []            # (collection, observation)


def reported(s):
    return s.t_merge.to(u.yr).value.copy()


def check(w, ctx):
    s = w.src
    o = kit.observe(s)
    f, e = s.f_orb.to(u.Hz).value, np.asarray(s.ecc)
    bad = kit.diff({k: w.const[k] for k in CONST}, o, rtol=1e-12, atol=1e-14)
    ctx.expect(not bad, "carried", lambda: "%s changed: %s, was %s" % (bad, kit.show(o, bad), kit.show(w.const, bad)))
    ctx.expect(np.array_equal(s.merged, w.merged), "merged", lambda: "merged %r, expected %r (evolved %r yr)" % (
        s.merged, w.merged, w.elapsed))
    for i, row in enumerate(w.rows):
        tf, te, tmg, tm = truth(row, w.elapsed[i])
        if w.merged[i]:
            ctx.expect(f[i] == 100.0 and e[i] == 0.0, "orbit", lambda: "merged source %d has f=%r e=%r" % (i, f[i], e[i]))
        else:
            left = max(1 - w.elapsed[i] / tm, 1e-9)
            tol = 1e-5 / left
            ctx.expect(abs(f[i] / tf - 1) < tol and abs(e[i] - te) <= tol * te, "orbit",
                       lambda: "source %d after %r yr: f=%r e=%r, expected f=%r e=%r" % (i, w.elapsed[i], f[i], e[i], tf, te))
    if w.tm is not None:
        ctx.expect(s.t_merge is not None and kit.allclose(reported(s), w.tm, 1e-9, w.slack), "t_merge",
                   lambda: "remaining %r yr, expected %r" % (s.t_merge, w.tm))
    for s2, o2 in w.others:
        now = kit.observe(s2)
        bad = kit.diff(o2, now)
        ctx.expect(not bad, "original", lambda: "the collection evolved from changed: %s" % bad)
    ctx.evaluations += len(w.rows)


# ---- operations --------------------------------------------------------------------------------------------
def model_merger(w, exact):
    """what a merger time calculation must report for the current orbits (checked against C12's reference loosely)"""
    out = np.zeros(len(w.rows))
    for i, row in enumerate(w.rows):
        if not w.merged[i]:
            out[i] = truth(row, 0)[3] - w.elapsed[i]
    return out


def merger(**kw):
    def op(w, ctx):
        got = w.src.get_merger_time(**kw).to(u.yr).value
        want = model_merger(w, True)
        for i in range(len(want)):
            ctx.expect(abs(got[i] - want[i]) <= 0.035 * want[i] and (got[i] == 0) == w.merged[i], "merger time",
                       lambda: "merger times %r, expected about %r" % (got, want))
        if kw.get("save_in_class", True):
            w.tm = reported(w.src)
            ctx.expect(kit.allclose(w.tm, got, 1e-12), "merger time", "returned and recorded merger times differ")
    return op


def evolve(make_t, new=False):
    """make_t(world) -> quantity"""
    def op(w, ctx):
        t = make_t(w)
        keep = t.copy()
        yrs = np.broadcast_to(np.asarray(t.to(u.yr).value, float), len(w.rows)).copy()
        if w.tm is None:
            # the library works merger times out itself: learn what it reports (its value is C12's business)
            w.tm = reported_times(w)
        known = w.tm
        src = w.src
        if new:
            before = kit.observe(src)
            if before["t_merge"] is None:       # worked out on the way
                before["t_merge"] = w.tm * (1 * u.yr).to(u.Gyr).value
            r = src.evolve_sources(t, create_new_class=True)
            ctx.expect(isinstance(r, kit.lw.source.Source), "new", "no collection returned")
            now = kit.observe(src)
            bad = kit.diff(before, now, skip=("t_merge",)) + kit.diff({"t_merge": before["t_merge"]}, now, rtol=1e-12)
            ctx.expect(not bad, "original", lambda: "evolving into a new collection changed %s" % bad)
            w.others.append((src, now))
            w.src = r
        else:
            ctx.expect(src.evolve_sources(t) is None, "in place", "something was returned")
        ctx.expect(np.array_equal(np.asarray(keep.value), np.asarray(t.value)) and keep.unit == t.unit, "times",
                   "the times given were changed")
        if t.dtype == np.float32:
            w.slack += 1e-6 * np.max(yrs)
        w.merged = (yrs >= known * (1 - 1e-13)) | w.merged
        w.elapsed = w.elapsed + yrs
        w.tm = np.maximum(0, known - yrs)
    return op


def reported_times(w):
    c = w.src.copy()
    return c.get_merger_time().to(u.yr).value


def scalar(x, unit=u.yr, kind=float):
    q = u.Quantity(kind((x * u.yr).to(unit).value), unit, dtype=kind)
    return lambda w: q.copy()


def each(fn, unit=u.yr):
    """per-source times as a function of the source's remaining true time and its index"""
    def make(w):
        left = np.array([0.0 if w.merged[i] else max(truth(r, 0)[3] - w.elapsed[i], 0) for i, r in enumerate(w.rows)])
        return (np.array([fn(i, x) for i, x in enumerate(left)]) * u.yr).to(unit)
    return make


TIMES = [
    ("0", scalar(0)), ("0.5yr", scalar(0.5)), ("200d", scalar(200 / 365.25, u.day)), ("1yr", scalar(1)),
    ("2.4yr", scalar(2.4)), ("4yr s", scalar(4, u.s)), ("20yr Myr", scalar(20, u.Myr)), ("1e9yr", scalar(1e9)),
    ("int", scalar(1, u.yr, int)), ("f32", scalar(0.5, u.yr, np.float32)),
    ("each half", each(lambda i, t: 0.5 * t)), ("each 0.9", each(lambda i, t: 0.9 * t, u.Myr)),
    ("each even over", each(lambda i, t: 1.2 * t if i % 2 == 0 else 0.0, u.s)),
    ("each odd over", each(lambda i, t: 1.1 * t if i % 2 else 0.3 * t, u.day)),
    ("each zero", each(lambda i, t: 0.0)),
]


def select(sel):
    def op(w, ctx):
        n = len(w.rows)
        if n < 3:
            return False
        idx = np.arange(n)[sel]
        w.src = w.src[sel]
        w.rows = [w.rows[i] for i in idx]
        w.elapsed, w.merged = w.elapsed[idx].copy(), w.merged[idx].copy()
        w.tm = None if w.tm is None else w.tm[idx].copy()
        c = dict(w.const)
        for k in kit.PER_SOURCE + ("m_c",):
            if k in CONST and c[k] is not None:
                c[k] = c[k][idx]
        c["n_sources"] = c["len"] = len(idx)
        w.const = c
    return op


def reload(w, ctx):
    d = tempfile.mkdtemp(dir=kit.env.scratch())
    w.src.save(os.path.join(d, "x"))
    w.src = type(w.src).from_file(os.path.join(d, "x"))
    os.unlink(os.path.join(d, "x.h5"))
    os.rmdir(d)


def snr(**kw):
    def op(w, ctx):
        w.src.get_snr_stationary(**kw)
        for k in ("settings", "sc"):
            w.const[k] = kit.observe(w.src)[k]
    return op


def snr_evol(w, ctx):
    w.src.get_snr_evolving(n_step=4)


def tol(w, ctx):
    w.src.gw_lum_tol = 0.02
    o = kit.observe(w.src)
    for k in ("gw_lum_tol", "ecc_tol", "harmonics"):
        w.const[k] = o[k]


OPS = [("evolve " + n, evolve(t)) for n, t in TIMES] + \
      [("new " + n, evolve(t, True)) for n, t in TIMES if n not in ("int", "f32", "each zero", "1yr", "4yr s")] + [
    ("merger", merger()), ("merger(fit)", merger(exact=False)), ("merger(unsaved)", merger(save_in_class=False)),
    ("reverse", select(slice(None, None, -1))), ("drop", select([0, 2])), ("file", reload),
    ("snr", snr()), ("snr(tq)", snr(instrument="TianQin")), ("evol", snr_evol), ("tol", tol)]
CORE = ["evolve 0.5yr", "evolve 2.4yr", "evolve each half", "evolve each even over", "new 0.5yr", "new each 0.9",
        "new 20yr Myr", "merger", "merger(fit)", "reverse", "file", "evol"]


def canon(w):
    return (tuple(w.rows), tuple("%.9g" % x for x in w.elapsed), tuple(w.merged), w.tm is None, type(w.src).__name__)


def initial(kind):
    if kind == "sky":
        spec = kit.Spec(SKYROWS, weights=[1, 2, 4], sky=kit.SKY[:3])
        return World(kit.build(spec, cls="Stationary", stat_tol=0.3, gw_lum_tol=0.1, interpolate_sc=False,
                               sc_params={"instrument": "TianQin", "L": 1e8 * u.m}), SKYROWS)
    if kind == "single":
        return World(kit.build(kit.Spec(SINGLE, weights=[3]), cls="Evolving", n_proc=1), SINGLE)
    if kind == "table":         # power factors from a table
        src = kit.build(kit.Spec(ROWS[:3], weights=[5, 1, 3]))
        src.g = lambda n, e: 0.5 * ref.g(n, e)
        return World(src, ROWS[:3])
    return World(kit.build(kit.Spec(ROWS, weights=[1, 2, 3, 4, 5]), stat_tol=0.02, n_proc=2), ROWS)


def unit(kind, first, depth, ops):
    def run(ctx):
        w = initial(kind)
        check(w, ctx)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, ops, check, depth - 1, canon)
    return run


# ---- one or two steps over a grid of fractions of the reported merger time -----------------------------------
FRACTIONS = (0.0, 1e-6, 0.1, 0.5, 0.9, 0.999, 1 - 1e-9, 1.0, 1 + 1e-9, 1.5, 1e6)


def grid_unit(i, split):
    """one source of each kind, evolved to a fraction of its own reported merger time, in one or two steps"""
    def run(ctx):
        row = (ROWS + WIDE)[i]
        for frac in FRACTIONS:
            for unit in (u.yr, u.s, u.Gyr):
                for cont in ("scalar", "array", "many") if unit == u.yr else ("scalar", "array"):
                    for new in (False, True):
                        key = "%g %s %s %s" % (frac, unit, cont, "new" if new else "in place")
                        with ctx.guard(key):
                            n = 3 if cont == "many" else 1
                            s = kit.build(kit.Spec([row] * n), interpolate_sc=False)
                            tm = s.get_merger_time()
                            t = frac * tm[0]
                            first = split * t
                            parts = [t] if split == 0 else [first, t - first]
                            for part in parts:
                                q = part.to(unit)
                                q = q if cont == "scalar" else np.repeat(q.value, n) * unit
                                r = s.evolve_sources(q, create_new_class=new)
                                s = r if new else s
                                ctx.transitions += 1
                            edge = abs(frac - 1) < 1e-6
                            want = frac >= 1
                            if not edge or (split == 0 and unit == u.Gyr):
                                ctx.expect(np.all(s.merged == want), key + ".merged",
                                           lambda: "merged %r after %r of the merger time" % (s.merged, frac))
                            left = np.maximum(0, (1 - frac)) * tm[0].to(u.yr).value
                            ctx.expect(kit.allclose(reported(s), np.repeat(left, n), 1e-9, 1e-9 * tm[0].to(u.yr).value),
                                       key + ".t_merge", lambda: "remaining %r, expected %r" % (reported(s), left))
                            if not edge:
                                f, e = s.f_orb.to(u.Hz).value, s.ecc
                                t_yr = t.to(u.yr).value
                                tf, te, _, true_tm = truth(row, t_yr) if frac < 1 else (100.0, 0.0, True, 0)
                                if frac < 1 and 0 < row[2] < 0.15 and frac > 0.97:
                                    continue            # small-eccentricity merger times are approximate
                                tol = 1e-5 / max(1 - t_yr / true_tm, 1e-4) if frac < 1 else 0
                                ctx.expect(np.all(np.abs(f / tf - 1) <= tol) and np.all(np.abs(e - te) <= tol * te),
                                           key + ".orbit", lambda: "f=%r e=%r, expected %r %r" % (f, e, tf, te))
                            ctx.state((i, split, key))
                            ctx.traces += 1
    return run


def units(tier):
    core = [(n, f) for n, f in OPS if n in CORE]
    extra = 0 if tier == "quick" else 1
    for first in CORE:
        yield "default/%s/core" % first, unit("default", first, 3 + extra, core)
    for kind in ("default", "sky", "single"):
        for first, _ in OPS:
            yield "%s/%s" % (kind, first), unit(kind, first, 2 + extra, OPS)
    for first, _ in OPS:
        if first != "file":     # (the table itself isn't saved)
            yield "table/%s" % first, unit("table", first, 2, [(n, f) for n, f in core if n != "file"])
    for i in range(len(ROWS + WIDE)):
        for split in (0, 0.37, 0.999) if i < len(ROWS) or tier == "thorough" else (0, 0.37):
            yield "grid/%d/%g" % (i, split), grid_unit(i, split)
