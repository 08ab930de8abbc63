"""C08: a source's results do not depend on which other sources it sits with.

(a) Every ordered selection (with and without repetition) of up to 3 sources from a pool with one source per regime:
every per-source result of the collection and of the module functions equals the one the source gives alone.
(b) Every subset mask of collections of 5 sources, through every call that accepts one.
(c) Work split over 1-3 processes: real pools, and a controlled pool that runs the pieces in every order of
completion.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit
from ..explore import in_child
from .c06 import source

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration of every ordered selection of sources, every subset mask and every completion order of "
             "the worker pool; differential oracle: the source on its own")
NOTE = ("All orderings of up to 3 of 10 regimes, all masks of 5, all completion orders of up to 4 pieces of work, on the "
        "real code; per-source results equal those of the source alone to 1e-9.")
BOUNDS = {"quick": "all ordered selections of <= 3 of 10 sources plus repetitions (of <= 2), 34 results each; 32 masks x 5 "
                   "collections x 12 calls; 1-3 processes, 24 completion orders x 3 calls",
          "thorough": "all ordered selections of <= 4 of 10 sources; masks of 7 sources"}

POOL = {
    "cs": kit.POOL["cs"], "ce": kit.POOL["ce"], "cm": source(30, 25, 0.0, 1.5, 60),
    "nc": (8.0, 7.0, 0.03, 5.0, 5.3e-4), "ncm": source(20, 25, 0.04, 2.5, 60),
    "e10": (10.0, 5.0, 0.12, 6.0, 2e-4), "e100": (10.0, 5.0, 0.45, 6.0, 1e-3), "e1000": (1.4, 1.3, 0.86, 3.0, 2e-5),
    "ee": kit.POOL["ee"], "em": source(25, 25, 0.3, 2.0, 40),
}
SKYPOOL = ["cs", "ce", "cm", "cs2", "ce2"]
SKYROWS = {"cs": POOL["cs"], "ce": POOL["ce"], "cm": POOL["cm"], "cs2": kit.POOL["cs2"], "ce2": source(9, 12, 0.0, 20, 7)}
ALONE, SKY_ALONE = {}, {}
STEP = 6


def own_time(f):
    """a time in years that is a source's own (0.5 to 3.5)"""
    return 0.5 + 3 * ((np.log10(f) * 7.3) % 1.0)


def module_results(spec):
    """name -> (index of the rows it applies to, array)"""
    lw = kit.lw
    m1, m2, e, d, f = spec.m1 * u.Msun, spec.m2 * u.Msun, spec.ecc, spec.dist * u.kpc, spec.f * u.Hz
    mc = lw.utils.chirp_mass(m1, m2)
    every = np.arange(len(spec))
    ecc = np.flatnonzero(e > 0)
    circ = np.flatnonzero(e == 0)
    out = {}

    def put(name, idx, fn):
        if len(idx):
            out[name] = (idx, np.asarray(fn(idx), float))
    put("t_merge", every, lambda i: lw.evol.get_t_merge_ecc(ecc_i=e[i], f_orb_i=f[i], m_1=m1[i], m_2=m2[i]).to(u.yr).value)
    put("t_merge fit", every, lambda i: lw.evol.get_t_merge_ecc(ecc_i=e[i], f_orb_i=f[i], m_1=m1[i], m_2=m2[i], exact=False,
                                                                small_e_tol=0.05, large_e_tol=0.8).to(u.yr).value)
    put("t_merge limits", every, lambda i: lw.evol.get_t_merge_ecc(ecc_i=e[i], f_orb_i=f[i], m_1=m1[i], m_2=m2[i], small_e_tol=0.2, large_e_tol=0.2).to(u.yr).value)
    put("t_merge circ", every, lambda i: lw.evol.get_t_merge_circ(f_orb_i=f[i], m_1=m1[i], m_2=m2[i]).to(u.yr).value)
    put("stationarity", every, lambda i: lw.evol.determine_stationarity(f_orb_i=f[i], t_evol=4 * u.yr, ecc_i=e[i], m_c=mc[i]))
    put("f later", every, lambda i: lw.evol.evolve_f_orb_circ(f_orb_i=f[i], m_c=mc[i], t_evol=2 * u.yr, ecc_i=e[i]).value)
    each = np.array([own_time(x) for x in f.value]) * u.yr          # times that differ between the sources
    put("stationarity each", every, lambda i: lw.evol.determine_stationarity(f_orb_i=f[i], t_evol=each[i], ecc_i=e[i], m_1=m1[i], m_2=m2[i]))
    put("f later each", every, lambda i: lw.evol.evolve_f_orb_circ(f_orb_i=f[i], m_c=mc[i], t_evol=each[i], ecc_i=e[i]).value)
    put("evol_circ each", every, lambda i: np.concatenate([x.value for x in lw.evol.evol_circ(
        t_evol=each[i], n_step=3, m_1=m1[i], m_2=m2[i], f_orb_i=f[i], output_vars=["timesteps", "f_orb"])], 1))
    put("evol_ecc each", ecc, lambda i: np.concatenate([np.asarray(x) for x in lw.evol.evol_ecc(
        ecc_i=e[i], t_evol=each[i] / 4, n_step=3, m_1=m1[i], m_2=m2[i], f_orb_i=f[i], avoid_merger=False,
        output_vars=["timesteps", "ecc", "f_orb"])], 1))
    put("evol_circ", every, lambda i: np.concatenate([x.value for x in lw.evol.evol_circ(
        t_evol=3 * u.yr, n_step=4, m_1=m1[i], m_2=m2[i], f_orb_i=f[i], output_vars=["timesteps", "a", "f_orb", "f_GW"])], 1))
    put("evol_ecc", ecc, lambda i: np.concatenate([np.asarray(x) for x in lw.evol.evol_ecc(
        ecc_i=e[i], t_evol=1 * u.yr, n_step=4, m_1=m1[i], m_2=m2[i], f_orb_i=f[i], avoid_merger=False,
        output_vars=["ecc", "a", "f_orb"])], 1))
    put("evol_ecc avoid", ecc, lambda i: np.concatenate([np.asarray(x) for x in lw.evol.evol_ecc(
        ecc_i=e[i], t_evol=3 * u.yr, n_step=4, m_1=m1[i], m_2=m2[i], f_orb_i=f[i], t_before=0.1 * u.yr,
        output_vars=["timesteps", "ecc", "f_orb"])], 1))
    put("h_0_n", every, lambda i: lw.strain.h_0_n(m_c=mc[i], f_orb=f[i], ecc=e[i], n=[1, 2, 3, 9], dist=d[i])[:, 0, :])
    put("h_c_n", every, lambda i: lw.strain.h_c_n(m_c=mc[i], f_orb=f[i], ecc=e[i], n=[2, 4], dist=d[i])[:, 0, :])
    put("snr_circ_stationary", circ, lambda i: lw.snr.snr_circ_stationary(m_c=mc[i], f_orb=f[i], dist=d[i], t_obs=4 * u.yr))
    put("snr_ecc_stationary", ecc, lambda i: np.array(lw.snr.snr_ecc_stationary(
        m_c=mc[i], f_orb=f[i], ecc=e[i], dist=d[i], t_obs=4 * u.yr, harmonics_required=30, ret_max_snr_harmonic=True)).T)
    put("snr_circ_evolving", circ, lambda i: lw.snr.snr_circ_evolving(
        m_1=m1[i], m_2=m2[i], f_orb_i=f[i], dist=d[i], t_obs=3 * u.yr, n_step=STEP))
    put("snr_ecc_evolving", ecc, lambda i: lw.snr.snr_ecc_evolving(
        m_1=m1[i], m_2=m2[i], f_orb_i=f[i], dist=d[i], ecc=e[i], t_obs=2 * u.yr, n_step=STEP, harmonics_required=12,
        ret_snr2_by_harmonic=True))
    return out


def evolved(s):
    e = s.evolve_sources(1.2 * u.yr, create_new_class=True)
    return np.array([e.f_orb.to(u.Hz).value, e.ecc, e.merged, e.t_merge.to(u.yr).value]).T


def with_harmonic(s, fn):
    r = fn()
    return np.array([r, s.snr, s.max_snr_harmonic]).T


CLASS = {
    "h_0": lambda s: s.get_h_0_n([1, 2, 5]),
    "h_c": lambda s: s.get_h_c_n([2, 3]),
    "snr": lambda s: with_harmonic(s, lambda: s.get_snr(n_step=STEP)),
    "stat": lambda s: with_harmonic(s, lambda: s.get_snr_stationary(t_obs=2 * u.yr)),
    "evol": lambda s: with_harmonic(s, lambda: s.get_snr_evolving(n_step=STEP)),
    "t_merge": lambda s: s.get_merger_time().to(u.yr).value,
    "t_merge fit": lambda s: s.get_merger_time(exact=False, save_in_class=False).to(u.yr).value,
    "circular": lambda s: s.get_source_mask(circular=True),
    "stationary": lambda s: s.get_source_mask(stationary=True),
    "both": lambda s: s.get_source_mask(circular=False, stationary=False, t_obs=30 * u.yr),
    "m_c": lambda s: s.m_c.to(u.Msun).value, "a": lambda s: s.a.to(u.AU).value,
    "harmonics": lambda s: s.harmonics_required(s.ecc), "peak": lambda s: s.max_strain_harmonic(s.ecc),
    "evolve": evolved,
}


def class_results(spec, **kw):
    s = kit.build(spec, interpolate_sc=False, **kw)
    return {k: (np.arange(len(spec)), np.asarray(fn(s), float)) for k, fn in CLASS.items()}


def all_results(spec, **kw):
    out = {"source." + k: v for k, v in class_results(spec, **kw).items()}
    if spec.sky is None:
        out.update(module_results(spec))
    return out


def spec_of(names, sky=False):
    if sky:
        return kit.Spec([SKYROWS[n] for n in names], sky=[kit.SKY[SKYPOOL.index(n)] for n in names])
    return kit.Spec([POOL[n] for n in names])


def setup(tier):
    kit.setup()
    for n in POOL:
        ALONE[n] = all_results(spec_of([n]))
    for n in SKYROWS:
        SKY_ALONE[n] = all_results(spec_of([n], True))


def against(ctx, key, names, got, alone):
    for name, (idx, arr) in got.items():
        ctx.expect(len(arr) == len(idx), key + "." + name, lambda: "%d results for %d sources" % (len(arr), len(idx)))
        for k, i in enumerate(idx):
            if k >= len(arr):
                break
            want = alone[names[i]][name][1][0]
            ctx.evaluations += 1
            ctx.expect(kit.allclose(arr[k], want, 1e-9), key + "." + name,
                       lambda: "source %d (%s): %r, alone %r" % (i, names[i], arr[k], want))


def order_unit(first, depth, sky=False):
    def run(ctx):
        pool = SKYPOOL if sky else list(POOL)
        alone = SKY_ALONE if sky else ALONE
        for k in range(1, depth):
            for rest in itertools.permutations([p for p in pool if p != first], k):
                names = (first,) + rest
                key = "+".join(names)
                with ctx.guard(key):
                    against(ctx, key, names, all_results(spec_of(names, sky)), alone)
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(names)
        for rest in itertools.chain(((first,),), ((o, first) for o in pool if o != first)):
            names = (first,) + rest
            key = "+".join(names)
            with ctx.guard(key):
                against(ctx, key, names, all_results(spec_of(names, sky)), alone)
            ctx.transitions += 1
            ctx.state(names)
        if first == pool[0]:
            names = tuple(pool) + tuple(pool[::-1])
            against(ctx, "everything", names, all_results(spec_of(names, sky)), alone)
            ctx.state(names)
            # far more sources than any of the above, in an order in which neighbours differ
            for size, stride in ((5 * len(pool) + 1, 3), (12 * len(pool) + 1, 7)):
                names = tuple(pool[(i * stride + i // len(pool)) % len(pool)] for i in range(size))
                against(ctx, "%d sources" % size, names, all_results(spec_of(names, sky)), alone)
                ctx.state(names)
                ctx.transitions += 1
                ctx.traces += 1
    return run


# ---- subset masks ---------------------------------------------------------------------------------------------
def mask_unit(kind, n):
    names = {"default": ("e100", "cs", "em", "ce", "nc", "e10", "ee"), "merged": ("cm", "e100", "em", "cs", "ee", "e10", "ce"),
             "sky": ("cs", "ce", "cm", "cs2", "ce2"), "Stationary": ("cs", "e10", "e1000", "nc", "e100", "ce", "em"),
             "Evolving": ("ce", "ee", "nc", "em", "e100", "cs", "e10")}[kind][:n]

    def run(ctx):
        sky = kind == "sky"
        spec = spec_of(names, sky)

        def fresh():
            s = kit.build(spec, cls=kind if kind in ("Stationary", "Evolving") else "Source")
            if kind == "merged":
                s.evolve_sources(2 * u.yr)
            return s
        total = len(names)
        calls = {
            "get_h_0_n": dict(harmonics=[1, 2, 3]), "get_h_0_n(2)": dict(harmonics=2), "get_h_c_n": dict(harmonics=[2]),
            "get_snr_stationary": {}, "get_snr_evolving": dict(n_step=4), "get_merger_time": dict(save_in_class=False),
            "get_merger_time(fit)": dict(save_in_class=False, exact=False), "get_snr": dict(n_step=4),
            "get_snr(again)": dict(n_step=4), "get_merger_time(saved)": dict(save_in_class=True),
        }
        for call, kw in calls.items():
            name = call.split("(")[0]
            if name == "get_snr" and kind in ("Stationary", "Evolving"):
                continue
            s = fresh()
            full = getattr(s, name)(**kw)
            full = np.asarray(getattr(full, "value", full))
            loud = None if s.max_snr_harmonic is None else s.max_snr_harmonic.copy()
            shared = fresh()
            for mask in itertools.product((False, True), repeat=total):
                key = "%s[%s]" % (call, "".join("01"[x] for x in mask))
                m = np.array(mask)
                with ctx.guard(key):
                    for which, t in (("fresh", fresh() if sum(mask) % 2 else None), ("same", shared)):
                        if t is None:
                            continue
                        given = m.copy()
                        got = getattr(t, name)(which_sources=given, **kw)
                        got = np.asarray(getattr(got, "value", got))
                        ctx.transitions += 1
                        ctx.expect(np.array_equal(given, m), key + ".mask", "the mask given was changed")
                        want = full if "saved" in call else full[m]
                        if name == "get_snr" and len(got) == total:
                            ctx.expect(np.all(got[~m] == 0), key, lambda: "values for sources not asked for: %r" % got)
                            got = got[m]
                        ctx.expect(got.shape == want.shape and kit.allclose(got, want, 1e-9), key + "." + which,
                                   lambda: "subset %r, of the whole %r" % (got, want))
                        if "snr" in name:
                            ctx.expect(kit.allclose(t.snr[m], full[m], 1e-9), key + ".recorded",
                                       lambda: "recorded %r, expected %r" % (t.snr[m], full[m]))
                            insp = m & ~t.merged
                            if insp.any():
                                ctx.expect(np.array_equal(t.max_snr_harmonic[insp], loud[insp]), key + ".loudest",
                                           lambda: "loudest %r, expected %r" % (t.max_snr_harmonic[insp], loud[insp]))
                        ctx.state((kind, key))
                ctx.traces += 1
    return run


# ---- worker pools -----------------------------------------------------------------------------------------------
class ControlledPool:
    """Stands in for the worker pool: runs the pieces of work in the given order, each in its own forked process
    (as a pool would), and returns them as each of the pool's methods promises to."""
    order = None
    used = 0

    def __init__(self, processes=None, **kw):
        self.processes = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    terminate = join = close

    def _run(self, fn, args):
        args = list(args)
        ControlledPool.used += 1
        order = [i for i in (self.order or range(len(args))) if i < len(args)]
        order += [i for i in range(len(args)) if i not in order]
        done = {}
        for i in order:
            done[i] = fn(args[i])
        return order, done

    def map(self, fn, it, chunksize=None, callback=None, **kw):
        order, done = self._run(fn, it)
        if callback is not None:
            for i in order:
                callback(done[i])
        return [done[i] for i in sorted(done)]

    imap = map

    def starmap(self, fn, it, chunksize=None):
        return self.map(lambda a: fn(*a), it)

    def imap_unordered(self, fn, it, chunksize=1):
        order, done = self._run(fn, it)
        return [done[i] for i in order]


POOLED = {
    "evol_ecc": lambda spec, n: np.concatenate([np.asarray(x) for x in kit.lw.evol.evol_ecc(
        ecc_i=spec.ecc, t_evol=1 * u.yr, n_step=5, m_1=spec.m1 * u.Msun, m_2=spec.m2 * u.Msun, f_orb_i=spec.f * u.Hz,
        avoid_merger=False, output_vars=["ecc", "a", "f_orb"], n_proc=n)], 1),
    "evol_ecc each": lambda spec, n: np.concatenate([np.asarray(x) for x in kit.lw.evol.evol_ecc(
        ecc_i=spec.ecc, t_evol=np.array([own_time(x) for x in spec.f]) * u.yr, n_step=5, m_1=spec.m1 * u.Msun, m_2=spec.m2 * u.Msun, f_orb_i=spec.f * u.Hz,
        output_vars=["timesteps", "ecc", "f_orb"], n_proc=n)], 1),
    "snr_ecc_evolving": lambda spec, n: kit.lw.snr.snr_ecc_evolving(
        m_1=spec.m1 * u.Msun, m_2=spec.m2 * u.Msun, f_orb_i=spec.f * u.Hz, dist=spec.dist * u.kpc, ecc=spec.ecc,
        t_obs=2 * u.yr, n_step=STEP, harmonics_required=12, n_proc=n, ret_snr2_by_harmonic=True),
    "get_snr": lambda spec, n: kit.build(spec, interpolate_sc=False, n_proc=n).get_snr(n_step=STEP),
    "get_snr_evolving": lambda spec, n: kit.build(spec, interpolate_sc=False, n_proc=n).get_snr_evolving(n_step=STEP),
    "evolve": lambda spec, n: evolved(kit.build(spec, interpolate_sc=False, n_proc=n)),
}
WORK = ("ee", "em", "e100", "e10", "e1000")
MANY = tuple(WORK[(3 * i + i // 5) % 5] for i in range(13))


def pool_unit(name, controlled):
    def run(ctx):
        for k, work in [(k, WORK) for k in (1, 2, 3, 4, 5)] + ([] if controlled else [(13, MANY)]) + ([(k, WORK[::-1]) for k in (2, 3, 4, 5)] if "evolving" not in name or not controlled else []):
            spec = spec_of(work[:k])
            want = np.asarray(POOLED[name](spec, 1), float)
            for n in (2, 3):
                if not controlled:
                    def real(c, n=n, spec=spec):
                        got = np.asarray(POOLED[name](spec, n), float)
                        c.transitions += 1
                        c.traces += 1
                        c.state((name, work[0], k, n))
                        c.expect(kit.allclose(got, want, 1e-12), "%d sources%s, %d processes" % (k, " reversed" if work[0] == WORK[-1] else "", n),
                                 lambda: "%r, in one process %r" % (got, want))
                    in_child(ctx, real)
                    continue
                if k == 5 or (k == 4 and n == 3):
                    continue
                for order in itertools.permutations(range(k)):
                    def ordered(c, n=n, order=order, spec=spec):
                        ControlledPool.order = order
                        for mod in ("evol", "snr", "source"):
                            m = getattr(kit.lw, mod)
                            for attr in ("MultiPool", "Pool"):
                                if hasattr(m, attr):
                                    setattr(m, attr, ControlledPool)
                        got = np.asarray(POOLED[name](spec, n), float)
                        c.transitions += 1
                        c.traces += 1
                        c.state((name, work[0], k, n, order, ControlledPool.used))
                        c.expect(kit.allclose(got, want, 1e-12), "%d processes finishing %s" % (n, order),
                                 lambda: "%r, in one process %r" % (got, want))
                    in_child(ctx, ordered)
    return run


def units(tier):
    depth = 3 if tier == "quick" else 4
    for n in POOL:
        yield "order/" + n, order_unit(n, depth)
    for n in SKYPOOL:
        yield "sky/" + n, order_unit(n, depth, True)
    for kind in ("default", "merged", "sky", "Stationary", "Evolving"):
        yield "mask/" + kind, mask_unit(kind, 5 if tier == "quick" else 7)
    for name in POOLED:
        yield "pool/" + name, pool_unit(name, False)
        yield "controlled/" + name, pool_unit(name, True)
