"""C19: the harmonics kept capture the requested share of the luminosity.

Every tolerance of a lattice x every eccentricity of a dense grid over and beyond the tabulated range (grid points, midpoints
and floating-point neighbours), every input form and class; every sequence of tolerance changes in a collection's life, with
copies and selections in between.  Oracle: exact power spectrum (independent Bessel-function evaluation), summed.
"""
import itertools
import numpy as np

from .. import kit, ref
from ..explore import in_child

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every tolerance x every eccentricity of a dense lattice on real collections against "
             "exactly summed spectra; every sequence of tolerance changes, copies and selections (forked real states)")
NOTE = ("Every eccentricity of a grid several times finer than the package's own table, every tolerance of the lattice, every "
        "sequence of tolerance changes up to the bound; the share captured is summed from an independent spectrum.")
BOUNDS = {"quick": "34 tolerances x ~1100 eccentricities x 3 classes x 6 input forms; sequences of <= 3 changes among 6 tolerances + copy + selection",
          "thorough": "90 tolerances x ~2100 eccentricities, two tables (e < 0.98 and e < 0.994); sequences of <= 4"}
CAP = {"small": 2000, "big": 10000}
E_MAX = {"small": 0.98, "big": 0.994}
TOLS = np.unique(np.concatenate([np.logspace(-3, np.log10(0.2), 26), [0.05, 0.01, 0.1, 0.2, 0.001, 0.15, 0.3, 0.0499999]]))


def setup(tier):
    global KIND, E, GRID, CUM, F, PEAK
    KIND = "big" if tier == "thorough" else "small"
    kit.setup(harmonics=KIND)
    from .. import fixtures
    grid = fixtures.e_grid(KIND)
    GRID = grid
    mid = np.concatenate([grid[:-1] + (grid[1:] - grid[:-1]) * x for x in (0.02, 0.25, 0.5, 0.97)])
    E = np.unique(np.concatenate([grid, mid, [1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.5, 0.9, np.nextafter(grid[-1], 0), np.nextafter(grid[1], 1)]]))
    E = E[(E < 0.97) | (np.arange(len(E)) % (1 if KIND == "small" else 4) == 0)]
    from multiprocessing import get_context
    parts = [E[i::16] for i in range(16)]
    with get_context("fork").Pool(8) as pool:
        rows = pool.map(_row, [(p, CAP[KIND]) for p in parts], chunksize=1)
    CUM = np.zeros((len(E), CAP[KIND]))
    PEAK = np.zeros((len(E), 2))
    for i, (c, p) in enumerate(rows):
        CUM[i::16], PEAK[i::16] = c, p
    F = ref.F(E)


def _row(args):
    from .. import fixtures
    es, cap = args
    cum, peak = np.zeros((len(es), cap)), np.zeros((len(es), 2))
    for i, e in enumerate(es):
        k = fixtures.n_cut(e, cap)
        g = ref.g(np.arange(1, k + 1), e)
        cum[i, :k] = np.cumsum(g)
        cum[i, k:] = cum[i, k - 1]
        peak[i] = g.argmax() + 1, g.max()
    return cum, peak


def needed(tol):
    """fewest harmonics that capture the share, at every E; the cap where none does"""
    ok = CUM >= (1 - tol) * F[:, None] * (1 - 1e-12)
    return np.where(ok[:, -1], ok.argmax(axis=1) + 1, CAP[KIND])


def check_curve(ctx, key, s, tol):
    got = np.asarray(s.harmonics_required(E))
    ctx.evaluations += len(E)
    if not ctx.expect(got.shape == E.shape and got.dtype.kind == "i", key, lambda: "gives %r" % got):
        return None
    n = np.clip(got, 1, CAP[KIND])
    share = CUM[np.arange(len(E)), n - 1] / F
    need = np.maximum(needed(tol), 2)
    up = need[np.minimum(np.searchsorted(E, GRID[np.minimum(np.searchsorted(GRID, E), len(GRID) - 1)]), len(E) - 1)]
    ok = (share >= (1 - tol) * (1 - 1e-9)) | (up >= CAP[KIND])      # (the table itself ends at the cap)
    ctx.expect(np.all(ok), key + ".share", lambda: "e=%r: %r harmonics capture %r of the luminosity" % (E[~ok][:3], got[~ok][:3], share[~ok][:3]))
    ok = (got <= 1.1 * need + 2) & (got >= 2) & (got <= CAP[KIND])
    ctx.expect(np.all(ok), key + ".excess", lambda: "e=%r: %r harmonics kept, %r needed" % (E[~ok][:3], got[~ok][:3], need[~ok][:3]))
    ctx.expect(np.all(np.diff(got) >= 0), key + ".monotone", "the number of harmonics falls with eccentricity")
    last = int(s.harmonics_required(E[-1]))
    beyond = np.asarray(s.harmonics_required(np.array([E_MAX[KIND] + 1e-6, 0.9945, 0.996, 0.999, 0.99999, 1 - 1e-12])))
    ctx.expect(np.all(beyond == beyond[0]) and last <= beyond[0] <= CAP[KIND], key + ".beyond", lambda: "beyond the table %r, at its end %r" % (beyond, last))
    ctx.expect(int(s.harmonics_required(0.0)) == 2, key + ".circular", lambda: "%r harmonics for e=0" % s.harmonics_required(0.0))
    return got


def check_threshold(ctx, key, s, tol):
    from scipy.optimize import brentq
    root = brentq(lambda x: ref.g(2, x) - (1 - tol) * ref.F(x), 1e-5, 0.4, xtol=1e-13)
    ctx.expect(-1e-9 <= s.ecc_tol - root <= 2.1e-5, key + ".threshold", lambda: "threshold %r, second harmonic falls short from %r" % (s.ecc_tol, root))
    ctx.expect(s.gw_lum_tol == tol, key, "another tolerance")


def check_peak(ctx, key, s):
    got = np.asarray(s.max_strain_harmonic(E))
    ctx.evaluations += len(E)
    if not ctx.expect(got.shape == E.shape and got.dtype.kind == "i" and np.all((got >= 1) & (got <= CAP[KIND])), key, lambda: "gives %r" % got):
        return
    g = ref.g(got, E)
    exact = np.isin(E, GRID)                            # (between tabulated values: the nearer of two neighbours)
    ok = np.where(exact, got == PEAK[:, 0], g >= PEAK[:, 1] * 0.96) & (np.abs(got - PEAK[:, 0]) <= 0.02 * PEAK[:, 0] + 1)
    ctx.expect(np.all(ok), key + ".peak", lambda: "e=%r: harmonic %r, the spectrum peaks at %r" % (E[~ok][:3], got[~ok][:3], PEAK[~ok][:3, 0]))
    ctx.expect(np.all(np.diff(got) >= 0), key + ".peak", "the peak moves to lower harmonics with eccentricity")
    # beyond the table: not below the last tabulated peak, not above the true one
    for e in (E_MAX[KIND] + 1e-6, E_MAX[KIND] + 1e-3, 0.999):
        n = int(s.max_strain_harmonic(e))
        hi = PEAK[-1, 0] * ((1 - E[-1]) / (1 - e))**1.6 * 1.1 + 2
        ctx.expect(PEAK[-1, 0] - 1 <= n <= hi, key + ".peak beyond", lambda: "e=%r: harmonic %r, the table ends at %r" % (e, n, PEAK[-1, 0]))
    ctx.expect(int(s.max_strain_harmonic(0.0)) == 2, key + ".peak", "the peak for e=0 is not the second harmonic")


def tolerance_unit(cls, part, tier):
    def run(ctx):
        tols = TOLS if tier == "quick" else np.unique(np.concatenate([TOLS, np.logspace(-3, np.log10(0.3), 60)]))
        last = None
        s = None
        for tol in tols[part::3] if cls == "Source" else tols[part::9]:
            tol = float(tol)
            key = "%s.%g" % (cls, tol)
            with ctx.guard(key):
                fresh = kit.build(kit.Spec.of("cs", "es", "ee"), cls=cls, gw_lum_tol=tol, interpolate_sc=False)
                got = check_curve(ctx, key, fresh, tol)
                check_threshold(ctx, key, fresh, tol)
                check_peak(ctx, key, fresh)
                if got is not None and last is not None:
                    ctx.expect(np.all(got <= last), key + ".stricter", "a looser tolerance needs more harmonics")
                last = got
                # the same tolerance reached by a change
                if s is None:
                    s = kit.build(kit.Spec.of("cs", "es", "ee"), cls=cls, interpolate_sc=False)
                s.gw_lum_tol = tol
                again = np.asarray(s.harmonics_required(E))
                ctx.expect(got is None or (np.array_equal(again, got) and s.ecc_tol == fresh.ecc_tol), key + ".changed", "another curve after a change")
                # input forms
                for k in (0, 1, len(E) // 3, len(E) // 2, len(E) - 1):
                    for form in (float(E[k]), np.float64(E[k]), [float(E[k])], np.array([E[k]]), np.array(E[k]), (float(E[k]), 0.1)):
                        r, m = np.ravel(fresh.harmonics_required(form)), np.ravel(fresh.max_strain_harmonic(form))
                        ctx.expect(r[0] == got[k] and len(r) == np.size(form) and m[0] == fresh.max_strain_harmonic(E)[k], key + ".form",
                                   lambda: "%r gives %r, in an array %r" % (form, r, got[k]))
                two = np.asarray(fresh.harmonics_required(E[:600].reshape(20, 30)))
                ctx.expect(np.array_equal(two, got[:600].reshape(20, 30)), key + ".shape", "another answer for a two-dimensional array")
            ctx.transitions += 4
            ctx.traces += 1
            ctx.state(key)
    return run


def neighbours(tier):
    """adjacent tolerances: never fewer harmonics for a stricter one"""
    def run(ctx):
        last = None
        s = kit.build(kit.Spec.of("es"), interpolate_sc=False)
        for tol in TOLS:
            with ctx.guard("neighbours"):
                s.gw_lum_tol = float(tol)
                got, et = np.asarray(s.harmonics_required(E)), s.ecc_tol
                ctx.expect(last is None or (np.all(got <= last[0]) and et >= last[1]), "neighbours.%g" % tol, "a looser tolerance needs more harmonics")
                last = got, et
            ctx.transitions += 1
            ctx.state(("neighbours", tol))
        ctx.traces += 1
    return run


def histories_unit(first, tier):
    """every sequence of tolerance changes, copies, selections and results"""
    def run(ctx):
        tols = (0.05, 0.001, 0.2, 0.01, 0.1, 0.3)
        fresh = {}
        for t in tols:
            f = kit.build(kit.Spec.of("cs", "es", "ee"), gw_lum_tol=t, interpolate_sc=False)
            fresh[t] = np.asarray(f.harmonics_required(E)), np.asarray(f.max_strain_harmonic(E)), f.ecc_tol

        class W:
            pass
        w = W()
        w.s, w.tol, w.old = kit.build(kit.Spec.of("cs", "es", "ee"), interpolate_sc=False), 0.05, []

        def change(t):
            def op(w, ctx):
                w.s.gw_lum_tol, w.tol = t, t
            return op

        def copy(w, ctx):
            w.old.append((w.s, w.tol))
            w.s = w.s.copy()

        def pick(w, ctx):
            if len(w.s) < 2:
                return False
            w.old.append((w.s, w.tol))
            w.s = w.s[[1, 0]]

        def snr(w, ctx):
            w.s.get_snr(n_step=3)

        def bad(w, ctx):
            try:
                w.s.gw_lum_tol = 0.9999
                return False
            except Exception:
                pass

        def switch(w, ctx):
            if not w.old:
                return False
            (w.s, w.tol), w.old[-1] = w.old[-1], (w.s, w.tol)
        ops = [("tol %g" % t, change(t)) for t in tols] + [("copy", copy), ("pick", pick), ("snr", snr), ("bad", bad), ("switch", switch)]

        def check(w, ctx):
            for s, t in [(w.s, w.tol)] + w.old:
                a = fresh[t]
                ctx.evaluations += 3 * len(E)
                ctx.expect(s.gw_lum_tol == t and np.array_equal(s.harmonics_required(E), a[0]) and np.array_equal(s.max_strain_harmonic(E), a[1])
                           and s.ecc_tol == a[2], "history", lambda: "harmonics or threshold differ from a fresh collection with tolerance %g" % t)
        canon = lambda w: (w.tol, len(w.s), tuple(t for _, t in w.old))
        from ..explore import histories
        ctx.path = (first,)
        if dict(ops)[first](w, ctx) is False:
            return
        histories(ctx, w, ops, check, 2 if tier == "quick" else 3, canon)
    return run


FIRST = ["tol 0.001", "tol 0.2", "tol 0.01", "tol 0.1", "tol 0.3", "tol 0.05", "copy", "pick", "snr", "bad"]


def used(tier):
    """the SNR of a collection: the harmonics it sums reach the share, for every tolerance"""
    def run(ctx):
        for tol in (0.3, 0.2, 0.1, 0.05, 0.01, 0.001):
            for e in (0.05, 0.2, 0.4, 0.6, 0.8, 0.9, 0.95):
                spec = kit.Spec([(1.4, 1.2, e, 3.0, 2e-4), (10.0, 5.0, e / 2, 6.0, 1e-4)])
                key = "used.%g.%g" % (tol, e)
                with ctx.guard(key):
                    s = kit.build(spec, gw_lum_tol=tol, interpolate_sc=False)
                    got = s.get_snr()
                    noise = kit.noise_of(s.sc_params)
                    full = np.array([ref.snr2_stat(m * ref.MSUN, f, x, d * ref.KPC, 4 * ref.YR, np.arange(1, 2001), noise)
                                     for m, f, x, d in zip(spec.mc, spec.f, spec.ecc, spec.dist)])
                    need = np.asarray(s.harmonics_required(spec.ecc))
                    for i in range(2):
                        lo = np.sqrt(full[i][:need[i]].sum()) if spec.ecc[i] > s.ecc_tol else np.sqrt(ref.snr2_stat(
                            spec.mc[i] * ref.MSUN, spec.f[i], 0.0, spec.dist[i] * ref.KPC, 4 * ref.YR, np.array([2]), noise)[0]) * 0.999999
                        hi = max(np.sqrt(full[i].sum()), lo)
                        ctx.expect(lo * (1 - 1e-6) <= got[i] <= hi * 1.000002, key, lambda: "SNR %r, the first %d harmonics give %r, all of them %r" % (
                            got[i], need[i], lo, hi))
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
    return run


def units(tier):
    for i in range(3):
        for cls in ("Source", "Stationary", "Evolving"):
            yield "tolerances/%s/%d" % (cls, i), tolerance_unit(cls, i, tier)
    yield "neighbours", neighbours(tier)
    yield "used", used(tier)
    for f in FIRST:
        yield "histories/" + f, histories_unit(f, tier)
