"""C12: merger times are right in every eccentricity regime and continuous between them.

Every eccentricity of a lattice (with both thresholds hit exactly and straddled), every pair of thresholds, exact and
fitted, every way of giving masses and orbit, scalars / lists / arrays; every sequence of regimes up to length 4 in one
array; collections in every state reached by operation sequences.  Oracle: Peters' equations integrated independently.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref
from ..explore import histories

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every lattice point, input form, threshold pair and regime mixture on the real "
             "functions, and every operation sequence on collections, against independently integrated equations")
NOTE = ("All regime sequences of length <= 4 in one array, all threshold pairs, all input forms; operation sequences on "
        "collections with the merger time compared with the reference in every state.")
BOUNDS = {"quick": "e lattice of 70, 5 binaries, 16 threshold pairs, 5 input forms, 340 regime mixtures; histories depth 2 of 12",
          "thorough": "e lattice of 400, histories depth 3"}
BIN = [(0.6, 0.4, 2e-4), (1.4, 1.3, 1e-3), (10.0, 5.0, 3e-5), (30.0, 30.0, 6e-3), (1e5, 300.0, 1e-5)]
SMALL, LARGE = 0.15, 1 - 1e-4


def setup(tier):
    kit.setup()


def lattice(tier):
    k = 1 if tier == "quick" else 6
    e = np.concatenate([[0.0, 1e-10, 1e-6, 1e-3], np.linspace(0.01, 0.149, 8 * k), np.linspace(0.151, 0.98, 30 * k),
                        1 - np.logspace(np.log10(0.019), np.log10(1.05e-4), 12 * k), 1 - np.logspace(np.log10(0.95e-4), -7, 6 * k)])
    for th in (0.15, LARGE, 0.05, 0.3, 0.9, 0.6):
        e = np.concatenate([e, [th, np.nextafter(th, 0), np.nextafter(th, 1)]])
    return np.unique(e)


_CACHE = {}


def want_time(m1, m2, f, e, small=SMALL, large=LARGE, exact=True):
    """[Gyr]"""
    k = (m1, m2, f, e, small, large, exact)
    if k not in _CACHE:
        a, b = ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN), ref.beta(m1 * ref.MSUN, m2 * ref.MSUN)
        # time scales as a^4 / beta: integrate once per eccentricity
        kk = (e, small, large, exact)
        if kk not in _CACHE:
            _CACHE[kk] = ref.t_merge(1.0, e, 1.0, small, large, exact)
        _CACHE[k] = _CACHE[kk] * a**4 / b / ref.GYR
    return _CACHE[k]


def forms(m1, m2, f):
    """every way of giving the same binaries"""
    a = ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN) * u.m
    b = ref.beta(m1 * ref.MSUN, m2 * ref.MSUN) * u.m**4 / u.s
    M1, M2 = m1 * u.Msun, m2 * u.Msun
    return {"m,f": dict(m_1=M1, m_2=M2, f_orb_i=f * u.Hz), "m,a": dict(m_1=M1, m_2=M2, a_i=a), "b,a": dict(beta=b, a_i=a),
            "swap": dict(m_1=M2, m_2=M1, f_orb_i=f * u.Hz),
            "b over m": dict(beta=b, m_1=7 * M1, m_2=3 * M2, a_i=a), "a over f": dict(m_1=M1, m_2=M2, a_i=a, f_orb_i=5 * f * u.Hz)}


def check(ctx, key, got, want, tol=1e-8, scalar=False):
    ctx.transitions += 1
    ctx.evaluations += np.size(want)
    if not ctx.expect(isinstance(got, u.Quantity) and got.unit == u.Gyr, key, lambda: "not in Gyr: %r" % (got,)):
        return
    shape = np.shape(got)
    ctx.expect(shape == (() if scalar else np.shape(want)) or (scalar and shape == (1,)), key,
               lambda: "shape %s, expected %s" % (shape, np.shape(want)))
    v = np.atleast_1d(got.value)
    ok = kit.close(v, np.atleast_1d(want), tol) if v.shape == np.atleast_1d(want).shape else np.zeros(1, bool)
    ctx.expect(np.all(ok), key, lambda: "merger time %r, expected %r" % (v[~ok][:3], np.atleast_1d(want)[~ok][:3]))


def circ_unit(tier):
    def run(ctx):
        V = kit.lw.evol
        m1, m2, f = np.array(BIN).T
        want = np.array([want_time(*b, 0.0) for b in BIN])
        for n, kw in forms(m1, m2, f).items():
            with ctx.guard(n):
                check(ctx, n, V.get_t_merge_circ(**kw), want)
                check(ctx, n + ".ecc0", V.get_t_merge_ecc(ecc_i=np.zeros(5), **kw), want)
                check(ctx, n + ".ecc0list", V.get_t_merge_ecc(ecc_i=[0.0] * 5, **kw), want)
                check(ctx, n + ".ecc0int", V.get_t_merge_ecc(ecc_i=np.zeros(5, int), **kw), want)
                check(ctx, n + ".ecc0fit", V.get_t_merge_ecc(ecc_i=np.zeros(5), exact=False, **kw), want)
            for i in range(5):
                with ctx.guard("%s.%d" % (n, i)):
                    one = {k: v[i] for k, v in kw.items()}
                    check(ctx, "%s.%d" % (n, i), V.get_t_merge_circ(**one), want[i], scalar=True)
                    check(ctx, "%s.%d.ecc0" % (n, i), V.get_t_merge_ecc(ecc_i=0.0, **one), want[i], scalar=True)
            ctx.traces += 1
            ctx.state(n)
        # far into the lattice of masses and frequencies
        for M in np.logspace(-2, 8, 11):
            q = np.logspace(-4, 0, 9)
            for fo in np.logspace(-8, 1, 10):
                key = "M=%g,f=%g" % (M, fo)
                with ctx.guard(key):
                    a = ref.a_of_f(fo, M * ref.MSUN, M * q * ref.MSUN)
                    w = a**4 / 4 / ref.beta(M * ref.MSUN, M * q * ref.MSUN) / ref.GYR
                    check(ctx, key, V.get_t_merge_circ(m_1=np.full(9, M) * u.Msun, m_2=M * q * u.Msun, f_orb_i=np.full(9, fo) * u.Hz), w)
                ctx.state(key)
    return run


PAIRS = [(s, l) for s in (0.15, 0.05, 0.3, 0.0) for l in (LARGE, 0.9, 0.99, 0.6)]


def ecc_unit(exact, tier):
    def run(ctx):
        V = kit.lw.evol
        es = lattice(tier)
        for bi, b in enumerate(BIN):
            m1, m2, f = (np.full(len(es), x) for x in b)
            want = np.array([want_time(*b, e, exact=exact) for e in es])
            tol = 1e-7
            for n, kw in forms(m1, m2, f).items():
                with ctx.guard("%d.%s" % (bi, n)):
                    check(ctx, "%d.%s" % (bi, n), V.get_t_merge_ecc(ecc_i=es, exact=exact, **kw), want, tol)
                    if bi == 0:
                        check(ctx, "%d.%s.list" % (bi, n), V.get_t_merge_ecc(ecc_i=es.tolist(), exact=exact, **kw), want, tol)
                        order = np.argsort(np.sin(np.arange(len(es)) * 7.0))
                        kk = {k: v[order] for k, v in kw.items()}
                        check(ctx, "%d.%s.order" % (bi, n), V.get_t_merge_ecc(ecc_i=es[order], exact=exact, **kk), want[order], tol)
                ctx.state((bi, n))
                ctx.traces += 1
            for i, e in enumerate(es):
                for n in ("m,f", "b,a") if bi < 2 else ("m,f",):
                    kw = {k: v[i] for k, v in forms(m1, m2, f)[n].items()}
                    key = "%d.%s.e=%.15g" % (bi, n, e)
                    with ctx.guard(key):
                        check(ctx, key, V.get_t_merge_ecc(ecc_i=float(e), exact=exact, **kw), want[i], tol, scalar=True)
                ctx.state((bi, e))
        # decreasing with eccentricity (within each regime exactly, over the joins within the stated 2 percent)
        with ctx.guard("monotone"):
            x = np.unique(es)
            n = len(x)
            t = V.get_t_merge_ecc(ecc_i=x, beta=np.ones(n) * u.m**4 / u.s, a_i=np.ones(n) * u.AU, exact=exact).value
            reg = np.digitize(x, [0.15, np.nextafter(LARGE, 1)])
            up = np.diff(t) > 0
            same = np.diff(reg) == 0
            flat = (x[1:] < 1e-5) | (np.diff(x) < 1e-12)
            ctx.expect(not np.any(up & same & ~flat), "monotone", lambda: "grows with eccentricity at %r" % x[1:][up & same & ~flat])
            lim = 0.03 if exact else 0.035
            ctx.expect(np.all(t[1:] < t[:-1] * (1 + lim)), "joins", lambda: "jumps up by more than %g at %r" % (
                lim, x[1:][t[1:] >= t[:-1] * (1 + lim)]))
            for th in (0.15, LARGE):
                e2 = np.array([np.nextafter(th, 0), th, np.nextafter(th, 1)])
                t2 = V.get_t_merge_ecc(ecc_i=e2, beta=np.ones(3) * u.m**4 / u.s, a_i=np.ones(3) * u.AU, exact=exact).value
                ctx.expect(t2.max() / t2.min() - 1 < lim, "continuous.%g" % th, lambda: "times either side of %g: %r" % (th, t2))
        ctx.transitions += 3
    return run


def pair_unit(small, large, tier):
    def run(ctx):
        V = kit.lw.evol
        es = lattice("quick")
        if small > large:
            return
        b = BIN[3]
        m1, m2, f = (np.full(len(es), x) for x in b)
        for exact in (True, False):
            # at e == small exactly the general form applies; at e == large exactly the general form applies
            want = np.array([want_time(*b, e, small, large, exact) for e in es])
            for n, kw in forms(m1, m2, f).items():
                key = "%s.%d" % (n, exact)
                with ctx.guard(key):
                    check(ctx, key, V.get_t_merge_ecc(ecc_i=es, exact=exact, small_e_tol=small, large_e_tol=large, **kw), want, 1e-7)
                ctx.state((small, large, key))
                ctx.traces += 1
            kw = forms(*b)["m,f"]
            for e, w in zip(es, want):
                if e == 0.0 and small == 0.0:
                    continue
                key = "%.15g.%d" % (e, exact)
                with ctx.guard(key):
                    check(ctx, key, V.get_t_merge_ecc(ecc_i=float(e), exact=exact, small_e_tol=small, large_e_tol=large, **kw), w, 1e-7,
                          scalar=True)
    return run


REG = {"c": 0.0, "s": 0.08, "m": 0.5, "l": 0.99995}


def mix_unit(exact, tier):
    """every sequence of regimes up to length 4 (5) in one array"""
    def run(ctx):
        V = kit.lw.evol
        for n in range(1, 5 if tier == "quick" else 6):
            for seq in itertools.product(REG, repeat=n):
                e = np.array([REG[r] for r in seq])
                bs = [BIN[(i * 2 + len(seq)) % 5] for i in range(n)]
                m1, m2, f = np.array(bs).T
                want = np.array([want_time(*b, x, exact=exact) for b, x in zip(bs, e)])
                for fn in ("m,f", "b,a"):
                    key = "".join(seq) + fn
                    with ctx.guard(key):
                        check(ctx, key, V.get_t_merge_ecc(ecc_i=e, exact=exact, **forms(m1, m2, f)[fn]), want, 1e-7)
                ctx.state(("mix", exact, seq))
                ctx.traces += 1
        # longer arrays: every number of sources up to 12 in one regime, or going round the regimes, in every rotation
        for n, turn, regimes in itertools.product(range(5, 13), range(5), list(REG) + ["".join(REG)]):
            e = np.array([REG[regimes[i % len(regimes)]] for i in range(n)])
            bs = [BIN[(i * 2 + turn) % 5] for i in range(n)]
            m1, m2, f = np.array(bs).T
            want = np.array([want_time(*b, x, exact=exact) for b, x in zip(bs, e)])
            for fn in ("m,f", "b,a"):
                key = "%d%s%d%s" % (n, regimes, turn, fn)
                with ctx.guard(key):
                    check(ctx, key, V.get_t_merge_ecc(ecc_i=e, exact=exact, **forms(m1, m2, f)[fn]), want, 1e-7)
            ctx.state(("mix", exact, n, turn, regimes))
            ctx.traces += 1
    return run


def fit_unit(tier):
    """the fit itself: published form, stated accuracy"""
    def run(ctx):
        V = kit.lw.evol
        e = np.unique(np.concatenate([lattice("thorough"), np.linspace(0.0, 0.9999, 2000 if tier == "quick" else 10000)]))
        with ctx.guard("form"):
            got = V.t_merge_mandel_fit(e)
            ctx.expect(kit.allclose(got, np.array([ref.mandel(x) for x in e]), 1e-10), "form", "differs from the published fit")
            one = np.array([V.t_merge_mandel_fit(float(x)) for x in e[::7]])
            ctx.expect(kit.allclose(one, got[::7], 1e-9), "scalar", "scalar and array differ")
            in_range = (e > 0) & (e <= 0.9999)
            true = np.array([4 * ref.t_merge_true(1.0, x, 1.0) for x in e[in_range]])
            err = np.abs(got[in_range] / true - 1)
            x = e[in_range]
            ctx.expect(np.all(err < 0.0301), "gross", lambda: "off by %r at e=%r" % (err.max(), x[err.argmax()]))
            mid = (x >= 0.003) & (x <= 0.97)
            ctx.expect(np.all(err[mid] < 0.0052), "accuracy", lambda: "off by %r at e=%r" % (err[mid].max(), x[mid][err[mid].argmax()]))
            ctx.expect(np.all(err[x < 0.003] < 0.0075), "low", lambda: "off by %r" % err[x < 0.003].max())
            ctx.expect(np.all(err[x > 0.97] < 0.005), "accuracy above e=0.97", lambda: "off by %r at e=%r (stated: 0.5 percent)" % (
                err.max(), x[err.argmax()]))
        ctx.transitions += 2
        ctx.traces += 1
        ctx.state("fit")
    return run


def decay_unit(tier):
    """The merger time is when the decay equations bring the orbit to zero size (evolved by the implementation)"""
    def run(ctx):
        V = kit.lw.evol
        for b in BIN[:4]:
            for e in (0.0, 0.2, 0.5, 0.8, 0.95):
                key = "%s,%g" % (b, e)
                with ctx.guard(key):
                    kw = {k: np.array([v]) * v.unit if not isinstance(v, np.ndarray) else v for k, v in {}.items()}
                    m1, m2, f = b
                    kw = dict(m_1=np.array([m1]) * u.Msun, m_2=np.array([m2]) * u.Msun, f_orb_i=np.array([f]) * u.Hz)
                    t = V.get_t_merge_ecc(ecc_i=np.array([e]), **kw)
                    for x in (0.5, 0.9, 0.99, 1.001):
                        if e == 0:
                            a = V.evol_circ(t_evol=x * t, n_step=3, output_vars="a", **kw)[0].to(u.m).value
                        elif x < 1:
                            a = V.evol_ecc(ecc_i=np.array([e]), t_evol=x * t, n_step=3, output_vars="a", avoid_merger=False, **kw)[0]
                            a = a.to(u.m).value
                        else:
                            continue
                        # remaining life from the orbit at that time (reference) must be (1 - x) t
                        left = (1 - x) * t[0].to(u.s).value
                        bt = ref.beta(m1 * ref.MSUN, m2 * ref.MSUN)
                        if x > 1:
                            ctx.expect(a[-1] == 0, key, lambda: "still at %r after merger" % a[-1])
                            continue
                        a0 = ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN)
                        if e == 0:
                            rem = a[-1]**4 / 4 / bt
                        else:
                            from scipy.optimize import brentq
                            c0 = ref.c0(a0, e)
                            ee = brentq(lambda z: c0 * ref.shape(z) / a[-1] - 1, 1e-9, e * (1 + 1e-9), xtol=1e-14)
                            rem = ref.t_merge_true(a[-1], ee, bt)
                        ctx.expect(abs(rem / left - 1) < 1e-5 / (1 - x), key, lambda: "after %g of the merger time %r s remain, expected %r" % (x, rem, left))
                        ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
    return run


# ---- collections ---------------------------------------------------------------------------------------------------
ROWS = [(0.6, 0.4, 0.0, 1, 2e-3), (30, 30, 0.35, 1, 6e-3), (10, 5, 0.08, 1, 2e-4), (5, 4, 0.99995, 1, 1e-6), (35, 30, 0.0, 1, 1.6e-2),
        (35, 30, 0.25, 1, 1.5e-2), (8, 7, 0.15, 1, 1e-3)]


class World:
    def __init__(self):
        self.s = kit.build(kit.Spec(ROWS), interpolate_sc=False)

    def check(self, ctx):
        s = self.s
        m1, m2, f, e = s.m_1.to(u.Msun).value, s.m_2.to(u.Msun).value, s.f_orb.to(u.Hz).value, np.asarray(s.ecc)
        n = s.n_sources
        ctx.evaluations += 1
        for exact in (True, False):
            want = np.array([0.0 if s.merged[i] else ref.t_merge(ref.a_of_f(f[i], m1[i] * ref.MSUN, m2[i] * ref.MSUN), e[i],
                             ref.beta(m1[i] * ref.MSUN, m2[i] * ref.MSUN), exact=exact) / ref.GYR for i in range(n)])
            edge = np.abs(e - 0.15) < 1e-9
            got = s.get_merger_time(save_in_class=False, exact=exact)
            ok = kit.close(got.to(u.Gyr).value, want, 1e-6) | (edge & kit.close(got.to(u.Gyr).value, want, 0.03))
            ctx.expect(got.shape == (n,) and np.all(ok), "time.%d" % exact, lambda: "merger times %r, expected %r" % (got, want))
            for m in (np.arange(n) % 2 == 0, np.zeros(n, bool), np.arange(n) == 1):
                part = s.get_merger_time(save_in_class=False, exact=exact, which_sources=m)
                ctx.expect(kit.allclose(part.value, got.value[m], 1e-12), "part.%d" % exact, "subset differs from the whole")


OPS = []


def op(fn):
    OPS.append((fn.__name__, fn))


@op
def exact(w, ctx):
    got = w.s.get_merger_time()
    ctx.expect(np.array_equal(w.s.t_merge, got), "saved", "saved times differ from the returned ones")


@op
def fit(w, ctx):
    got = w.s.get_merger_time(exact=False)
    ctx.expect(np.array_equal(w.s.t_merge, got), "saved", "saved times differ from the returned ones")


@op
def saved_all(w, ctx):
    """saving ignores the subset"""
    n = w.s.n_sources
    got = w.s.get_merger_time(which_sources=np.arange(n) == 0, save_in_class=True)
    ctx.expect(len(got) == n and np.array_equal(w.s.t_merge, got), "saved", "saving did not cover all sources")


@op
def unsaved(w, ctx):
    before = None if w.s.t_merge is None else w.s.t_merge.copy()
    w.s.get_merger_time(save_in_class=False, which_sources=np.arange(w.s.n_sources) == 1)
    ctx.expect(kit.same(kit.val(before, u.Gyr), kit.val(w.s.t_merge, u.Gyr)), "unsaved", "an unsaved request changed the saved times")


@op
def evolve(w, ctx):
    w.s.evolve_sources(1 * u.yr)


@op
def evolve_long(w, ctx):
    w.s.evolve_sources(1 * u.Myr)


@op
def new(w, ctx):
    w.s = w.s.evolve_sources(1.5 * u.yr, create_new_class=True)


@op
def reverse(w, ctx):
    w.s = w.s[::-1]


@op
def odd(w, ctx):
    if w.s.n_sources < 3:
        return False
    w.s = w.s[1::2]


@op
def set_f(w, ctx):
    w.s.f_orb = w.s.f_orb * 0.7


@op
def set_ecc(w, ctx):
    w.s.ecc = np.roll(w.s.ecc, 1)


@op
def snr(w, ctx):
    w.s.get_snr(n_step=3)


def hist(first, depth):
    def run(ctx):
        w = World()
        ctx.path = (first,)
        dict(OPS)[first](w, ctx)
        ctx.transitions += 1
        histories(ctx, w, OPS, lambda w, c: w.check(c), depth - 1,
                  canon=lambda w: (np.round(np.log(w.s.f_orb.value), 8).tobytes(), np.round(w.s.ecc, 8).tobytes(), w.s.merged.tobytes(),
                                   w.s.t_merge is None))
    return run


def units(tier):
    yield "circular", circ_unit(tier)
    for exact_ in (True, False):
        yield "eccentric/%d" % exact_, ecc_unit(exact_, tier)
        yield "mixtures/%d" % exact_, mix_unit(exact_, tier)
    for s, l in PAIRS:
        yield "thresholds/%g,%g" % (s, l), pair_unit(s, l, tier)
    yield "fit", fit_unit(tier)
    yield "decay", decay_unit(tier)
    for name, _ in OPS:
        yield "hist/%s" % name, hist(name, 2 if tier == "quick" else 3)
