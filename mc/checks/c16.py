"""C16: noise curves follow each instrument's published sensitivity at every frequency.

Every combination of instrument, observing time, arm length, response option and confusion noise over a dense frequency
grid with the band edges and their floating-point neighbours, through the dispatcher and the instrument's own function,
every array shape and unit; every pair of band limits; a recording user-supplied noise function; all call sequences,
rejected calls included.  Oracle: independent reference expressions in SI floats.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every combination of settings x every frequency of a dense lattice (band edges and "
             "their floating-point neighbours included) on the real functions against an independent reference; all call sequences")
NOTE = ("Full product of instruments, observing times, arm lengths, response options, confusion models and call routes; "
        "every array shape up to three dimensions equals the element-by-element scalar calls.")
BOUNDS = {"quick": "3 instruments x 7 times x 6 arm lengths x 2 x 8 confusion noises x 2 routes x 1000 frequencies; sequences of 3 of 10",
          "thorough": "x 12 times x 9 arm lengths x 6000 frequencies; sequences of 4 of 10"}
BAND = {"LISA": (1e-7, 2.0), "TianQin": (0.0, np.inf), "DECIGO": (1e-3, 1e2)}
OWN = {"LISA": "lisa_psd", "TianQin": "tianqin_psd", "DECIGO": "decigo_psd"}


def setup(tier):
    kit.setup()


def freqs(tier):
    edges = [1e-7, 2.0, 1e-3, 1e2, 1e-4, 1.0]
    f = np.logspace(-9, 3, 6000 if tier == "thorough" else 970)
    extra = [x for e in edges for x in (e, np.nextafter(e, 0), np.nextafter(e, np.inf), e * (1 - 1e-9), e * (1 + 1e-9))]
    return np.unique(np.concatenate([f, extra]))


class OwnCN:
    """user-supplied confusion noise; accepts the frequency with or without unit"""
    def __init__(self):
        self.seen = []

    def plain(self, f, t):
        return 3e-41 * (1e-3 / f)**0.5 * (t / ref.YR)

    def __call__(self, f, t_obs):
        v = f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f)
        self.seen.append(t_obs.to(u.yr).value)
        return self.plain(v, t_obs.to(u.s).value) / u.Hz


def compare(ctx, key, got, want, inside, tol=1e-9):
    ctx.evaluations += np.size(want)
    if not ctx.expect(isinstance(got, u.Quantity) and got.unit == 1 / u.Hz, key, lambda: "not in 1/Hz: %r" % getattr(got, "unit", type(got))):
        return False
    got = np.asarray(got.value)
    if not ctx.expect(got.shape == want.shape, key, lambda: "shape %s, expected %s" % (got.shape, want.shape)):
        return False
    ok = np.where(inside, kit.close(got, want, tol), got == np.inf)
    ok &= ~np.isnan(got) & (got > 0)
    return ctx.expect(np.all(ok), key, lambda: "%r, expected %r (frequency indices %r)" % (
        got[~ok][:3], np.where(inside, want, np.inf)[~ok][:3], np.argwhere(~ok)[:3].tolist()))


def values(ins, cn, tier):
    def run(ctx):
        P = kit.lw.psd
        f = freqs(tier)
        lo, hi = BAND[ins]
        inside = (f >= lo) & (f <= hi)
        ts = ("auto", 0.3, 1.0, 3.1, 4.0, 5.0, 10.0) + ((0.5, 0.75, 2.0, 4.5, 8.0) if tier == "thorough" else ())
        Ls = ("auto", 1e8, 1e9, 2.5e9, 3e9, 5e9) + ((2e9, 6e9, 1e10) if tier == "thorough" else ())
        own = OwnCN()
        none = {}
        for t, L, approx, route in itertools.product(ts, Ls, (False, True), ("dispatch", "own")):
            if cn == "thiele21" and t not in ((4.0, "auto") if ins == "LISA" else (4.0,)):
                continue
            if route == "own" and cn == "auto":
                continue
            kw = {}
            if cn == "own":
                kw["confusion_noise"] = own
            elif cn != "auto":
                kw["confusion_noise"] = cn
            if t != "auto":
                kw["t_obs"] = t * u.yr
            if L != "auto":
                kw["L"] = L * u.m
            if approx:
                kw["approximate_R"] = True
            T = ref.DEFAULT_T[ins] if t == "auto" else t * ref.YR
            fn = "auto" if cn == "auto" else own.plain if cn == "own" else cn
            want = ref.psd(f, ins, T, L, approx, fn)
            key = "%s.%s.t%s.L%s.%d.%s" % (ins, cn, t, L, approx, route)
            with ctx.guard(key):
                if route == "dispatch":
                    got = P.power_spectral_density(f * u.Hz, instrument=ins, **kw)
                else:
                    got = getattr(P, OWN[ins])(f * u.Hz, **kw)
                if compare(ctx, key, got, want, inside):
                    g = got.value
                    base = (t, L, approx)
                    if base not in none:
                        k2 = dict(kw, confusion_noise=None)
                        none[base] = P.power_spectral_density(f * u.Hz, instrument=ins, **k2).value
                    b = none[base]
                    ctx.expect(np.all(g[inside] >= b[inside]), key, "confusion noise lowers the noise")
                    if cn in ("own",):
                        ctx.expect(all(abs(x - T / ref.YR) < 1e-9 for x in own.seen), key, lambda: "mission length %r given to the function" % own.seen)
            own.seen = []
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def defaults(ctx):
    """calls that leave things out"""
    P = kit.lw.psd
    f = freqs("quick")
    for ins, fn in OWN.items():
        lo, hi = BAND[ins]
        inside = (f >= lo) & (f <= hi)
        with ctx.guard(ins):
            compare(ctx, ins + ".own", getattr(P, fn)(f * u.Hz), ref.psd(f, ins), inside)
            compare(ctx, ins + ".own kw", getattr(P, fn)(f=f * u.Hz), ref.psd(f, ins), inside)
            compare(ctx, ins, P.power_spectral_density(f * u.Hz, ins), ref.psd(f, ins), inside)
            compare(ctx, ins + ".auto", P.power_spectral_density(f=f * u.Hz, instrument=ins, t_obs="auto", L="auto", approximate_R=False,
                                                                 confusion_noise="auto"), ref.psd(f, ins), inside)
        ctx.transitions += 4
    with ctx.guard("LISA"):
        compare(ctx, "nothing", P.power_spectral_density(f * u.Hz), ref.psd(f), (f >= 1e-7) & (f <= 2))
    ctx.traces += 4


def shapes(ins, tier):
    """any shape, unit and memory layout: element by element the scalar result"""
    def run(ctx):
        P = kit.lw.psd
        base = np.array([1.3e-3, 5e-8, 0.4, 2e-3, 2.5, 1e-4, 7e-3, 90.0, 1e-3, 2.0, 3e-2, 110.0])
        own = OwnCN()
        for cn in ("auto", None, "robson19", "own"):
            kw = {} if cn == "auto" else {"confusion_noise": own if cn == "own" else cn}
            for approx in (False, True):
                kw["approximate_R"] = approx
                with ctx.guard("%s.%s.scalars" % (ins, cn)):
                    scal = np.array([P.power_spectral_density(x * u.Hz, ins, **kw).value for x in base])
                    ctx.expect(all(np.ndim(P.power_spectral_density(x * u.Hz, ins, **kw).value) == 0 for x in base[:2]), "scalar", "not scalar")
                    w = ref.psd(base, ins, cn="auto" if cn == "auto" else own.plain if cn == "own" else cn, approx=approx)
                    compare(ctx, "%s.%s.scalars" % (ins, cn), scal / u.Hz, w, np.isfinite(w))
                    for shape in ((12,), (1,), (3, 4), (4, 3), (2, 3, 2), (1, 12, 1), (12, 1)):
                        size = int(np.prod(shape))
                        for unit, order in itertools.product((u.Hz, u.mHz, u.kHz, 1 / u.yr), ("C", "F", "reversed", "strided")):
                            a = (base[:size] * u.Hz).to(unit).value.reshape(shape)
                            s = scal[:size].reshape(shape)
                            if order == "F":
                                a, s = np.asfortranarray(a), np.asfortranarray(s)
                            elif order == "reversed":
                                a, s = a[::-1], s[::-1]
                            elif order == "strided":
                                a = np.repeat(a, 2, axis=-1)[..., ::2]
                            # at the band edges a converted frequency may land just outside
                            edge = np.isin(np.round(base[:size].reshape(shape), 12), [1e-7, 2.0, 1e-3, 1e2])
                            edge = edge[::-1] if order == "reversed" else edge
                            keep = ~edge if unit is not u.Hz else np.ones(shape, bool)
                            key = "%s.%s.%s.%s.%s" % (ins, cn, shape, unit, order)
                            got = P.power_spectral_density(a * unit, ins, **kw)
                            ctx.expect(got.shape == shape and bool(np.all(kit.close(got.value, s, 1e-9)[keep])), key,
                                       lambda: "%r, expected %r" % (got, s))
                            ctx.transitions += 1
                            ctx.traces += 1
                            ctx.state(key)
    return run


def band(ctx):
    """every pair of DECIGO band limits; exact limits and their neighbours"""
    P = kit.lw.psd
    f = freqs("quick")
    lims = (1e-5, 1e-4, 1e-3, 1e-2, 1.0, 10.0, 1e2, 1e3)
    for lo, hi in itertools.product(lims, lims):
        if lo >= hi:
            continue
        g = np.unique(np.concatenate([f, [lo, hi], np.nextafter([lo, hi], 0), np.nextafter([lo, hi], np.inf)]))
        with ctx.guard("band"):
            got = P.decigo_psd(g * u.Hz, f_low=lo * u.Hz, f_high=hi * u.Hz, confusion_noise=None)
            compare(ctx, "decigo.%g-%g" % (lo, hi), got, ref.psd_decigo(g, 0, None, None, ref.CN[None], lo, hi), (g >= lo) & (g <= hi))
            got = P.decigo_psd(g * u.Hz, f_low=(lo * 1e3) * u.mHz, f_high=hi * u.Hz, confusion_noise=None)
            k = np.abs(g / lo - 1) > 1e-9
            compare(ctx, "decigo.%g-%g.mHz" % (lo, hi), got[k], ref.psd_decigo(g, 0, None, None, ref.CN[None], lo, hi)[k], ((g >= lo) & (g <= hi))[k])
        ctx.transitions += 2
        ctx.traces += 1
        ctx.state(("band", lo, hi))


def responses(tier):
    def run(ctx):
        P = kit.lw.psd
        f = np.logspace(-8, 1, 4000)
        for fs in (1e-3, 5e-3, 9.5e-3, 19.09e-3, 3e-2, 0.1, 0.477):
            with ctx.guard("R.%g" % fs):
                got = np.asarray(P.approximate_response_function(f, fs))
                ctx.expect(kit.allclose(got, ref.approx_response(f, fs), 1e-12), "approx.%g" % fs, "approximate response differs")
                got = np.asarray(P.load_response_function(f, fs))
                w = ref.response(f, fs)
                inside = f <= 108.0 * fs
                ctx.expect(kit.allclose(got[inside], w[inside], 1e-9), "R.%g" % fs, "response differs from the tabulated one")
                ctx.expect(np.all((got > 0) & (got < 0.31)), "R.%g" % fs, lambda: "response between %r and %r" % (got.min(), got.max()))
                ctx.expect(np.all(np.abs(np.log(got / ref.approx_response(f, fs))) < 1.5), "R.%g" % fs, "response far from its approximation")
                ctx.evaluations += 2 * len(f)
                one = np.array([float(P.load_response_function(x, fs)) for x in f[::100]])
                ctx.expect(kit.allclose(one, got[::100], 1e-12), "R.%g" % fs, "scalars differ")
            ctx.transitions += 3
            ctx.traces += 1
            ctx.state(("R", fs))
        with ctx.guard("R default"):
            ctx.expect(kit.allclose(np.asarray(P.load_response_function(f)), ref.response(f, 19.09e-3), 1e-9), "R default", "default f*")
        # the response depends on the arm length only through f / f*: LISA noise at c / (2 pi L)
        for L in np.linspace(0.5e9, 6e9, 12):
            with ctx.guard("L"):
                g = f[(f >= 1e-7) & (f <= 2)]
                for approx in (False, True):
                    got = P.lisa_psd(g * u.Hz, L=(L / 1e3) * u.km, approximate_R=approx, confusion_noise=None)
                    compare(ctx, "L=%g" % L, got, ref.psd_lisa(g, 0, L, approx, ref.CN[None]), np.ones(len(g), bool))
            ctx.transitions += 2
    return run


def custom(ctx):
    """the user-supplied noise function gets exactly what was asked for and its answer is the result"""
    P = kit.lw.psd
    f = freqs("quick") * u.Hz
    calls = []
    answer = np.arange(1, len(f) + 1) * 1e-40 / u.Hz

    def mine(f, t_obs=None, L=None, approximate_R=None, confusion_noise=None):
        calls.append((f, t_obs, L, approximate_R, confusion_noise))
        return answer
    own = OwnCN()
    for t, L, a, c in itertools.product(("auto", 2.5), ("auto", None, 3e9), (False, True), ("auto", None, "robson19", "own")):
        key = "custom.%s.%s.%s.%s" % (t, L, a, c)
        del calls[:]
        cc = own if c == "own" else c
        LL = L if L is None or L == "auto" else L * u.m
        with ctx.guard(key):
            got = P.power_spectral_density(f, instrument="custom", custom_psd=mine, t_obs=t if t == "auto" else t * u.yr, L=LL, approximate_R=a,
                                           confusion_noise=cc)
            ctx.expect(np.array_equal(got.to(1 / u.Hz).value, answer.value), key, "the function's answer is not the result")
            ctx.expect(len(calls) == 1, key, lambda: "called %d times" % len(calls))
            g = calls[0]
            ctx.expect(np.array_equal(g[0].to(u.Hz).value, f.value) and abs(g[1].to(u.yr).value - (5.0 if t == "auto" else t)) < 1e-9, key,
                       lambda: "given %r, %r" % (g[0][:3], g[1]))
            ctx.expect((g[2] is LL or g[2] == LL) and g[3] == a and (g[4] is cc or g[4] == cc), key, lambda: "given %r" % (g[2:],))
        # a built-in instrument ignores it
        with ctx.guard(key):
            if c != "own" and not (t == 2.5 and c == "thiele21"):
                for ins in BAND:
                    k = dict(t_obs=t if t == "auto" else t * u.yr, approximate_R=a, confusion_noise=cc)
                    x = P.power_spectral_density(f, instrument=ins, custom_psd=mine, **k).value
                    y = P.power_spectral_density(f, instrument=ins, **k).value
                    ctx.expect(np.array_equal(x, y) and len(calls) == 1, key + "." + ins, "a built-in instrument used the custom function")
        ctx.transitions += 7
        ctx.traces += 1
        ctx.state(key)


def unknown(ctx):
    P = kit.lw.psd
    f = np.array([1e-3, 1e-2]) * u.Hz
    for ins in ("lisa", "LISA ", "", "Lisa", None, "TIANQIN", "tianqin", "Decigo", "LIGO", "Custom", 0, "LISATianQin"):
        for extra in ({}, {"custom_psd": lambda f, **k: np.ones(2) / u.Hz}, {"t_obs": 4 * u.yr, "L": 1e9 * u.m}):
            ctx.transitions += 1
            try:
                P.power_spectral_density(f, instrument=ins, **extra)
                ctx.fail("unknown.%r" % (ins,), "accepted")
            except ValueError:
                pass
            except Exception as e:
                ctx.fail("unknown.%r" % (ins,), "rejected with %r" % e)
        ctx.state(("unknown", repr(ins)))


def seq_unit(tier):
    def run(ctx):
        P = kit.lw.psd
        f = np.array([5e-8, 1e-4, 1e-3, 2e-2, 0.3, 5.0]) * u.Hz
        own = OwnCN()

        def bad():
            try:
                P.power_spectral_density(f, instrument="LIGO")
            except ValueError:
                return np.array([-1.0])
        calls = {"L": lambda: P.power_spectral_density(f), "L5": lambda: P.power_spectral_density(f, L=5e9 * u.m, t_obs=1 * u.yr),
                 "La": lambda: P.power_spectral_density(f, approximate_R=True, confusion_noise="robson19"),
                 "T": lambda: P.power_spectral_density(f, "TianQin"), "T1": lambda: P.power_spectral_density(f, "TianQin", t_obs=1 * u.yr),
                 "D": lambda: P.power_spectral_density(f, "DECIGO"), "Df": lambda: P.decigo_psd(f, f_low=1e-5 * u.Hz, confusion_noise=own),
                 "R": lambda: P.load_response_function(f.value, 0.01), "bad": bad, "one": lambda: P.lisa_psd(2 * u.mHz, confusion_noise=None)}
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    for ins in BAND:
        for cn in ("auto", None, "robson19", "huang20", "karnesis21", "thiele21", "own"):
            yield "values/%s/%s" % (ins, cn), values(ins, cn, tier)
        yield "shapes/%s" % ins, shapes(ins, tier)
    yield "defaults", defaults
    yield "band", band
    yield "responses", responses(tier)
    yield "custom", custom
    yield "unknown", unknown
    yield "sequences", seq_unit(tier)
