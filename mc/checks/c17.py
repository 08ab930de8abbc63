"""C17: confusion noise follows the named model for the nearest supported mission length.

Every model x every mission length of a dense list (exact table entries, both sides of every midpoint and the ties, in every
unit) x a dense frequency grid with the range limits and their floating-point neighbours, by name and by the model's own
function, scalar and array, every rejected combination, all call sequences.  Oracle: independent reference expressions.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every model x mission length (all table entries, midpoints and their neighbours) x "
             "frequency of a dense lattice on the real functions against an independent reference; all call sequences")
NOTE = ("Mission lengths cover every table entry, every midpoint between entries and its floating-point neighbours, and values "
        "beyond the table; ties may go to either neighbour.")
BOUNDS = {"quick": "5 models x 41 mission lengths x 4 time units x 1500 frequencies x 2 routes; sequences of 3 of 10",
          "thorough": "x 161 mission lengths x 10000 frequencies; sequences of 4 of 10"}
TABLE = {"robson19": (0.5, 1, 2, 4), "huang20": (0.5, 1, 2, 4, 5), "karnesis21": None}
DEFAULT = {"robson19": 4.0, "huang20": 5.0, "karnesis21": 4.0, "thiele21": 4.0}
FNS = {k: "get_confusion_noise_" + k for k in DEFAULT}


def setup(tier):
    kit.setup()


def freqs(tier):
    f = np.logspace(-9, 3, 10000 if tier == "thorough" else 1470)
    extra = [x for e in (1e-4, 1.0, 1e-3, 1e-7, 2.0) for x in (e, np.nextafter(e, 0), np.nextafter(e, np.inf), e * (1 - 1e-9), e * (1 + 1e-9))]
    return np.unique(np.concatenate([f, extra]))


def lengths(model, tier):
    """(years, tie) pairs"""
    tab = TABLE.get(model) or (0.5, 1, 2, 4, 5)
    out = list(tab) + [0.01, 0.1, 0.499, 0.501, 6, 8, 10, 100]
    for a, b in zip(tab[:-1], tab[1:]):
        m = (a + b) / 2
        out += [m * (1 - 1e-6), m * (1 + 1e-6), m]
    out += list(np.linspace(0.2, 7, 160 if tier == "thorough" else 20))
    return sorted(set(float(x) for x in out))


def wants(model, f, t):
    """acceptable results (two on a tie between mission lengths)"""
    tab = TABLE.get(model)
    fn = ref.CN[model]
    if not tab:
        return [fn(f, t * ref.YR)]
    d = np.abs(np.array(tab) - t)
    return [fn(f, tab[i] * ref.YR) for i in np.flatnonzero(d <= d.min() + 1e-9)]


def matches(got, want, model):
    if model == "thiele21":
        return kit.close(got, want, 1e-6, 1e-300)           # exponent of ~100 amplifies rounding
    # far above the knee the published 1 + tanh(x) is lost to rounding: anything that small is nothing
    scale = 1e-16 * 9e-45
    return kit.close(got, want, 1e-9) | (np.abs(got - want) < 1e-50) | kit.close(got, want, 1e-3, scale)


def compare(ctx, key, got, ws, model):
    ctx.evaluations += np.size(ws[0])
    if not ctx.expect(isinstance(got, u.Quantity) and got.unit.is_equivalent(1 / u.Hz), key, lambda: "unit of %r" % (getattr(got, "unit", type(got)),)):
        return
    g = np.asarray(got.to(1 / u.Hz).value)
    if not ctx.expect(g.shape == np.shape(ws[0]), key, lambda: "shape %s, expected %s" % (g.shape, np.shape(ws[0]))):
        return
    oks = [matches(g, w, model) & np.isfinite(g) & (g >= 0) for w in ws]
    best = max(oks, key=np.sum)
    ctx.expect(np.all(best), key, lambda: "%r, expected %r (frequency indices %r)" % (
        g[~best][:3], ws[0][~best][:3], np.argwhere(~best)[:3].tolist()))


def values(model, tier):
    def run(ctx):
        P = kit.lw.psd
        f = freqs(tier)
        for t in lengths(model, tier) if model != "thiele21" else [4.0]:
            ws = wants(model, f, t)
            tie = len(ws) > 1
            for unit in (u.yr, u.s, u.Myr, u.day):
                q = (t * u.yr).to(unit)
                for route in ("name", "own"):
                    if route == "own" and model == "thiele21":
                        continue
                    if model == "thiele21" and q != 4 * u.yr:
                        continue                                  # rounding of the conversion
                    key = "%s.%g.%s.%s" % (model, t, unit, route)
                    with ctx.guard(key):
                        if route == "name":
                            got = P.get_confusion_noise(f * u.Hz, model=model, t_obs=q)
                        else:
                            got = getattr(P, FNS[model])(f * u.Hz, t_obs=q)
                        compare(ctx, key, got, ws, model)
                        if route == "name" and unit is u.yr:
                            for x in f[::97]:
                                s = P.get_confusion_noise(x * u.Hz, model=model, t_obs=q)
                                i = np.searchsorted(f, x)
                                ctx.expect(np.ndim(s.value) == 0 and kit.close(s.value, got[i].value, 1e-9 if model != "thiele21" else 1e-7), key + ".scalar",
                                           lambda: "%r, in an array %r" % (s, got[i]))
                                ctx.transitions += 1
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state(key)
        # defaults and automatic lengths
        w = wants(model, f, DEFAULT[model])
        for key, call in (("auto", lambda: P.get_confusion_noise(f * u.Hz, model, t_obs="auto")), ("left out", lambda: P.get_confusion_noise(f * u.Hz, model=model)),
                          ("own", lambda: getattr(P, FNS[model])(f * u.Hz)), ("own kw", lambda: getattr(P, FNS[model])(f=f * u.Hz)),
                          ("mHz", lambda: P.get_confusion_noise((f * 1e3) * u.mHz, model))):
            with ctx.guard(model + "." + key):
                got = call()
                if key == "mHz":
                    k = np.abs(np.log(f / 1e-4)) > 1e-8
                    k &= np.abs(np.log(f)) > 1e-8
                    compare(ctx, model + "." + key, got[k], [w[0][k]], model)
                else:
                    compare(ctx, model + "." + key, got, w, model)
            ctx.transitions += 1
        # shapes
        for shape in ((1,), (2, 3), (3, 2), (2, 1, 3), (6,)):
            a = f[::240][:int(np.prod(shape))].reshape(shape)
            with ctx.guard("%s.%s" % (model, shape)):
                compare(ctx, "%s.%s" % (model, shape), P.get_confusion_noise(a * u.Hz, model), [wants(model, a, DEFAULT[model])[0]], model)
            ctx.transitions += 1
    return run


def off(ctx):
    """switched off: zero everywhere, whatever the mission length"""
    P = kit.lw.psd
    f = freqs("quick")
    for t in ("auto", 0.5 * u.yr, 4 * u.yr, 100 * u.yr, 3 * u.s):
        for a in (f, f[:1], f[:6].reshape(2, 3), f[::-1], f[3]):
            for unit in (u.Hz, u.mHz):
                with ctx.guard("off"):
                    got = P.get_confusion_noise(a * unit, model=None, t_obs=t)
                    ctx.expect(got.unit == 1 / u.Hz and np.shape(got.value) == np.shape(a) and np.all(got.value == 0), "off", lambda: "gives %r" % got)
                ctx.transitions += 1
        ctx.traces += 1
        ctx.state(("off", str(t)))


def outside(ctx):
    """Huang+20 is exactly zero outside [1e-4, 1] Hz, defined at both ends"""
    P = kit.lw.psd
    for t in (0.5, 1, 2, 4, 5):
        for f, zero in ((1e-4, False), (np.nextafter(1e-4, 0), True), (np.nextafter(1e-4, 1), False), (1.0, False), (np.nextafter(1.0, 0), False),
                        (np.nextafter(1.0, 2), True), (1e-9, True), (1e3, True), (1.5, True), (9e-5, True)):
            for a in (f, np.array([f]), np.array([f, 1e-3]), np.array([[1e-2], [f]])):
                with ctx.guard("huang.%g.%g" % (t, f)):
                    got = np.ravel(P.get_confusion_noise(a * u.Hz, "huang20", t_obs=t * u.yr).value)
                    i = int(np.argmin(np.abs(np.ravel(a) - f)))
                    zero = zero or ref.cn_huang(f, t * ref.YR) < 1e-300     # (the published value itself underflows)
                    ctx.expect((got[i] == 0) == zero, "huang.%g.%g" % (t, f), lambda: "noise %r" % got[i])
                ctx.transitions += 1
        ctx.traces += 1
        ctx.state(("outside", t))


def rejected(ctx):
    P = kit.lw.psd
    for f in (1e-3 * u.Hz, np.array([1e-3, 1e-2]) * u.Hz):
        for m in ("robson", "Robson19", "huang", "", "none", "None", "karnesis", "thiele20", "LISA", 0, False, 19, "auto", "karnesis21 "):
            for t in ("auto", 4 * u.yr):
                _raises(ctx, "unknown.%r" % (m,), lambda: P.get_confusion_noise(f, model=m, t_obs=t))
        for t in [x * u.yr for x in (0.5, 1, 2, 3.999, 4.001, 5, 8)] + [4 * u.s, 4 * u.day, 48 * u.day]:
            _raises(ctx, "thiele.%s" % t, lambda: P.get_confusion_noise(f, model="thiele21", t_obs=t))
            for ins in ("LISA", "TianQin", "DECIGO"):
                _raises(ctx, "thiele.%s.%s" % (ins, t), lambda: P.power_spectral_density(f, ins, t_obs=t, confusion_noise="thiele21"))
        for ins in ("LISA", "TianQin", "DECIGO"):
            _raises(ctx, "unknown." + ins, lambda: P.power_spectral_density(f, ins, confusion_noise="robson"))
        for t in (4 * u.yr, (4 * u.yr).to(u.s)):
            with ctx.guard("thiele.ok"):
                P.get_confusion_noise(f, model="thiele21", t_obs=t)


def _raises(ctx, key, call):
    ctx.transitions += 1
    ctx.state(key)
    try:
        got = call()
        ctx.fail(key, "accepted, gives %r" % (got,))
    except ValueError:
        pass
    except Exception as e:
        ctx.fail(key, "rejected with %r" % e)


def within(tier):
    """the same models reach the instrument noise: noise with the model minus noise without it"""
    def run(ctx):
        P = kit.lw.psd
        f = np.logspace(-4, 0, 400)
        for ins, model, t in itertools.product(("LISA", "TianQin", "DECIGO"), (None, "robson19", "huang20", "karnesis21", "thiele21"),
                                               lengths("huang20", "quick")):
            if model == "thiele21" and t != 4.0:
                continue
            key = "%s.%s.%g" % (ins, model, t)
            with ctx.guard(key):
                g = f if ins != "DECIGO" else f[f > 1.01e-3]
                on = P.power_spectral_density(g * u.Hz, ins, t_obs=t * u.yr, confusion_noise=model).value
                base = P.power_spectral_density(g * u.Hz, ins, t_obs=t * u.yr, confusion_noise=None).value
                got = on - base
                ok = np.zeros(len(g), bool)
                for w in (wants(model, g, t) if model in FNS else [np.zeros(len(g))]):
                    ok |= np.abs(got - w) <= 1e-9 * np.abs(w) + 1e-12 * base
                ctx.expect(np.all(ok), key, lambda: "adds %r" % got[~ok][:3])
            ctx.transitions += 2
            ctx.traces += 1
            ctx.state(("within", key))
    return run


def seq_unit(tier):
    def run(ctx):
        P = kit.lw.psd
        f = np.array([5e-5, 1e-4, 1e-3, 2e-2, 0.3, 5.0]) * u.Hz

        def bad():
            try:
                P.get_confusion_noise(f, "nothing")
            except ValueError:
                return np.array([-1.0])
        calls = {"r": lambda: P.get_confusion_noise(f, "robson19"), "r1": lambda: P.get_confusion_noise(f, "robson19", 1 * u.yr),
                 "h": lambda: P.get_confusion_noise(f, "huang20"), "h2": lambda: P.get_confusion_noise_huang20(f, 2 * u.yr),
                 "k": lambda: P.get_confusion_noise(f, "karnesis21"), "k1": lambda: P.get_confusion_noise_karnesis21(f, 1 * u.yr),
                 "t": lambda: P.get_confusion_noise(f, "thiele21"), "none": lambda: P.get_confusion_noise(f, None), "bad": bad,
                 "one": lambda: P.get_confusion_noise(2 * u.mHz, "robson19", 0.5 * u.yr)}
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    for m in DEFAULT:
        yield "values/%s" % m, values(m, tier)
    yield "off", off
    yield "outside", outside
    yield "rejected", rejected
    yield "within", within(tier)
    yield "sequences", seq_unit(tier)
