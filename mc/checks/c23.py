"""C23: invalid requests are rejected with the documented error and change nothing.

Every documented invalid request, in every stage of a collection's life (all histories of valid operations up to a depth), alone
and in pairs; after each, everything the collection reports is compared with before and all later calculations with those of a
collection that never saw the request.  Constructors and module functions: every combination of present, missing, unit-less and
wrongly sized arguments against the documented rules.
"""
import itertools
import os
import pickle
import tempfile
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from .. import kit, ref, explore, env

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every invalid request in every state reachable by the valid operations on real collections "
             "(forked histories), state and later results compared with the same history without the request; all argument subsets of "
             "constructors and functions against the documented rules")
NOTE = ("All stages x all invalid requests (and pairs of them); the full lattice of present/missing/unit-less/wrong-length arguments.")
BOUNDS = {"quick": "4 kinds of collection x histories of 1 of 9 valid operations (2 for one kind) x 60 invalid requests and pairs of 10; 2^k argument lattices",
          "thorough": "histories of 2 of 9 valid operations for all kinds, pairs of 20"}
P1 = kit.CountingPSD("p1")


def setup(tier):
    kit.setup()
    import matplotlib.pyplot as plt
    plt.close("all")


class Rejecting:
    """a user-supplied function that fails for one kind of source only (after others have been calculated)"""
    tag = "rejecting"

    def __init__(self, n=0):
        self.n = n

    def __call__(self, f, t_obs=None, L=None, approximate_R=False, confusion_noise="auto", **kw):
        if self.n == 0:
            raise ZeroDivisionError("user")
        self.n -= 1
        return np.ones(np.shape(f)) * 1e-40 / u.Hz


# ---- stages -----------------------------------------------------------------------------------------------
def make(kind):
    if kind == "direct":
        return kit.build(kit.Spec.of("cs", "es", "ce", "ee", weights=[1, 2, 3, 4]), interpolate_sc=False)
    if kind == "interpolated":
        return kit.build(kit.Spec.of("cs", "es", "ce", "ee", weights=[1, 2, 3, 4]), interpolate_sc=True, sc_params={"t_obs": 3 * u.yr})
    if kind == "sky":
        s = kit.Spec.of("cs", "cs2", "ce", sky=kit.SKY[:3])
        return kit.build(s, interpolate_sc=True, sc_params={"instrument": "TianQin"})
    return kit.build(kit.Spec.of("cs", "es", "ee"), cls="Stationary", interpolate_sc=False, sc_params={"instrument": "custom", "custom_psd": P1})


VALID = [("snr", lambda s: s.get_snr()), ("snr subset", lambda s: s.get_snr_stationary(which_sources=np.arange(len(s)) < 1)), ("merger", lambda s: s.get_merger_time()),
         ("evolve", lambda s: s.evolve_sources(1 * u.yr)), ("merge some", lambda s: s.evolve_sources(np.where(np.arange(len(s)) == len(s) - 1, 1e12, 0.1) * u.yr)),
         ("DECIGO", lambda s: s.sc_params.update(instrument="DECIGO", t_obs="auto")), ("settings", lambda s: setattr(s, "sc_params", {"L": 1e9 * u.m, "confusion_noise": None})),
         ("tolerance", lambda s: setattr(s, "gw_lum_tol", 0.01)), ("evolving", lambda s: s.get_snr_evolving(n_step=4))]


def op(fn):
    def run(s, ctx):
        with ctx.guard("valid"):
            fn(s)
    return run


# ---- invalid requests ---------------------------------------------------------------------------------------
def rejected(what, error):
    return (what, error if isinstance(error, tuple) else (error,))


def setitem(k, v):
    return lambda s: s.sc_params.__setitem__(k, v)


def ior(d):
    def f(s):
        s.sc_params |= d
    return f


def assign(name, v):
    return lambda s: setattr(s, name, v)


INTERP = lambda s: s.interpolate_sc                             # (settings are tried out when they are interpolated)
SNRS = ("get_snr_stationary", "get_snr_evolving")


def invalid():
    """name -> (request, documented error kinds, condition)"""
    out = {}

    def add(name, fn, *errors, when=None):
        out[name] = (fn, errors, when)
    for k in ("tobs", "Instrument", ""):
        add("setting[%r]" % k, setitem(k, "LISA"), KeyError)
    add("setting.update", lambda s: s.sc_params.update({"instrument": "TianQin", "arm": 3}), KeyError)
    add("setting.update kw", lambda s: s.sc_params.update(L=1e9 * u.m, length=3), KeyError)
    add("setting.setdefault", lambda s: s.sc_params.setdefault("arm", 3), KeyError)
    add("setting |=", ior({"arm": 3, "t_obs": 1 * u.yr}), KeyError)
    add("settings =", assign("sc_params", {"instrument": "TianQin", "arm": 3}), KeyError)
    add("del", lambda s: s.sc_params.__delitem__("L"), TypeError)
    add("pop", lambda s: s.sc_params.pop("t_obs"), TypeError)
    add("pop default", lambda s: s.sc_params.pop("t_obs", None), TypeError)
    add("popitem", lambda s: s.sc_params.popitem(), TypeError)
    add("clear", lambda s: s.sc_params.clear(), TypeError)
    # unusable values: rejected when set if they are tried out there
    add("instrument", setitem("instrument", "LIGO"), ValueError, when=INTERP)
    add("instrument update", lambda s: s.sc_params.update(instrument="LIGO", t_obs=1 * u.yr), ValueError, when=INTERP)
    add("settings = instrument", assign("sc_params", {"instrument": "lisa", "L": 1e9 * u.m}), ValueError, when=INTERP)
    add("confusion", setitem("confusion_noise", "nelson"), ValueError, when=lambda s: s.interpolate_sc and s.sc_params["instrument"] != "custom")
    add("confusion thiele21", lambda s: s.sc_params.update(confusion_noise="thiele21", t_obs=2 * u.yr), ValueError, when=lambda s: s.interpolate_sc and s.sc_params["instrument"] != "custom")
    add("settings |= bad", ior({"instrument": "LIGO", "L": 2e9 * u.m}), ValueError, when=INTERP)
    add("user function fails", lambda s: s.sc_params.update(instrument="custom", custom_psd=Rejecting()), ZeroDivisionError, when=INTERP)
    add("settings = user function fails", lambda s: setattr(s, "sc_params", {"instrument": "custom", "custom_psd": Rejecting()}), ZeroDivisionError, when=INTERP)
    add("settings = user confusion fails", lambda s: setattr(s, "sc_params", {"instrument": "TianQin", "confusion_noise": Rejecting(), "L": 1e9 * u.m}), ZeroDivisionError, TypeError, when=INTERP)
    add("settings = confusion", lambda s: setattr(s, "sc_params", {"confusion_noise": "nelson", "t_obs": 1 * u.yr}), ValueError, when=INTERP)
    add("settings |= user function fails", lambda s: ior({"instrument": "custom", "custom_psd": Rejecting(), "t_obs": 2 * u.yr})(s), ZeroDivisionError, when=INTERP)
    add("separation", lambda s: setattr(s, "a", s.a.value * 2), AssertionError)
    add("separation number", lambda s: setattr(s, "a", 0.01), AssertionError)
    add("user confusion fails", setitem("confusion_noise", Rejecting()), ZeroDivisionError, TypeError, when=lambda s: s.interpolate_sc and s.sc_params["instrument"] != "custom")
    builtin = lambda s: s.sc_params["instrument"] != "custom"
    # in calculations
    for m in ("get_snr",) + SNRS:
        def call(m=m, **kw):
            return lambda s: getattr(s, m)(**kw)
        plain = lambda s, m=m: m != "get_snr" or type(s).__name__ == "Source"
        alive = lambda s, m=m: bool((~s.merged).any())
        add(m + " instrument", call(instrument="LIGO"), ValueError, when=alive)
        add(m + " instrument and time", call(instrument="LIGO", t_obs=1 * u.yr), ValueError, when=alive)
        for name, kw in (("confusion", {"confusion_noise": "nelson"}), ("thiele21", {"confusion_noise": "thiele21", "t_obs": 1 * u.yr})):
            add("%s %s" % (m, name), call(**kw), ValueError, when=lambda s, p=plain, a=alive: p(s) and a(s) and builtin(s))
        add(m + " user function", call(instrument="custom", custom_psd=Rejecting()), ZeroDivisionError, when=alive)
        add(m + " user function later", lambda s, m=m: getattr(s, m)(instrument="custom", custom_psd=Rejecting(1)), ZeroDivisionError,
            when=lambda s, a=alive: a(s) and not s.interpolate_sc and (~s.merged).sum() > 1 and len(set(zip(s.get_source_mask(circular=True)[~s.merged], s.get_source_mask(stationary=True)[~s.merged]))) > 2)
    for bad in ("yes", 2, "True", 0.5):
        add("mask circular %r" % (bad,), lambda s, b=bad: s.get_source_mask(circular=b), ValueError)
        add("mask stationary %r" % (bad,), lambda s, b=bad: s.get_source_mask(stationary=b), ValueError)
        add("mask both %r" % (bad,), lambda s, b=bad: s.get_source_mask(circular=True, stationary=b), ValueError)
    for n in (0, -1, [1, 0], np.array([2, -3]), [0]):
        for m in ("get_h_0_n", "get_h_c_n"):
            add("%s %r" % (m, n), lambda s, m=m, n=n: getattr(s, m)(n), ValueError, when=lambda s: bool((~s.merged).any()))
            add("%s %r subset" % (m, n), lambda s, m=m, n=n: getattr(s, m)(n, which_sources=np.arange(len(s)) < len(s)), ValueError, when=lambda s: bool((~s.merged).any()))
    for name, ind in (("float", 1.0), ("str", "m_1"), ("floats", [0.0, 1.0]), ("strs", ["a"]), ("None", None), ("complex", np.array([1j]))):
        add("index " + name, lambda s, i=ind: s[i], ValueError)
    add("index short mask", lambda s: s[np.ones(len(s) - 1, bool)], ValueError)
    add("index long mask", lambda s: s[[True] * (len(s) + 1)], ValueError)
    add("index out of range", lambda s: s[len(s)], IndexError)
    add("index negative out of range", lambda s: s[-len(s) - 1], IndexError)
    add("index list out of range", lambda s: s[[0, len(s)]], IndexError)
    for x in ("mass", "M_1", "", "f"):
        add("plot " + x, lambda s, x=x: s.plot_source_variables(x, show=False), ValueError)
        add("plot y " + x, lambda s, x=x: s.plot_source_variables("f_orb", x, show=False), ValueError)
    add("plot snr", lambda s: s.plot_source_variables("snr", show=False), ValueError, when=lambda s: s.snr is None)
    add("plot y snr", lambda s: s.plot_source_variables("m_1", "snr", show=False), ValueError, when=lambda s: s.snr is None)
    add("plot curve", lambda s: s.plot_sources_on_sc(show=False, sc_vis_settings={"y_quantity": "PSD"}), ValueError,
        when=lambda s: s.snr is not None and bool((s.get_source_mask(stationary=True) & ~s.merged & (s.snr > 0)).any()))
    add("ecc_tol", assign("ecc_tol", 0.1), AttributeError)
    add("n_sources", assign("n_sources", 3), AttributeError)
    add("save over", save_over, FileExistsError)
    add("load missing", lambda s: type(s).from_file(os.path.join(env.SCRATCH, "nothing here")), FileNotFoundError)
    add("load missing h5", lambda s: type(s).from_file(os.path.join(env.SCRATCH, "nothing.h5")), FileNotFoundError)
    return out


def save_over(s):
    fd, name = tempfile.mkstemp(dir=env.SCRATCH, suffix=".h5")
    os.write(fd, b"mine")
    os.close(fd)
    try:
        s.save(name)
    finally:
        with open(name, "rb") as f:
            kept = f.read()
        os.unlink(name)
        if kept != b"mine":
            raise AssertionError("the file was overwritten")


# requests of which only the state afterwards matters (which error they give is not documented)
def unspecified():
    out = {}
    for v in (-0.1, 1.5, "x", None, float("nan"), 0.9):
        out["gw_lum_tol=%r" % (v,)] = assign("gw_lum_tol", v)
    for m in ("get_snr",) + SNRS:
        out[m + " mask"] = lambda s, m=m: getattr(s, m)(which_sources=np.ones(len(s) + 1, bool), t_obs=2 * u.yr)
        out[m + " time"] = lambda s, m=m: getattr(s, m)(t_obs=3.0)
        out[m + " time unit"] = lambda s, m=m: getattr(s, m)(t_obs=3.0 * u.m, instrument="TianQin")
        out[m + " arm"] = lambda s, m=m: getattr(s, m)(L="long", t_obs=1 * u.yr)
        out[m + " no function"] = lambda s, m=m: getattr(s, m)(instrument="custom", t_obs=1 * u.yr)
    out["n_step"] = lambda s: s.get_snr(n_step="many", t_obs=2 * u.yr)
    out["n_step evolving"] = lambda s: s.get_snr_evolving(n_step=-1, t_obs=2 * u.yr)
    out["merger mask"] = lambda s: s.get_merger_time(save_in_class=False, which_sources=np.ones(len(s) + 2, bool))
    out["evolve unit"] = lambda s: s.evolve_sources(3 * u.m)
    out["evolve no unit"] = lambda s: s.evolve_sources(3)
    out["evolve length"] = lambda s: s.evolve_sources(np.ones(len(s) + 1) * u.yr)
    out["evolve new length"] = lambda s: s.evolve_sources(np.ones(len(s) + 1) * u.yr, create_new_class=True)
    out["strain mask"] = lambda s: s.get_h_0_n([1, 2], which_sources=np.ones(len(s) + 1, bool))
    out["setting L"] = setitem("L", "long")
    out["setting t_obs"] = setitem("t_obs", 3 * u.m)
    out["setting no function"] = setitem("custom_psd", None)
    out["setting type"] = lambda s: s.sc_params.update(3)
    out["settings = type"] = assign("sc_params", 3)
    out["separation unit"] = lambda s: setattr(s, "a", s.a.value * u.s)
    out["settings = L"] = assign("sc_params", {"L": "long", "instrument": "TianQin"})
    out["settings = no function"] = assign("sc_params", {"instrument": "custom"})
    out["settings = t_obs"] = assign("sc_params", {"t_obs": 3 * u.m, "approximate_R": True})
    out["plot mask"] = lambda s: s.plot_source_variables("m_1", which_sources=np.ones(len(s) + 1, bool), show=False)
    out["save nowhere"] = lambda s: s.save(os.path.join(env.SCRATCH, "no", "such", "directory.h5"))
    return out


KEEP = ("direct", "interpolated", "sky", "subclass")


def later(s):
    """what the collection does from here on"""
    out = []
    for fn in (lambda: s.get_h_0_n([1, 2, 3]), lambda: s.get_snr_stationary(), lambda: kit.settings_of(s), lambda: s.get_merger_time(save_in_class=False),
               lambda: (s.evolve_sources(0.5 * u.yr), s.ecc, s.f_orb)[1:], lambda: s.get_snr(), lambda: s.snr, lambda: s.get_source_mask(True, True)):
        try:
            r = fn()
            out.append(kit.plain_result(r) if not isinstance(r, dict) else r)
        except Exception as e:
            out.append(repr(type(e)))
    return out


def in_fork(fn):
    """fn() evaluated in a forked copy"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def attempt(ctx, s, key, fn, errors):
    """True if the request was made and rejected"""
    import matplotlib.pyplot as plt
    try:
        fn(s)
    except Exception as e:
        if errors is not None:
            ctx.expect(isinstance(e, errors), key, lambda: "rejected with %r, documented %r" % (e, errors))
        return True
    finally:
        plt.close("all")
    if errors is not None:
        ctx.fail(key, "accepted")
    return False


def stage_check(tier, pairs):
    """in every stage: each request in a forked copy (state, later results), then pairs of requests"""
    inv, uns = invalid(), unspecified()

    def check(s, ctx):
        before = kit.observe(s)
        want = in_fork(lambda: later(s))
        todo = [(k, fn, errors) for k, (fn, errors, when) in inv.items() if when is None or when(s)] + [(k, fn, None) for k, fn in uns.items()]
        # groups of requests are made one after the other in one forked copy: each must leave everything as it was
        accepted = []

        def group(child, items, depth):
            for n, (k, fn, errors) in enumerate(items):
                if not attempt(child, s, "!%s:error" % k, fn, errors):
                    if errors is None:                      # not an invalid request after all: the rest in a new copy
                        return n
                    continue
                # (looking up the merger times on the way is no change of the sources: they are recorded, as any calculation may)
                d = kit.diff(before, kit.observe(s), skip=("t_merge",) if k.startswith("evolve") and before["t_merge"] is None else ())
                child.transitions += 1
                child.evaluations += 1
                child.state((child.path, k, depth))
                if d:
                    child.fail("!%s:state" % k, "the rejected request changed %s" % kit.show(kit.observe(s), [x for x in d if x != "g"]))
                    return n
            r = later(s)
            child.traces += 1
            child.expect(r == want, "later", lambda: "after the rejected requests %r later results differ: %r" % ([k for k, _, _ in items], [i for i in range(len(want)) if r[i] != want[i]]))
            return None
        size = 12
        documented = [x for x in todo if x[2] is not None]
        other = [x for x in todo if x[2] is None]
        for i in range(0, len(documented), size):
            explore.in_child(ctx, lambda child, i=i: group(child, documented[i:i + size], 1) and None)
        for x in other:
            explore.in_child(ctx, lambda child, x=x: group(child, [x], 1) and None)
        if pairs and len(ctx.path) <= 1:
            core = [x for x in todo if x[0] in PAIRS][:pairs]
            for x, y in itertools.permutations(core, 2):
                def two(child, x=x, y=y):
                    for k, fn, errors in (x, y):
                        attempt(child, s, "!%s!%s:error" % (x[0], y[0]), fn, errors)
                    d = kit.diff(before, kit.observe(s, curves=False), skip=("harmonics", "peak", "sc", "g"))
                    child.expect(not d, "!%s!%s:state" % (x[0], y[0]), lambda: "changed %r" % d)
                    child.transitions += 2
                    child.traces += 1
                    child.state((child.path, x[0], y[0]))
                explore.in_child(ctx, two)
    return check


PAIRS = ("get_snr instrument and time", "settings |= bad", "instrument update", "get_snr_stationary user function", "get_snr user function later", "get_snr_evolving confusion", "setting.update",
         "settings = instrument", "clear", "get_h_c_n 0", "pop", "index float", "mask circular 2", "plot mass", "save over", "get_snr_stationary thiele21", "settings =", "user function fails",
         "load missing", "setting |=", "settings = user function fails")


def stages(kind, first, depth, pairs, tier):
    def run(ctx):
        s = make(kind)
        names = [v for v in VALID if first is None or v[0] == first]
        check = stage_check(tier, pairs)
        if first is None:
            check(s, ctx)
            return
        fn = dict(VALID)[first]

        def begin(child):
            child.path = (first,)
            with child.guard("valid"):
                fn(s)
            check(s, child)
            if depth > 1:
                explore.histories(child, s, [(n, op(f)) for n, f in VALID], lambda s, c: None if len(c.path) < 2 else check(s, c), depth - 1)
        explore.in_child(ctx, begin)
    return run


# ---- constructors -------------------------------------------------------------------------------------------------
def constructor(cls, part, tier):
    """every combination of present, missing, unit-less and wrongly sized arguments"""
    def run(ctx):
        C = getattr(kit.lw.source, cls)
        n = 3
        spec = kit.Spec.of("cs", "cs2", "ce")
        base = spec.kwargs()
        a = (ref.a_of_f(spec.f, spec.m1 * ref.MSUN, spec.m2 * ref.MSUN) * u.m).to(u.AU)
        bases = {"f": dict(base), "a": dict({k: v for k, v in base.items() if k != "f_orb"}, a=a), "both": dict(base, a=a), "neither": {k: v for k, v in base.items() if k != "f_orb"}}
        pos = SkyCoord(lon=[0.1, 0.2, 0.3] * u.rad, lat=[0, 0.1, 0.2] * u.rad, distance=base["dist"], frame="barycentrictrueecliptic")
        ang = np.array([0.1, 0.2, 0.3])
        i = 0
        for freq, p, inc, pol, ecc, bad, sc in itertools.product(bases, (False, True), ("no", "yes", "short", "bare"), ("no", "yes", "short", "bare"), (0.0, 0.3, "one"),
                                                                 (None, "m_1", "m_2", "dist", "freq", "ecc", "short m_1", "short m_2", "short dist", "short freq", "short ecc", "short weights", "long weights", "one m_1", "one m_2", "one dist", "one freq", "one ecc", "one weights"),
                                                                 (None, "key", "instrument")):
            i += 1
            if (bad is not None and (inc not in ("no", "yes") or pol not in ("no", "yes"))) or (sc and (bad or ecc != 0.0 or freq == "both")) or i % 4 != part or (bad and bad.startswith("one") and inc != pol) or \
                    (tier == "quick" and freq == "both" and (inc != pol)):
                continue
            kw = dict(bases[freq])
            errors = set()
            if freq == "neither":
                errors.add(ValueError)
            if p:
                kw["position"] = pos
            for name, v in (("inclination", inc), ("polarisation", pol)):
                if v != "no":
                    kw[name] = ang[:2] * u.rad if v == "short" else ang.copy() if v == "bare" else ang * u.rad
                    if not p:
                        errors.add(ValueError)
                    if v == "short":
                        errors.add(ValueError)
                    if v == "bare":
                        errors.add(AssertionError)
            e = np.zeros(n)
            if ecc == "one":
                e[1] = 0.2
            elif ecc:
                e[:] = ecc
            kw["ecc"] = e
            if p and ecc != 0.0:
                errors.add(ValueError)
            fname = "a" if freq == "a" else "f_orb"
            if bad is not None:
                what = bad.split()[-1]
                what = fname if what == "freq" else what
                if what == "f_orb" and freq == "neither":
                    continue
                if bad.startswith("short"):
                    kw[what] = (np.ones(n - 1) if what == "weights" else kw[what][:-1])
                    errors.add(ValueError)
                elif bad.startswith("one"):
                    kw[what] = (np.ones(1) if what == "weights" else kw[what][:1])
                    errors.add(ValueError)
                elif bad.startswith("long"):
                    kw[what] = np.ones(n + 1)
                    errors.add(ValueError)
                elif what == "ecc":
                    continue
                else:
                    kw[what] = kw[what].value
                    errors.add(AssertionError)
                if what == "dist" and p and not bad.startswith(("short", "one")):
                    errors.add(AssertionError)
            if sc == "key":
                kw["sc_params"] = {"arm": 3}
                errors.add(KeyError)
            elif sc:
                kw["sc_params"] = {"instrument": "LIGO"}
                errors.add(ValueError)
            key = "%s.%s.pos%d.%s.%s.%s.%s.%s" % (cls, freq, p, inc, pol, ecc, bad, sc)
            given = {k: np.array(getattr(v, "value", v), copy=True) for k, v in kw.items() if k not in ("position", "sc_params")}
            try:
                C(interpolate_g=False, interpolate_sc=sc is not None, **kw)
                ctx.expect(not errors, key, lambda: "accepted, should be rejected with %r" % errors)
            except Exception as x:
                # (where several things are wrong any of their errors will do)
                ctx.expect(errors and isinstance(x, tuple(errors)), key, lambda: "rejected with %r, expected %r" % (x, errors))
            for k, v in given.items():
                ctx.expect(np.array_equal(np.array(getattr(kw[k], "value", kw[k])), v), key + ".inputs", lambda: "the given %s changed" % k)
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


# ---- module functions ---------------------------------------------------------------------------------------------
def functions(ctx):
    """which of beta, masses, separation, frequency are given: every subset, every function that takes them"""
    E, U, S = kit.lw.evol, kit.lw.utils, kit.lw.strain
    m1, m2, f = np.array([10.0, 5.0]) * u.Msun, np.array([8.0, 2.0]) * u.Msun, np.array([1e-3, 2e-3]) * u.Hz
    full = {"m_1": m1, "m_2": m2, "f_orb_i": f, "a_i": U.get_a_from_f_orb(f, m1, m2), "beta": U.beta(m1, m2)}
    ecc = np.array([0.2, 0.4])
    outs = (None, "f_orb", "f_GW", "a", ["a", "timesteps"], ["a", "f_orb"], ["timesteps"])
    targets = [("evol_circ", dict(t_evol=1 * u.yr, n_step=3), outs), ("evol_ecc", dict(ecc_i=ecc, t_evol=1 * u.yr, n_step=3), outs + ("ecc", ["ecc", "f_GW"])),
               ("get_t_merge_circ", {}, (0,)), ("get_t_merge_ecc", dict(ecc_i=ecc), (0,)), ("check_mass_freq_input", {}, (0,))]
    for name, extra, out in targets:
        for mask in itertools.product((False, True), repeat=5):
            have = {k for k, g in zip(full, mask) if g}
            masses = {"m_1", "m_2"} <= have
            ok = ("beta" in have or masses) and ("a_i" in have or ("f_orb_i" in have and masses))
            for o in out:
                kw = dict(extra)
                need = ok
                if o != 0:
                    if o is not None:
                        kw["output_vars"] = o
                    vars_ = ["f_orb"] if o is None and name == "evol_circ" else ["ecc", "f_orb"] if o is None else [o] if isinstance(o, str) else o
                    need = ok and (masses or not set(vars_) & {"f_orb", "f_GW"})
                key = "%s.%s.%s" % (name, sorted(have), o)
                kw.update({k: full[k] for k in have})
                if o == 0 and name == "check_mass_freq_input":
                    kw.update({k: None for k in full if k not in have and k == "beta"})
                judge(ctx, key, lambda: getattr(E, name)(**kw), None if need else ValueError)
    mc = U.chirp_mass(m1, m2)
    for have in itertools.product((False, True), repeat=3):
        kw = {k: v for k, v, h in zip(("m_c", "m_1", "m_2"), (mc, m1, m2), have) if h}
        ok = have[0] or (have[1] and have[2])
        judge(ctx, "stationarity.%s" % (have,), lambda: E.determine_stationarity(f_orb_i=f, t_evol=4 * u.yr, ecc_i=ecc, **kw), None if ok else ValueError)
    for n in (0, -1, [0], [1, 0], [2, -5], np.array([0, 1, 2]), 1, [1, 2], np.arange(1, 4), np.array([3, 2, 0])):
        bad = bool(np.any(np.asarray(n) < 1))
        err = ValueError if bad else None
        for fn in ("h_0_n", "h_c_n"):
            judge(ctx, "%s.%r" % (fn, n), lambda: getattr(S, fn)(m_c=mc, f_orb=f, ecc=ecc, n=n, dist=np.array([1.0, 2.0]) * u.kpc), err)
        if not isinstance(n, list):
            judge(ctx, "fn_dot.%r" % (n,), lambda: U.fn_dot(m_c=mc[0], f_orb=f[0], e=0.3, n=n), err)
    P = kit.lw.psd
    g = np.array([1e-3, 1e-2]) * u.Hz
    for model in ("robson", "Robson19", "", "huang", "thiele", "none", "None"):
        for call in (lambda: P.get_confusion_noise(f=g, t_obs=4 * u.yr, model=model), lambda: P.lisa_psd(g, confusion_noise=model), lambda: P.tianqin_psd(g, confusion_noise=model),
                     lambda: P.power_spectral_density(g, confusion_noise=model), lambda: P.power_spectral_density(g, instrument="DECIGO", confusion_noise=model)):
            judge(ctx, "model.%r" % (model,), call, ValueError)
    for t in (0.5, 1.0, 3.999, 4.0, 4.001, 5.0, 10.0, "auto"):
        tt = t if t == "auto" else t * u.yr
        err = None if t in (4.0, "auto") else ValueError
        judge(ctx, "thiele.%r" % (t,), lambda: P.get_confusion_noise(f=g, t_obs=tt, model="thiele21"), err)
        judge(ctx, "thiele psd.%r" % (t,), lambda: P.power_spectral_density(g, t_obs=tt, confusion_noise="thiele21"), err)
        if t != "auto":
            judge(ctx, "thiele days.%r" % (t,), lambda: P.get_confusion_noise(f=g, t_obs=tt.to(u.day), model="thiele21"), err)
    V = kit.lw.visualisation
    import matplotlib.pyplot as plt
    for y in ("asd", "PSD", "", "hc", None, "ASD", "h_c"):
        judge(ctx, "y.%r" % (y,), lambda: V.plot_sensitivity_curve(y_quantity=y, show=False), None if y in ("ASD", "h_c") else ValueError)
        plt.close("all")
    for ins in ("LIGO", "lisa", None, ""):
        judge(ctx, "curve.%r" % (ins,), lambda: V.plot_sensitivity_curve(instrument=ins, show=False), ValueError)
        judge(ctx, "on.%r" % (ins,), lambda: V.plot_sources_on_sc(g, np.array([1.0, 2.0]), instrument=ins, show=False), ValueError)
        plt.close("all")


def judge(ctx, key, call, error):
    ctx.transitions += 1
    ctx.evaluations += 1
    ctx.state(key)
    try:
        call()
        ctx.expect(error is None, key, "accepted")
    except Exception as e:
        ctx.expect(error is not None and isinstance(e, error), key, lambda: "rejected with %r, expected %r" % (e, error))
    ctx.traces += 1


def settings_alone(ctx):
    """the settings dictionary on its own: every sequence of three valid and invalid requests keeps it complete"""
    D = kit.lw.source.SensitivityCurveParams
    default = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}
    good = [("set", lambda d: d.__setitem__("instrument", "TianQin"), {"instrument": "TianQin"}), ("update", lambda d: d.update(L=1.0, t_obs=2.0), {"L": 1.0, "t_obs": 2.0}),
            ("ior", lambda d: d.__ior__({"approximate_R": True}), {"approximate_R": True})]
    bad = [("key", lambda d: d.__setitem__("x", 1), KeyError), ("update", lambda d: d.update(L=3.0, x=1), KeyError), ("ior", lambda d: d.__ior__({"x": 1}), KeyError),
           ("default", lambda d: d.setdefault("x", 1), KeyError), ("del", lambda d: d.__delitem__("L"), TypeError), ("del missing", lambda d: d.__delitem__("x"), TypeError),
           ("pop", lambda d: d.pop("L"), TypeError), ("pop missing", lambda d: d.pop("x", 3), TypeError), ("popitem", lambda d: d.popitem(), TypeError), ("clear", lambda d: d.clear(), TypeError)]
    for init in ({}, {"L": 5.0}, {"x": 1}, {"L": 1.0, "T": 3}):
        try:
            D(init)
            ctx.expect(set(init) <= set(default), "init", "accepted %r" % init)
        except KeyError:
            ctx.expect(not set(init) <= set(default), "init", "rejected %r" % init)
    for seq in itertools.product([("good",) + g for g in good] + [("bad",) + b for b in bad], repeat=3):
        d, model = D(), dict(default)
        key = ">".join(x[0] + " " + x[1] for x in seq)
        for kind, name, fn, x in seq:
            try:
                fn(d)
                ctx.expect(kind == "good", key, "%s accepted" % name)
                model.update(x if kind == "good" else {})
            except Exception as e:
                ctx.expect(kind == "bad" and isinstance(e, x), key, lambda: "%s rejected with %r" % (name, e))
            ctx.expect(dict(d) == model, key, lambda: "%r, expected %r" % (dict(d), model))
            ctx.transitions += 1
        ctx.traces += 1
        ctx.state(tuple(sorted(model.items(), key=str)))


def units(tier):
    deep = tier == "thorough"
    for kind in KEEP:
        yield "stages/%s/fresh" % kind, stages(kind, None, 0, 20 if deep else 10, tier)
        for name, _ in VALID:
            yield "stages/%s/%s" % (kind, name), stages(kind, name, 2 if deep or (kind == "direct" and name in ("snr", "evolve")) else 1, 20 if deep else 6 if name in ("snr", "merge some") else 0, tier)
    for cls in ("Source", "Stationary", "Evolving"):
        for part in range(4):
            yield "constructor/%s/%d" % (cls, part), constructor(cls, part, tier)
    yield "functions", functions
    yield "settings", settings_alone
