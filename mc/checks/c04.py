"""C04: saving and loading gives back an equivalent collection and never clobbers files.

(a) Every combination of class, optional quantities, units, stage of life and observing settings is saved and loaded
(several file-name forms, every loader override) and compared quantity by quantity, then by its subsequent results.
(b) Every sequence of save / load / change operations up to the depth over two file names, against an abstract file
store: contents change only by a permitted save, a load gives the abstract content and leaves every byte alone.
"""
import hashlib
import os
import shutil
import tempfile
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from .. import kit
from ..explore import histories, in_child
from .c01 import DEFAULT

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: every configuration through save and load, and every save/load/change sequence "
             "against an abstract file store")
NOTE = ("All configurations of the bounded product round-tripped on the real code and compared exactly; every operation "
        "sequence up to the bound checked against an abstract file store (bytes hashed after every step).")
BOUNDS = {"quick": "3 classes x 3 optional sets x 3 unit systems x 7 stages x 10 settings reduced to all pairs with the "
                   "class/stage product complete; 12 file-name forms; 8 overrides; sequences of <= 3 from 14 operations",
          "thorough": "full product; sequences of <= 4 operations"}


def setup(tier):
    kit.setup()


UNITS = {
    "native": dict(m=u.Msun, d=u.kpc, f=u.Hz, ang=u.rad, sky=u.rad),
    "other": dict(m=u.kg, d=u.Mpc, f=u.mHz, ang=u.deg, sky=u.deg),
    "mixed": dict(m=u.g, d=u.lyr, f=1 / u.yr, ang=u.arcmin, sky=u.hourangle),
}
P = kit.CountingPSD("p1")
C1 = kit.CountingCN("c1")
SETTINGS = {
    "default": {},
    "tq": {"instrument": "TianQin"},
    "tobs": {"t_obs": 2.5 * u.yr},
    "days": {"t_obs": 500 * u.day, "L": 2.1e6 * u.km},
    "approx": {"approximate_R": True, "confusion_noise": None},
    "robson": {"confusion_noise": "robson19", "t_obs": 1 * u.yr, "L": 1e9 * u.m},
    "decigo": {"instrument": "DECIGO", "confusion_noise": "huang20"},
    "custom": {"instrument": "custom", "custom_psd": P, "t_obs": 3 * u.yr, "approximate_R": True},
    "unused": {"custom_psd": P, "confusion_noise": "thiele21"},
    "cn": {"confusion_noise": C1, "t_obs": 7 * u.yr},
}
STAGES = ("fresh", "snr", "merger", "evolved", "selected", "changed", "flagged", "gone")
NAMES = ("cs", "es", "ce", "cm", "ee", "nc")
CIRC = ("cs", "cs2", "ce", "cm", "cs2", "cs")


def make(cls="Source", optional="none", system="native", stage="fresh", settings="default", **kw):
    U = UNITS[system]
    spec = kit.Spec.of(*(CIRC if optional == "sky" else NAMES),
                       weights=None if optional == "none" else [0.1, 2, 1 / 3, 1e-7, 5e9, 6.5],
                       sky=kit.SKY if optional == "sky" else None)
    args = spec.kwargs()
    for k, unit in (("m_1", U["m"]), ("m_2", U["m"]), ("dist", U["d"]), ("f_orb", U["f"])):
        args[k] = args[k].to(unit)
    if optional == "sky":
        p = args["position"]
        args["position"] = SkyCoord(lon=p.lon.to(U["sky"]), lat=p.lat.to(U["sky"]), distance=args["dist"],
                                    frame="barycentrictrueecliptic")
        args["polarisation"] = args["polarisation"].to(U["ang"])
        args["inclination"] = args["inclination"].to(U["ang"])
    opts = dict(gw_lum_tol=0.03, stat_tol=0.02, n_proc=2, interpolate_g=False, sc_params=dict(SETTINGS[settings]))
    opts.update(kw)
    s = getattr(kit.lw.source, cls)(**args, **opts)
    s.n_proc = 1 if stage in ("snr", "evolved", "selected") else s.n_proc
    step = {} if cls == "Stationary" else {"n_step": 4}
    if stage == "snr":
        s.get_snr(**step)
    elif stage == "merger":
        s.get_merger_time()
    elif stage == "evolved":
        s.get_merger_time()
        s.evolve_sources(np.array([1, 2, 0.5, 900, 1, 3.0]) * u.yr)
        s.get_snr(**step)
    elif stage == "selected":
        s.get_snr(**step)
        s = s[[4, 0, 0]]
    elif stage == "gone":                           # (everything has merged)
        s.get_snr(**step)
        s.evolve_sources(1e9 * u.Gyr)
    elif stage == "flagged":
        s.merged = np.array([False, True, False, True, False, False])
        s.get_snr(**step)
    elif stage == "changed":
        s.gw_lum_tol = 0.1
        s.interpolate_sc = False
        s.sc_params["L"] = 2e9 * u.m
        s.a = s.a * 1.1
        s.stat_tol = 0.5
    return s


FULL = ("m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation", "t_merge", "snr",
        "max_snr_harmonic", "merged", "gw_lum_tol", "stat_tol", "ecc_tol", "n_proc")


def unit_names(s):
    out = {k: str(getattr(s, k).unit) for k in ("m_1", "m_2", "dist", "f_orb", "inclination", "polarisation", "t_merge")
           if getattr(s, k) is not None}
    return out


def expected_settings(model):
    """custom functions are not stored"""
    return {k: kit.canon_setting(DEFAULT[k] if callable(v) else v) for k, v in model.items()}


def compare(ctx, key, got, want, units=None, skip=()):
    """got: loaded collection, want: observation of the saved one"""
    g = kit.observe(got, curves="harmonics" in want)
    sky = ("lon", "lat", "pdist")
    custom = g["settings"]["instrument"] == ("v", "custom")
    cn = dict(want["settings"]) != g["settings"]
    bad = kit.diff(want, g, skip=sky + ("settings", "sc", "m_c", "a") + tuple(skip))
    bad += kit.diff({k: want[k] for k in sky + ("m_c", "a")}, g, rtol=1e-13, atol=1e-15)
    if not custom and not cn and "sc" in want and "sc" not in skip:
        bad += kit.diff({"sc": want["sc"]}, g, rtol=1e-12)
    ctx.expect(not bad, key, lambda: "differs in %s\n loaded %s\n saved %s" % (bad, kit.show(g, bad), kit.show(want, bad)))
    if units is not None:
        ctx.expect(unit_names(got) == units, key + ".units", lambda: "units %r, saved %r" % (unit_names(got), units))
    for k in ("merged", "max_snr_harmonic", "ecc", "weights", "snr"):
        v = getattr(got, k)
        ctx.expect(v is None or isinstance(v, np.ndarray), key + "." + k, lambda: "is a %s" % type(v))
        kind = {"merged": "b", "max_snr_harmonic": "iu"}.get(k, "fiu")
        ctx.expect(v is None or v.dtype.kind in kind, key + "." + k, lambda: "loaded as %s" % v.dtype)


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def results(s):
    """subsequent results, in one comparable list"""
    step = {} if type(s).__name__ == "Stationary" else {"n_step": 4}
    out = [s.get_snr(**step), np.where(s.merged, 0, s.max_snr_harmonic), s.get_h_0_n([1, 2, 3]), s.get_h_c_n([2]),
           s.get_source_mask(circular=True, stationary=False), s.get_merger_time().to(u.yr).value]
    s.evolve_sources(2 * u.yr)
    out += [s.f_orb.to(u.Hz).value, s.ecc, s.merged]
    s.gw_lum_tol = 0.02
    s.sc_params.update(instrument="TianQin", confusion_noise="huang20", t_obs=2 * u.yr)
    out += [s.get_snr(**step), np.where(s.merged, 0, s.max_snr_harmonic)]
    return [np.asarray(x, float) for x in out]


def roundtrip(ctx, **cfg):
    key = ",".join("%s=%s" % kv for kv in cfg.items())
    with ctx.guard(key):
        d = tempfile.mkdtemp(dir=kit.env.scratch())
        s = make(**cfg)
        before = kit.observe(s)
        units = unit_names(s)
        path = os.path.join(d, "f.h5")
        s.save(path)
        ctx.transitions += 1
        after = kit.observe(s)
        ctx.expect(not kit.diff(before, after), key + ".saved", lambda: "saving changed %s" % kit.diff(before, after))
        ctx.expect(os.listdir(d) == ["f.h5"], key + ".file", lambda: "files %r" % os.listdir(d))
        h, mt = sha(path), os.stat(path).st_mtime_ns
        loader = kit.lw.source.Source
        t = loader.from_file(path)
        ctx.transitions += 1
        ctx.expect(sha(path) == h and os.stat(path).st_mtime_ns == mt, key + ".loaded", "loading changed the file")
        compare(ctx, key, t, before, units)
        ctx.expect(kit.settings_of(t) == expected_settings(dict(s.sc_params)), key + ".settings",
                   lambda: "settings %r, expected %r" % (kit.settings_of(t), expected_settings(dict(s.sc_params))))
        if s.sc_params["custom_psd"] is not None:
            t.sc_params["custom_psd"] = P
        if callable(s.sc_params["confusion_noise"]):
            t.sc_params["confusion_noise"] = C1
        bad = kit.diff({"sc": before["sc"], "s": kit.settings_of(s)},
                       {"sc": kit.observe(t)["sc"], "s": kit.settings_of(t)}, rtol=1e-12)
        ctx.expect(not bad, key + ".restored", lambda: "after supplying the functions again %r differ" % bad)
        # the same subsequent results
        a, b = results(s), results(t)
        for i, (x, y) in enumerate(zip(a, b)):
            ctx.expect(kit.allclose(x, y, 1e-9), key + ".result%d" % i, lambda: "loaded %r, original %r" % (y, x))
        ctx.state(key)
        ctx.traces += 1
        shutil.rmtree(d)


def trip_unit(cls, stage, tier):
    def run(ctx):
        seen = set()
        combos = []
        for optional in ("none", "weights", "sky"):
            for system in UNITS:
                for settings in SETTINGS:
                    combos.append((optional, system, settings))
        if tier == "quick":
            keep = []
            pairs = set()
            for c in combos:                    # every pair of (optional, system, settings) appears
                p = {(0, 1) + c[:2], (0, 2, c[0], c[2]), (1, 2) + c[1:]}
                if not p <= pairs:
                    i = (hash_small(c) + hash_small((cls, stage))) % 3
                    if i == 0 or c[1] == "native" and c[0] == "none":
                        keep.append(c)
                        pairs |= p
            combos = keep
        for optional, system, settings in combos:
            in_child(ctx, lambda c: roundtrip(c, cls=cls, stage=stage, optional=optional, system=system,
                                              settings=settings))
            seen.add(settings)
    return run


def hash_small(x):
    return sum(ord(ch) * (i + 1) for i, ch in enumerate(repr(x)))


FORMS = [("a", "a.h5"), ("a.h5", "a.h5"), ("a.hdf5", "a.hdf5"), ("a.b", "a.b.h5"), ("a.h5.bak", "a.h5.bak.h5"),
         ("a.H5", "a.H5.h5"), ("sub.h5/a", "sub.h5/a.h5"), ("sub.x/a.hdf5", "sub.x/a.hdf5"), ("a hdf5", "a hdf5.h5"),
         ("./a", "a.h5"), ("sub.x/../a", "a.h5"), ("h5", "h5.h5")]


def forms_unit(cls):
    def run(ctx):
        s, s2 = make(cls=cls, stage="snr"), make(cls=cls, optional="sky", stage="merger", settings="days")
        for given, actual in FORMS:
            for how in ("abs", "rel"):
                for ow in (None, False, True):
                    def case(c, given=given, actual=actual, how=how, ow=ow):
                        d = tempfile.mkdtemp(dir=kit.env.scratch())
                        os.makedirs(os.path.join(d, "sub.h5"))
                        os.makedirs(os.path.join(d, "sub.x"))
                        os.chdir(d)
                        name = os.path.join(d, given) if how == "abs" else given
                        kw = {} if ow is None else {"overwrite": ow}
                        files = lambda: sorted(os.path.relpath(os.path.join(r, f), d)                       # noqa
                                               for r, _, fs in os.walk(d) for f in fs)
                        try:
                            kit.lw.source.Source.from_file(name)
                            c.fail("missing", "a missing file was loaded")
                        except FileNotFoundError:
                            c.expect(files() == [], "missing", lambda: "files created: %r" % files())
                        s.save(name, **kw)
                        c.expect(files() == [actual], "name", lambda: "wrote %r, expected %r" % (files(), actual))
                        h = sha(actual)
                        compare(c, "load", kit.lw.source.Source.from_file(name), kit.observe(s))
                        compare(c, "load(full name)", kit.lw.source.Source.from_file(actual), kit.observe(s))
                        c.expect(sha(actual) == h, "loaded", "loading changed the file")
                        if ow:
                            s2.save(name, overwrite=True)
                            compare(c, "overwritten", kit.lw.source.Source.from_file(name), kit.observe(s2))
                            s.save(actual, True)
                            compare(c, "overwritten again", kit.lw.source.Source.from_file(name), kit.observe(s))
                        else:
                            for again in (name, actual):
                                try:
                                    s2.save(again, **kw)
                                    c.fail("clobbered", "an existing file was replaced without overwrite")
                                except FileExistsError:
                                    pass
                                c.expect(sha(actual) == h, "clobbered", "a refused save changed the file")
                        c.expect(files() == [actual], "files", lambda: "files %r" % files())
                        c.transitions += 6
                        c.traces += 1
                        c.state((cls, given, how, ow))
                        os.chdir("/")
                        shutil.rmtree(d)
                    ctx.path = (given, how, str(ow))
                    in_child(ctx, case)
        ctx.path = ()
    return run


def override_unit(stage, settings):
    """Loader overrides change only what they name"""
    def run(ctx):
        d = tempfile.mkdtemp(dir=kit.env.scratch())
        for optional in ("none", "sky"):
            s = make(stage=stage, settings=settings, optional=optional)
            path = os.path.join(d, optional)
            s.save(path)
            want, units = kit.observe(s), unit_names(s)
            curve = kit.noise_of(dict(s.sc_params))(kit.PROBE_F) if not any(
                callable(v) for v in s.sc_params.values()) else None
            plain = make(stage=stage, settings=settings, optional=optional)
            ref_results = results(plain)
            for cls in ("Source", "Stationary", "Evolving"):
                for ov in kit.product(n_proc=(None, 1, 3), interpolate_sc=(None, True, False), interpolate_g=(None, False)):
                    kw = {k: v for k, v in ov.items() if v is not None}
                    key = "%s/%s/%r" % (optional, cls, kw)
                    with ctx.guard(key):
                        t = getattr(kit.lw.source, cls).from_file(path, **kw)
                        ctx.transitions += 1
                        w = dict(want, **kw)
                        w["class"] = cls
                        skip = ("sc",) if "interpolate_sc" in kw else ()
                        compare(ctx, key, t, w, units, skip=skip)
                        if "interpolate_sc" in kw:
                            ctx.expect((t.sc is not None) == kw["interpolate_sc"] or curve is None, key + ".sc",
                                       lambda: "interpolate_sc=%r gave sc=%r" % (kw["interpolate_sc"], t.sc))
                            if kw["interpolate_sc"] and t.sc is not None and curve is not None:
                                got = t.sc(kit.PROBE_F * u.Hz).value
                                ok = kit.close(got, np.where(np.isfinite(curve), curve, got), 3e-3)
                                ctx.expect(ok.all(), key + ".curve", lambda: "%r, expected %r" % (got, curve))
                        ctx.state((stage, settings, key))
                        if cls == "Source" and curve is not None and kw.get("n_proc") != 3:
                            def later(c, t=t, kw=kw, key=key):
                                t.n_proc = 1
                                got = results(t)
                                tol = 1e-9 if "interpolate_sc" not in kw else 2e-2
                                for i, (x, y) in enumerate(zip(ref_results, got)):
                                    c.expect(kit.allclose(x, y, tol), key + ".result%d" % i,
                                             lambda: "loaded %r, original %r" % (y, x))
                                c.traces += 1
                            in_child(ctx, later)
        shutil.rmtree(d)
    return run


def interp_unit(ctx):
    """the interpolated power factors survive (their table is large, so once)"""
    from .. import fixtures
    path = os.path.join(os.path.dirname(kit.lw.source.__file__), "peters_g.npy")
    fixtures.write_peters_g(path)
    d = tempfile.mkdtemp(dir=kit.env.scratch())
    try:
        s = make(stage="fresh", interpolate_g=True)
        f = os.path.join(d, "g")
        s.save(f)
        for ov, on in ((None, True), (False, False)):
            t = kit.lw.source.Source.from_file(f, interpolate_g=ov)
            ctx.transitions += 1
            ctx.traces += 1
            want = kit.observe(s)
            want["interpolate_g"] = on
            want["g"] = want["g"] if on else None
            compare(ctx, "interpolate_g=%r" % ov, t, want)
            ctx.state(ov)
        make(stage="fresh", interpolate_g=False).save(f, overwrite=True)
        t = kit.lw.source.Source.from_file(f, interpolate_g=True)
        want["interpolate_g"], want["g"] = True, kit.observe(s)["g"]
        compare(ctx, "interpolate_g=True", t, want)
    finally:
        os.unlink(path)
        shutil.rmtree(d)


# ---- histories over an abstract file store ----------------------------------------------------------------
class World:
    def __init__(self, src):
        self.src = src
        self.dir = None
        self.files = {}             # name -> (observation, units, settings, sha)

    def path(self, name):
        return os.path.join(self.dir, name)


def save(name, ow):
    def op(w, ctx):
        full = name + ".h5"
        want = (kit.observe(w.src, curves=False), unit_names(w.src), dict(w.src.sc_params))
        try:
            w.src.save(w.path(name), overwrite=ow)
            done = True
        except FileExistsError:
            done = False
        ctx.expect(done == (ow or full not in w.files), "save", lambda: "saved=%s although %s exists: %s" % (
            done, full, full in w.files))
        if done:
            w.files[full] = want + (sha(w.path(full)),)
    return op


def load(name, cls="Source", **kw):
    def op(w, ctx):
        full = name + ".h5"
        klass = getattr(kit.lw.source, cls)
        if full not in w.files:
            try:
                klass.from_file(w.path(name), **kw)
            except FileNotFoundError:
                return
            ctx.fail("load", "loaded a file that does not exist")
            return
        want, units, settings, _ = w.files[full]
        w.src = klass.from_file(w.path(name), **kw)
        want = dict(want, **kw)
        if cls != "Source":
            want["class"] = cls
        compare(ctx, "load", w.src, want, units)
        ctx.expect(kit.settings_of(w.src) == expected_settings(settings), "settings", lambda: "%r, expected %r" % (
            kit.settings_of(w.src), expected_settings(settings)))
    return op


def do(fn):
    def op(w, ctx):
        return False if fn(w) is False else None
    return op


def sel(w):
    if w.src.n_sources < 2:
        return False
    w.src = w.src[::-1][1:]


def renew(w):
    w.src = w.src.evolve_sources(40 * u.yr, create_new_class=True)


OPS = [
    ("save A", save("A", False)), ("save! A", save("A", True)), ("save B", save("B", False)), ("save! B", save("B", True)),
    ("load A", load("A")), ("load B", load("B")), ("load A(nosc)", load("A", interpolate_sc=False)),
    ("load B as Evolving", load("B", "Evolving", n_proc=1)),
    ("snr", do(lambda w: w.src.get_snr(t_obs=3 * u.yr) is None)),
    ("stat", do(lambda w: w.src.get_snr_stationary(which_sources=np.arange(w.src.n_sources) == 0) is None)),
    ("settings", do(lambda w: w.src.sc_params.update(instrument="TianQin", confusion_noise=None, L=1e5 * u.km))),
    ("tol", do(lambda w: setattr(w.src, "gw_lum_tol", 0.1))),
    ("select", do(sel)),
    ("evolve", do(lambda w: w.src.evolve_sources(1 * u.yr))),
    ("renew", do(renew)),
]


def check(w, ctx):
    names = sorted(os.listdir(w.dir))
    ctx.expect(names == sorted(w.files), "files", lambda: "files %r, expected %r" % (names, sorted(w.files)))
    for n in names:
        if n in w.files:
            ctx.expect(sha(w.path(n)) == w.files[n][3], "bytes", "%s was changed" % n)


def canon(w):
    o = kit.observe(w.src, curves=False)
    return (sorted((k, repr(v)) for k, v in o.items()), sorted((k, v[3]) for k, v in w.files.items()))


def _private(ops):
    """each branch works on its own copy of the directory"""
    def wrap(fn):
        def op(w, ctx):
            d = tempfile.mkdtemp(dir=kit.env.scratch())
            for n in w.files:
                shutil.copy(os.path.join(w.dir, n), d)
            w.dir = d
            return fn(w, ctx)
        return op
    return [(n, wrap(f)) for n, f in ops]


PRIVATE = _private(OPS)


def history_unit(kind, first, depth):
    def run(ctx):
        kw = {"weights": dict(optional="weights"), "sky": dict(optional="sky", cls="Stationary", settings="days"),
              "evolved": dict(stage="evolved", settings="robson", system="other")}[kind]
        w = World(make(**kw))
        w.dir = tempfile.mkdtemp(dir=kit.env.scratch())
        ctx.path = (first,)
        if dict(PRIVATE)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, PRIVATE, check, depth - 1, canon)
    return run


def units(tier):
    yield "interp_g", interp_unit
    for kind in ("weights", "sky", "evolved"):
        for first, _ in OPS:
            d = 3 if first.startswith("save") else 2
            yield "history/%s/%s" % (kind, first), history_unit(kind, first, d + (tier == "thorough"))
    for cls in ("Source", "Stationary", "Evolving"):
        for stage in STAGES:
            yield "trip/%s/%s" % (cls, stage), trip_unit(cls, stage, tier)
        yield "forms/" + cls, forms_unit(cls)
    for stage in ("fresh", "evolved"):
        for settings in ("default", "days", "tq", "custom", "robson"):
            yield "override/%s/%s" % (stage, settings), override_unit(stage, settings)
