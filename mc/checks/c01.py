"""C01: the cached noise curve always matches the collection's current settings.

Every sequence of setting changes / SNR calls / derivations up to the depth, over up to two live collections
("A" and a second one "B" derived from it), from several initial states, on the real objects.  Abstract state:
for each collection the dictionary of settings that the sequence of operations implies, whether the curve is
interpolated, and how often each user-supplied noise function must have been called.
"""
from copy import copy, deepcopy
import os
import numpy as np
from astropy import units as u

from .. import kit, ref
from ..explore import histories

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of every operation sequence (forked real states) against an abstract model"
NOTE = ("Every setting-change/SNR/derivation sequence up to the bound, run on the real objects; settings, curve values "
        "and recomputation counts compared with an abstract model and an independent noise model. Trusts the "
        "reference noise formulas (mc/ref.py).")
BOUNDS = {"quick": "all sequences of <= 2 operations from an alphabet of 36 (7 initial states) and of <= 3 from a core "
                   "of 19 (default initial state), two live collections; plus every combination of setting values "
                   "(4 instruments x 6 times x 6 confusion models x 3 arms x 2 responses) by 3 routes",
          "thorough": "all sequences of <= 3 operations from 36 (7 initial states), <= 4 from the default state; same "
                      "setting grid"}
ASSUMPTIONS = ["curve compared at 15 frequencies to 3e-3 (interpolation accuracy) with an independent model"]
F = kit.PROBE_F * u.Hz
OUT = np.array([2e-8, 6e-8, 2.5, 9.0])        # outside the interpolated range: as the formulae say, or no sensitivity at all
HIGH = np.array([2.5, 9.0, 40.0, 99.0])       # (DECIGO's band)
SPEC = kit.Spec.of("cs", "es")
DEFAULT = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False,
           "confusion_noise": "auto"}


def setup(tier):
    kit.setup()


class World:
    """Real collections, their abstract settings, and the counting noise functions"""
    def __init__(self):
        self.p1, self.p2 = kit.CountingPSD("p1"), kit.CountingPSD("p2", 3e-41)
        self.c1, self.c2 = kit.CountingCN("c1"), kit.CountingCN("c2", 5e-38)
        self.real, self.model, self.interp = {}, {}, {}
        self.cur = "A"
        self.file = 0

    @property
    def counters(self):
        return {"p1": self.p1, "p2": self.p2, "c1": self.c1, "c2": self.c2}

    def calls(self):
        return {k: c.calls for k, c in self.counters.items()}

    def add(self, name, src, model, interp=True):
        self.real[name], self.model[name], self.interp[name] = src, dict(model), interp


def active(world, model):
    """which counter the noise power of these settings calls"""
    out = {k: 0 for k in world.counters}
    if model["instrument"] == "custom":
        if model["custom_psd"] is not None:
            out[model["custom_psd"].tag] += 1
    elif callable(model["confusion_noise"]):
        out[model["confusion_noise"].tag] += 1
    return out


def differs(a, b):
    return kit.canon_setting(a) != kit.canon_setting(b)


def apply(world, ctx, fn, new, snr=False):
    """Run fn(collection) on the current collection; `new` are the settings it is to change (a full dict)"""
    n = world.cur
    old = world.model[n]
    changed = any(differs(old[k], new[k]) for k in new)
    before = world.calls()
    fn(world.real[n])
    after = world.calls()
    world.model[n] = dict(new)
    got = {k: after[k] - before[k] for k in after}
    if world.interp[n]:
        want = active(world, new) if changed else {k: 0 for k in before}
        # (a stale curve shows in its values, so fewer calls, from a curve kept for the same settings, are fine)
        ctx.expect(all(got[k] <= want[k] for k in got), "recomputed", lambda: "noise function calls %r, expected %r" % (got, want))
    elif not snr:
        ctx.expect(not any(got.values()), "recomputed", lambda: "noise computed without interpolation: %r" % got)
    ctx.evaluations += 1


def valid(m):
    return not (m["instrument"] == "custom" and m["custom_psd"] is None) and \
        not (m["confusion_noise"] == "thiele21" and not isinstance(m["t_obs"], str)
             and m["t_obs"].to(u.yr).value != 4 and m["instrument"] != "custom")


def change(how, **kw):
    """An operation that changes the given settings in one of the ways the library offers"""
    def op(world, ctx):
        upd = {k: (getattr(world, v[1:]) if isinstance(v, str) and v.startswith("@") else v)
               for k, v in kw.items()}
        old = world.model[world.cur]
        new = dict(DEFAULT, **upd) if how == "replace" else dict(old, **upd)
        if not valid(new):
            return False

        def go(s):
            if how == "item":
                for k, v in upd.items():
                    s.sc_params[k] = v
            elif how == "update":
                s.sc_params.update(upd)
            elif how == "kwargs":
                s.sc_params.update(**upd)
            elif how == "pairs":
                s.sc_params.update(list(upd.items()))
            elif how == "ior":
                s.sc_params |= upd
            elif how == "replace":
                s.sc_params = upd
            elif how == "snr":
                s.get_snr(n_step=5, **upd)
            elif how == "stat":
                s.get_snr_stationary(**upd)
            elif how == "evol":
                s.get_snr_evolving(n_step=5, **upd)
        apply(world, ctx, go, new, snr=how in ("snr", "stat", "evol"))
    return op


def nudge(key, factor, unit, auto):
    """a small change of a number: still a real change"""
    def op(world, ctx):
        old = world.model[world.cur][key]
        v = (auto if isinstance(old, str) else old.to(unit).value) * factor * unit
        return change("update", **{key: v})(world, ctx)
    return op


def setdefault(world, ctx):
    new = dict(world.model[world.cur])

    def go(s):
        got = s.sc_params.setdefault("t_obs", 9 * u.yr)
        ctx.expect(kit.canon_setting(got) == kit.canon_setting(new["t_obs"]), "setdefault", "wrong value returned")
    apply(world, ctx, go, new)


def tol(world, ctx):
    apply(world, ctx, lambda s: setattr(s, "gw_lum_tol", 0.1 if s.gw_lum_tol == 0.05 else 0.05),
          world.model[world.cur])


def derive(how):
    def op(world, ctx):
        s, m = world.real[world.cur], world.model[world.cur]
        before = world.calls()
        interp = world.interp[world.cur]
        if how == "copy":
            new = s.copy()
        elif how == "deep":
            new = deepcopy(s)
        elif how == "shallow":
            new = copy(s)
        elif how == "mask":
            new = s[np.array([False, True])] if len(s) == 2 else s[:1]
        elif how == "new":
            if not s.merged.any():
                new = s.evolve_sources(100 * u.yr, create_new_class=True)
        elif how == "file":
            path = os.path.join(kit.env.scratch(), "c01-%d" % os.getpid())
            s.save(path, overwrite=True)
            new = type(s).from_file(path)
            m = {k: DEFAULT[k] if callable(v) else v for k, v in m.items()}
            os.unlink(path + ".h5")
        if how not in ("file",):
            got = world.calls()
            ctx.expect(got == before, "recomputed", lambda: "deriving a collection recomputed the curve: "
                       "%r -> %r" % (before, got))
        world.add("B", new, m, interp)
    return op


def swap(world, ctx):
    if "B" not in world.real:
        return False
    world.cur = "B" if world.cur == "A" else "A"


def share(world, ctx):
    """assign the other collection's own parameters object"""
    if "B" not in world.real:
        return False
    other = world.real["B" if world.cur == "A" else "A"]
    mo = world.model["B" if world.cur == "A" else "A"]
    if not valid(mo):
        return False

    def go(s):
        s.sc_params = other.sc_params
    apply(world, ctx, go, dict(mo))


def same_again(world, ctx):
    def go(s):
        s.sc_params = s.sc_params
        s.sc_params.update(dict(s.sc_params))
        s.sc_params = dict(s.sc_params)
    apply(world, ctx, go, dict(world.model[world.cur]))


def interpolation(on):
    """interpolation switched on or off later on, with the public method that then sets the curve"""
    def op(world, ctx):
        n = world.cur
        before = world.calls()
        world.real[n].interpolate_sc = on
        world.real[n].set_sc()
        world.interp[n] = on
        got = {k: v - before[k] for k, v in world.calls().items()}
        want = active(world, world.model[n]) if on else {k: 0 for k in before}
        ctx.expect(all(got[k] <= want[k] for k in got), "recomputed", lambda: "noise function calls %r, expected %r" % (got, want))
    return op


def rejected(how):
    """a request that names an unknown instrument together with other, valid, changes: nothing of it stays"""
    def op(world, ctx):
        bad = {"L": 7e8 * u.m, "t_obs": 3.3 * u.yr, "approximate_R": True, "confusion_noise": None, "instrument": "ALIA", "custom_psd": world.p2}

        def go(s):
            try:
                if how == "update":
                    s.sc_params.update(bad)
                elif how == "replace":
                    s.sc_params = bad
                else:
                    s.get_snr(n_step=3, **bad)
            except ValueError:
                return
            # (without interpolation nothing is computed yet, so only an SNR call can tell)
            ctx.expect(how != "snr" and not s.interpolate_sc, "rejected", "an unknown instrument was accepted by %s" % how)
        if how != "snr" and not world.interp[world.cur]:
            return False
        apply(world, ctx, go, dict(world.model[world.cur]), snr=how == "snr")
    return op


OPS = [
    ("interp off", interpolation(False)),
    ("interp on", interpolation(True)),
    ("rejected(update)", rejected("update")),
    ("rejected(replace)", rejected("replace")),
    ("rejected(snr)", rejected("snr")),
    ("t=2yr", change("item", t_obs=2 * u.yr)),
    ("t=auto", change("item", t_obs="auto")),
    ("tianqin", change("item", instrument="TianQin")),
    ("lisa(update)", change("update", instrument="LISA", confusion_noise="robson19")),
    ("decigo(kwargs)", change("kwargs", instrument="DECIGO", t_obs=730.5 * u.day)),
    ("custom(update)", change("update", instrument="custom", custom_psd="@p1")),
    ("custom2(pairs)", change("pairs", instrument="custom", custom_psd="@p2", L=2e9 * u.m)),
    ("cn=c1", change("item", confusion_noise="@c1")),
    ("cn=None(ior)", change("ior", confusion_noise=None)),
    ("L,R(ior)", change("ior", L=1e6 * u.km, approximate_R=True)),
    ("replace{}", change("replace")),
    ("replace{tq}", change("replace", instrument="TianQin", t_obs=5 * u.yr)),
    ("replace{p1,c1}", change("replace", instrument="custom", custom_psd="@p1", confusion_noise="@c1",
                              approximate_R=True)),
    ("setdefault", setdefault),
    ("same", same_again),
    ("snr()", change("snr")),
    ("snr(tq,1yr)", change("snr", instrument="TianQin", t_obs=1 * u.yr)),
    ("snr(p2)", change("snr", instrument="custom", custom_psd="@p2")),
    ("stat(R,c2)", change("stat", approximate_R=True, confusion_noise="@c2")),
    ("evol(L)", change("evol", L=2e9 * u.m, confusion_noise="huang20")),
    ("tol", tol),
    ("copy", derive("copy")),
    ("mask", derive("mask")),
    ("deepcopy", derive("deep")),
    ("copy.copy", derive("shallow")),
    ("new", derive("new")),
    ("file", derive("file")),
    ("swap", swap),
    ("share", share),
    ("L*0.99", nudge("L", 0.99, u.km, 2.5e6)),
    ("t*0.6", nudge("t_obs", 0.6, u.day, 1461)),
]


def canon(world):
    return (world.cur, tuple((n, tuple(sorted((k, kit.canon_setting(v)) for k, v in m.items())))
                             for n, m in sorted(world.model.items())))


def check(world, ctx):
    for n, s in world.real.items():
        m = world.model[n]
        got, want = kit.settings_of(s), {k: kit.canon_setting(v) for k, v in m.items()}
        ctx.expect(got == want, n + ".settings", lambda: "settings %r, expected %r" % (got, want))
        before = world.calls()
        if not world.interp[n]:
            ctx.expect(s.sc is None, n + ".curve", "a curve is held although interpolation is off")
        elif valid(m):
            want_sc = kit.noise_of(m)(kit.PROBE_F)
            have = s.sc(F).to(1 / u.Hz).value
            ctx.expect(kit.allclose(s.sc(F.to(u.mHz)).to(1 / u.Hz).value, have, 1e-9), n + ".curve", "the curve depends on the unit of the frequency")
            ok = np.isfinite(want_sc)
            ctx.expect(kit.allclose(have[ok], want_sc[ok], 3e-3) and np.all(have[~ok] > 1e20), n + ".curve",
                       lambda: "curve %r, expected %r for %r" % (have, want_sc, want))
            want_out, out = kit.noise_of(m)(OUT), s.sc(OUT * u.Hz).to(1 / u.Hz).value
            if m["instrument"] == "DECIGO":
                ctx.expect(kit.allclose(s.sc(HIGH * u.Hz).to(1 / u.Hz).value, kit.noise_of(m)(HIGH), 3e-3), n + ".high",
                           lambda: "curve %r at %r Hz, expected %r" % (s.sc(HIGH * u.Hz), HIGH, kit.noise_of(m)(HIGH)))
            ctx.expect(np.all((out > 1e6 * want_out) | (out > 1e20) | (np.abs(out - want_out) <= 0.05 * want_out)), n + ".outside",
                       lambda: "curve %r outside the interpolated range, the formulae give %r" % (out, want_out))
        ctx.expect(world.calls() == before, n + ".lazy", "reading the curve recomputed it")


def initial(kind):
    w = World()
    m = dict(DEFAULT)
    kw, interp = {}, True
    if kind == "custom":
        kw = {"instrument": "custom", "custom_psd": w.p1, "t_obs": 3 * u.yr}
    elif kind == "cn":
        kw = {"confusion_noise": w.c1, "approximate_R": True}
    elif kind == "tianqin":
        kw = {"instrument": "TianQin", "confusion_noise": None}
    elif kind == "nointerp":
        interp = False
    s = kit.build(SPEC, interpolate_sc=interp, sc_params=kw)
    m.update(kw)
    w.add("A", s, m, interp)
    if kind == "snr":
        s.get_snr(n_step=5)
        s.get_merger_time()
    if kind == "evolved":
        w.real.clear()
        w.add("A", s.evolve_sources(50 * u.yr, create_new_class=True), m, interp)
    return w


INITIAL = ["default", "custom", "cn", "tianqin", "nointerp", "snr", "evolved"]


def h_unit(kind, first, depth, ops):
    """every sequence starting with `first`"""
    def run(ctx):
        w = initial(kind)
        check(w, ctx)
        ctx.path = (first,)
        if dict(OPS)[first](w, ctx) is False:
            return
        ctx.transitions += 1
        histories(ctx, w, ops, check, depth - 1, canon)
    return run


VALUES = {"instrument": ["LISA", "TianQin", "DECIGO", "custom"],
          "t_obs": ["auto", 0.5 * u.yr, 1 * u.yr, 4 * u.yr, 10 * u.yr, 2000 * u.day],
          "L": ["auto", 2.5e9 * u.m, 1e6 * u.km],
          "approximate_R": [False, True],
          "confusion_noise": ["auto", None, "robson19", "huang20", "karnesis21", "@c1"]}


def grid_unit(how, ins):
    """every combination of settings reached in one step from another combination, by every route"""
    def run(ctx):
        w = initial("default")
        prev = None
        for combo in kit.product(t_obs=VALUES["t_obs"], confusion_noise=VALUES["confusion_noise"],
                                 L=VALUES["L"], approximate_R=VALUES["approximate_R"]):
            combo["instrument"] = ins
            if ins == "custom":
                combo["custom_psd"] = "@p1"
            ctx.path = (how, repr({k: str(v) for k, v in combo.items()}))
            change(how, **combo)(w, ctx)
            ctx.transitions += 1
            check(w, ctx)
            ctx.state(canon(w))
            ctx.traces += 1
        ctx.path = ()
    return run


CORE = ["t=2yr", "tianqin", "custom(update)", "custom2(pairs)", "cn=c1", "cn=None(ior)", "L,R(ior)", "replace{}",
        "replace{p1,c1}", "same", "snr()", "snr(tq,1yr)", "stat(R,c2)", "copy", "copy.copy", "mask", "new", "file", "swap"]


def units(tier):
    core = [(n, f) for n, f in OPS if n in CORE]
    for kind in INITIAL:
        for first, _ in OPS:
            if tier != "quick":
                yield "%s/%s" % (kind, first), h_unit(kind, first, 4 if kind == "default" else 3, OPS)
            elif kind == "default" and first in CORE:
                yield "%s/%s/3" % (kind, first), h_unit(kind, first, 3, core)
        if tier == "quick":
            for first, _ in OPS:
                yield "%s/%s" % (kind, first), h_unit(kind, first, 2, OPS)
    for ins in VALUES["instrument"]:
        for how in ("update", "replace", "ior"):
            # one setting at a time is covered by the histories; here several change in one request
            yield "grid/%s/%s" % (how, ins), grid_unit(how, ins)
