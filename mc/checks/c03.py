"""C03: selecting sources yields exactly those sources, independent of the original.

Every selector of a bounded family (all integers, all slices over a start/stop/step grid, all lists of length <= 2,
all permutations of length 3, all boolean masks, in every container type), on collections in every stage of life,
nested up to three deep, against the abstract model "take these rows".  Then every mutation of either side in a
forked branch (the other side must not move), and every calculation on the selection against the selected results.
"""
import copy
import itertools
import numpy as np
from astropy import units as u

from .. import kit
from ..explore import in_child

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: every selector (nested up to depth 3) in every life stage against an abstract "
             "row model; every mutation of either side in forked branches")
NOTE = ("All selectors of the bounded family on 5 sources; all per-source arrays and settings compared exactly with the "
        "abstract selection, originals compared bit by bit, mutations of either side explored in forked branches.")
BOUNDS = {"quick": "5 sources; 10 ints x 2 types, 180 slices, 110 lists/arrays, 60 permutations, 64 masks in 8 stages; all "
                   "pairs of 16 selectors and triples of 6; 20 mutations x 2 sides x (4 selectors, deep copies) x 5 stages",
          "thorough": "as quick with all triples of 16 selectors, mutations for 16 selectors in all stages"}
N = 5


def setup(tier):
    kit.setup()


STAGES = {}


def stage(fn):
    STAGES[fn.__name__] = fn
    return fn


def base(names=("cs", "es", "ce", "cm", "ee"), **kw):
    spec = kit.Spec.of(*names, weights=[1.0, 2.5, 3.0, 0.5, 7.0])
    return kit.build(spec, **kw)


@stage
def fresh():
    return base()


@stage
def snr():
    s = base(stat_tol=0.03125, gw_lum_tol=0.0217)
    s.get_snr(n_step=5)
    return s


@stage
def merger():
    s = base(interpolate_sc=False, n_proc=4)
    s.get_merger_time()
    return s


@stage
def evolved():
    s = base(sc_params={"instrument": "TianQin", "t_obs": 3 * u.yr, "confusion_noise": None})
    s.get_snr(n_step=5)
    s.evolve_sources(1.5 * u.yr)
    s.get_snr(n_step=5)
    return s


@stage
def newclass():
    return base().evolve_sources(1.5 * u.yr, create_new_class=True)


@stage
def sky():
    spec = kit.Spec.of("cs", "cs2", "ce", "cm", "cs", sky=kit.SKY[:5], weights=[3, 1, 4, 1, 5])
    s = kit.build(spec, interpolate_sc=False)
    s.get_snr(n_step=5)
    s.get_merger_time()
    return s


@stage
def stationary():
    s = base(cls="Stationary", sc_params={"instrument": "custom", "custom_psd": kit.CountingPSD("p1")})
    s.get_snr()
    return s


@stage
def evolving():
    s = kit.build(kit.Spec.of("ce", "ee", "cm", "ce", "em"), cls="Evolving")
    s.get_snr(n_step=5)
    s.get_merger_time()
    s.max_snr_harmonic = list(s.max_snr_harmonic)       # a plain list, as a user may set
    return s


def ints():
    for i in range(-N, N):
        yield "int(%d)" % i, i, [i]
    for i in (-N, -1, 0, 3):
        yield "np.int64(%d)" % i, np.int64(i), [i]
        yield "np.int8(%d)" % i, np.int8(i), [i]
    yield "np.uint8(2)", np.uint8(2), [2]


def slices():
    for a in (None, -7, -2, 0, 1, 3):
        for b in (None, -1, 0, 2, 4, 9):
            for c in (None, 1, 2, -1, -3):
                yield "[%s:%s:%s]" % (a, b, c), slice(a, b, c), list(range(N))[slice(a, b, c)]


def lists():
    idx = range(-N, N)
    yield "[]", [], []
    yield "int[]", np.array([], dtype=int), []
    for i in idx:
        yield "[%d]" % i, [i], [i]
    for i, j in itertools.product(idx, (-2, 0, 1, 4)):
        yield "[%d,%d]" % (i, j), [i, j], [i, j]
        yield "array(%d,%d)" % (i, j), np.array([i, j]), [i, j]
    for p in itertools.permutations(range(N), 3):
        yield "perm%s" % (p,), np.array(p), list(p)
    for dt in ("int8", "uint16", "int32", "uint64"):
        yield "%s[4,1,1,0,3,2]" % dt, np.array([4, 1, 1, 0, 3, 2], dtype=dt), [4, 1, 1, 0, 3, 2]
        for p in ([4, 1, 0, 3, 2], [1, 1, 0, 1, 0], [0, 0, 0, 0, 1]):
            yield "%s%s" % (dt, p), np.array(p, dtype=dt), p
    for p in ([4, 1, 0, 3, 2], [1, 1, 0, 1, 0]):
        for dt in ("uint8", "int16", "uint32"):
            yield "%s%s" % (dt, p), np.array(p, dtype=dt), p
    yield "[np.int64]", [np.int64(3), np.int64(0)], [3, 0]


def masks():
    for m in itertools.product((False, True), repeat=N):
        idx = [i for i, x in enumerate(m) if x]
        yield "mask%s" % "".join("01"[x] for x in m), np.array(m), idx
        yield "lmask%s" % "".join("01"[x] for x in m), list(m), idx


def selectors():
    return itertools.chain(ints(), slices(), lists(), masks())


def expected(o, idx):
    """the abstract selection"""
    e = dict(o)
    idx = np.array(idx, dtype=int)
    for k in kit.PER_SOURCE + ("m_c", "a"):
        if o[k] is not None:
            e[k] = o[k][idx]
    e["n_sources"] = e["len"] = len(idx)
    return e


def compare(ctx, key, got, want):
    bad = kit.diff(want, got)
    ctx.expect(not bad, key, lambda: "differs in %s\n got %s\n expected %s" % (
        bad, kit.show(got, bad), kit.show(want, bad)))


COPIES = [("copy", lambda s: s.copy()), ("copy.deepcopy", copy.deepcopy), ("copy.copy", copy.copy)]


def select_unit(name):
    def run(ctx):
        s = STAGES[name]()
        o = kit.observe(s)
        ctx.state(name)
        for label, sel, idx in selectors():
            with ctx.guard(label):
                keep = sel.copy() if isinstance(sel, (np.ndarray, list)) else sel
                t = s[sel]
                ctx.transitions += 1
                compare(ctx, label, kit.observe(t, curves=len(idx) in (1, 3)), {
                    k: v for k, v in expected(o, idx).items()
                    if len(idx) in (1, 3) or k not in ("harmonics", "peak", "sc", "g")})
                ctx.expect(kit.same(np.asarray(keep), np.asarray(sel)) if not isinstance(sel, slice) else True,
                           label + ".selector", "the selector was modified")
                ctx.state((name, label))
        for label, how in COPIES:
            compare(ctx, label, kit.observe(how(s)), o)
        compare(ctx, "original", kit.observe(s), o)
        ctx.traces += 1
    return run


NEST = [("0", lambda n: 0), ("-1", lambda n: -1), ("mid", lambda n: n // 2), ("all", lambda n: slice(None)),
        ("rev", lambda n: slice(None, None, -1)), ("tail", lambda n: slice(1, None)), ("every2", lambda n: slice(0, n, 2)),
        ("list", lambda n: [n - 1, 0]), ("array", lambda n: np.arange(n)[::-1]), ("dup", lambda n: [0, 0, n - 1]),
        ("mask", lambda n: np.arange(n) % 2 == 0), ("lmask", lambda n: [i != 0 for i in range(n)]),
        ("rot", lambda n: np.roll(np.arange(n), 1)), ("neg", lambda n: np.array([-1, -n])),
        ("none", lambda n: np.zeros(n, bool)), ("every", lambda n: np.ones(n, bool))]
NEST3 = ("-1", "rev", "dup", "mask", "lmask", "rot")


def nest_unit(name, depth, allowed):
    def run(ctx):
        s = STAGES[name]()
        o = kit.observe(s)

        def go(t, want, path, level):
            for label, f in NEST:
                n = t.n_sources
                if n == 0 or (level >= 2 and label not in allowed):
                    continue
                sel = f(n)
                idx = np.arange(n)[sel]
                idx = [int(i) for i in np.atleast_1d(idx)]
                with ctx.guard(path + (label,)):
                    t2 = t[sel]
                    w2 = expected(want, idx)
                    ctx.transitions += 1
                    compare(ctx, path + (label,), kit.observe(t2, curves=False),
                            {k: v for k, v in w2.items() if k not in ("harmonics", "peak", "sc", "g")})
                    ctx.state((name, tuple(w2["m_1"]), tuple(w2["f_orb"])))
                    if level + 1 < depth:
                        go(t2, w2, path + (label,), level + 1)
                    else:
                        ctx.traces += 1
                compare(ctx, path + (label, "parent"), kit.observe(t, curves=False),
                        {k: v for k, v in want.items() if k not in ("harmonics", "peak", "sc", "g")})
        go(s, o, (), 0)
        compare(ctx, "original", kit.observe(s), o)
    return run


# ---- independence ---------------------------------------------------------------------------------------
def poke(name):
    def op(s):
        a = getattr(s, name)
        if a is None or isinstance(a, list):
            return False
        if a.dtype == bool:
            a[...] = ~a
        else:
            a[...] = a * 2 + (1 * a.unit if isinstance(a, u.Quantity) else 1)
    return op


def setting(**kw):
    return lambda s: s.sc_params.update(kw)


def sub_snr(s):
    if type(s).__name__ != "Source":
        return False
    s.get_snr(n_step=4, instrument="TianQin", which_sources=np.arange(s.n_sources) == 0)


MUTATIONS = [(n, poke(n)) for n in ("m_1", "m_2", "ecc", "dist", "f_orb", "weights", "snr", "max_snr_harmonic", "merged",
                                    "t_merge", "inclination", "polarisation")] + [
    ("instrument", setting(instrument="DECIGO", t_obs=2 * u.yr)),
    ("replace", lambda s: setattr(s, "sc_params", {"instrument": "TianQin", "t_obs": 9 * u.yr, "L": 1e9 * u.m})),
    ("snr", lambda s: s.get_snr(t_obs=7 * u.yr, instrument="LISA")),
    ("snr[0]", sub_snr),
    ("stat", lambda s: s.get_snr_stationary(approximate_R=True, instrument="LISA")),
    ("merger", lambda s: s.get_merger_time(exact=False)),
    ("evolve", lambda s: s.evolve_sources(0.9 * u.yr)),
    ("tol", lambda s: setattr(s, "gw_lum_tol", 0.3)),
    ("stat_tol", lambda s: (setattr(s, "stat_tol", 0.5), setattr(s, "n_proc", 2))),
    ("a", lambda s: setattr(s, "a", s.a * 3)),
]


def mutate_unit(name, sel_name):
    def run(ctx):
        s = STAGES[name]()
        t = copy.deepcopy(s) if sel_name == "deepcopy" else s[dict(NEST)[sel_name](s.n_sources)]
        for who, (target, other) in (("selection", (t, s)), ("original", (s, t))):
            for label, op in MUTATIONS:
                def branch(c, label=label, op=op, target=target, other=other, who=who):
                    before = kit.observe(other)
                    mine = kit.observe(target)
                    if target.n_sources == 0 or op(target) is False:
                        return
                    c.transitions += 1
                    c.traces += 1
                    compare(c, "%s of %s" % (label, who), kit.observe(other), before)
                    c.state((name, sel_name, label, who))
                    c.expect(bool(kit.diff(mine, kit.observe(target))) or label in ("merger", "stat", "snr", "snr[0]"),
                             "%s of %s had no effect" % (label, who), "")
                in_child(ctx, branch)
    return run


# ---- results commute ------------------------------------------------------------------------------------
def evolved_new(s):
    if s.t_merge is None:
        s.get_merger_time()
    e = s.evolve_sources(0.9 * u.yr, create_new_class=True)
    return np.array([e.f_orb.value, e.ecc, e.merged, e.dist.value]).T


def recorded(s):
    s.get_snr(**({} if type(s).__name__ == "Stationary" else {"n_step": 5}))
    return np.array([s.snr, np.where(s.merged, 0, s.max_snr_harmonic)]).T


RESULTS = [
    ("snr", recorded),
    ("stat", lambda s: s.get_snr_stationary()),
    ("evol", lambda s: s.get_snr_evolving(n_step=5)),
    ("h0", lambda s: s.get_h_0_n([1, 2, 3, 7])),
    ("hc", lambda s: s.get_h_c_n([2, 5])),
    ("circ", lambda s: s.get_source_mask(circular=True)),
    ("stationary", lambda s: s.get_source_mask(stationary=True)),
    ("t_merge", lambda s: s.get_merger_time().to(u.yr).value),
    ("evolve", evolved_new),
]


def result_unit(name):
    def run(ctx):
        s = STAGES[name]()
        for rname, fn in RESULTS:
            def outer(c, rname=rname, fn=fn):
                parts = {}
                for label, f in NEST:
                    idx = np.atleast_1d(np.arange(N)[f(N)])
                    if len(idx) == 0:
                        continue
                    t = s[f(N)]
                    parts[label] = (idx, np.array(fn(t)))
                    c.transitions += 1
                whole = np.array(fn(s))
                for label, (idx, part) in parts.items():
                    c.expect(kit.allclose(part.astype(float), whole[idx].astype(float), 1e-6), "%s of %s" % (rname, label),
                             lambda: "on the selection %r, selected from the whole %r" % (part, whole[idx]))
                c.traces += 1
                c.state((name, rname))
            in_child(ctx, outer)
    return run


def units(tier):
    for name in STAGES:
        yield "select/" + name, select_unit(name)
        yield "results/" + name, result_unit(name)
        yield "nest2/" + name, nest_unit(name, 2, ())
    for name in ("evolved", "sky", "evolving", "stationary"):
        yield "nest3/" + name, nest_unit(name, 3, NEST3 if tier == "quick" else [n for n, _ in NEST])
    for name in STAGES:
        for sel in [n for n, _ in NEST] + ["deepcopy"]:
            if tier == "quick" and (name in ("fresh", "merger", "stationary") or sel not in ("all", "every", "0", "rev", "deepcopy")):
                continue
            yield "mutate/%s/%s" % (name, sel), mutate_unit(name, sel)
