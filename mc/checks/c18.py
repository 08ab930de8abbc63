"""C18: the SNR estimators integrate signal over noise correctly in all four cases.

Every ordered array of 1-3 sources of a pool, every combination of observing time (straddling each source's merger), steps,
harmonics, noise settings (direct or interpolated), power factors, merger times given or not, input form and return option,
against sums and integrals computed independently in SI floats; scaling laws, additivity and agreement of the four cases on
the implementation alone; all call sequences.
"""
import itertools
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every ordered source array x observing time x steps x harmonics x noise setting x "
             "merger-time form x return option executed on the real estimators against an independent reference; all call sequences")
NOTE = ("Full products per estimator; every ordered array of 1-3 sources out of a pool equals the reference source by source; "
        "identities between the four estimators are evaluated on the implementation alone.")
BOUNDS = {"quick": "arrays of <= 3 of 4 sources, 12 sources on a settings lattice (12 noises x 3 times x 3 harmonics/steps x return options); "
                   "5 merger offsets; up to 3000 harmonics; sequences of 3 of 9",
          "thorough": "arrays of <= 4 of 5 sources; 40 sources; x 6 times; 9 merger offsets; sequences of 4 of 9"}
ASSUMPTIONS = ["the evolving integral is the trapezium rule over n_step equal time steps from 0 to the observing time, cut 1 s (circular) or "
               "0.1 yr (eccentric) before merger; convergence to the true integral is checked separately for many steps"]
T_BEFORE = 0.1 * ref.YR

# m1, m2, ecc, dist, f_orb
STAT = [(0.6, 0.4, 0.0, 1.0, 2e-3), (10.0, 8.0, 0.0, 8.0, 3e-4), (1.4, 1.2, 0.3, 3.0, 4e-4), (10.0, 5.0, 0.62, 6.0, 2e-4), (3.0, 2.0, 0.05, 0.5, 1e-3)]
EVOL = [(30.0, 20.0, 0.0, 50.0, 8e-3), (35.0, 30.0, 0.2, 100.0, 1.5e-2), (30.0, 30.0, 0.35, 40.0, 6e-3), (8.0, 7.0, 0.6, 10.0, 5e-3),
        (60.0, 20.0, 0.1, 70.0, 1e-2)]
COLS = {k: i for i, k in enumerate(("m1", "m2", "ecc", "dist", "f"))}


def setup(tier):
    kit.setup(interp_g=True)


# ---- noise settings ------------------------------------------------------------------------------------
class OwnCN:
    def plain(self, f, t):
        return 3e-41 * (1e-3 / f)**0.5 * (t / ref.YR)

    def __call__(self, f, t_obs):
        v = f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f)
        return self.plain(v, t_obs.to(u.s).value) / u.Hz


OWN_CN = OwnCN()
OWN_PSD = kit.CountingPSD("own")


def noises():
    """name -> (keyword arguments, noise(f, t) in SI)"""
    out = {}

    def add(name, kw, ins="LISA", L="auto", approx=False, cn="auto"):
        out[name] = (kw, lambda f, t: ref.psd(f, ins, t, L, approx, cn))
    add("default", {})
    add("L", dict(L=1e9 * u.m), L=1e9)
    add("approx", dict(approximate_R=True), approx=True)
    add("none", dict(confusion_noise=None), cn=None)
    add("robson", dict(confusion_noise="robson19", L=3e6 * u.km), cn="robson19", L=3e9)
    add("own cn", dict(confusion_noise=OWN_CN), cn=OWN_CN.plain)
    add("tianqin", dict(instrument="TianQin"), ins="TianQin")
    add("tianqin2", dict(instrument="TianQin", confusion_noise=None, L=2e8 * u.m), ins="TianQin", cn=None, L=2e8)
    add("decigo", dict(instrument="DECIGO"), ins="DECIGO")
    out["own psd"] = (dict(instrument="custom", custom_psd=OWN_PSD, L=2e9 * u.m, confusion_noise=None),
                      lambda f, t: OWN_PSD.plain(f, t, 2e9, False, None))
    out["interp"] = (dict(interpolated_sc=lambda f: 1e-40 * (1 + (2e-3 / f.to(u.Hz).value)**3) / u.Hz), lambda f, t: 1e-40 * (1 + (2e-3 / f)**3))
    out["interp over"] = (dict(interpolated_sc=lambda f: 1e-40 * (1 + (2e-3 / f.to(u.Hz).value)**3) / u.Hz, instrument="TianQin", L=1e9 * u.m,
                               confusion_noise=None), lambda f, t: 1e-40 * (1 + (2e-3 / f)**3))
    return out


GS = {"exact": (None, ref.g), "interp": (lambda n, e: 0.5 * ref.g(n, e) * np.ones(np.broadcast(n, e).shape), lambda n, e: 0.5 * ref.g(n, e)),
      "negative": (lambda n, e: np.where((n % 3) == 0, -1.0, 1.0) * ref.g(n, e), lambda n, e: np.where((n % 3) == 0, 0.0, 1.0) * ref.g(n, e))}


# ---- references -----------------------------------------------------------------------------------------
def t_merge(r):
    m1, m2, e, d, f = r
    return ref.t_merge(ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN), e, ref.beta(m1 * ref.MSUN, m2 * ref.MSUN))


def want_stat(r, t, ns, noise, g=ref.g, mod=1.0):
    mc = ref.chirp_mass(r[0], r[1]) * ref.MSUN
    return ref.snr2_stat(mc, r[4], r[2], r[3] * ref.KPC, t, np.asarray(ns), lambda f: noise(f, t), g, mod)


_TRACK = {}


def track(r, end, n_step):
    key = (r[0], r[1], r[2], r[4], end, n_step)
    if key not in _TRACK:
        m1, m2 = r[0] * ref.MSUN, r[1] * ref.MSUN
        a, ts = ref.a_of_f(r[4], m1, m2), np.linspace(0, end, n_step)
        if r[2] == 0:
            aa, es = ref.evolve_circ(a, ref.beta(m1, m2), ts), np.zeros(n_step)
        else:
            aa, es = ref.evolve_ecc(a, r[2], ref.beta(m1, m2), ts)
        _TRACK[key] = ref.f_of_a(aa, m1, m2), es
    return _TRACK[key]


def want_evol(r, t, n_step, ns, noise, g=ref.g, tm=None):
    tm = t_merge(r) if tm is None else tm
    fs, es = track(r, min(t, tm - (1.0 if r[2] == 0 else T_BEFORE)), n_step)
    return ref.snr2_evol(ref.chirp_mass(r[0], r[1]) * ref.MSUN, r[3] * ref.KPC, fs, es, ns, lambda f: noise(f, t), g)


# ---- calling --------------------------------------------------------------------------------------------
def cols(rows, form="array"):
    a = np.array(rows, float)
    m1, m2, e, d, f = a.T
    if form == "scalar":
        m1, m2, e, d, f = (float(x[0]) for x in (m1, m2, e, d, f))
    if form == "units":
        return (m1 * u.Msun).to(u.kg), (m2 * u.Msun).to(u.g), e, (d * u.kpc).to(u.m), (f * u.Hz).to(u.mHz)
    return m1 * u.Msun, m2 * u.Msun, e, d * u.kpc, f * u.Hz


def call(est, rows, t, form="array", **kw):
    S = kit.lw.snr
    m1, m2, e, d, f = cols(rows, form)
    t_obs = t * u.s if form != "units" else (t * u.s).to(u.yr)
    mc = kit.lw.utils.chirp_mass(m1, m2) if est.endswith("stationary") else None
    before = [np.array(x, copy=True) for x in (m1, m2, e, d, f)]
    if est == "circ_stationary":
        out = S.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=t_obs, **kw)
    elif est == "ecc_stationary":
        out = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=t_obs, **kw)
    elif est == "circ_evolving":
        out = S.snr_circ_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, t_obs=t_obs, **kw)
    else:
        out = S.snr_ecc_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, ecc=e, t_obs=t_obs, **kw)
    assert all(np.array_equal(np.array(x), b) for x, b in zip((m1, m2, e, d, f), before)), "the inputs were changed"
    return out


TOL = {"circ_stationary": 1e-9, "ecc_stationary": 1e-9, "circ_evolving": 1e-6, "ecc_evolving": 5e-4}


def compare(ctx, key, est, got, s2, ret=None):
    """got: what the call returned; s2: reference SNR^2 as (sources, harmonics)"""
    s2 = np.asarray(s2)
    ctx.evaluations += s2.size
    tol, snr = TOL[est], np.sqrt(s2.sum(axis=1))
    if ret == "by":
        ok = np.asarray(got).shape == s2.shape and kit.close(got, s2, 2 * tol, 2 * tol * s2.max(axis=1, keepdims=True)).all()
        return ctx.expect(ok and not isinstance(got, u.Quantity), key, lambda: "SNR^2 by harmonic %r, expected %r" % (np.asarray(got)[:, :6], s2[:, :6]))
    if ret == "max":
        got, mx = got
        best = s2[np.arange(len(s2)), np.clip(np.asarray(mx, int).reshape(-1) - 1, 0, s2.shape[1] - 1)] if np.size(mx) == len(s2) else None
        ctx.expect(best is not None and np.all(best >= s2.max(axis=1) * (1 - 4 * tol)) and np.all((np.asarray(mx) >= 1) & (np.asarray(mx) <= s2.shape[1])),
                   key, lambda: "loudest harmonic %r, expected %r" % (mx, s2.argmax(axis=1) + 1))
    ctx.expect(not isinstance(got, u.Quantity) and np.shape(got) == snr.shape, key, lambda: "gives %r, expected shape %s" % (got, snr.shape))
    return ctx.expect(np.size(got) == len(snr) and kit.close(np.asarray(got), snr, tol).all() and np.isfinite(got).all(), key,
                      lambda: "SNR %r, expected %r" % (got, snr))


RETS = {None: {}, "max": dict(ret_max_snr_harmonic=True), "by": dict(ret_snr2_by_harmonic=True)}


def lattice(part, tier):
    out = []
    k = tier == "thorough"
    for mc, f, e in itertools.product((0.5, 20.0) + ((3.0,) if k else ()), (3e-4, 2e-3) + ((8e-3, 3e-2) if k else ()), (0.0, 0.2, 0.7) + ((0.45, 0.9) if k else ())):
        out.append((mc * 1.3, mc * 0.8, e, mc**1.5, f))
    return out[part::4]


# ---- units ----------------------------------------------------------------------------------------------
def stationary(part, tier):
    """every source of the lattice x observing time x noise x power factor x harmonics x return option, in one array"""
    def run(ctx):
        rows = lattice(part, tier)
        circ = [r[:2] + (0.0,) + r[3:] for r in rows]
        ts = [x * ref.YR for x in ((1.0, 4.0, 0.3, 10.0, 2.0, 6.0) if tier == "thorough" else (1.0, 4.0, 0.3))]
        more = itertools.product([x * ref.YR for x in (1e-3, 0.02, 15.0, 40.0)], list(noises().items())[:2], GS.items())
        for t, (nn, (kw, noise)), (gn, (gi, gr)) in itertools.chain(itertools.product(ts, noises().items(), GS.items()), more):
            key = "circ.%g.%s.%s" % (t / ref.YR, nn, gn)
            with ctx.guard(key):
                got = call("circ_stationary", circ, t, interpolated_g=gi, **kw)
                compare(ctx, key, "circ_stationary", got, [want_stat(r, t, [2], noise, gr) for r in circ])
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
            for H in (1, 3, 60):
                s2 = np.array([want_stat(r, t, np.arange(1, H + 1), noise, gr) for r in rows])
                for ret, rkw in RETS.items():
                    key = "ecc.%g.%s.%s.%d.%s" % (t / ref.YR, nn, gn, H, ret)
                    with ctx.guard(key):
                        got = call("ecc_stationary", rows, t, harmonics_required=H, interpolated_g=gi, **rkw, **kw)
                        compare(ctx, key, "ecc_stationary", got, s2, ret)
                    ctx.transitions += 1
                    ctx.state(key)
    return run


def sky(tier):
    """stationary circular sources with sky positions: every position x angle, one at a time and together"""
    def run(ctx):
        lons, lats = np.linspace(0, 2 * np.pi, 7, endpoint=False), (-1.5, -0.6, 0.0, 0.4, 1.3)
        psis, incs = (0.0, 0.4, 1.1, 2.2), (0.0, 0.7, 1.3, np.pi / 2, 2.5)
        pts = list(itertools.product(lons, lats, psis, incs))
        r = STAT[1]
        t = 4 * ref.YR
        kw, noise = noises()["default"]
        lon, lat, psi, inc = np.array(pts).T
        rows = [r] * len(pts)
        mod = ref.modulation(lon, lat, psi, inc)
        s2 = np.array([want_stat(r, t, [2], noise)]) * mod[:, None]
        for form in ("array", "units"):
            with ctx.guard("sky." + form):
                pos = SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=r[3] * u.kpc, frame="barycentrictrueecliptic")
                p, i = (psi * u.rad, inc * u.rad) if form != "units" else ((psi * u.rad).to(u.deg), (inc * u.rad).to(u.deg))
                got = call("circ_stationary", rows, t, position=pos, polarisation=p, inclination=i)
                ok = kit.close(got, np.sqrt(s2[:, 0]), 1e-6, 1e-6 * np.sqrt(s2.max()))
                ctx.evaluations += len(pts)
                ctx.expect(np.shape(got) == (len(pts),) and ok.all(), "sky." + form, lambda: "SNR %r, expected %r" % (got[~ok][:3], np.sqrt(s2[:, 0])[~ok][:3]))
                if form != "array":
                    continue
                for k, x in enumerate(pts[::7]):
                    one = call("circ_stationary", [r], t, position=pos[7 * k:7 * k + 1], polarisation=p[7 * k:7 * k + 1], inclination=i[7 * k:7 * k + 1])
                    ctx.expect(kit.allclose(one, got[7 * k:7 * k + 1], 1e-12), "sky.alone", lambda: "alone %r, together %r" % (one, got[7 * k]))
                    ctx.transitions += 1
                    ctx.state(("sky", x))
            ctx.traces += 1
    return run


def evolving(est, part, tier):
    """every evolving source x observing time x noise x power factor x steps x harmonics x return option"""
    def run(ctx):
        rows = [r for r in EVOL + STAT if (r[2] == 0) == (est == "circ_evolving")]
        if est == "circ_evolving":
            rows += [(3.0, 2.0, 0.0, 0.5, 1e-2), (35.0, 30.0, 0.0, 100.0, 1.6e-2), (20.0, 10.0, 0.0, 30.0, 4e-2)]
        assert all(t_merge(r) > 0.05 * ref.YR for r in rows)
        rows = [r for r in rows if r[2] == 0 or t_merge(r) > 0.2 * ref.YR]
        ts = [x * ref.YR for x in ((4.0, 0.5, 10.0, 1.0) if tier == "thorough" else (4.0, 0.5))]
        combos = list(itertools.product(ts, noises().items(), GS.items(), (2, 5, 40) if est == "circ_evolving" else (2, 12)))
        # far shorter and far longer missions
        combos += list(itertools.product([x * ref.YR for x in (1e-3, 0.02, 2.0, 15.0, 40.0)], list(noises().items())[:2], list(GS.items())[:1],
                                         (3, 7)))
        for t, (nn, (kw, noise)), (gn, (gi, gr)), n_step in combos[part::4]:
            for H in ((None,) if est == "circ_evolving" else (2, 20)):
                s2 = np.array([want_evol(r, t, n_step, [2] if H is None else np.arange(1, H + 1), noise, gr) for r in rows])
                for ret, rkw in RETS.items():
                    if H is None and ret:
                        continue
                    key = "%s.%g.%s.%s.%d.%s.%s" % (est, t / ref.YR, nn, gn, n_step, H, ret)
                    hkw = {} if H is None else dict(harmonics_required=H)
                    with ctx.guard(key):
                        got = call(est, rows, t, n_step=n_step, interpolated_g=gi, **hkw, **rkw, **kw)
                        compare(ctx, key, est, got, s2, ret)
                    ctx.transitions += 1
                    ctx.state(key)
            ctx.traces += 1
    return run


def merging(est, tier):
    """observing times and given merger times on every side of each source's merger"""
    def run(ctx):
        rows = [r for r in EVOL if (r[2] == 0) == (est == "circ_evolving")]
        if est == "circ_evolving":
            rows += [(35.0, 30.0, 0.0, 100.0, 1.6e-2), (20.0, 10.0, 0.0, 30.0, 4e-2)]
        H = {} if est == "circ_evolving" else dict(harmonics_required=8)
        ns = [2] if not H else np.arange(1, 9)
        kw, noise = noises()["own cn"]                  # (depends on the observing time)
        cut = 1.0 if not H else T_BEFORE
        offs = (-cut * 3, -cut * 1.5, -cut / 2, 0.0, cut / 2, cut * 2) if tier == "quick" else tuple(cut * x for x in (-30, -8, -3, -1.5, -.5, -.1, 0, .3, 1, 5))
        for r in rows:
            tm = t_merge(r)
            for off, form, given, frac in itertools.product(offs, ("array", "scalar", "units"), ("no", "own", "early", "late"), (1.0, 0.5)):
                t = (tm + off) * frac
                g = {"no": None, "own": tm, "early": 0.6 * tm, "late": 1.4 * tm}[given]
                if given == "late" and t > tm - cut:
                    continue                                    # asks for the orbit beyond its merger
                key = "%s.%g.%g.%s.%s.%g" % (est, r[4], off, form, given, frac)
                a = {}
                if g is not None:
                    q = g * u.s if form != "units" else (g * u.s).to(u.Myr)
                    a["t_merge"] = q if form == "scalar" else np.array([q.value]) * q.unit
                with ctx.guard(key):
                    got = call(est, [r], t, form, n_step=7, **a, **H, **kw)
                    compare(ctx, key, est, np.reshape(got, -1), [want_evol(r, t, 7, ns, noise, tm=g)])
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
        # nothing is left to integrate within the last second
        if est == "circ_evolving":
            last = [(1e6, 1e6, 0.0, 1e5, 0.02), (1e6, 2e6, 0.0, 1e5, 0.018), (1e4, 2e4, 0.0, 1e5, 0.7)]
            both = last + rows
            for mask in itertools.product((False, True), repeat=len(both)):
                if not any(mask[:len(last)]) or (tier == "quick" and sum(mask) > 3):
                    continue
                sub = [r for r, x in zip(both, mask) if x]
                for g in (False, True):
                    key = "%s.last.%s.%d" % (est, "".join("%d" % x for x in mask), g)
                    with ctx.guard(key):
                        a = {"t_merge": np.array([0.3 if r in last else t_merge(r) for r in sub]) * u.s} if g else {}
                        got = call(est, sub, 4 * ref.YR, n_step=7, **a, **kw)
                        compare(ctx, key, est, got, [[0.0] if r in last else want_evol(r, 4 * ref.YR, 7, ns, noise) for r in sub])
                    ctx.transitions += 1
                    ctx.state(key)
        # every mixture of given merger times
        for fr in itertools.product((1.0, 0.7), repeat=len(rows)):
            tm = np.array([t_merge(r) for r in rows]) * fr
            key = "%s.mix.%s" % (est, fr)
            with ctx.guard(key):
                got = call(est, rows, 4 * ref.YR, n_step=7, t_merge=tm * u.s, **H, **kw)
                compare(ctx, key, est, got, [want_evol(r, 4 * ref.YR, 7, ns, noise, tm=x) for r, x in zip(rows, tm)])
            ctx.transitions += 1
            ctx.state(key)
    return run


def arrays(est, tier):
    """every ordered array of sources, repetitions included: each source as the reference, and in every input form"""
    def run(ctx):
        pool = {"circ_stationary": [r[:2] + (0.0,) + r[3:] for r in STAT], "ecc_stationary": STAT, "ecc_evolving": [EVOL[i] for i in (1, 2, 3, 4)] + [STAT[3]],
                "circ_evolving": [EVOL[0], (35.0, 30.0, 0.0, 100.0, 1.6e-2), STAT[1], (20.0, 10.0, 0.0, 30.0, 4e-2), STAT[0]]}[est]
        pool = pool[:5 if tier == "thorough" else 4]
        t = 4 * ref.YR
        kw, noise = noises()["L"]
        kw, ns = dict(kw), [2]
        if est.startswith("ecc"):
            kw["harmonics_required"], ns = 10, np.arange(1, 11)
        if est.endswith("evolving"):
            kw["n_step"] = 9
            each = [want_evol(r, t, 9, ns, noise) for r in pool]
        else:
            each = [want_stat(r, t, ns, noise) for r in pool]
        n_max = 4 if tier == "thorough" else 3
        for n in range(1, n_max + 1):
            for idx in itertools.product(range(len(pool)), repeat=n):
                for form in ("array", "units") + (("scalar",) if n == 1 else ()):
                    for ret, rkw in RETS.items():
                        if ret and est.startswith("circ"):
                            continue
                        key = "%s.%s.%s.%s" % (est, idx, form, ret)
                        with ctx.guard(key):
                            got = call(est, [pool[i] for i in idx], t, form, **rkw, **kw)
                            if form == "scalar" and ret is None:
                                got = np.reshape(got, -1)
                            compare(ctx, key, est, got, [each[i] for i in idx], ret)
                        ctx.transitions += 1
                ctx.traces += 1
                ctx.state((est, idx))
    return run


def many(est):
    """thousands of harmonics"""
    def run(ctx):
        rows = [(0.6, 0.5, 0.97, 1.0, 2e-6), (20.0, 10.0, 0.9, 8.0, 3e-5)]
        t = 4 * ref.YR
        kw, noise = noises()["none"]
        for H in (100, 1001, 3000):
            ns = np.arange(1, H + 1)
            ex = {"n_step": 3} if est == "ecc_evolving" else {}
            s2 = [want_evol(r, t, 3, ns, noise) if ex else want_stat(r, t, ns, noise) for r in rows]
            for ret, rkw in RETS.items():
                key = "%s.many.%d.%s" % (est, H, ret)
                with ctx.guard(key):
                    compare(ctx, key, est, call(est, rows, t, harmonics_required=H, **ex, **rkw, **kw), s2, ret)
                ctx.transitions += 1
                ctx.state(key)
        ctx.traces += 1
    return run


def processes(ctx):
    """several processes give what one gives"""
    rows = [EVOL[1], EVOL[2], EVOL[3]]
    kw = dict(harmonics_required=10, n_step=9)
    with ctx.guard("one"):
        one = call("ecc_evolving", rows, 4 * ref.YR, **kw)
        for n in (2, 3):
            got = call("ecc_evolving", rows, 4 * ref.YR, n_proc=n, **kw)
            ctx.expect(kit.allclose(got, one, 1e-12), "processes.%d" % n, lambda: "%r with %d processes, %r with one" % (got, n, one))
            ctx.transitions += 1
            ctx.state(("processes", n))
        ctx.traces += 1


def laws(tier):
    """what the estimators must satisfy among themselves"""
    def run(ctx):
        YR = ref.YR
        flat = lambda f: 1e-40 * (1 + (2e-3 / f.to(u.Hz).value)**2) / u.Hz
        ests = {"circ_stationary": ([r[:2] + (0.0,) + r[3:] for r in STAT], {}), "ecc_stationary": (STAT, dict(harmonics_required=40)),
                "circ_evolving": ([EVOL[0], STAT[1], (35.0, 30.0, 0.0, 100.0, 1.6e-2)], dict(n_step=20)),
                "ecc_evolving": (EVOL[1:4], dict(harmonics_required=20, n_step=20))}
        for est, (rows, kw) in ests.items():
            base = call(est, rows, 4 * YR, **kw)
            for k in (0.1, 0.5, 3.0, 1e4):
                with ctx.guard(est + ".distance"):
                    got = call(est, [r[:3] + (r[3] * k, r[4]) for r in rows], 4 * YR, **kw)
                    ctx.expect(kit.allclose(got * k, base, 1e-9), est + ".distance", lambda: "at %g times the distance %r, before %r" % (k, got, base))
                ctx.transitions += 1
            last = None
            for t in (0.25, 0.5, 1, 2, 3, 4, 6, 8, 10):
                with ctx.guard(est + ".time"):
                    k2 = dict(kw, interpolated_sc=flat, **({"n_step": 400} if "n_step" in kw else {}))
                    got = call(est, rows, t * YR, **k2)
                    ctx.expect(last is None or np.all(got >= last * (1 - 5e-3)), est + ".time", lambda: "SNR falls with observing time: %r, %r" % (last, got))
                    if est.endswith("stationary"):
                        ctx.expect(kit.allclose(got, call(est, rows, YR, **k2) * np.sqrt(t), 1e-9), est + ".time", "SNR is not proportional to sqrt(time)")
                    last = got
                ctx.transitions += 1
            # the noise: k times the noise is 1 / sqrt(k) of the SNR
            with ctx.guard(est + ".noise"):
                a, b = (call(est, rows, 4 * YR, interpolated_sc=(lambda f, k=k: k * flat(f)), **kw) for k in (1.0, 16.0))
                ctx.expect(kit.allclose(a, 4 * b, 1e-9), est + ".noise", lambda: "%r, %r with 16 times the noise" % (a, b))
            # interpolated noise equal to the direct one gives the direct answer
            for t in (1 * YR, 4 * YR):
                with ctx.guard(est + ".interpolated"):
                    a = call(est, rows, t, **kw)
                    b = call(est, rows, t, interpolated_sc=lambda f: kit.lw.psd.power_spectral_density(f, t_obs=t * u.s), **kw)
                    ctx.expect(kit.allclose(a, b, 1e-12), est + ".interpolated", lambda: "direct %r, interpolated %r" % (a, b))
                ctx.transitions += 2
            if "harmonics_required" in kw:
                with ctx.guard(est + ".harmonics"):
                    full = call(est, rows, 4 * YR, ret_snr2_by_harmonic=True, **kw)
                    s, mx = call(est, rows, 4 * YR, ret_max_snr_harmonic=True, **kw)
                    ctx.expect(kit.allclose(full.sum(axis=1), s**2, 1e-12), est + ".harmonics", "per-harmonic SNR^2 does not sum to the total")
                    ctx.expect(np.array_equal(full.argmax(axis=1) + 1, mx), est + ".harmonics", "loudest harmonic is not the largest contribution")
                    ctx.expect(np.all(full >= 0), est + ".harmonics", "negative contribution")
                    for H in range(1, 15):
                        part = call(est, rows, 4 * YR, ret_snr2_by_harmonic=True, **dict(kw, harmonics_required=H))
                        ctx.expect(kit.allclose(part, full[:, :H], 1e-9, 1e-12 * full.max()), est + ".harmonics", "first %d harmonics differ" % H)
                        ctx.transitions += 1
                        ctx.state((est, "H", H))
            ctx.traces += 5
            ctx.state((est, "laws"))
        # the spline built by a collection is close to the exact power factors
        src = kit.build(kit.Spec.of("es"), interpolate_g=True)
        for est, (rows, kw) in ests.items():
            with ctx.guard(est + ".spline"):
                a, b = call(est, rows, 4 * YR, **kw), call(est, rows, 4 * YR, interpolated_g=src.g, **kw)
                ctx.expect(kit.allclose(a, b, 5e-3), est + ".spline", lambda: "exact %r, spline %r" % (a, b))
            ctx.transitions += 2
    return run


def joins(tier):
    """the four cases agree where their domains meet"""
    def run(ctx):
        YR = ref.YR
        slow = [(m * 1.2, m * 0.9, 0.0, 1.0, f) for m, f in itertools.product((0.3, 1.0, 5.0), (2e-4, 1e-3, 3e-3))
                if ref.f_circ_later(f, ref.chirp_mass(m * 1.2, m * .9) * ref.MSUN, 4 * YR) / f - 1 < 1e-3]
        for kw in ({}, dict(instrument="TianQin"), dict(confusion_noise=None, L=1e9 * u.m), dict(t=YR)):
            kw = dict(kw)
            t = kw.pop("t", 4 * YR)
            name = str(sorted(kw))
            with ctx.guard("joins." + name):
                a = call("circ_stationary", slow, t, **kw)
                for H in (2, 3, 10):
                    b = call("ecc_stationary", slow, t, harmonics_required=H, **kw)
                    ctx.expect(kit.allclose(a, b, 1e-9), "joins.e=0.%s" % name, lambda: "circular %r, eccentric estimator at e=0 %r" % (a, b))
                for n in (2, 5, 100):
                    b = call("circ_evolving", slow, t, n_step=n, **kw)
                    ctx.expect(kit.allclose(a, b, 2e-3), "joins.slow.%s.%d" % (name, n), lambda: "stationary %r, evolving %r" % (a, b))
                for e in (0.01, 0.2, 0.5, 0.75):
                    rows = [r[:2] + (e,) + r[3:] for r in slow]
                    keep = [r for r in rows if ref.f_circ_later(r[4], ref.chirp_mass(r[0], r[1]) * ref.MSUN, t, e) / r[4] - 1 < 2e-3]
                    a1, mx1 = call("ecc_stationary", keep, t, harmonics_required=40, ret_max_snr_harmonic=True, **kw)
                    b1, mx2 = call("ecc_evolving", keep, t, harmonics_required=40, n_step=4, ret_max_snr_harmonic=True, **kw)
                    ctx.expect(kit.allclose(a1, b1, 5e-3), "joins.slow.e=%g.%s" % (e, name), lambda: "stationary %r, evolving %r" % (a1, b1))
                    ctx.transitions += 2
                    ctx.state((name, e))
            fast = [r[:2] + (0.0,) + r[3:] for r in EVOL] + [(3.0, 2.0, 0.0, 0.5, 1e-2)]
            with ctx.guard("joins.small e." + name):
                tm = np.array([t_merge(r) for r in fast])
                far = [r for r, x in zip(fast, tm) if x > 1.5 * t]
                a = call("circ_evolving", far, t, n_step=200, **kw)
                b = call("ecc_evolving", [r[:2] + (1e-4,) + r[3:] for r in far], t, n_step=200, harmonics_required=3, **kw)
                ctx.expect(kit.allclose(a, b, 1e-3), "joins.small e." + name, lambda: "circular %r, e=1e-4 %r" % (a, b))
                # many steps: the integral itself
                for r, x in zip(far, a):
                    f1, f2 = r[4], float(ref.f_circ_later(r[4], ref.chirp_mass(r[0], r[1]) * ref.MSUN, t))
                    fs = np.linspace(f1, f2, 6000)
                    noise = lambda f: ref.psd(f, kw.get("instrument", "LISA"), t, kw["L"].to(u.m).value if "L" in kw else "auto", False, kw.get("confusion_noise", "auto"))
                    w = ref.snr2_evol(ref.chirp_mass(r[0], r[1]) * ref.MSUN, r[3] * ref.KPC, fs, 0 * fs, [2], noise)[0]**0.5
                    ctx.expect(abs(x / w - 1) < 2e-3, "joins.integral." + name, lambda: "SNR %r, integral %r" % (x, w))
            ctx.transitions += 6
            ctx.traces += 2
            ctx.state(name)
    return run


def seq_unit(tier):
    def run(ctx):
        t = 4 * ref.YR
        c, e = [STAT[0], STAT[1]], [STAT[2], STAT[3]]
        tm = np.array([t_merge(EVOL[1])]) * u.s
        calls = {"cs": lambda: call("circ_stationary", c, t), "es": lambda: call("ecc_stationary", e, t, harmonics_required=5),
                 "esm": lambda: call("ecc_stationary", e[:1], t, harmonics_required=9, ret_max_snr_harmonic=True),
                 "ce": lambda: call("circ_evolving", [EVOL[0]], t, n_step=4), "ee": lambda: call("ecc_evolving", EVOL[1:3], t, n_step=4, harmonics_required=5),
                 "eet": lambda: call("ecc_evolving", EVOL[1:2], t, n_step=4, harmonics_required=5, t_merge=tm, ret_snr2_by_harmonic=True),
                 "tq": lambda: call("circ_stationary", c, 5 * ref.YR, instrument="TianQin"), "csL": lambda: call("circ_stationary", c, t, L=1e9 * u.m),
                 "sc": lambda: call("ecc_stationary", e, t, harmonics_required=5, interpolated_sc=lambda f: 1e-40 * np.ones(f.shape) / u.Hz)}
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    for i in range(4):
        yield "stationary/%d" % i, stationary(i, tier)
        for est in ("circ_evolving", "ecc_evolving"):
            yield "evolving/%s/%d" % (est, i), evolving(est, i, tier)
    yield "sky", sky(tier)
    for est in ("circ_evolving", "ecc_evolving"):
        yield "merging/" + est, merging(est, tier)
    for est in TOL:
        yield "arrays/" + est, arrays(est, tier)
    for est in ("ecc_stationary", "ecc_evolving"):
        yield "many/" + est, many(est)
    yield "processes", processes
    yield "laws", laws(tier)
    yield "joins", joins(tier)
    yield "sequences", seq_unit(tier)
