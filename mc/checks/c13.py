"""C13: orbital evolution follows the decay equations at every requested time.

Every binary of a lattice x every way of giving it x every way of giving the times x every ordered selection of output
quantities, on single sources and arrays; every cut-off position relative to every pattern of timesteps when merger is
avoided.  Oracle: independent integration of Peters' equations (DOP853 in ln e), and the documented bookkeeping.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every combination of binary, input form, time form, output order and cut-off "
             "position executed on the real functions against independently integrated decay equations; all call sequences")
NOTE = ("All ordered output selections (325 + 64), all time forms x input forms, every cut-off position between and on the "
        "timesteps for every source of an array; all sequences of 3 calls.")
BOUNDS = {"quick": "5 binaries x 8 e x 6 time spans; 325 output orders; 4 step patterns x all cut-off positions x 5 sources",
          "thorough": "7 binaries x 20 e x 12 time spans, longer step patterns, call sequences of 4"}
BIN = [(0.6, 0.4, 2e-4), (1.4, 1.3, 1e-3), (10.0, 5.0, 3e-5), (30.0, 30.0, 6e-3), (1e5, 300.0, 1e-5), (35.0, 10.0, 1e-2), (0.1, 0.05, 5e-3)]
ECC = (0.01, 0.1, 0.15, 0.3, 0.5, 0.7, 0.9, 0.99)
VARS_C = ("timesteps", "a", "f_orb", "f_GW")
VARS_E = ("ecc", "timesteps", "a", "f_orb", "f_GW")


def setup(tier):
    kit.setup()


def orbit(b):
    m1, m2, f = (np.asarray(x, float) for x in b)
    return ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN), ref.beta(m1 * ref.MSUN, m2 * ref.MSUN)


def forms(m1, m2, f):
    a, b = orbit((m1, m2, f))
    M1, M2, A, B = m1 * u.Msun, m2 * u.Msun, a * u.m, b * u.m**4 / u.s
    return {"m,f": dict(m_1=M1, m_2=M2, f_orb_i=f * u.Hz), "m,a": dict(m_1=M1, m_2=M2, a_i=A),
            "b,a+m": dict(beta=B, a_i=A, m_1=M1, m_2=M2), "b,a": dict(beta=B, a_i=A),
            "a over f": dict(m_1=M1, m_2=M2, a_i=A, f_orb_i=3 * f * u.Hz)}


def columns(b, e, ts):
    """reference columns at times ts [s] for one binary"""
    a, bt = orbit(b)
    if e == 0:
        A, E = ref.evolve_circ(a, bt, ts), np.zeros(len(ts))
    else:
        A, E = ref.evolve_ecc(a, e, bt, ts)
    with np.errstate(divide="ignore"):
        f = np.where(A > 0, ref.f_of_a(np.where(A > 0, A, 1.0), b[0] * ref.MSUN, b[1] * ref.MSUN), 100.0)
    return {"timesteps": np.asarray(ts) / ref.YR, "a": A / ref.AU, "ecc": E, "f_orb": f, "f_GW": 2 * f}


UNIT = {"timesteps": u.yr, "a": u.AU, "f_orb": u.Hz, "f_GW": u.Hz, "ecc": None}


def compare(ctx, key, got, var, want, tol, atol=0.0):
    ctx.evaluations += np.size(want)
    un = UNIT[var]
    if un is not None:
        if not ctx.expect(isinstance(got, u.Quantity) and got.unit == un, key, lambda: "%s not in %s: %r" % (var, un, got)):
            return
        got = got.value
    got = np.asarray(got)
    if not ctx.expect(got.shape == want.shape, key, lambda: "%s has shape %s, expected %s" % (var, got.shape, want.shape)):
        return
    ok = kit.close(got, want, tol, atol)
    ctx.expect(np.all(ok), key, lambda: "%s is %r, expected %r" % (var, got[~ok][:4], want[~ok][:4]))


def as_list(out, vars_):
    return out if len(vars_) > 1 else [out]


# ---- the times ------------------------------------------------------------------------------------------------
def times_unit(tier):
    def run(ctx):
        V = kit.lw.evol
        m1, m2, f = np.array(BIN).T
        n = len(BIN)
        a, b = orbit((m1, m2, f))
        es = {"zero": np.zeros(n), "mixed": np.array([0.0, 0.05, 0.3, 0.9, 0.0, 0.99995, 0.6])}
        for ename, e in es.items():
            tm = np.array([ref.t_merge(a[i], e[i], b[i]) for i in range(n)])
            for step in (2, 3, 10, 100):
                for tname, t, want in (("none", None, tm), ("one", 3.0 * u.yr, np.full(n, 3 * ref.YR)),
                                       ("each", np.arange(1, n + 1) * u.yr, np.arange(1, n + 1) * ref.YR),
                                       ("one array", np.full(n, 2.0) * u.Myr, np.full(n, 2e6 * ref.YR))):
                    key = "%s.%s.%d" % (ename, tname, step)
                    with ctx.guard(key):
                        kw = {} if step == 100 else {"n_step": step}
                        got = V.create_timesteps_array(a_i=a * u.m, beta=b * u.m**4 / u.s, ecc_i=e, t_evol=t, **kw)
                        w = np.linspace(0, 1, step)[None, :] * want[:, None]
                        ctx.expect(got.shape == (n, step) and kit.allclose(got.to(u.s).value, w, 1e-8), key,
                                   lambda: "timesteps %r, expected %r" % (got, w))
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state(key)
            for tname, ts in (("1d", np.array([0.0, 1.0, 5.0]) * u.yr), ("2d", np.outer(np.arange(1, n + 1), [0, 1, 5]) * u.yr)):
                with ctx.guard(tname):
                    got = V.create_timesteps_array(a_i=a * u.m, beta=b * u.m**4 / u.s, ecc_i=e, t_evol=9 * u.yr, n_step=50, timesteps=ts)
                    w = np.broadcast_to(ts.to(u.yr).value, (n, 3))
                    ctx.expect(got.shape == (n, 3) and kit.allclose(got.to(u.yr).value, w, 1e-12), tname, lambda: "timesteps %r" % got)
                ctx.transitions += 1
    return run


# ---- values ---------------------------------------------------------------------------------------------------
def values_unit(bi, tier):
    def run(ctx):
        V = kit.lw.evol
        b = BIN[bi]
        a, bt = orbit(b)
        fr = (0.0, 1e-6, 0.1, 0.5, 0.9, 0.98) if tier == "quick" else (0.0, 1e-9, 1e-6, 1e-3, 0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98, 0.995)
        eccs = (0.0,) + (ECC if tier == "quick" else tuple(np.linspace(0.01, 0.97, 18)) + (0.99, 0.999))
        for e in eccs:
            tm = ref.t_merge_true(a, e, bt)
            for x in fr:
                ts = np.linspace(0, x * tm, 4)
                want = columns(b, e, ts)
                for single in (True, False):
                    fm = forms(*b) if single else forms(*[np.array([v]) for v in b])
                    for n in ("m,f", "b,a+m") if x == 0.5 else ("m,f",):
                        key = "e=%g,x=%g,%d,%s" % (e, x, single, n)
                        with ctx.guard(key):
                            if e == 0:
                                got = V.evol_circ(t_evol=x * tm * u.s, n_step=4, output_vars=list(VARS_C), **fm[n])
                                names = VARS_C
                            else:
                                got = V.evol_ecc(ecc_i=e if single else np.array([e]), t_evol=x * tm * u.s, n_step=4,
                                                 output_vars=list(VARS_E), avoid_merger=False, **fm[n])
                                names = VARS_E
                            for v, g in zip(names, got):
                                w = want[v] if single else want[v][None, :]
                                tol = 1e-9 if e == 0 or v == "timesteps" else 2e-5 / max(1 - x, 1e-2)
                                compare(ctx, key + "." + v, g, v, w, tol)
                                start = np.ravel(getattr(g, "value", g))[0]
                                w0 = {"timesteps": 0.0, "a": a / ref.AU, "ecc": e, "f_orb": b[2], "f_GW": 2 * b[2]}[v]
                                ctx.expect(kit.close(start, w0, 1e-9), key + ".start", lambda: "%s starts at %r, not %r" % (v, start, w0))
                        ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state((bi, e, x, single))
        # merged circular orbits
        for x in (1.0 + 1e-6, 1.5, 10.0, 1e6):
            ts = np.array([0.0, 0.5, 1 - 1e-6, 1 + 1e-6, x]) if x > 1.1 else np.array([0.0, x])
            want = columns(b, 0.0, ts * ref.t_merge_true(a, 0, bt))
            with ctx.guard("merged.%g" % x):
                got = V.evol_circ(timesteps=ts * ref.t_merge_true(a, 0, bt) * u.s, output_vars=list(VARS_C), **forms(*b)["m,f"])
                for v, g in zip(VARS_C, got):
                    compare(ctx, "merged.%g.%s" % (x, v), g, v, want[v], 1e-4)
                    if v == "a":
                        ctx.expect(g[-1].value == 0.0, "merged.%g" % x, lambda: "separation %r after merger" % g[-1])
                    if v in ("f_orb", "f_GW"):
                        ctx.expect(g[-1].value == (100.0 if v == "f_orb" else 200.0), "merged.%g" % x, lambda: "%s %r after merger" % (v, g[-1]))
            ctx.transitions += 1
    return run


def arrays_unit(tier):
    """many sources at once, every input form x every time form; each row is that source's own evolution"""
    def run(ctx):
        V = kit.lw.evol
        n = 5
        m1, m2, f = np.array(BIN[:n]).T
        a, b = orbit((m1, m2, f))
        # circular, also with members that merge on the way, at different times
        tm = a**4 / 4 / b
        scale = np.array([0.3, 2.0, 0.9, 1.2, 0.5])
        tforms = {"each": dict(t_evol=tm * scale * u.s, n_step=5), "one": dict(t_evol=float(np.sort(tm)[2]) * 1.1 * u.s, n_step=5),
                  "steps1": dict(timesteps=np.array([0, 1e-3, 0.2, 1.1]) * np.sort(tm)[2] * u.s),
                  "steps2": dict(timesteps=tm[:, None] * np.array([0, 0.1, 0.7, 1.3, 2.0]) * u.s),
                  "steps over t": dict(timesteps=tm[:, None] * np.array([0, 0.1, 0.7]) * u.s, t_evol=1 * u.s, n_step=77),
                  # as many times as sources, every source looked at after the one before it
                  "steps apart": dict(timesteps=np.arange(1, n * n + 1).reshape(n, n) * np.sort(tm)[2] / 19.7 * u.s),
                  "steps back": dict(timesteps=np.arange(n * n, 0, -1).reshape(n, n)[:, ::-1] * np.sort(tm)[2] / 19.7 * u.s)}

        def steps(tf):
            if "timesteps" in tf:
                return np.broadcast_to(tf["timesteps"].to(u.s).value, (n, np.shape(tf["timesteps"])[-1]))
            t = np.broadcast_to(tf["t_evol"].to(u.s).value, (n,))
            return np.linspace(0, 1, tf["n_step"])[None, :] * t[:, None]
        for (fname, kw), (tname, tf) in itertools.product(forms(m1, m2, f).items(), tforms.items()):
            key = "circ.%s.%s" % (fname, tname)
            vars_ = list(VARS_C) if fname != "b,a" else ["a", "timesteps"]
            want = [columns(BIN[i], 0.0, steps(tf)[i]) for i in range(n)]
            with ctx.guard(key):
                got = V.evol_circ(output_vars=vars_, **kw, **tf)
                for v, g in zip(vars_, got):
                    compare(ctx, key, g, v, np.array([w[v] for w in want]), 1e-8)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
        e = np.array([0.3, 0.05, 0.9, 0.5, 0.7])
        te = np.array([ref.t_merge_true(a[i], e[i], b[i]) for i in range(n)])
        tmin = te.min()
        eforms = {"each": dict(t_evol=te * 0.7 * u.s, n_step=5), "one": dict(t_evol=0.8 * tmin * u.s, n_step=3),
                  "steps1": dict(timesteps=np.array([0, 1e-3, 0.2, 0.9]) * tmin * u.s),
                  "steps2": dict(timesteps=te[:, None] * np.array([0, 0.1, 0.7, 0.71]) * u.s),
                  "steps over t": dict(timesteps=te[:, None] * np.array([0, 0.1, 0.7]) * u.s, t_evol=1 * u.s, n_step=77)}
        for (fname, kw), (tname, tf) in itertools.product(forms(m1, m2, f).items(), eforms.items()):
            for proc in (1, 2) if fname == "m,f" else (1,):
                key = "ecc.%s.%s.%d" % (fname, tname, proc)
                vars_ = list(VARS_E) if fname != "b,a" else ["a", "ecc", "timesteps"]
                want = [columns(BIN[i], e[i], steps(tf)[i]) for i in range(n)]
                with ctx.guard(key):
                    got = V.evol_ecc(ecc_i=e, output_vars=vars_, avoid_merger=False, n_proc=proc, **kw, **tf)
                    for v, g in zip(vars_, got):
                        compare(ctx, key, g, v, np.array([w[v] for w in want]), 1e-4)
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
        # default time span: the merger time (and nothing is left at the end)
        with ctx.guard("default"):
            got = V.evol_circ(output_vars=["timesteps", "a", "f_orb"], **forms(m1, m2, f)["m,f"])
            ctx.expect(got[0].shape == (n, 100) and kit.allclose(got[0][:, -1].to(u.s).value, tm, 1e-9), "default", "not up to the merger times")
            mid = [columns(BIN[i], 0.0, np.linspace(0, 1, 100)[:99] * tm[i]) for i in range(n)]
            compare(ctx, "default.a", got[1][:, :99], "a", np.array([w["a"] for w in mid]), 1e-8)
            ctx.expect(np.all(got[1][:, -1].to(u.m).value < 2e-3 * a), "default.end", lambda: "separations at merger %r" % got[1][:, -1])
            got = V.evol_ecc(ecc_i=e, output_vars=["timesteps", "ecc"], avoid_merger=False, n_step=11, **forms(m1, m2, f)["m,f"])
            w = np.array([ref.t_merge(a[i], e[i], b[i]) for i in range(n)])
            ctx.expect(kit.allclose(got[0][:, -1].to(u.s).value, w, 1e-8), "default.ecc", "not up to the merger times")
            two = V.evol_ecc(ecc_i=e, t_evol=te * 0.5 * u.s, avoid_merger=False, **forms(m1, m2, f)["m,f"])
            ctx.expect(len(two) == 2 and two[0].shape == (n, 100) and two[1].unit == u.Hz, "default.vars", "not eccentricity and frequency")
        ctx.transitions += 4
    return run


# ---- output selections -----------------------------------------------------------------------------------------
def outputs_unit(which, tier):
    def run(ctx):
        V = kit.lw.evol
        m1, m2, f = np.array(BIN[:2]).T
        fm = forms(m1, m2, f)["m,f"]
        one = forms(*BIN[1])["m,f"]
        e = np.array([0.3, 0.6])
        names = VARS_C if which == "circ" else VARS_E
        t = np.array([ref.t_merge_true(*[orbit(BIN[i])[0], 0.6 if which == "ecc" else 0.0, orbit(BIN[i])[1]]) for i in range(2)])
        ts = np.linspace(0, 0.4, 3)
        w2 = [columns(BIN[i], e[i] if which == "ecc" else 0.0, ts * t[i]) for i in range(2)]

        def call(vars_, single):
            tt = t[1] * 0.4 * u.s if single else t * 0.4 * u.s
            if which == "circ":
                return V.evol_circ(t_evol=tt, n_step=3, output_vars=vars_, **(one if single else fm))
            return V.evol_ecc(ecc_i=0.6 if single else e, t_evol=tt, n_step=3, output_vars=vars_, avoid_merger=False,
                              **(one if single else fm))
        seqs = [s for k in range(1, len(names) + 1) for s in itertools.permutations(names, k)]
        seqs += [(v, v) for v in names]
        for s in seqs:
            for kind in ("list",) if len(s) > 2 else ("list", "tuple", "array", "str"):
                if kind == "str" and len(s) > 1:
                    continue
                vars_ = {"list": list(s), "tuple": tuple(s), "array": np.array(s), "str": s[0]}[kind]
                for single in (False, True):
                    key = "%s.%s.%d" % (",".join(s), kind, single)
                    with ctx.guard(key):
                        got = as_list(call(vars_, single), s)
                        ctx.expect(len(got) == len(s), key, lambda: "%d results for %d quantities" % (len(got), len(s)))
                        for v, g in zip(s, got):
                            w = w2[1][v] if single else np.array([x[v] for x in w2])
                            compare(ctx, key, g, v, w, 1e-5)
                    ctx.transitions += 1
                ctx.traces += 1
                ctx.state((which, s, kind))
    return run


# ---- avoiding the merger -------------------------------------------------------------------------------------------
def frozen(st, cut):
    """timesteps from the last one before the cut-off on"""
    out = np.array(st)
    for i in range(len(st)):
        late = st[i] >= cut[i]
        late[0] = False
        out[i][late] = st[i][~late].max()
    return out


def avoid_unit(pattern, tier):
    """The cut-off at every position relative to the timesteps of each source (several sources at once)"""
    def run(ctx):
        V = kit.lw.evol
        n = 4
        bs = BIN[:n]
        m1, m2, f = np.array(bs).T
        a, b = orbit((m1, m2, f))
        e = np.array([0.3, 0.05, 0.9, 0.6])
        tf = np.array([ref.t_merge(a[i], e[i], b[i], exact=False) for i in range(n)])
        tx = np.array([ref.t_merge(a[i], e[i], b[i]) for i in range(n)])
        base = tx.min() * 0.9
        steps = {"even": np.array([0, 0.25, 0.5, 0.75, 1.0]), "uneven": np.array([0, 0.01, 0.02, 0.9, 1.0]),
                 "two": np.array([0, 1.0]), "late": np.array([0, 0.6, 0.8, 0.9])}[pattern] * base
        # t_before per call: the cut-off t_merge - t_before placed before, on, between and after the steps of one source
        for src in range(n):
            spots = [-1.0, 0.0] + [x for k in range(1, len(steps)) for x in ((steps[k - 1] + steps[k]) / 2, steps[k])] + [base * 1.05]
            for spot, given, exact in itertools.product(spots, ("given", "own", "scalar"), (False, True)):
                if given != "own" and exact:
                    continue
                tm = {"given": np.array([3.0, 1.5, 2.0, 1.2]) * base, "own": tx if exact else tf, "scalar": np.full(n, 2.2 * base)}[given]
                before = tm[src] - spot
                if before < 0:
                    continue
                key = "src%d.%g.%s.%d" % (src, spot / base, given, exact)
                kw = dict(t_merge=tm * u.s) if given == "given" else dict(t_merge=tm[0] * u.s) if given == "scalar" else \
                    dict(exact_t_merge=exact)
                with ctx.guard(key):
                    for two in (False, True):
                        st = np.broadcast_to(steps, (n, len(steps)))
                        arg = (steps if not two else np.array(st)) * u.s
                        got = V.evol_ecc(ecc_i=e, timesteps=arg, t_before=before * u.s, output_vars=["timesteps", "ecc", "a", "f_orb"],
                                         **forms(m1, m2, f)["m,f"], **kw)
                        rep = got[0].to(u.s).value
                        cut = tm - before
                        # the merger times used are only known to rounding: a step within that of the cut-off may go either way
                        width = 1e-6 * np.maximum(base, tm)
                        cuts = [cut - width, cut, cut + width] + [np.clip(np.full(n, x + d), cut - width, cut + width)
                                                                  for x in steps for d in (-1.0, 1.0)]
                        wants = [frozen(st, x) for x in cuts]
                        ok = np.array([any(kit.allclose(rep[i], w[i], 1e-9, 1e-9 * base) for w in wants) for i in range(n)])
                        want = wants[1]
                        ctx.expect(np.all(ok), key, lambda: "times %r, expected %r" % (rep[~ok], want[~ok]))
                        if np.all(ok):
                            w = [columns(bs[i], e[i], rep[i]) for i in range(n)]
                            for v, g in zip(("ecc", "a", "f_orb"), got[1:]):
                                compare(ctx, key, g, v, np.array([x[v] for x in w]), 2e-4)
                                for i in range(n):
                                    fz = np.where(rep[i] == rep[i].max())[0]
                                    x = np.asarray(getattr(g, "value", g))[i][fz]
                                    ctx.expect(np.all(x == x[0]) or np.ptp(x) < 1e-7 * abs(x[0]), key, "not frozen")
                        ctx.transitions += 1
                ctx.traces += 1
                ctx.state((pattern, key))
        # single sources
        for i in range(n):
            for spot in (-1.0, 0.3 * base, 0.8 * base, 2 * base):
                tm = 3 * base
                key = "single%d.%g" % (i, spot / base)
                with ctx.guard(key):
                    got = V.evol_ecc(ecc_i=float(e[i]), timesteps=steps * u.s, t_before=(tm - spot) * u.s, t_merge=tm * u.s,
                                     output_vars=["timesteps", "ecc"], **forms(*bs[i])["m,f"])
                    late = steps >= spot
                    late[0] = False
                    want = steps.copy()
                    want[late] = steps[~late].max()
                    ctx.expect(got[0].shape == steps.shape and kit.allclose(got[0].to(u.s).value, want, 1e-9), key,
                               lambda: "times %r, expected %r" % (got[0], want))
                    compare(ctx, key, got[1], "ecc", columns(bs[i], e[i], want)["ecc"], 2e-4)
                ctx.transitions += 1
                ctx.state((pattern, key))
        # the default margin is a million years
        with ctx.guard("default margin"):
            tm = np.array([2.0, 1.2, 0.5, 10.0]) * u.Myr
            st = np.array([0, 0.15, 0.25, 0.95, 1.05]) * u.Myr
            big = dict(m_1=np.full(4, 0.1) * u.Msun, m_2=np.full(4, 0.1) * u.Msun, f_orb_i=np.full(4, 1e-6) * u.Hz)
            got = V.evol_ecc(ecc_i=np.full(4, 0.3), timesteps=st, t_merge=tm, output_vars="timesteps", **big).to(u.Myr).value
            want = np.array([[0, .15, .25, .95, .95], [0, .15, .15, .15, .15], [0, 0, 0, 0, 0], [0, .15, .25, .95, 1.05]])
            ctx.expect(kit.allclose(got, want, 1e-9), "default margin", lambda: "times %r, expected %r" % (got, want))
        ctx.transitions += 1
    return run


def until_unit(tier):
    """Evolution up to the merger (no times given), with every margin: the times are those of the exact merger time and so is
    the cut-off, however fine the steps"""
    def run(ctx):
        V = kit.lw.evol
        es = np.array([0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.95]) if tier == "quick" else np.linspace(0.16, 0.97, 28)
        n = len(es)
        for bi, (m1, m2, f) in enumerate(BIN):
            a, b = orbit((m1, m2, f))
            tm = np.array([ref.t_merge(a, x, b) for x in es])
            for steps, frac, exact in itertools.product((3, 50, 333, 1001), (1e-4, 2e-3, 1e-2, 0.3, 1.5), (False, True)):
                key = "%d.%d.%g.%d" % (bi, steps, frac, exact)
                full = np.linspace(0, 1, steps)
                cut = 1 - frac * tm.mean() / tm
                for single in (False, True):
                    i = steps % n
                    kw = forms(m1, m2, f) if single else forms(*[np.full(n, v) for v in (m1, m2, f)])
                    with ctx.guard(key):
                        out = V.evol_ecc(ecc_i=float(es[i]) if single else es, n_step=steps, t_before=frac * tm.mean() * u.s,
                                         exact_t_merge=exact, output_vars=["timesteps", "ecc"], **kw["m,f"])
                        rep, ecc = (np.atleast_2d(getattr(x, "value", x)) for x in out)
                        for r, x, j in zip(rep, ecc, [i] if single else range(n)):
                            # a step within rounding of the cut-off may go either way
                            wants = [frozen(full[None, :], [cut[j] + d])[0] for d in (-1e-7, 1e-7)]
                            got = r * ref.YR / tm[j]
                            ctx.expect(any(kit.allclose(got, w, 1e-7, 1e-9) for w in wants), key, lambda: "e=%g: last times %r of the merger, expected %r" % (
                                es[j], got[-3:], wants[0][-3:]))
                            fz = r == r.max()
                            ctx.expect(np.all(x[fz] == x[fz][0]) and np.all(np.diff(x) <= 0) and x[-1] > 0, key, "eccentricity not frozen at the cut-off")
                            ctx.evaluations += steps
                    ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
    return run


def seq_unit(tier):
    def run(ctx):
        V = kit.lw.evol
        b1, b2 = forms(*[np.array([v]) for v in BIN[0]]), forms(*[np.array([v, w]) for v, w in zip(BIN[1], BIN[3])])
        s = forms(*BIN[1])
        t = 1 * u.yr
        calls = {
            "circ": lambda: V.evol_circ(t_evol=t, n_step=3, **b1["m,f"]), "circ2": lambda: V.evol_circ(t_evol=t, n_step=3, output_vars="a", **b2["m,a"]),
            "circs": lambda: V.evol_circ(t_evol=2 * t, n_step=3, output_vars=["a", "timesteps"], **s["b,a"]),
            "ecc": lambda: V.evol_ecc(ecc_i=np.array([0.3]), t_evol=t, n_step=3, avoid_merger=False, **b1["m,f"]),
            "ecc2": lambda: V.evol_ecc(ecc_i=np.array([0.3, 0.5]), t_evol=t, n_step=3, output_vars=["a"], t_before=0.1 * u.yr, **b2["m,f"]),
            "eccs": lambda: V.evol_ecc(ecc_i=0.7, t_evol=2 * t, n_step=3, output_vars=["f_GW", "ecc", "timesteps"], **s["m,a"]),
            "steps": lambda: V.create_timesteps_array(a_i=np.array([1.0]) * u.AU, beta=np.array([1.0]) * u.m**4 / u.s, t_evol=t, n_step=2),
            "tm": lambda: V.get_t_merge_ecc(ecc_i=np.array([0.3, 0.5]), **b2["m,f"]),
        }
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    yield "times", times_unit(tier)
    for i in range(5 if tier == "quick" else 7):
        yield "values/%d" % i, values_unit(i, tier)
    yield "arrays", arrays_unit(tier)
    for w in ("circ", "ecc"):
        yield "outputs/%s" % w, outputs_unit(w, tier)
    for p in ("even", "uneven", "two", "late"):
        yield "avoid/%s" % p, avoid_unit(p, tier)
    yield "until", until_unit(tier)
    yield "sequences", seq_unit(tier)
