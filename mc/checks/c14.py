"""C14: strain amplitudes follow the quadrupole formulae in every harmonic.

Every point of a lattice (chirp masses, frequencies, eccentricities, distances, every harmonic) through every array shape,
for exact and interpolated power factors, on the module functions and on collections (every subset, harmonic list, merged
pattern, tolerance), against formulae written independently in SI floats; identities between the two strains and the
frequency drift on the implementation alone; all call sequences.
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every lattice point x array shape x harmonic selection x subset x merged pattern "
             "executed on the real functions against an independent reference model; all call sequences")
NOTE = ("All harmonics 1..300 (quick) at every lattice point; every (sources, times, harmonics) shape up to 3x3x3; every "
        "subset and merged pattern of 4 sources; real and adversarial interpolated power factors.")
BOUNDS = {"quick": "5 chirp masses x 7 frequencies x 14 e x 3 distances x harmonics 1..300; shapes <= 3x3x3 x input forms; "
                   "16 subsets x 16 merged patterns; call sequences of 3 of 9",
          "thorough": "9 x 13 x 40 e x 5 x harmonics 1..2000; call sequences of 4 of 9"}
FNS = ("h_0_n", "h_c_n")


def setup(tier):
    kit.setup(interp_g=True)


def want(name, mc, f, e, n, d, gfun=ref.g):
    """(x, y, z) reference array from mc (x,) Msun, f, e (x, y) Hz, n (z,), d (x,) kpc"""
    mc, f, e, n, d = (np.asarray(v, float) for v in (mc, f, e, n, d))
    fn = ref.h0 if name == "h_0_n" else ref.hc
    return fn(mc[:, None, None] * ref.MSUN, f[..., None], e[..., None], n[None, None, :], d[:, None, None] * ref.KPC, gfun=gfun)


def expect(ctx, key, got, w, tol=1e-8, floor=1e-9):
    """relative agreement; harmonics more than `floor` below the strongest one of the same orbit are compared absolutely"""
    ctx.evaluations += np.size(w)
    got = np.asarray(got)
    if not ctx.expect(got.shape == w.shape, key, lambda: "shape %s, expected %s" % (got.shape, w.shape)):
        return
    scale = np.max(np.abs(w), axis=-1, keepdims=True) if w.ndim else 0
    ok = kit.close(got, w, tol, floor * tol * scale + 1e-9 * floor * scale)
    ctx.expect(np.all(ok) and np.all(np.isfinite(got)), key, lambda: "%r, expected %r at %r" % (
        got[~ok][:3], w[~ok][:3], np.argwhere(~ok)[:3].tolist()))


def values(name, part, tier):
    def run(ctx):
        S = kit.lw.strain
        k = tier == "thorough"
        mcs = np.logspace(-2, 6, 9 if k else 5)
        fs = np.logspace(-7, 0, 13 if k else 7)
        es = np.unique(np.concatenate([[0, 1e-6, 0.005, 0.02, 0.9, 0.97], np.linspace(0.1, 0.85, 34 if k else 8)]))
        ds = (1e-3, 0.1, 1.0, 8.0, 1e6) if k else (1e-2, 8.0, 1e6)
        n = np.arange(1, 2001 if k else 301)
        base = None
        for mc, d in [(mcs[0], ds[0])] + list(itertools.product(mcs[part::3], ds)):
            F, E = np.meshgrid(fs, es, indexing="ij")
            key = "%s.mc=%g,d=%g" % (name, mc, d)
            with ctx.guard(key):
                # frequencies along the time axis, eccentricities along the source axis
                got = getattr(S, name)(m_c=np.full(len(es), mc) * u.Msun, f_orb=F.T * u.Hz, ecc=E.T, n=n, dist=np.full(len(es), d) * u.kpc)
                expect(ctx, key, got, want(name, np.full(len(es), mc), F.T, E.T, n, np.full(len(es), d)))
                ctx.expect(not isinstance(got, u.Quantity), key, "not a plain number")
                # circular: only the second harmonic
                ctx.expect(np.all(got[0][:, np.arange(len(n)) != 1] == 0) and np.all(got[0][:, 1] > 0), key + ".circular",
                           "a circular orbit radiates outside the second harmonic")
                # scaling laws on the implementation alone
                if base is None:
                    base = (mc, d, got)
                p = 5 / 3 if name == "h_0_n" else 5 / 6
                expect(ctx, key + ".scaling", got, base[2] * (mc / base[0])**p * base[1] / d, 1e-9)
                q = 2 / 3 if name == "h_0_n" else -1 / 6
                expect(ctx, key + ".frequency", got, got[:, :1] * (fs[None, :, None] / fs[0])**q, 1e-9)
                if name == "h_0_n":
                    # total power: sum over harmonics of (n h_n)^2 is F(e) times the circular one
                    tot = np.sum((n * got)**2, axis=-1)
                    circ = (2 * got[0][:, 1])**2
                    full = es < 0.85 if len(n) <= 400 else es < 0.95
                    ctx.expect(kit.allclose(tot[full], circ[None, :] * ref.F(es[full])[:, None], 1e-6), key + ".power",
                               lambda: "harmonic powers sum to %r of the circular one" % (tot[:, 0] / circ[0]))
                else:
                    h0 = S.h_0_n(m_c=np.full(len(es), mc) * u.Msun, f_orb=F.T * u.Hz, ecc=E.T, n=n, dist=np.full(len(es), d) * u.kpc)
                    fd = kit.lw.utils.fn_dot(m_c=mc * u.Msun, f_orb=F.T[..., None] * u.Hz, e=E.T[..., None], n=n).to(u.Hz / u.s).value
                    expect(ctx, key + ".drift", got**2, h0**2 * (n * F.T[..., None])**2 / fd)
            ctx.transitions += 2
            ctx.traces += 1
            ctx.state((name, mc, d))
    return run


def shapes(name, tier):
    """every array shape, with values that differ along every axis"""
    def run(ctx):
        fn = getattr(kit.lw.strain, name)
        mc0, d0 = np.array([0.5, 20.0, 3.0]), np.array([1.0, 7.0, 0.3])
        f0 = np.array([[1e-4, 3e-4, 8e-4], [2e-3, 5e-3, 9e-3], [1e-5, 4e-5, 7e-5]])
        e0 = np.array([[0.1, 0.0, 0.05], [0.4, 0.35, 0.3], [0.8, 0.7, 0.6]])
        ns = [[2], [3, 1], [1, 2, 3], [5, 2, 2]]
        gfs = {"exact": None, "interp": lambda n, e: ref.g(n, e)}
        for x, y, n, gname in itertools.product((1, 2, 3), (1, 2, 3), ns, gfs):
            w = want(name, mc0[:x], f0[:x, :y], e0[:x, :y], n, d0[:x])
            forms = {"2d": (f0[:x, :y] * u.Hz, e0[:x, :y])}
            if y == 1:
                forms["1d"] = (f0[:x, 0] * u.Hz, e0[:x, 0])
                forms["1d mixed"] = (f0[:x, 0] * u.Hz, e0[:x, :1])
                if x == 1:
                    forms["scalar"] = (f0[0, 0] * u.Hz, float(e0[0, 0]))
            nforms = {"list": n, "array": np.array(n), "float": np.array(n, float)}
            if len(n) == 1:
                nforms["int"] = n[0]
            for (fname, (f, e)), (nn, nv) in itertools.product(forms.items(), nforms.items()):
                key = "%s.%d,%d,%s.%s.%s.%s" % (name, x, y, n, fname, nn, gname)
                mc, d = mc0[:x] * u.Msun, d0[:x] * u.kpc
                if fname == "scalar":
                    mc, d = mc[0], d[0]
                with ctx.guard(key):
                    got = fn(m_c=mc, f_orb=f, ecc=e, n=nv, dist=d, interpolated_g=gfs[gname])
                    expect(ctx, key, got, w)
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
        # many sources, many times, many harmonics
        rng = np.arange(1, 120 * 130 + 1)
        for x, y, n in ((120, 1, 3), (1, 130, 3), (3, 1, 300), (40, 41, 2), (2, 70, 30)):
            mc, d = 0.5 + (rng[:x] * 7 % 31) / 2, 1.0 + (rng[:x] * 11 % 17)
            f = 1e-4 * (1 + (rng[:x * y] * 13 % 97).reshape(x, y) / 5)
            e = ((rng[:x * y] * 17 % 101) / 150).reshape(x, y)
            e[e < 0.2] /= 1e3
            key = "%s.%d,%d,%d" % (name, x, y, n)
            with ctx.guard(key):
                got = fn(m_c=mc * u.Msun, f_orb=f * u.Hz, ecc=e, n=np.arange(1, n + 1), dist=d * u.kpc)
                expect(ctx, key, got, want(name, mc, f, e, np.arange(1, n + 1), d))
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
        # every position of a harmonic below one
        for bad, size in itertools.product((0, -1, -2), (1, 2, 3)):
            for pos in range(size):
                n = [2, 3, 1][:size]
                n[pos] = bad
                for form in (n, np.array(n), tuple(n)) + ((bad,) if size == 1 else ()):
                    for g in gfs.values():
                        ctx.transitions += 1
                        try:
                            fn(m_c=mc0 * u.Msun, f_orb=f0 * u.Hz, ecc=e0, n=form, dist=d0 * u.kpc, interpolated_g=g)
                            ctx.fail("%s.below.%s" % (name, n), "harmonics %r accepted" % (form,))
                        except ValueError:
                            pass
                        except Exception as ex:
                            ctx.fail("%s.below.%s" % (name, n), "harmonics %r: %r" % (form, ex))
                ctx.state((name, "below", bad, size, pos))
    return run


def interpolated(name, tier):
    """power factors from interpolation: real spline against exact values, and functions that undershoot"""
    def run(ctx):
        fn = getattr(kit.lw.strain, name)
        src = kit.build(kit.Spec.of("es"), interpolate_g=True)
        n = np.arange(1, 61)
        es = np.linspace(0, 0.9, 181)
        one = np.ones(len(es))
        kw = dict(m_c=one * u.Msun, f_orb=one[:, None] * u.mHz, ecc=es[:, None], n=n, dist=one * u.kpc)
        with ctx.guard(name + ".spline"):
            got, exact = fn(interpolated_g=src.g, **kw), fn(**kw)
            scale = exact.max(axis=-1, keepdims=True)
            ok = np.abs(got - exact) < 3e-4 * exact + 3e-3 * scale
            ctx.expect(np.all(np.isfinite(got)) and np.all(got >= 0), name + ".spline", "invalid values from the spline")
            ctx.expect(np.all(ok), name + ".spline", lambda: "spline strain %r, exact %r at %r" % (got[~ok][:4], exact[~ok][:4], np.argwhere(~ok)[:4].tolist()))
            power = np.sum((n * got)**2, -1) / np.sum((n * exact)**2, -1)
            ctx.expect(np.all(np.abs(power - 1) < 2e-3), name + ".spline", lambda: "total power off by %r" % np.max(np.abs(power - 1)))
            # up to the end of the table, and harmonics up to its last
            es2, n2 = np.linspace(0.9, 0.985, 18), np.unique(np.round(np.logspace(0, 4, 60)).astype(int))
            kw2 = dict(kw, m_c=np.ones(18) * u.Msun, f_orb=np.ones((18, 1)) * u.mHz, ecc=es2[:, None], n=n2, dist=np.ones(18) * u.kpc)
            got, exact = fn(interpolated_g=src.g, **kw2), fn(**kw2)
            expect(ctx, name + ".exact high", exact, want(name, np.ones(18), np.full((18, 1), 1e-3), es2[:, None], n2, np.ones(18)), 1e-7)
            ok = np.abs(got - exact) < 1e-2 * exact.max(axis=-1, keepdims=True)
            ctx.expect(np.all(ok), name + ".spline high", lambda: "spline strain %r, exact %r at %r" % (got[~ok][:4], exact[~ok][:4], np.argwhere(~ok)[:4].tolist()))
            # far outside the table and in the steep corner: still no invalid values
            hard = fn(interpolated_g=src.g, **dict(kw, n=np.concatenate([n, [500, 3000, 9999, 10000]]), ecc=np.linspace(0, 0.999, 181)[:, None]))
            ctx.expect(np.all(np.isfinite(hard)) and np.all(hard >= 0), name + ".spline", "invalid values from the spline")
        ctx.transitions += 3
        # every pattern of signs of the interpolated values on every shape up to 2 x 2 x 2, and for single sources
        shapes_ = [x for x in itertools.product((1, 2), repeat=3) if x != (2, 2, 2)]
        M, D = np.array([0.5, 20.0]), np.array([1.0, 7.0])
        F, E = np.array([[1e-4, 3e-4], [2e-3, 5e-3]]), np.array([[0.1, 0.05], [0.4, 0.3]])
        for x, y, z in shapes_:
            for signs in itertools.product((1.0, -1.0), repeat=x * y * z):
                sg = np.array(signs).reshape(x, y, z)
                fake1 = lambda nn, ee, sg=sg: sg * ref.g(nn, ee)
                nn = [2, 3][:z]
                w = np.where(sg > 0, want(name, M[:x], F[:x, :y], E[:x, :y], nn, D[:x]), 0.0)
                key = "%s.signs.%d,%d,%d.%s" % (name, x, y, z, "".join("+" if s > 0 else "-" for s in signs))
                with ctx.guard(key):
                    for form in (nn, np.array(nn)) + ((2,) if z == 1 else ()):
                        got = fn(m_c=M[:x] * u.Msun, f_orb=F[:x, :y] * u.Hz, ecc=E[:x, :y], n=form, dist=D[:x] * u.kpc, interpolated_g=fake1)
                        expect(ctx, key, got, w)
                        if y == 1:
                            got = fn(m_c=M[:x] * u.Msun, f_orb=F[:x, 0] * u.Hz, ecc=E[:x, 0], n=form, dist=D[:x] * u.kpc, interpolated_g=fake1)
                            expect(ctx, key, got, w)
                        if x == y == 1:
                            got = fn(m_c=M[0] * u.Msun, f_orb=F[0, 0] * u.Hz, ecc=E[0, 0], n=form, dist=D[0] * u.kpc, interpolated_g=fake1)
                            expect(ctx, key, got, w)
                        ctx.transitions += 1
                ctx.traces += 1
                ctx.state(key)
        mc, d = np.array([0.5, 20.0]), np.array([1.0, 7.0])
        f, e = np.array([[1e-4, 3e-4], [2e-3, 5e-3]]), np.array([[0.1, 0.05], [0.4, 0.3]])
        for signs in itertools.product((1.0, -1.0), repeat=8):
            sg = np.array(signs).reshape(2, 2, 2)
            seen = []

            def fake(nn, ee, sg=sg, seen=seen):
                seen.append((np.shape(nn), np.shape(ee)))
                return sg * ref.g(nn, ee)
            with ctx.guard(name + ".signs"):
                got = fn(m_c=mc * u.Msun, f_orb=f * u.Hz, ecc=e, n=[2, 3], dist=d * u.kpc, interpolated_g=fake)
                w = np.where(sg > 0, want(name, mc, f, e, [2, 3], d), 0.0)
                expect(ctx, "%s.signs.%s" % (name, "".join("+" if s > 0 else "-" for s in signs)), got, w)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state((name, signs))
    return run


def collection(name, cls, tier):
    """get_h_0_n / get_h_c_n of collections: every subset x merged pattern x harmonics, exact and interpolated"""
    def run(ctx):
        spec = kit.Spec.of("cs", "es2", "ee", "nc")
        w_all = {}
        hs = {"1": 2, "list": [1, 2, 3], "array": np.array([4, 2]), "many": np.arange(1, 31)}
        for hn, h in hs.items():
            w_all[hn] = want("h_0_n" if name == "get_h_0_n" else "h_c_n", spec.mc, spec.f[:, None], spec.ecc[:, None],
                             np.atleast_1d(h), spec.dist)[:, 0, :]
        for interp in (False, True):
            src = kit.build(spec, cls=cls, interpolate_g=interp)
            for merged in itertools.product((False, True), repeat=4):
                src.merged = np.array(merged)
                w0 = {k: np.where(np.array(merged)[:, None], 0.0, v) for k, v in w_all.items()}
                for mask in itertools.product((False, True), repeat=4):
                    m = np.array(mask)
                    for hn, h in hs.items():
                        if interp and (hn != "many" or not np.all(m)):
                            continue
                        key = "%s.%s.%s.%s.%s" % (name, hn, "".join("%d" % x for x in mask), "".join("%d" % x for x in merged), interp)
                        with ctx.guard(key):
                            got = getattr(src, name)(h, which_sources=m)
                            if interp:
                                scale = w_all[hn].max(axis=1, keepdims=True)
                                ctx.expect(got.shape == w0[hn].shape and np.all(np.abs(got - w0[hn]) < 3e-3 * scale), key,
                                           lambda: "strains %r, expected %r" % (got, w0[hn]))
                            else:
                                expect(ctx, key, got, w0[hn][m] if m.any() else np.zeros((0, np.size(h))))
                        ctx.transitions += 1
                    ctx.traces += 1
                ctx.state((name, cls, interp, merged))
                with ctx.guard(key):
                    got = getattr(src, name)([1, 2, 3])
                    if not interp:
                        expect(ctx, name + ".all", got, w0["list"])
            for bad in (0, -1, [1, 0], [0, 2], np.array([3, -3])):
                try:
                    getattr(src, name)(bad)
                    ctx.fail(name + ".below", "harmonics %r accepted" % (bad,))
                except ValueError:
                    pass
    return run


def seq_unit(tier):
    def run(ctx):
        S = kit.lw.strain
        q = lambda x: np.array([x]) * u.Msun
        kw1 = dict(m_c=q(1.0), f_orb=np.array([1e-3]) * u.Hz, ecc=np.array([0.2]), dist=np.array([1.0]) * u.kpc)
        kw2 = dict(m_c=np.array([3.0, 20]) * u.Msun, f_orb=np.array([1e-3, 1e-4]) * u.Hz, ecc=np.array([0.0, 0.7]), dist=np.array([1.0, 3]) * u.kpc)
        src = kit.build(kit.Spec.of("cs", "es", "ee"))
        calls = {"h0": lambda: S.h_0_n(n=2, **kw1), "h0s": lambda: S.h_0_n(n=[1, 2, 3], **kw1), "h0two": lambda: S.h_0_n(n=[2, 3], **kw2),
                 "hc": lambda: S.h_c_n(n=2, **kw1), "hctwo": lambda: S.h_c_n(n=[2, 3], **kw2),
                 "h0g": lambda: S.h_0_n(n=[1, 2], interpolated_g=lambda n, e: ref.g(n, e), **kw2),
                 "m0": lambda: src.get_h_0_n([1, 2]), "mc": lambda: src.get_h_c_n(2, which_sources=np.array([False, True, True])),
                 "g": lambda: kit.lw.utils.peters_g(np.array([2, 3]), 0.4)}
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    for name in FNS:
        for part in range(3):
            yield "values/%s/%d" % (name, part), values(name, part, tier)
        yield "shapes/%s" % name, shapes(name, tier)
        yield "interpolated/%s" % name, interpolated(name, tier)
        for cls in ("Source", "Stationary", "Evolving"):
            yield "collection/%s/%s" % (name, cls), collection("get_" + name, cls, tier)
    yield "sequences", seq_unit(tier)
