"""C11: elementary relations follow Kepler and Peters and invert each other.

Every point of a lattice spanning the domain (masses over nine decades and mass ratios to 1e-4, separations over
twelve decades, eccentricities from 0 to 0.9999, every harmonic up to the point where the power has decayed), through
every broadcast shape the functions take, against independently written formulae in SI floats; all identities between
the functions evaluated on the implementation alone; every sequence of calls up to a length.
"""
import itertools
import numpy as np
from astropy import constants as const, units as u

from .. import fixtures, kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every point of the input lattice, every broadcast form and every call sequence "
             "executed on the real functions against an independent reference model")
NOTE = ("Lattice of masses x separations x eccentricities x harmonics (all harmonics up to decay for the power sums); "
        "identities evaluated on the implementation; all call sequences of length 3.")
BOUNDS = {"quick": "14 masses squared x 13 separations x 25 e; harmonics 1..10000 at 60 e for the sum; 11 functions x 7 shapes and 3 kinds of scalar; call sequences 3 of 12",
          "thorough": "40 masses squared x 49 separations x 200 e; sums at 400 e; call sequences 4 of 12"}


def setup(tier):
    kit.setup()


def grid(tier):
    k = 3 if tier == "thorough" else 1
    m = np.unique(np.concatenate([np.logspace(-2, 7, 10 * k), [1.4, 30.0, 0.6, 1.0]]))
    a = np.logspace(-7, 5, 12 * (k + 1) + 1)                                         # AU
    e = np.unique(np.concatenate([[0.0, 1e-12, 1e-6, 1e-3, 0.999, 0.9999, 0.99999], np.linspace(0.01, 0.99, 18 * k)]))
    return m, a, e


def expect_close(ctx, key, got, want, tol=1e-9, atol=0.0):
    got, want = np.asarray(got), np.asarray(want)
    ok = got.shape == want.shape
    if ok:
        c = kit.close(got, want, tol, atol)
        ok = bool(np.all(c))
    ctx.expect(ok, key, lambda: "got %r, expected %r" % (
        (got.shape, want.shape) if got.shape != want.shape else (got[~c][:3], want[~c][:3])))
    ctx.evaluations += got.size


def masses(tier):
    def run(ctx):
        U = kit.lw.utils
        m, a, e = grid(tier)
        for i, x in enumerate(m):
            M1, M2 = np.full(len(m), x), m
            k1, k2 = M1 * ref.MSUN, M2 * ref.MSUN
            mq, nq = M1 * u.Msun, M2 * u.Msun
            key = "m=%g" % x
            with ctx.guard(key):
                mc = U.chirp_mass(mq, nq)
                ctx.expect(mc.unit == u.Msun, key, lambda: "chirp mass in %s" % mc.unit)
                expect_close(ctx, key + ".mc", mc.value, ref.chirp_mass(M1, M2))
                expect_close(ctx, key + ".mc=", mc[i].value, x * 2**-0.2)
                expect_close(ctx, key + ".mc swap", U.chirp_mass(nq, mq).value, mc.value, 1e-14)
                expect_close(ctx, key + ".mc scale", U.chirp_mass(3 * mq, 3 * nq).value, 3 * mc.value, 1e-12)
                expect_close(ctx, key + ".mc plain", U.chirp_mass(M1, M2), ref.chirp_mass(M1, M2))
                be = U.beta(mq, nq)
                ctx.expect(be.unit == u.m**4 / u.s, key, lambda: "beta in %s" % be.unit)
                expect_close(ctx, key + ".beta", be.value, ref.beta(k1, k2))
                expect_close(ctx, key + ".beta swap", U.beta(nq, mq).value, be.value, 1e-14)
                for sep in a:
                    A = np.full(len(m), sep) * u.AU
                    f = U.get_f_orb_from_a(a=A, m_1=mq, m_2=nq)
                    ctx.expect(f.unit == u.Hz, key, lambda: "f_orb in %s" % f.unit)
                    expect_close(ctx, key + ".f", f.value, ref.f_of_a(sep * ref.AU, k1, k2))
                    expect_close(ctx, key + ".f swap", U.get_f_orb_from_a(a=A, m_1=nq, m_2=mq).value, f.value, 1e-13)
                    back = U.get_a_from_f_orb(f_orb=f, m_1=mq, m_2=nq)
                    ctx.expect(back.unit == u.AU, key, lambda: "a in %s" % back.unit)
                    expect_close(ctx, key + ".a(f(a))", back.value, A.value, 1e-12)
                    fq = np.full(len(m), sep) * u.mHz
                    aq = U.get_a_from_f_orb(f_orb=fq, m_1=mq, m_2=nq)
                    expect_close(ctx, key + ".a", aq.to(u.m).value, ref.a_of_f(sep * 1e-3, k1, k2))
                    expect_close(ctx, key + ".f(a(f))", U.get_f_orb_from_a(a=aq, m_1=mq, m_2=nq).to(u.mHz).value, fq.value, 1e-12)
                    # Kepler's third law, and a circular merger time in agreement with the decay rate of Eq. 5.6
                    mu = (4 * np.pi**2 * (aq**3) * fq**2 / const.G).to(u.Msun).value
                    expect_close(ctx, key + ".kepler", mu, M1 + M2)
                    ctx.transitions += 6
            ctx.traces += 1
            ctx.state(key)
    return run


def orbits(tier):
    def run(ctx):
        U = kit.lw.utils
        m, a, e = grid(tier)
        ee = e[e > 0]
        for sep in a:
            key = "a=%g" % sep
            with ctx.guard(key):
                A = np.full(len(ee), sep) * u.AU
                c0 = U.c_0(a_i=A, ecc_i=ee)
                ctx.expect(c0.unit == u.AU, key, lambda: "c_0 in %s" % c0.unit)
                expect_close(ctx, key + ".c0", c0.value, ref.c0(sep, ee), 1e-9)
                back = U.get_a_from_ecc(ee, c0)
                expect_close(ctx, key + ".a(e)", back.value, A.value, 1e-11)
                for j in range(0, len(ee), 3):      # along one track a(e) from a fixed c_0
                    track = U.get_a_from_ecc(ee, c0[j])
                    expect_close(ctx, key + ".track", track.to(u.m).value, ref.c0(sep * ref.AU, ee[j]) * ref.shape(ee), 1e-9)
                    again = U.c_0(track, ee)
                    expect_close(ctx, key + ".track c0", again.value, np.full(len(ee), c0[j].value), 1e-10)
                    ctx.expect(np.all(np.diff(track.value) > 0), key + ".monotone", "separation does not fall with eccentricity")
                    ctx.transitions += 2
                expect_close(ctx, key + ".zero", U.get_a_from_ecc(0.0, c0).value, np.zeros(len(ee)), 0, 0)
            ctx.transitions += 3
            ctx.traces += 1
            ctx.state(key)
        with ctx.guard("F"):
            F = U.peters_f(e)
            expect_close(ctx, "F", F, ref.F(e))
            ctx.expect(F[0] == 1.0 and np.all(np.diff(F) >= 0), "F.monotone", lambda: "F %r" % F)
            expect_close(ctx, "F.scalar", np.array([U.peters_f(float(x)) for x in e]), F, 1e-14)
            expect_close(ctx, "F.2d", U.peters_f(e[:, None] * np.ones(3)), F[:, None] * np.ones(3), 1e-14)
        ctx.transitions += 3
    return run


def powers(part, parts, tier):
    """g(n, e): value, shape, sum over all harmonics, circular limit"""
    def run(ctx):
        U = kit.lw.utils
        num = 60 if tier == "quick" else 400
        es = np.concatenate([[0.0, 1e-8, 1e-4, 0.01], 1 - np.logspace(np.log10(0.98), np.log10(0.006), num)])[part::parts]
        for e in es:
            key = "e=%.6g" % e
            n = np.arange(1, fixtures.n_cut(e, 10000) + 1)
            with ctx.guard(key):
                g = U.peters_g(n, e)
                w = ref.g(n, e)
                F = ref.F(e)
                expect_close(ctx, key + ".g", g, w, 1e-7, 1e-13 * F)
                ctx.expect(np.all(g > -1e-13 * F), key + ".sign", lambda: "negative power %r" % g.min())
                full = len(n) < 10000 or g[-1] < 1e-12 * F
                if full:
                    ctx.expect(abs(g.sum() / U.peters_f(e) - 1) < 1e-9, key + ".sum",
                               lambda: "harmonics sum to %r, enhancement %r" % (g.sum(), U.peters_f(e)))
                if e == 0:
                    ctx.expect(np.array_equal(g, (n == 2).astype(float)), key + ".circular", lambda: "g %r" % g[:6])
                some = n[::max(1, len(n) // 7)]
                expect_close(ctx, key + ".scalar", np.array([U.peters_g(int(k), float(e)) for k in some]), U.peters_g(some, e), 1e-13,
                             1e-16 * F)
                expect_close(ctx, key + ".float n", U.peters_g(some.astype(float), e), U.peters_g(some, e), 1e-13, 1e-16 * F)
            ctx.transitions += 3
            ctx.traces += 1
            ctx.state(key)
        with ctx.guard("grid"):
            n = np.arange(1, 12)
            grid2 = U.peters_g(n[:, None], es[None, :])
            one = np.array([[U.peters_g(k, x) for x in es] for k in n])
            expect_close(ctx, "grid", grid2, one, 1e-12, 1e-15)
            grid3 = U.peters_g(n[None, None, :], es[:, None, None])
            expect_close(ctx, "grid3", grid3[:, 0, :].T, one, 1e-12, 1e-15)
    return run


def drift(tier):
    def run(ctx):
        U = kit.lw.utils
        m, a, e = grid(tier)
        mc = m * u.Msun
        for x, f in itertools.product(e, np.logspace(-8, 2, 11)):
            for n in (1, 2, 3, 10, 1000, 1001, 12345):
                key = "e=%g,f=%g,n=%d" % (x, f, n)
                with ctx.guard(key):
                    got = U.fn_dot(m_c=mc, f_orb=f * u.Hz, e=x, n=n)
                    ctx.expect(got.unit == u.Hz / u.yr, key, lambda: "drift in %s" % got.unit)
                    expect_close(ctx, key, got.value, ref.fn_dot(m * ref.MSUN, f, x, n) * ref.YR)
                ctx.transitions += 1
            with ctx.guard("e=%g,f=%g" % (x, f)):
                ns = np.array([1, 2, 3, 7, 200])
                got = U.fn_dot(m_c=mc[:, None], f_orb=f * u.Hz, e=x, n=ns[None, :]).value
                expect_close(ctx, "array n", got, ref.fn_dot((m * ref.MSUN)[:, None], f, x, ns) * ref.YR)
                # consistency with the other relations: d f/dt of a circular orbit from da/dt = -beta / a^3
                if x == 0.0:
                    m1 = m * 2**0.2 * u.Msun                                           # equal masses with this chirp mass
                    sep = U.get_a_from_f_orb(f * u.Hz, m1, m1)
                    fdot = 1.5 * f * u.Hz / sep * U.beta(m1, m1) / sep**3
                    expect_close(ctx, "from da/dt", U.fn_dot(mc, f * u.Hz, 0.0, 1).value, fdot.to(u.Hz / u.yr).value, 1e-9)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state((x, f))
        for n in (0, -1, 0.5, np.array([2, 0]), np.array([-3])):
            try:
                U.fn_dot(m_c=1 * u.Msun, f_orb=1e-3 * u.Hz, e=0.1, n=n)
                ctx.fail("n=%s" % n, "harmonic below one accepted")
            except ValueError:
                pass
            ctx.transitions += 1
    return run


def shapes(tier):
    """every function on scalars (Python and numpy, with and without units) and on arrays of every shape: element by element the same"""
    def run(ctx):
        U = kit.lw.utils
        rng = np.arange(12)
        vals = {"m1": 10.0**(rng / 4 - 1) + 1, "m2": 3.0 * 10.0**(rng[::-1] / 5 - 1), "a": 10.0**(rng / 3 - 3), "f": 10.0**(rng / 3 - 5), "e": np.linspace(0.02, 0.97, 12), "n": rng % 5 + 1}
        vals["m2"][::4] = vals["m1"][::4]               # (equal masses too)
        M, A, F = u.Msun, u.AU, u.mHz
        k = lambda v: v * ref.MSUN                                                                              # noqa
        fns = {
            "chirp_mass": (("m1", "m2"), lambda m1, m2: U.chirp_mass(m1 * M, m2 * M).to(M).value, lambda m1, m2: ref.chirp_mass(m1, m2)),
            "chirp_mass plain": (("m1", "m2"), lambda m1, m2: U.chirp_mass(m1, m2), lambda m1, m2: ref.chirp_mass(m1, m2)),
            "beta": (("m1", "m2"), lambda m1, m2: U.beta(m1 * M, m2 * M).to(u.m**4 / u.s).value, lambda m1, m2: ref.beta(k(m1), k(m2))),
            "f": (("a", "m1", "m2"), lambda a, m1, m2: U.get_f_orb_from_a(a * A, m1 * M, m2 * M).to(u.Hz).value, lambda a, m1, m2: ref.f_of_a(a * ref.AU, k(m1), k(m2))),
            "a": (("f", "m1", "m2"), lambda f, m1, m2: U.get_a_from_f_orb(f * F, m1 * M, m2 * M).to(u.m).value, lambda f, m1, m2: ref.a_of_f(f * 1e-3, k(m1), k(m2))),
            "c_0": (("a", "e"), lambda a, e: U.c_0(a * A, e).to(u.m).value, lambda a, e: ref.c0(a * ref.AU, e)),
            "a(e)": (("e", "a"), lambda e, a: U.get_a_from_ecc(e, a * A).to(u.m).value, lambda e, a: a * ref.AU * ref.shape(e)),
            "a(e) plain": (("e", "a"), lambda e, a: U.get_a_from_ecc(e, a), lambda e, a: a * ref.shape(e)),
            "peters_f": (("e",), lambda e: U.peters_f(e), lambda e: ref.F(e)),
            "peters_g": (("n", "e"), lambda n, e: U.peters_g(n, e), lambda n, e: np.vectorize(lambda i, x: ref.g(np.array([i]), x)[0])(n, e)),
            "fn_dot": (("m1", "f", "e", "n"), lambda m, f, e, n: U.fn_dot(m * M, f * F, e, n).to(u.Hz / u.yr).value, lambda m, f, e, n: ref.fn_dot(k(m), f * 1e-3, e, n) * ref.YR),
        }
        forms = [(12,), (1,), (3, 4), (12, 1), (1, 12), (2, 3, 2), (2, 1, 6)]
        for name, (args, fn, want) in fns.items():
            flat = [vals[x] for x in args]
            w = np.asarray(want(*flat), float)
            for form in forms:
                key = "%s.%s" % (name, form)
                size = int(np.prod(form))
                with ctx.guard(key):
                    got = fn(*[v[:size].reshape(form) for v in flat])
                    expect_close(ctx, key, got, w[:size].reshape(form), 1e-7 if "g" in name else 1e-9)
                ctx.transitions += 1
                ctx.state(key)
            for i in range(12):
                for kind, conv in (("float", float), ("numpy", np.float64), ("0-d", np.asarray)):
                    key = "%s.%s" % (name, kind)
                    with ctx.guard(key):
                        got = fn(*[int(v[i]) if x == "n" else conv(v[i]) for x, v in zip(args, flat)])
                        expect_close(ctx, key, got, w[i], 1e-7 if "g" in name else 1e-9)
                    ctx.transitions += 1
            # a column against a row: every pair of values
            if len(args) >= 2:
                with ctx.guard(name + ".outer"):
                    col = [v[:, None] if j % 2 else v[None, :] for j, v in enumerate(flat)]
                    expect_close(ctx, name + ".outer", fn(*col), want(*[c * np.ones((12, 12)) if x != "n" else c + np.zeros((12, 12), int) for x, c in zip(args, col)]), 1e-7 if "g" in name else 1e-9)
                ctx.transitions += 1
            ctx.traces += 1
    return run


def seq(tier):
    def run(ctx):
        U = kit.lw.utils
        m = np.array([1.0, 30.0])
        calls = {
            "mc": lambda: U.chirp_mass(m * u.Msun, 2 * m * u.Msun), "mc2": lambda: U.chirp_mass(5 * m * u.Msun, m * u.Msun),
            "g": lambda: U.peters_g(np.arange(1, 4), 0.3), "g2": lambda: U.peters_g(np.arange(1, 4), 0.4),
            "g3": lambda: U.peters_g(2, 0.3), "F": lambda: U.peters_f(np.array([0.1, 0.2])),
            "a": lambda: U.get_a_from_f_orb(1e-3 * u.Hz, m * u.Msun, m * u.Msun),
            "f": lambda: U.get_f_orb_from_a(0.01 * u.AU, m * u.Msun, m * u.Msun),
            "b": lambda: U.beta(m * u.Msun, m * u.Msun), "c0": lambda: U.c_0(0.01 * u.AU, np.array([0.2, 0.7])),
            "ae": lambda: U.get_a_from_ecc(np.array([0.2, 0.7]), 0.01 * u.AU),
            "fd": lambda: U.fn_dot(m * u.Msun, 1e-3 * u.Hz, 0.2, 2),
        }
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    yield "masses", masses(tier)
    yield "orbits", orbits(tier)
    for p in range(6):
        yield "powers/%d" % p, powers(p, 6, tier)
    yield "drift", drift(tier)
    yield "shapes", shapes(tier)
    yield "sequences", seq(tier)
