"""C15: sky position and orientation scale strains as the detector responds.

Every point of a lattice over sky, polarisation and inclination, through every array form, on the response functions; exact
quadrature averages; on collections every frame a position can be given in, every subset / merged pattern, every route to a
strain or a stationary SNR, and every combination of given and drawn orientation values under many random states.
"""
import itertools
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from .. import kit, ref

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every point of the sky x orientation lattice, every input frame, subset, route and "
             "combination of given / drawn values executed on the real code against an independent reference response")
NOTE = ("Full lattice over (co-latitude, longitude, polarisation, inclination); quadrature averages are exact for these "
        "trigonometric polynomials; 12 frames x 2 distance forms; every subset x merged pattern; every route to an SNR.")
BOUNDS = {"quick": "15 x 24 x 12 x 11 lattice; 12 frames x 26 directions; 16 subsets x 16 merged patterns; 12 random states",
          "thorough": "31 x 48 x 24 x 21 lattice; 12 frames x 182 directions; 60 random states"}
FRAMES = {
    "ecliptic": {}, "icrs": {}, "galactic": {}, "fk5": {}, "fk4": {}, "fk5(2050)": {"equinox": "J2050"},
    "ecliptic(2050)": {"equinox": "J2050"}, "meanecliptic": {}, "supergalactic": {}, "cirs": {}, "helio": {}, "hcrs": {}}
NAMES = {"ecliptic": "barycentrictrueecliptic", "ecliptic(2050)": "barycentrictrueecliptic", "fk5(2050)": "fk5",
         "meanecliptic": "barycentricmeanecliptic", "helio": "heliocentrictrueecliptic"}
NEED_DIST = ("cirs", "helio", "hcrs")


def setup(tier):
    kit.setup()


def lattice(tier):
    k = 2 if tier == "thorough" else 1
    return (np.linspace(0, np.pi, 14 * k + 1), np.linspace(0, 2 * np.pi, 24 * k, endpoint=False) + 0.01,
            np.linspace(0, np.pi, 12 * k, endpoint=False) + 0.003, np.linspace(0, np.pi, 10 * k + 1))


def ecl(lon, lat, dist=None):
    kw = {} if dist is None else {"distance": dist}
    return SkyCoord(lon=lon * u.rad, lat=lat * u.rad, frame="barycentrictrueecliptic", **kw)


def expect_close(ctx, key, got, want, tol=1e-9, atol=1e-12):
    ctx.evaluations += np.size(want)
    got = np.asarray(getattr(got, "value", got))
    want = np.asarray(want)
    if not ctx.expect(got.shape == want.shape, key, lambda: "shape %s, expected %s" % (got.shape, want.shape)):
        return
    ok = kit.close(got, want, tol, atol)
    ctx.expect(np.all(ok), key, lambda: "%r, expected %r" % (got[~ok][:3], want[~ok][:3]))


def response(tier):
    def run(ctx):
        U, S = kit.lw.utils, kit.lw.strain
        th, ph, ps, inc = lattice(tier)
        for t in th:
            P, Q = np.meshgrid(ph, ps, indexing="ij")
            T = np.full_like(P, t)
            key = "theta=%.3f" % t
            with ctx.guard(key):
                dp, dx, dpx = ref.D2(T, P)
                fp, fx = ref.F2(T, P, Q)
                for unit in (True, False):
                    a, b, c = (T * u.rad, P * u.rad, Q * u.rad) if unit else (T, P, Q)
                    expect_close(ctx, key + ".D+", U.D_plus_squared(a, b), dp)
                    expect_close(ctx, key + ".Dx", U.D_cross_squared(a, b), dx)
                    expect_close(ctx, key + ".D+x", U.D_plus_D_cross(a, b), dpx)
                    expect_close(ctx, key + ".F+", U.F_plus_squared(a, b, c), fp)
                    expect_close(ctx, key + ".Fx", U.F_cross_squared(a, b, c), fx)
                g = U.F_plus_squared(np.rad2deg(T) * u.deg, np.rad2deg(P) * u.deg, np.rad2deg(Q) * u.deg)
                expect_close(ctx, key + ".deg", g, fp)
                ctx.expect(np.all(fp >= 0) and np.all(np.asarray(getattr(g, "value", g)) >= -1e-12), key, "negative response")
                # a quarter turn of the polarisation swaps plus and cross; half turns and opposite directions change nothing
                expect_close(ctx, key + ".swap", U.F_plus_squared(T, P, Q + np.pi / 4), fx)
                expect_close(ctx, key + ".half", U.F_plus_squared(T, P, Q + np.pi / 2), fp)
                expect_close(ctx, key + ".period", U.F_cross_squared(T, P + np.pi, Q), fx)
                for i in inc:
                    pos = ecl(P.ravel(), np.pi / 2 - T.ravel())
                    m = S.amplitude_modulation(position=pos, polarisation=Q.ravel() * u.rad, inclination=np.full(P.size, i) * u.rad)
                    w = ref.modulation(P.ravel(), np.pi / 2 - T.ravel(), Q.ravel(), i)
                    expect_close(ctx, key + ".mod", m, w)
                    if i in inc[::5]:
                        d = S.amplitude_modulation(position=pos, polarisation=np.rad2deg(Q.ravel()) * u.deg,
                                                   inclination=np.full(P.size, np.rad2deg(np.pi - i)) * u.deg)
                        expect_close(ctx, key + ".mod flipped", d, w)
                    ctx.transitions += 1
                    ctx.state((key, round(float(i), 4)))
                one = S.amplitude_modulation(position=ecl(P[1, 1], np.pi / 2 - t), polarisation=Q[1, 1] * u.rad, inclination=0.7 * u.rad)
                expect_close(ctx, key + ".scalar", one, ref.modulation(P[1, 1], np.pi / 2 - t, Q[1, 1], 0.7))
            ctx.transitions += 12
            ctx.traces += 1
    return run


def averages(ctx):
    """exact quadrature: Gauss-Legendre in cos(theta) and cos(inclination), uniform in the angles"""
    U, S = kit.lw.utils, kit.lw.strain
    x, wx = np.polynomial.legendre.leggauss(12)
    ph = np.linspace(0, 2 * np.pi, 16, endpoint=False) + 0.1
    ps = np.linspace(0, np.pi, 16, endpoint=False) + 0.05
    X, P, Q = np.meshgrid(x, ph, ps, indexing="ij")
    W = np.broadcast_to(wx[:, None, None] / 2 / 16 / 16, X.shape)
    with ctx.guard("averages"):
        fp, fx = U.F_plus_squared(np.arccos(X), P, Q), U.F_cross_squared(np.arccos(X), P, Q)
        for name, v in (("plus", fp), ("cross", fx)):
            m = np.sum(W * v)
            ctx.expect(abs(m - 3 / 20) < 1e-12, name, lambda: "sky average of the %s response is %r, not 3/20" % (name, m))
        tot = 0.0
        for ci, wi in zip(x, wx):
            i = np.full(X.size, np.arccos(ci)) * u.rad
            a = S.amplitude_modulation(ecl(P.ravel(), np.pi / 2 - np.arccos(X).ravel()), Q.ravel() * u.rad, i)
            tot += wi / 2 * np.sum(W.ravel() * np.asarray(getattr(a, "value", a)))
        ctx.expect(abs(tot - 5 / 4 * 4 / 5 * 3 / 20) < 1e-12, "modulation", lambda: "average modulation %r, not 3/20" % tot)
    ctx.transitions += 14
    ctx.traces += 1


def frames(frame, tier):
    """the same direction in every frame, with and without a distance in the position"""
    def run(ctx):
        k = 7 if tier == "thorough" else 1
        lons = np.linspace(0, 2 * np.pi, 8 * k, endpoint=False) + 1e-3
        lats = np.array([-1.4, -0.5, 0.6]) if k == 1 else np.linspace(-1.4, 1.4, 3)
        lon, lat = [v.ravel() for v in np.meshgrid(lons, lats)]
        lon, lat = np.append(lon, [6.28, 0.0]), np.append(lat, [0.0, 1.5])
        n = len(lon)
        rows = kit.Spec([(0.6 + 0.01 * i, 0.4, 0.0, 1.0 + i, 2e-3) for i in range(n)])
        psi, inc = np.linspace(0, 3, n), np.linspace(0, 1.5, n)
        for with_dist in (True, False):
            if frame in NEED_DIST and not with_dist:
                continue
            p = ecl(lon, lat, rows.dist * u.kpc if with_dist else None)
            name = NAMES.get(frame, frame)
            fr = SkyCoord([0] * u.deg, [0] * u.deg, frame=name, **FRAMES[frame]).frame.replicate_without_data()
            q = p.transform_to(fr)
            if frame not in ("ecliptic",):
                a, b = [np.asarray(getattr(q.spherical, c).to(u.rad).value) for c in ("lon", "lat")]
                ctx.expect(not np.allclose(a, lon, atol=1e-6) or frame in ("helio",), "harness", "frame does not differ")
            kw = dict(rows.kwargs(), position=q, polarisation=psi * u.rad, inclination=inc * u.rad, interpolate_g=False)
            key = "%s.%d" % (frame, with_dist)
            with ctx.guard(key):
                s = kit.lw.source.Source(**kw)
                ctx.expect(s.position.frame.name == "barycentrictrueecliptic", key, lambda: "position in %s" % s.position.frame.name)
                dl = (s.position.lon.to(u.rad).value - lon + np.pi) % (2 * np.pi) - np.pi
                tol = 1e-8 if frame != "fk4" else 1e-8
                ctx.expect(np.all(np.abs(dl * np.cos(lat)) < tol) and np.all(np.abs(s.position.lat.to(u.rad).value - lat) < tol), key,
                           lambda: "ecliptic coordinates off by %r, %r" % (dl[:3], (s.position.lat.to(u.rad).value - lat)[:3]))
                mod = ref.modulation(lon, lat, psi, inc)
                w = np.sqrt(mod) * ref.h0(rows.mc * ref.MSUN, rows.f, 0.0, 2, rows.dist * ref.KPC)
                expect_close(ctx, key + ".h0", s.get_h_0_n(2)[:, 0], w, 1e-6, 0)
                # one source at a time, scalar position
                for i in (0, n - 2):
                    one = kit.lw.source.Source(m_1=rows.m1[i] * u.Msun, m_2=rows.m2[i] * u.Msun, ecc=0.0, dist=rows.dist[i] * u.kpc,
                                               f_orb=2 * u.mHz, position=q[i], polarisation=psi[i] * u.rad, inclination=inc[i] * u.rad,
                                               interpolate_g=False)
                    expect_close(ctx, key + ".one", one.get_h_0_n(2), w[i].reshape(1, 1), 1e-6, 0)
            ctx.transitions += 4
            ctx.traces += 1
            ctx.state(key)
    return run


SPECN = ("cs", "cs2", "ce", "nc0")
kit.POOL.setdefault("nc0", (8.0, 7.0, 0.0, 5.0, 7e-4))


def collection(cls, interp, tier):
    """every subset and merged pattern; every route to a strain or a stationary SNR"""
    def run(ctx):
        sky = kit.SKY[:4]
        spec, plain = kit.Spec.of(*SPECN, sky=sky), kit.Spec.of(*SPECN)
        lon, lat, psi, inc = np.array(sky).T
        mod = np.sqrt(ref.modulation(lon, lat, psi, inc))
        assert np.ptp(mod) > 0.05
        for order in ((0, 1, 2, 3), (2, 0, 3, 1)):
            o = list(order)
            for merged in itertools.product((False, True), repeat=4):
                mg = np.array(merged)
                avg = kit.build(plain.take(o), cls=cls, interpolate_sc=interp)
                avg.merged = mg.copy()
                with ctx.guard("avg"):
                    h0, hc = avg.get_h_0_n([1, 2, 3]), avg.get_h_c_n([1, 2, 3])
                    stat = avg.get_snr_stationary()
                    evo = avg.get_snr_evolving(n_step=3)
                    isstat = avg.get_source_mask(stationary=True)
                for mask in itertools.product((False, True), repeat=4):
                    m = np.array(mask)
                    key = "%s.%s.%s.%s" % (cls, order, "".join("%d" % x for x in mask), "".join("%d" % x for x in merged))
                    with ctx.guard(key):
                        s = kit.build(spec.take(o), cls=cls, interpolate_sc=interp) if m.all() or not m.any() else s
                        s.merged = mg.copy()
                        mm = mod[o][m]
                        expect_close(ctx, key + ".h0", s.get_h_0_n([1, 2, 3], which_sources=m), h0[m] * mm[:, None], 1e-9, 0)
                        expect_close(ctx, key + ".hc", s.get_h_c_n([1, 2, 3], which_sources=m), hc[m] * mm[:, None], 1e-9, 0)
                        expect_close(ctx, key + ".stationary", s.get_snr_stationary(which_sources=m), stat[m] * mm, 1e-9, 0)
                        # evolving sources have no orbit-averaged response: averaged result
                        expect_close(ctx, key + ".evolving", s.get_snr_evolving(n_step=3, which_sources=m), evo[m], 1e-9, 0)
                        if cls == "Source":
                            w = np.where(m, np.where(isstat, stat * mod[o], evo), 0)
                            expect_close(ctx, key + ".get_snr", s.get_snr(n_step=3, which_sources=m), w, 1e-9, 0)
                        elif m.all():
                            w = stat * mod[o] if cls == "Stationary" else evo
                            expect_close(ctx, key + ".get_snr", s.get_snr(**({} if cls == "Stationary" else {"n_step": 3})), w, 1e-9, 0)
                        sub = s[m]
                        sub.merged = mg[m]
                        if m.any():
                            expect_close(ctx, key + ".selected", sub.get_h_0_n(2)[:, 0], h0[m, 1] * mm, 1e-9, 0)
                            expect_close(ctx, key + ".selected", sub.get_snr_stationary(), stat[m] * mm, 1e-9, 0)
                    ctx.transitions += 6
                    ctx.traces += 1
                    ctx.state(key)
    return run


def functions(tier):
    """module functions with a position: strains with many times and harmonics, stationary circular SNR"""
    def run(ctx):
        S, N = kit.lw.strain, kit.lw.snr
        sky = np.array(kit.SKY)
        mc, d = np.array([0.5, 3.0, 9.0]), np.array([1.0, 0.2, 8.0])
        f = np.array([[1e-4, 3e-4, 8e-4], [2e-3, 5e-3, 9e-3], [1e-5, 4e-5, 7e-5]])
        for rows in itertools.product(range(len(sky)), repeat=3):
            if tier == "quick" and sum(rows) % 3:
                continue
            lon, lat, psi, inc = sky[list(rows)].T
            kw = dict(position=ecl(lon, lat), polarisation=psi * u.rad, inclination=inc * u.rad)
            mod = np.sqrt(ref.modulation(lon, lat, psi, inc))
            key = "%s" % (rows,)
            with ctx.guard(key):
                for y, n in itertools.product((1, 3), ([2], [1, 2, 3])):
                    a = dict(m_c=mc * u.Msun, f_orb=f[:, :y] * u.Hz, ecc=np.zeros((3, y)), n=n, dist=d * u.kpc)
                    expect_close(ctx, key + ".h0", S.h_0_n(**a, **kw), S.h_0_n(**a) * mod[:, None, None], 1e-9, 0)
                    expect_close(ctx, key + ".hc", S.h_c_n(**a, **kw), S.h_c_n(**a) * mod[:, None, None], 1e-9, 0)
                    ctx.transitions += 4
                for t in (1.0, 4.0):
                    a = dict(m_c=mc * u.Msun, f_orb=f[:, 0] * u.Hz, dist=d * u.kpc, t_obs=t * u.yr)
                    w = np.sqrt(ref.h0(mc * ref.MSUN, f[:, 0], 0.0, 2, d * ref.KPC)**2 * t * ref.YR / ref.psd(2 * f[:, 0], t=t * ref.YR))
                    expect_close(ctx, key + ".snr", N.snr_circ_stationary(**a, **kw), w * mod, 1e-6, 0)
                    expect_close(ctx, key + ".snr", N.snr_circ_stationary(**a), w, 1e-6, 0)
                    ctx.transitions += 2
            ctx.traces += 1
            ctx.state(key)
    return run


def draws(tier):
    """every combination of given and drawn orientation values, sizes and random states"""
    def run(ctx):
        for seed, n, gi, gp in itertools.product(range(60 if tier == "thorough" else 12), (1, 2, 300), (True, False), (True, False)):
            lon, lat = np.linspace(0, 6, n), np.linspace(-1.5, 1.5, n)
            row = [(0.6, 0.4, 0.0, 1.0, 2e-3)] * n
            psi, inc = np.linspace(0.1, 3, n), np.linspace(1.5, 0.1, n)
            kw = dict(kit.Spec(row).kwargs(), position=ecl(lon, lat), interpolate_g=False, interpolate_sc=False)
            if gi:
                kw["inclination"] = inc * u.rad
            if gp:
                kw["polarisation"] = psi * u.rad
            key = "draw.%d.%d.%d.%d" % (seed, n, gi, gp)
            with ctx.guard(key):
                np.random.seed(seed)
                s = kit.lw.source.Source(**kw)
                np.random.seed(seed)
                forms = [s]
                if n == 1:
                    forms.append(kit.lw.source.Source(**dict(kw, m_1=0.6 * u.Msun, m_2=0.4 * u.Msun, ecc=0.0, dist=1 * u.kpc, f_orb=2 * u.mHz,
                                                             position=ecl(lon[0], lat[0]))))
                for s in forms:
                    i, p = s.inclination.to(u.rad).value, s.polarisation.to(u.rad).value
                    ctx.expect(i.shape == (n,) and p.shape == (n,), key, lambda: "orientation shapes %s %s" % (i.shape, p.shape))
                    if gi:
                        ctx.expect(np.array_equal(i, inc), key, "the given inclinations were changed")
                    else:
                        ctx.expect(np.all((i >= 0) & (i <= np.pi / 2)), key, lambda: "inclinations between %r and %r" % (i.min(), i.max()))
                        ctx.expect(len(np.unique(i)) == n, key, "sources share a drawn inclination")
                        if n >= 300:
                            c = np.cos(i)
                            ctx.expect(abs(c.mean() - 0.5) < 0.12 and abs(c.std() - 12**-0.5) < 0.06, key,
                                       lambda: "cos(inclination) has mean %r, spread %r" % (c.mean(), c.std()))
                    if gp:
                        ctx.expect(np.array_equal(p, psi), key, "the given polarisations were changed")
                    else:
                        ctx.expect(np.all((p >= 0) & (p <= np.pi)), key, lambda: "polarisations between %r and %r" % (p.min(), p.max()))
                        ctx.expect(len(np.unique(p)) == n, key, "sources share a drawn polarisation")
                        if n >= 300:
                            x = p / np.pi
                            ctx.expect(abs(x.mean() - 0.5) < 0.12 and abs(x.std() - 12**-0.5) < 0.06, key,
                                       lambda: "polarisation has mean %r, spread %r" % (p.mean(), p.std()))
                    # the result follows from the values reported
                    w = np.sqrt(ref.modulation(lon, lat, p, i)) * ref.h0(kit.Spec(row).mc * ref.MSUN, 2e-3, 0.0, 2, ref.KPC)
                    for _ in range(2):
                        expect_close(ctx, key + ".h0", s.get_h_0_n(2)[:, 0], w, 1e-7, 0)
                    again = kit.lw.source.Source(**dict(kw, inclination=s.inclination, polarisation=s.polarisation))
                    ctx.expect(kit.allclose(again.get_snr(), s.get_snr(), 1e-12), key, "not reproducible from the reported orientation")
                    ctx.expect(np.array_equal(s.copy().get_snr(), s.snr) and np.array_equal(s[::-1].get_snr(), s.snr[::-1]), key,
                               "copies or selections draw other values")
                    ctx.transitions += 5
            ctx.traces += 1
            ctx.state(key)
    return run


def seq_unit(tier):
    def run(ctx):
        S, U = kit.lw.strain, kit.lw.utils
        lon, lat, psi, inc = np.array(kit.SKY[:3]).T
        pos = ecl(lon, lat)
        a = dict(m_c=np.array([0.5, 3.0, 9.0]) * u.Msun, f_orb=np.array([1e-3, 2e-3, 3e-3]) * u.Hz, ecc=np.zeros(3), n=[2],
                 dist=np.ones(3) * u.kpc)
        o = dict(position=pos, polarisation=psi * u.rad, inclination=inc * u.rad)
        s = kit.build(kit.Spec.of("cs", "cs2", sky=kit.SKY[:2]))
        calls = {"F+": lambda: U.F_plus_squared(0.3, 1.0, 0.2), "Fx": lambda: U.F_cross_squared(lat, lon, psi),
                 "mod": lambda: S.amplitude_modulation(pos, psi * u.rad, inc * u.rad), "mod2": lambda: S.amplitude_modulation(
                     pos[::-1], inc * u.rad, psi * u.rad), "h0": lambda: S.h_0_n(**a, **o), "h0 avg": lambda: S.h_0_n(**a),
                 "m": lambda: s.get_h_0_n(2), "one": lambda: s[1].get_h_0_n(2), "snr": lambda: s.get_snr_stationary()}
        kit.sequences(ctx, calls, 3 if tier == "quick" else 4)
    return run


def units(tier):
    for cls in ("Source", "Stationary", "Evolving"):
        for interp in (True, False):
            yield "collection/%s/%d" % (cls, interp), collection(cls, interp, tier)
    yield "response", response(tier)
    yield "averages", averages
    for f in FRAMES:
        yield "frames/%s" % f, frames(f, tier)
    yield "functions", functions(tier)
    yield "draws", draws(tier)
    yield "sequences", seq_unit(tier)
