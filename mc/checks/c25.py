"""C25: the bundled verification binaries are complete and behave like any collection.

The table of Kupfer+18 binaries is written down here independently; every attribute of the bundled collection is compared with
it, every calculation with an independent reference per binary, and all histories of operations with the same history of a
collection built by hand from the table (and with single-source collections).
"""
import os
import itertools
import tempfile
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord

from .. import kit, ref, explore, env

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every operation history on the bundled collection in lock-step with a hand-built collection of "
             "the published table (forked real states), every binary x every calculation against independent references")
NOTE = ("All operation histories to the depth in lock-step with a hand-built twin; every attribute of every binary against the published table.")
BOUNDS = {"quick": "all histories of 2 of 23 operations in lock-step with a twin; 16 binaries x 4 instruments x 5 calculations against references",
          "thorough": "all histories of 3 of 23 operations; the same references"}

# Kupfer+18: label, f_GW [mHz], SNR, l, b [deg], m1, m2 [Msun], inclination [deg], distance [pc]
TABLE = [("HM Cnc", 6.22, 211.1, 206.9246, 23.3952, 0.55, 0.27, 38, 5000), ("V407 Vul", 3.51, 169.7, 57.7281, 6.4006, 0.8, 0.177, 60, 1786),
         ("ES Cet", 3.22, 154.3, 168.9684, -65.8632, 0.8, 0.161, 60, 1584), ("SDSS J135154.46\u2013064309.0", 2.12, 21.8, 328.5021, 53.124, 0.8, 0.1, 60, 1317),
         ("AM CVn", 1.94, 101.2, 140.2343, 78.9382, 0.68, 0.125, 43, 299), ("SDSS J190817.07+394036.4", 1.84, 20.3, 70.6664, 13.9349, 0.8, 0.085, 10, 1044),
         ("HP Lib", 1.81, 43.7, 325.0561, 32.5467, 0.49, 0.048, 26, 276), ("PTF1 J191905.19+481506.2", 1.48, 4.0, 79.5945, 15.5977, 0.8, 0.066, 60, 1338),
         ("CXOGBS J175107.6\u2013294037", 1.45, 4.5, 359.9849, -1.4108, 0.8, 0.064, 60, 971), ("CR Boo", 1.36, 21.9, 340.9671, 66.4884, 0.67, 0.044, 30, 337),
         ("V803 Cen", 1.25, 26.2, 309.3671, 20.7262, 0.78, 0.059, 12, 347), ("SDSS J065133.34+284423.4", 2.61, 90.1, 186.9277, 12.6886, 0.247, 0.49, 86.9, 933),
         ("SDSS J093506.92+441107.0", 1.68, 44.9, 176.0796, 47.3376, 0.312, 0.75, 60, 645), ("SDSS J163030.58+423305.7", 0.84, 4.6, 67.076, 43.3604, 0.298, 0.76, 60, 1019),
         ("SDSS J092345.59+302805.0", 0.51, 5.6, 195.8199, 44.7754, 0.275, 0.76, 60, 299), ("CD\u201330 11223", 0.47, 4.9, 322.4875, 28.9379, 0.54, 0.79, 82.9, 337)]
LABELS = [r[0] for r in TABLE]
FGW, SNR, L, B, M1, M2, INC, DIST = [np.array([r[i] for r in TABLE], float) for i in range(1, 9)]
N = len(TABLE)
P1 = kit.CountingPSD("p1")


def setup(tier):
    from . import c20, c21
    c20.setup(tier)
    c21.prepare()
    globals()["c20"], globals()["c21"] = c20, c21


def rotation(axis, t):
    c, s = np.cos(t), np.sin(t)
    return np.array({"x": [[1, 0, 0], [0, c, s], [0, -s, c]], "y": [[c, 0, -s], [0, 1, 0], [s, 0, c]], "z": [[c, s, 0], [-s, c, 0], [0, 0, 1]]}[axis])


def ecliptic():
    """unit vectors of the binaries in the ecliptic frame (J2000), by rotation"""
    l, b = np.radians(L), np.radians(B)
    g = np.array([np.cos(b) * np.cos(l), np.cos(b) * np.sin(l), np.sin(b)])
    ra, dec, lcp = np.radians([192.85948, 27.12825, 122.93192])
    to_gal = rotation("z", np.pi - lcp) @ rotation("y", np.pi / 2 - dec) @ rotation("z", ra)
    return (rotation("x", np.radians(23.4392911)) @ to_gal.T @ g).T


def bundled(seed=0):
    np.random.seed(seed)
    return kit.lw.source.VerificationBinaries()


def rows():
    return [(m1, m2, 0.0, d / 1e3, f / 2e3) for m1, m2, d, f in zip(M1, M2, DIST, FGW)]


def byhand(v, take=None, **kw):
    """the same sources supplied by hand, in the orientation the bundled ones were given"""
    i = np.arange(N) if take is None else np.atleast_1d(take)
    d = dict(m_1=M1[i] * u.Msun, m_2=M2[i] * u.Msun, dist=DIST[i] * u.pc, f_orb=(FGW[i] * u.mHz).to(u.Hz) / 2, ecc=np.zeros(len(i)),
             position=SkyCoord(l=L[i] * u.deg, b=B[i] * u.deg, distance=DIST[i] * u.pc, frame="galactic"), inclination=INC[i] * u.deg, polarisation=v.polarisation[i], interpolate_g=False)
    d.update(kw)
    return kit.lw.source.Source(**d)


# ---- the data -------------------------------------------------------------------------------------------------
def data(ctx):
    vec = ecliptic()
    for seed in range(12):
        v = bundled(seed)
        for name, want, unit in (("m_1", M1, u.Msun), ("m_2", M2, u.Msun), ("dist", DIST, u.pc), ("f_orb", FGW / 2e3, u.Hz), ("inclination", INC, u.deg)):
            got = getattr(v, name)
            ctx.expect(isinstance(got, u.Quantity) and got.shape == (N,) and kit.allclose(got.to(unit).value, want, 1e-12), name, lambda: "%s is %r, published %r" % (name, got, want))
        ctx.expect(v.ecc.shape == (N,) and np.all(v.ecc == 0), "ecc", lambda: "eccentricities %r" % v.ecc)
        ctx.expect(list(v.labels) == LABELS, "labels", lambda: "labels %r" % (v.labels,))
        ctx.expect(np.shape(v.true_snr) == (N,) and np.array_equal(np.asarray(v.true_snr, float), SNR), "true_snr", lambda: "published SNRs %r" % (v.true_snr,))
        ctx.expect(v.n_sources == N and len(v) == N, "count", lambda: "%r sources" % v.n_sources)
        ctx.expect(np.array_equal(v.max_snr_harmonic, np.full(N, 2)), "harmonic", lambda: "%r" % (v.max_snr_harmonic,))
        ctx.expect(v.merged.shape == (N,) and not v.merged.any() and v.weights is None and v.snr is None and v.t_merge is None, "fresh", "state of a fresh collection")
        ctx.expect(repr(v) == "<VerificationBinaries | Kupfer+2018>", "repr", lambda: repr(v))
        p = v.position
        ctx.expect(p.frame.name == "barycentrictrueecliptic" and p.shape == (N,), "frame", lambda: "positions in %s %r" % (p.frame.name, p.shape))
        lon, lat = p.lon.to(u.rad).value, p.lat.to(u.rad).value
        got = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]).T
        sep = np.arccos(np.clip((got * vec).sum(1), -1, 1))
        ctx.expect(np.all(sep < 5e-4), "position", lambda: "positions off by %r rad" % sep)
        ctx.expect(kit.allclose(p.distance.to(u.pc).value, DIST, 1e-12), "position distance", lambda: "distances %r" % p.distance)
        psi = v.polarisation
        ctx.expect(psi.shape == (N,) and np.all((psi.to(u.rad).value >= 0) & (psi.to(u.rad).value <= np.pi)) and len(np.unique(psi.value)) == N, "polarisation", lambda: "%r" % psi)
        mc = ref.chirp_mass(M1, M2)
        ctx.expect(kit.allclose(v.m_c.to(u.Msun).value, mc, 1e-9), "m_c", lambda: "%r" % v.m_c)
        ctx.expect(kit.allclose(v.a.to(u.m).value, ref.a_of_f(FGW / 2e3, M1 * ref.MSUN, M2 * ref.MSUN), 1e-6), "a", lambda: "%r" % v.a)
        for c in (True, None):
            for st in (True, None):
                ctx.expect(v.get_source_mask(c, st).all(), "class", "not circular and stationary")
        for ind in (0, -1, slice(None), [0, 1], np.ones(N, bool)):
            try:
                v[ind]
                ctx.fail("index", "accepted %r" % (ind,))
            except NotImplementedError:
                pass
        # the same binaries whatever is done with earlier ones
        v.m_1 *= 2
        v.labels[0] = "x"
        v.true_snr[:] = 0
        v.f_orb[:] = 1 * u.Hz
        ctx.transitions += 1
        ctx.traces += 1
        ctx.state(seed)


def calculations(part):
    """every calculation of every binary against independent references and single hand-built sources"""
    def run(ctx):
        settings = [{}, {"t_obs": 1 * u.yr}, {"instrument": "TianQin"}, {"instrument": "DECIGO", "t_obs": 2 * u.yr}, {"instrument": "custom", "custom_psd": P1}, {"confusion_noise": "robson19", "approximate_R": True}]
        st = settings[part]
        model = dict(c20.DEFAULT, **st)
        for seed in range(4):
            v = bundled(seed)
            lon, lat = v.position.lon.to(u.rad).value, v.position.lat.to(u.rad).value
            mod = np.array([ref.modulation(lon[i], lat[i], v.polarisation.to(u.rad).value[i], np.radians(INC[i])) for i in range(N)])
            for route in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
                key = "%s.%d.%d" % (route, part, seed)
                with ctx.guard(key):
                    w = bundled(seed)
                    kw = dict(st) if route == "get_snr_stationary" else dict(st, n_step=c20.N_STEP)
                    want = c20.expected(rows(), model, route, mods=mod)
                    c20.compare(ctx, key, w, getattr(w, route)(**kw), want, tol=1e-2)
                    for i in range(N):
                        one = byhand(v, i)
                        got = getattr(one, route)(**kw)
                        ctx.expect(kit.allclose(got, w.snr[i:i + 1], 1e-9), key + ".alone", lambda: "%s has SNR %r alone and %r among the others" % (LABELS[i], got, w.snr[i]))
                        ctx.transitions += 1
                        ctx.state((key, i))
            if not st:
                # the published SNRs come from a full simulation: the averaged ones are of their order, those in orientation below
                avg = np.array([np.sqrt(x[0].sum()) for x in c20.expected(rows(), model, "get_snr")])
                r = avg / np.asarray(w.true_snr)
                ctx.expect(np.all((r > 1 / 3) & (r < 3)), "published", lambda: "averaged / published SNR %r" % r)
                w.get_snr()
                r = w.snr / np.asarray(w.true_snr)
                ctx.expect(np.all((r > 1 / 10) & (r < 3)), "published", lambda: "SNR / published %r" % r)
            for ns in (1, 2, 3, [1, 2, 3], [2, 4]):
                n = np.atleast_1d(ns)
                h = np.where(n[None, :] == 2, np.array([ref.h0(ref.chirp_mass(r[0], r[1]) * ref.MSUN, r[4], 0.0, 2, r[3] * ref.KPC) for r in rows()])[:, None] * np.sqrt(mod)[:, None], 0.0)
                got = v.get_h_0_n(ns)
                got = np.asarray(got.value if hasattr(got, "value") else got)
                ctx.expect(kit.allclose(got.reshape(h.shape), h, 1e-5), "h_0_n", lambda: "strains %r, expected %r" % (got[:3], h[:3]))
                ctx.transitions += 1
            tm = v.get_merger_time()
            want = np.array([ref.t_merge(ref.a_of_f(r[4], r[0] * ref.MSUN, r[1] * ref.MSUN), 0.0, ref.beta(r[0] * ref.MSUN, r[1] * ref.MSUN)) for r in rows()])
            ctx.expect(kit.allclose(tm.to(u.s).value, want, 1e-4), "t_merge", lambda: "merger times %r, expected %r s" % (tm.to(u.s), want))
            ctx.traces += 1
    return run


# ---- in lock-step with a collection built by hand ------------------------------------------------------------------
class World:
    def __init__(self, style):
        self.v = bundled(5)
        self.h = byhand(self.v)
        self.h.max_snr_harmonic = np.repeat(2, N).astype(int)
        if style == "published":
            self.v.snr = np.array(self.v.true_snr)
            self.h.snr = SNR.copy()
        self.kind = None


def both(fn):
    def op(w, ctx):
        res = []
        for s in (w.v, w.h):
            np.random.seed(9)
            try:
                r = fn(s)
                res.append(("ok", kit.plain_result(r) if r is not None else None))
            except Exception as e:
                res.append(("error", type(e).__name__))
        ctx.expect(res[0] == res[1], "result", lambda: "bundled %r, by hand %r" % (str(res[0])[:120], str(res[1])[:120]))
        ctx.evaluations += 1
    return op


def plotted(fn):
    def go(s):
        import matplotlib.pyplot as plt
        fig, ax = fn(s)
        if ax is None:
            return None
        a = c21.artists(ax)
        out = [np.asarray(x, float) for x in a["lines"]] + [np.asarray(x, float) for p in a["sets"] for x in p]
        plt.close("all")
        return out
    return go


def saved(s):
    fd, name = tempfile.mkstemp(dir=env.SCRATCH, suffix=".h5")
    os.close(fd)
    os.unlink(name)
    s.save(name)
    try:
        t = kit.lw.source.Source.from_file(name)
    finally:
        os.unlink(name)
    return [t.m_1, t.f_orb, t.ecc, t.polarisation, t.get_snr_stationary()]


MASK = np.arange(N) % 3 == 1
OPS = [("snr", both(lambda s: s.get_snr())), ("TianQin snr", both(lambda s: s.get_snr(instrument="TianQin", t_obs=2 * u.yr))), ("stationary subset", both(lambda s: s.get_snr_stationary(which_sources=MASK))),
       ("evolving", both(lambda s: s.get_snr_evolving(n_step=5))), ("custom snr", both(lambda s: s.get_snr(instrument="custom", custom_psd=P1))), ("h0", both(lambda s: s.get_h_0_n([1, 2, 3]))),
       ("hc", both(lambda s: s.get_h_c_n(2, which_sources=MASK))), ("merger", both(lambda s: s.get_merger_time())), ("merger subset", both(lambda s: s.get_merger_time(save_in_class=False, which_sources=MASK))),
       ("evolve", both(lambda s: s.evolve_sources(1e5 * u.yr))), ("evolve some", both(lambda s: s.evolve_sources(np.where(MASK, 1e9, 1.0) * u.yr))), ("evolve new", both(lambda s: s.evolve_sources(1e6 * u.yr, create_new_class=True).f_orb)),
       ("DECIGO", both(lambda s: s.sc_params.update(instrument="DECIGO"))), ("settings", both(lambda s: setattr(s, "sc_params", {"L": 1e9 * u.m, "approximate_R": True}))), ("tolerance", both(lambda s: setattr(s, "gw_lum_tol", 0.01))),
       ("mask", both(lambda s: [s.get_source_mask(c, t, t_obs=1e4 * u.yr) for c in (None, True, False) for t in (None, True, False)])), ("unknown", both(lambda s: s.sc_params.update(x=1))),
       ("plot curve", both(plotted(lambda s: s.plot_sources_on_sc(show=False)))), ("plot colours", both(plotted(lambda s: s.plot_sources_on_sc(show=False, scatter_s=100, marker="*", c=s.m_1.to(u.Msun).value, snr_cutoff=5)))),
       ("plot variables", both(plotted(lambda s: s.plot_source_variables("f_GW", "m_c", which_sources=MASK, show=False)))), ("plot snr", both(plotted(lambda s: s.plot_source_variables("snr", show=False)))),
       ("save", both(saved)), ("published", both(lambda s: setattr(s, "snr", SNR.copy())))]


def check(w, ctx):
    a, b = kit.observe(w.v), kit.observe(w.h)
    d = kit.diff(b, a, skip=("class",))
    ctx.expect(not d, "twin", lambda: "bundled %s\nby hand %s" % (kit.show(a, d), kit.show(b, d)))
    ctx.expect(list(w.v.labels) == LABELS and np.array_equal(w.v.true_snr, SNR) and type(w.v).__name__ == "VerificationBinaries", "own", "labels or published SNRs changed")
    ctx.expect(w.v.snr is None or w.v.snr is not w.v.true_snr, "own", "the published SNRs are the collection's own")
    ctx.evaluations += 1


def history_unit(style, first, depth):
    def run(ctx):
        w = World(style)
        fn = dict(OPS)[first]

        def begin(child):
            child.path = (first,)
            fn(w, child)
            child.transitions += 1
            explore.histories(child, w, OPS, check, depth - 1, canon=lambda w: (tuple(child.path), w.v.snr is None, w.v.t_merge is None, tuple(w.v.merged), str(kit.settings_of(w.v)), w.v.gw_lum_tol,
                                                                              None if w.v.snr is None else np.round(w.v.snr, 9).tobytes(), w.v.f_orb.value.tobytes()))
        check(w, ctx)
        explore.in_child(ctx, begin)
    return run


def units(tier):
    deep = tier == "thorough"
    for style in ("fresh", "published"):
        for name, _ in OPS:
            yield "history/%s/%s" % (style, name), history_unit(style, name, (3 if deep else 2) if style == "fresh" else 2 if deep else 1)
    yield "data", data
    for part in range(6):
        yield "calculations/%d" % part, calculations(part)
