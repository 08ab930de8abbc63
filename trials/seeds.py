"""Planted bugs kept in /verif/seeded: (id, property, trial name or edits, needs, what_it_breaks, demonstration)

`python3 trials/plant.py [PATTERN]` writes and verifies them."""
SEEDS = []


def P(ident, prop, what, needs, breaks, demo):
    SEEDS.append(dict(id=ident, property=prop, what=what, needs=needs, breaks=breaks, demo=demo))


P("c01-copy-bound-to-original", "C01", "copy-bound-to-original",
  "a selection or copy is made first and a setting is changed on that selection afterwards",
  "the settings of a selection notify the original collection, so the selection keeps a noise curve of its old settings",
  """
s = make([10, 20, 30], [8, 9, 10], 0.0, [1e-3, 2e-3, 3e-3])
part = s[:2]
part.sc_params["instrument"] = "TianQin"
f = np.logspace(-4, -1, 30) * u.Hz
close(part.sc(f), psd.power_spectral_density(f, instrument="TianQin"), 1e-2, "curve of the selection")
close(s.sc(f), psd.power_spectral_density(f), 1e-2, "curve of the original")
""")
P("c01-update-all-instead-of-any", "C01", "update-first-key",
  "one update that names several settings of which at least one keeps its value",
  "updating several settings at once recomputes the noise curve only when every one of them differs",
  """
s = make([10, 20], [8, 9], 0.0, [1e-3, 2e-3])
s.sc_params.update({"instrument": "LISA", "confusion_noise": None})
f = np.logspace(-4, -1, 30) * u.Hz
close(s.sc(f), psd.power_spectral_density(f, confusion_noise=None), 1e-2, "curve after update")
""")
P("c06-vector-evolution-keeps-merger-times", "C06", "evolve-keeps-merger-time",
  "merger times known, then an in-place evolution with one time per source, then an evolving SNR",
  "in-place evolution with a time per source leaves the known merger times as they were, so later SNRs integrate too far",
  """
def build():
    s = make([30, 30], [30, 30], 0.0, [3e-2, 2e-2])
    return s
s = build()
t = s.get_merger_time()
s.evolve_sources([0.9, 0.5] * t)
fresh = source.Source(m_1=s.m_1, m_2=s.m_2, ecc=s.ecc, dist=s.dist, f_orb=s.f_orb, interpolate_g=False)
close(s.t_merge, fresh.get_merger_time(), 1e-4, "merger times left")
close(s.get_snr(), fresh.get_snr(), 1e-3, "SNR after evolution")
""")
P("c02-loudest-harmonic-never-drops", "C02", "msh-kept-if-larger",
  "two evolving SNR calculations with settings in which the loudest harmonic of the second is lower",
  "the loudest harmonic recorded by an evolving SNR is the largest of all calculations so far",
  """
def build():
    return make([0.6, 0.6], [0.6, 0.6], [0.6, 0.5], [3e-4, 1e-3], dist=1.0)
steep = dict(instrument="custom", t_obs=4 * u.yr, L=1e9 * u.m, custom_psd=lambda f, *args, **kwargs: f.to(u.Hz).value**4 / u.Hz)
flat = dict(steep, custom_psd=lambda f, *args, **kwargs: f.to(u.Hz).value**-4 / u.Hz)
s = build()
s.get_snr_evolving(**flat)
high = s.max_snr_harmonic.copy()
s.get_snr_evolving(**steep)
fresh = build()
fresh.get_snr_evolving(**steep)
assert (high > fresh.max_snr_harmonic).all(), (high, fresh.max_snr_harmonic)
close(s.max_snr_harmonic, fresh.max_snr_harmonic, what="loudest harmonics")
""")
P("c03-repeated-indices-dropped", "C03", "lists-unique",
  "a list or integer array of indices with a repeated index",
  "selecting the same source twice by an index list gives it only once",
  """
s = make([10, 20, 30], [8, 9, 10], 0.0, [1e-3, 2e-3, 3e-3])
close(s[[2, 0, 2]].m_1, [30, 10, 30] * u.Msun, what="primaries")
""")
P("c03-distances-not-selected", "C03", "distance-from-all",
  "sources with positions, selected by anything but a prefix",
  "the sky positions of a selection carry the distances of the first sources of the collection",
  """
from astropy.coordinates import SkyCoord
pos = SkyCoord([10, 20, 30] * u.deg, [1, 2, 3] * u.deg, distance=[1, 2, 3] * u.kpc, frame="barycentrictrueecliptic")
s = make([10, 20, 30], [8, 9, 10], 0.0, [1e-3, 2e-3, 3e-3], dist=[1, 2, 3], position=pos)
close(s[1:].position.distance, [2, 3] * u.kpc, what="distances")
""")
P("c04-merged-flags-lost", "C04", "merged-forgotten",
  "sources merge through an evolution without merger times recorded, then a save and reload",
  "merged flags are restored from a file only if merger times were saved too",
  """
import os
path = os.path.join(legdemo.BASE, "x.h5")
s = make([30, 30], [30, 30], 0.0, [1e-1, 1e-3])
s.evolve_sources(10 * u.yr)
assert s.merged.tolist() == [True, False]
s.t_merge = None
s.save(path)
back = source.Source.from_file(path)
assert back.merged.tolist() == [True, False], back.merged
assert back.get_snr()[0] == 0
""")
P("c04-override-false-ignored", "C04", "override-ignored",
  "loading with interpolate_sc=False a collection that was saved with interpolation",
  "a loader override of False is treated like no override",
  """
import os
path = os.path.join(legdemo.BASE, "x.h5")
s = make([30, 30], [30, 30], 0.0, [1e-2, 1e-3])
s.save(path)
assert not source.Source.from_file(path, interpolate_sc=False).interpolate_sc
assert source.Source.from_file(path).interpolate_sc
""")
P("c05-chirp-mass-remembered", "C05", "chirp-mass-kept",
  "reading the chirp mass, then assigning new masses of the same length",
  "the chirp mass is remembered and not recomputed when masses are re-assigned",
  """
s = make([30, 30], [30, 30], 0.0, [1e-2, 1e-3])
s.m_c
s.m_1 = [10, 20] * u.Msun
close(s.m_c, utils.chirp_mass([10, 20] * u.Msun, [30, 30] * u.Msun), what="chirp mass")
""")
P("c05-tolerance-close-enough", "C05", "tolerance-close-enough",
  "re-assigning the luminosity tolerance to a nearby but stricter value",
  "small changes of the luminosity tolerance are ignored, so thresholds and harmonics functions stay those of the old one",
  """
s = make([30], [30], 0.3, [1e-2], gw_lum_tol=0.003)
s.gw_lum_tol = 0.0015
fresh = make([30], [30], 0.3, [1e-2], gw_lum_tol=0.0015)
assert s.gw_lum_tol == 0.0015
close(s.ecc_tol, fresh.ecc_tol, what="threshold")
e = np.linspace(0, 0.9, 50)
close(s.harmonics_required(e), fresh.harmonics_required(e), what="harmonics")
""")
P("c06-vector-times-first-rows", "C06", "vector-times-ecc",
  "an evolution with one time per source in a collection where an already merged or circular source precedes an eccentric one",
  "eccentric sources are evolved by the times of other sources when some sources have merged",
  """
s = make([30, 30, 30, 30], [30, 30, 30, 30], [0.3, 0.2, 0.4, 0.0], [1e-3, 8e-2, 1e-3, 1e-3])
t = np.array([20., 50., 90., 7.]) * u.yr
whole = s
e_0, f_0 = s.ecc.copy(), s.f_orb.to(u.Hz).value.copy()
whole.evolve_sources(t)
for i in range(4):
    one = make([30], [30], e_0[i], f_0[i])
    one.evolve_sources(t[i])
    close(whole.f_orb[i], one.f_orb[0], 1e-4, "frequency of %d" % i)
    close(whole.ecc[i], one.ecc[0], 1e-4, "eccentricity of %d" % i)
""")
P("c06-new-class-merger-times-by-longest", "C06", "new-class-merger-time",
  "merger times known, evolution into a new collection with different times per source",
  "the new collection's merger times are all counted down by the longest evolution time",
  """
s = make([30, 30], [30, 30], 0.0, [1e-2, 1.1e-2])
t = s.get_merger_time()
new = s.evolve_sources([0.1, 0.5] * t, create_new_class=True)
close(new.t_merge, t * [0.9, 0.5], 1e-6, "merger times left")
""")
P("c07-resurrected-at-zero", "C07", "resurrect-at-zero",
  "an evolution by exactly the merger time of a source (or by zero after it has merged)",
  "a source whose merger time equals the evolution time is not marked as merged",
  """
s = make([30, 30], [30, 30], 0.0, [1e-1, 1e-3])
t = s.get_merger_time()
s.evolve_sources(t[0])
assert s.merged.tolist() == [True, False], s.merged
s.evolve_sources(0 * u.yr)
assert s.merged.tolist() == [True, False], s.merged
""")
P("c07-merged-circular-evolving-loud", "C07", "evolving-loud",
  "merged circular sources in a collection asked for its evolving SNR directly",
  "merged circular sources are given to the evolving SNR estimator and spoil the collection's evolving SNRs",
  """
s = make([30, 30, 30], [30, 30, 30], [0.0, 0.0, 0.3], [2e-1, 1e-2, 1e-2])
s.evolve_sources(1 * u.yr)
assert s.merged.tolist() == [True, False, False]
got = s.get_snr_evolving()
assert got[0] == 0, got
""")
P("c08-harmonics-of-most-eccentric", "C08", "harmonics-of-most-eccentric",
  "a mildly eccentric stationary source in one collection with a very eccentric one",
  "the number of harmonics summed for a stationary source is that of the most eccentric one it sits with",
  """
s = make([0.6] * 3, [0.6] * 3, [0.0, 0.2, 0.8], [1e-3, 1e-3, 1e-3], gw_lum_tol=0.05)
together = s.get_snr()
for i in range(3):
    close(s[[i]].get_snr(), together[[i]], 1e-9, "source %d" % i)
""")
P("c08-frozen-at-latest-time-of-all", "C08", "previous-of-all",
  "eccentric sources near merger evolved together with sources given much longer time steps, avoiding mergers",
  "a source close to merger is frozen at a time that depends on the other sources' time steps",
  """
kw = dict(n_step=40, output_vars=["ecc", "f_orb", "timesteps"], avoid_merger=True, t_before=1 * u.yr)
m, e, f = [30, 30] * u.Msun, np.array([0.3, 0.4]), [5e-3, 1e-3] * u.Hz
t = evol.get_t_merge_ecc(ecc_i=e, m_1=m, m_2=m, f_orb_i=f) * [1.5, 0.8]
both = evol.evol_ecc(m_1=m, m_2=m, ecc_i=e, f_orb_i=f, t_evol=t, **kw)
for i in range(2):
    one = evol.evol_ecc(m_1=m[i:i + 1], m_2=m[i:i + 1], ecc_i=e[i:i + 1], f_orb_i=f[i:i + 1], t_evol=t[i:i + 1], **kw)
    for a, b in zip(both, one):
        close(a[i], b[0], 1e-5, "source %d" % i)
""")
P("c09-mission-length-unit", "C09", "mission-unit",
  "a mission length given in a unit other than years to the tabulated confusion models",
  "the nearest tabulated mission length is found from the bare number, whatever its unit",
  """
f = np.logspace(-4, -2, 20) * u.Hz
close(psd.get_confusion_noise(f, t_obs=(1 * u.yr).to(u.s), model="huang20"), psd.get_confusion_noise(f, t_obs=1 * u.yr, model="huang20"), what="huang20")
""")
P("c09-stationary-unit", "C09", "chirp-unit",
  "orbital frequencies given in a unit other than hertz to the stationarity test",
  "the relative frequency growth is computed from bare numbers of different units",
  """
m = [1, 30] * u.Msun
f = [1e-3, 8e-3] * u.Hz
kw = dict(t_evol=4 * u.yr, ecc_i=np.array([0.0, 0.0]), m_1=m, m_2=m)
a = evol.determine_stationarity(f_orb_i=f, **kw)
b = evol.determine_stationarity(f_orb_i=f.to(u.mHz), **kw)
assert a.tolist() == [True, False] and b.tolist() == a.tolist(), (a, b)
""")
P("c10-growth-relative-to-final", "C10", "relative-to-final",
  "a stationarity tolerance large enough that initial and final frequencies differ noticeably, and a growth between the two readings",
  "the growth is compared with the final frequency instead of the initial one",
  """
m = np.array([30.0]) * u.Msun
f = np.array([1e-2]) * u.Hz
t = evol.get_t_merge_circ(m_1=m, m_2=m, f_orb_i=f)
t_evol = t * (1 - 1.25**(-8 / 3))        # the frequency grows by a quarter of its initial value
for tol, expected in ((0.22, False), (0.26, True)):
    got = evol.determine_stationarity(t_evol=t_evol[0], ecc_i=np.array([0.0]), m_1=m, m_2=m, f_orb_i=f, stat_tol=tol)
    assert bool(got[0]) is expected, (tol, got)
""")
P("c10-given-time-ignored-with-class", "C10", "time-ignored",
  "a class request that names both an orbit shape and an observing time different from the stored one",
  "the observing time given is ignored when circular or eccentric sources are asked for",
  """
s = make([10], [10], 0.0, [1e-3])
t = 500 * u.yr
alone = s.get_source_mask(stationary=False, t_obs=t)
both = s.get_source_mask(circular=True, stationary=False, t_obs=t)
assert alone.tolist() == [True] and both.tolist() == [True], (alone, both)
""")
P("c11-drift-of-high-harmonics", "C11", "fn-dot-n",
  "harmonics above the hundredth",
  "the frequency drift stops growing with the harmonic number above 100",
  """
kw = dict(m_c=20 * u.Msun, f_orb=1e-3 * u.Hz, e=0.5)
close(utils.fn_dot(n=300, **kw), 3 * utils.fn_dot(n=100, **kw), what="drift")
""")
P("c11-decay-constant-two-places", "C11", "c0-both",
  "separations and frequencies from decay constants at high eccentricity, compared with the published exponent",
  "the exponent in Peters' c_0 and in the separation as a function of eccentricity are both wrong and invert each other",
  """
e = np.array([0.1, 0.5, 0.9])
c0 = utils.c_0(a_i=[1, 1, 1] * u.AU, ecc_i=e)
close(c0, (1 - e**2) * e**(-12 / 19) * (1 + 121 / 304 * e**2)**(-870 / 2299) * u.AU, 1e-8, "c_0")
""")
P("c12-mean-beta-of-circular", "C12", "circular-in-mix",
  "circular and eccentric sources of different masses in one merger time call",
  "circular sources in a mixed call use the mean decay constant of all sources",
  """
m = [1, 30, 20] * u.Msun
f = [1e-3, 1e-3, 2e-3] * u.Hz
t = evol.get_t_merge_ecc(m_1=m, m_2=m, f_orb_i=f, ecc_i=np.array([0.0, 0.4, 0.0]))
c = evol.get_t_merge_circ(m_1=m, m_2=m, f_orb_i=f)
close(t[[0, 2]], c[[0, 2]], 1e-6, "circular sources")
""")
P("c12-tiny-eccentricities-lost", "C12", "tolerance-ignored",
  "a collection with eccentricities below 0.001 but not zero and a small-eccentricity threshold",
  "tiny eccentricities are in no regime and get a merger time of zero",
  """
e = np.array([0.0, 5e-4, 5e-3, 0.05])
m, a = [10] * 4 * u.Msun, [0.01] * 4 * u.AU
t = evol.get_t_merge_ecc(ecc_i=e, a_i=a, m_1=m, m_2=m, small_e_tol=1e-2)
close(t, evol.get_t_merge_circ(a_i=a, m_1=m, m_2=m), 0.05, "merger times of nearly circular orbits")
""")
P("c13-pool-constants-of-first", "C13", "pool-single",
  "several different eccentric sources evolved with more than one process",
  "with several processes every source is evolved with the first source's constant",
  """
m, e, f = [30, 10] * u.Msun, np.array([0.3, 0.6]), [1e-3, 2e-4] * u.Hz
kw = dict(avoid_merger=False, ecc_i=e, m_1=m, m_2=m, f_orb_i=f, n_step=20, t_evol=0.7 * evol.get_t_merge_ecc(ecc_i=e, m_1=m, m_2=m, f_orb_i=f), output_vars=["ecc", "f_orb"])
a, b = evol.evol_ecc(n_proc=1, **kw), evol.evol_ecc(n_proc=2, **kw)
for x, y in zip(a, b):
    close(x, y, 1e-6, "evolution")
""")
P("c13-timesteps-reported-linear", "C13", "timesteps-out",
  "times given explicitly and unevenly, with the time steps asked back",
  "the reported time steps of a circular or eccentric evolution are a linear grid between the first and last one",
  """
t = [0, 1, 5, 10] * u.yr
out = evol.evol_ecc(ecc_i=0.3, m_1=30 * u.Msun, m_2=30 * u.Msun, f_orb_i=1e-3 * u.Hz, timesteps=t, t_before=1 * u.yr, output_vars=["timesteps", "ecc"])
close(np.squeeze(out[0].value) * out[0].unit, t, 1e-9, "times")
""")
P("c14-first-eccentricity-normalises", "C14", "first-ecc",
  "characteristic strains of an eccentric source at several times of its evolution",
  "the characteristic strain of every time is normalised by the eccentricity of the first time",
  """
e = np.array([[0.6, 0.5, 0.3]])
f = np.array([[1e-3, 1.2e-3, 2e-3]]) * u.Hz
m, d = np.array([10.]) * u.Msun, np.array([8.]) * u.kpc
n = np.arange(1, 6)
h = strain.h_c_n(m_c=m, f_orb=f, ecc=e, n=n, dist=d)
for k in range(3):
    close(h[:, k], strain.h_c_n(m_c=m, f_orb=f[:, k], ecc=e[:, k], n=n, dist=d)[:, 0], 1e-8, "time %d" % k)
""")
P("c14-harmonics-in-ascending-order", "C14", "harmonics-sorted",
  "strains of a collection asked for harmonics that are not in ascending order",
  "the strains are returned in ascending order of harmonics instead of the order asked for",
  """
s = make([10], [10], 0.4, [1e-3])
up, down = s.get_h_0_n([2, 5]), s.get_h_0_n([5, 2])
close(up[:, ::-1], down, 1e-10, "h_0")
up, down = s.get_h_c_n([2, 5]), s.get_h_c_n([5, 2])
close(up[:, ::-1], down, 1e-10, "h_c")
""")
P("c15-southern-sky", "C15", "southern",
  "positions below the ecliptic with a polarisation for which the two hemispheres differ",
  "the response of a source in the southern sky is that of its mirror image",
  """
from astropy.coordinates import SkyCoord
for lat in (40, -40):
    pos = SkyCoord([70] * u.deg, [lat] * u.deg, distance=[8] * u.kpc, frame="barycentrictrueecliptic")
    pol, inc = [0.4] * u.rad, [0.7] * u.rad
    s = make([10], [10], 0.0, [1e-3], dist=8, position=pos, polarisation=pol, inclination=inc)
    bare = make([10], [10], 0.0, [1e-3], dist=8)
    th, ph = np.pi / 2 * u.rad - pos.lat, pos.lon
    ap, ac = (1 + np.cos(inc)**2) / 2, np.cos(inc)
    r = 1.25 * ap**2 * utils.F_plus_squared(th, ph, pol) + 1.25 * ac**2 * utils.F_cross_squared(th, ph, pol)
    close((s.get_h_0_n(2) / bare.get_h_0_n(2))[0]**2, r, 1e-6, "modulation at %d" % lat)
""")
P("c15-orientation-of-first", "C15", "subset-orientation",
  "stationary SNRs of a subset with positions that is not a prefix of the collection",
  "a subset of sources is given the polarisations of the first sources of the collection",
  """
from astropy.coordinates import SkyCoord
pos = SkyCoord([70, 20, 200] * u.deg, [40, -30, 10] * u.deg, distance=[8] * 3 * u.kpc, frame="barycentrictrueecliptic")
s = make([10] * 3, [10] * 3, 0.0, [1e-3] * 3, dist=8, position=pos, polarisation=[0.1, 0.9, 1.7] * u.rad, inclination=[0.3, 0.8, 1.2] * u.rad)
every = s.get_snr_stationary().copy()
close(s.get_snr_stationary(which_sources=np.array([False, True, True])), every[1:], 1e-8, "subset")
""")
P("c16-tianqin-arm-for-transfer", "C16", "tianqin-arm",
  "TianQin with an arm length other than its default",
  "the transfer frequency of TianQin stays that of its default arm length",
  """
from astropy import constants as const
f = np.logspace(-4, 0, 40) * u.Hz
got = psd.power_spectral_density(f, instrument="TianQin", L=4e5 * u.km, confusion_noise=None)
L = 4e5 * u.km
fs = const.c / (2 * np.pi * L)
Sa, Sx = 1e-30 * u.m**2 * u.s**-4 / u.Hz, 1e-24 * u.m**2 / u.Hz
x = (f / fs).decompose().value
w = (1 / L**2 * (4 * Sa / (2 * np.pi * f)**4 * (1 + 1e-4 * u.Hz / f) + Sx) * 10 / 3 * (1 + 0.6 * x**2)).to(1 / u.Hz)
close(got, w, 1e-6, "TianQin noise")
""")
P("c16-low-frequency-cosine", "C16", "low-frequency-noise",
  "frequencies comparable with the transfer frequency, compared with the published expression",
  "the acceleration noise of LISA loses its dependence on the transfer frequency",
  """
from astropy import constants as const
f = np.logspace(-3, -1, 40) * u.Hz
got = psd.power_spectral_density(f, approximate_R=True, confusion_noise=None)
L = 2.5e9
x = f.value / (3e8 / (2 * np.pi * L))
x = (f / (const.c / (2 * np.pi * L * u.m))).decompose().value
fv = f.value
acc = (3e-15)**2 * (1 + (0.4e-3 / fv)**2) * (1 + (fv / 8e-3)**4)
oms = (15e-12)**2 * (1 + (2e-3 / fv)**4)
w = 10 / (3 * L**2) * (oms + 2 * (1 + np.cos(x)**2) * acc / (2 * np.pi * fv)**4) * (1 + 0.6 * x**2)
close(got.value, w, 1e-3, "LISA noise")
""")
P("c17-nearest-in-logarithm", "C17", "log-nearest",
  "a mission length nearer to one tabulated length linearly and to another logarithmically",
  "the nearest tabulated mission length is found in the logarithm",
  """
f = np.logspace(-4, -2.5, 20) * u.Hz
close(psd.get_confusion_noise(f, t_obs=2.9 * u.yr, model="robson19"), psd.get_confusion_noise(f, t_obs=2 * u.yr, model="robson19"), what="2.9 years")
""")
P("c18-loudest-by-numerator", "C18", "loudest-by-strain",
  "an eccentric stationary source whose loudest harmonic in SNR is not the one with the strongest strain",
  "the loudest harmonic is that of the signal, not of signal over noise",
  """
kw = dict(m_c=np.array([1.]) * u.Msun, f_orb=np.array([1e-4]) * u.Hz, ecc=np.array([0.3]), dist=np.array([8.]) * u.kpc, t_obs=4 * u.yr)
total, loud = snr.snr_ecc_stationary(harmonics_required=12, ret_max_snr_harmonic=True, **kw)
each = np.sqrt(np.diff([snr.snr_ecc_stationary(harmonics_required=k, **kw)[0]**2 for k in range(1, 13)], prepend=0))
assert loud[0] == each.argmax() + 1 or abs(each[loud[0] - 1] / each.max() - 1) < 1e-9, (loud, each)
""")
P("c18-given-merger-time-unused", "C18", "given-merger-time",
  "an evolving circular SNR with a merger time given that is not the one of the orbit's formula",
  "a merger time that is given is ignored",
  """
kw = dict(m_1=np.array([30.]) * u.Msun, m_2=np.array([30.]) * u.Msun, f_orb_i=np.array([3e-2]) * u.Hz, dist=np.array([8.]) * u.Mpc, t_obs=100 * u.yr, n_step=500)
m = dict(m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb_i"])
t = evol.get_t_merge_circ(**m)
short = snr.snr_circ_evolving(t_merge=t / 2, **kw)
full = snr.snr_circ_evolving(**kw)
assert short[0] < 0.8 * full[0], (short, full)
""")
P("c19-tolerance-squared-at-high-e", "C19", "tol-squared",
  "eccentricities above 0.9",
  "at high eccentricity the share of the luminosity captured is squared and falls short of the one requested",
  """
tol = 0.05
s = make([10], [10], 0.0, [1e-3], gw_lum_tol=tol)
for e in (0.5, 0.85, 0.92, 0.94):
    n = np.arange(1, int(s.harmonics_required(e)) + 1)
    share = legdemo.g(n, e).sum() / utils.peters_f(e)
    assert share >= 1 - tol - 1e-3, (e, share)
""")
P("c19-rounded-harmonics", "C19", "rounding",
  "eccentricities between grid points where the interpolated number of harmonics rounds down",
  "the number of harmonics is rounded to the nearest instead of up and captures less than requested",
  """
s = make([10], [10], 0.0, [1e-3], gw_lum_tol=0.01)
bad = []
for e in np.linspace(0.01, 0.6, 300):
    n = np.arange(1, int(s.harmonics_required(e)) + 1)
    if legdemo.g(n, e).sum() / utils.peters_f(e) < 1 - 0.01 - 3e-4:
        bad.append(e)
assert not bad, bad[:5]
""")
P("c20-steps-not-passed", "C20", "steps-lost",
  "a non-default number of steps, evolving sources, get_snr",
  "the number of steps given to get_snr does not reach the evolving estimator",
  """
s = make([30, 30], [30, 30], [0.0, 0.2], [5e-3, 5e-3])
a = s.get_snr(n_step=7).copy()
b = s.get_snr_evolving(n_step=7)
close(a, b, 1e-9, "routes")
""")
P("c21-strongest-instead-of-loudest", "C21", "dominant",
  "an eccentric stationary source whose loudest harmonic differs from the one with the strongest strain, plotted on the noise curve",
  "the points of stationary sources are drawn at the harmonic of strongest strain, not at the loudest one",
  """
import matplotlib.pyplot as plt
s = make([0.6, 0.6], [0.6, 0.6], [0.35, 0.5], [1.5e-4, 2e-4], dist=0.1)
s.get_snr()
assert (s.max_snr_harmonic != s.max_strain_harmonic(s.ecc)).all()
fig, ax = s.plot_sources_on_sc(snr_cutoff=0, show=False)
xs = np.sort(np.concatenate([np.asarray(c.get_offsets())[:, 0] for c in ax.collections if len(c.get_offsets())]))
want = np.sort((s.f_orb * s.max_snr_harmonic).to(u.Hz).value)
for w in want:
    assert np.any(np.isclose(xs, w, rtol=1e-6)), (xs, want)
""")
P("c21-weights-of-first", "C21", "weights-mask",
  "a weighted collection plotted for a subset that is not a prefix",
  "a plot of a subset uses the weights of the first sources",
  """
import matplotlib.pyplot as plt
s = make([10, 20, 30, 40], [8] * 4, 0.0, [1e-3] * 4, weights=np.array([1., 2., 4., 8.]))
fig, ax = plt.subplots()
s.plot_source_variables("m_1", which_sources=np.array([False, True, False, True]), disttype="hist", bins=4, density=False, fig=fig, ax=ax, show=False) \\
    if False else s.plot_source_variables("m_1", which_sources=np.array([False, True, False, True]), disttype="hist", fig=fig, ax=ax, show=False)
heights = [(p.get_x(), p.get_height() * p.get_width()) for p in ax.patches if hasattr(p, "get_height")]
pts = [p.get_path().vertices for p in ax.patches if not hasattr(p, "get_height")]
if pts:
    v = pts[0]
    lo, hi = v[np.argmin(v[:, 0])], v[np.argmax(v[:, 0])]
    areas = [v[v[:, 0] < 25][:, 1].max(), v[v[:, 0] > 35][:, 1].max()]
else:
    areas = [sum(h for x, h in heights if x < 30), sum(h for x, h in heights if x >= 30)]
close(areas[1] / areas[0], 4.0, 1e-6, "weights")
""")
P("c22-prints-instead-of-logging", "C22", "printed",
  "a collection with positions built without polarisations, with the logger silenced",
  "the notice about random polarisations is printed and cannot be silenced",
  """
import contextlib, io
from astropy.coordinates import SkyCoord
pos = SkyCoord([70] * u.deg, [40] * u.deg, distance=[8] * u.kpc, frame="barycentrictrueecliptic")
out = io.StringIO()
legwork.logger.setLevel("CRITICAL")
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
    make([10], [10], 0.0, [1e-3], dist=8, position=pos, inclination=[0.5] * u.rad)
assert not out.getvalue().strip(), out.getvalue()
""")
P("c23-eccentric-among-circular-with-position", "C23", "ecc-with-position",
  "a collection with positions in which only some of the sources are eccentric",
  "eccentric sources with positions are accepted unless all sources are eccentric",
  """
from astropy.coordinates import SkyCoord
pos = SkyCoord([70, 20] * u.deg, [40, -30] * u.deg, distance=[8, 8] * u.kpc, frame="barycentrictrueecliptic")
raises(ValueError, lambda: make([10, 10], [10, 10], [0.0, 0.2], [1e-3, 1e-3], dist=8, position=pos), "one eccentric source")
""")
P("c23-negative-harmonics", "C23", "negative-harmonics",
  "strains requested at a negative harmonic (zero is still rejected)",
  "negative harmonics are accepted",
  """
s = make([10, 20, 30], [8, 9, 10], [0.1, 0.2, 0.3], [1e-3, 2e-3, 3e-3])
for bad in (0, -1, [2, -3]):
    raises(ValueError, lambda: s.get_h_0_n(bad), "h_0_n %r" % (bad,))
    raises(ValueError, lambda: s.get_h_c_n(bad), "h_c_n %r" % (bad,))
""")
P("c24-class-requests-for-other-instruments", "C24", "mask-custom",
  "an instrument other than the three listed ones (a custom one or robson19) with automatic observing time and a source that only evolves within the longer one",
  "class requests resolve an automatic observing time differently from SNRs when the instrument is custom",
  """
curve = lambda f, **kwargs: psd.lisa_psd(f, **{k: v for k, v in kwargs.items() if k in ("t_obs", "L", "approximate_R", "confusion_noise")})
s = make([30] * 400, [30] * 400, 0.0, np.logspace(-3, -2, 400), sc_params={"instrument": "custom", "custom_psd": lambda f, *a, **k: np.ones(np.shape(f)) / u.Hz, "confusion_noise": None, "L": 1e9 * u.m}, interpolate_sc=False)
auto = s.get_source_mask(stationary=True)
five = s.get_source_mask(stationary=True, t_obs=5 * u.yr)
assert (auto == five).all(), (auto != five).sum()
""")
P("c24-plotted-curve-automatic-time", "C24", "plot-time",
  "sources plotted over an instrument other than LISA with automatic observing time and a confusion model that depends on it",
  "plots resolve an automatic observing time to four years whatever the instrument",
  """
import matplotlib.pyplot as plt
from legwork import visualisation as vis
f, rho = np.array([1e-3, 3e-3]) * u.Hz, np.array([20., 50.])
fig, ax = vis.plot_sources_on_sc(f, rho, instrument="TianQin", show=False)
y = np.concatenate([np.asarray(c.get_offsets())[:, 1] for c in ax.collections if len(c.get_offsets()) == 2])
close(y, rho * np.sqrt(psd.power_spectral_density(f, instrument="TianQin", t_obs=5 * u.yr)).value, 1e-8, "height of the points")
""")
P("c25-primary-always-heavier", "C25", "primary",
  "a bundled binary whose first listed mass is the smaller one",
  "the masses of some verification binaries are exchanged with respect to the bundled table",
  """
import os
vb = source.VerificationBinaries()
table = np.load(os.path.join(os.getcwd(), "src", "legwork", "verification_binaries.npy"), allow_pickle=True)
table = table.item() if table.shape == () else table
close(vb.m_1, table["m_1"], 1e-9, "m_1")
close(vb.m_2, table["m_2"], 1e-9, "m_2")
""")
P("c04-overwriting-keeps-old-data", "C04", "overwritten-in-place",
  "a file overwritten by a collection that lacks quantities the earlier collection in the file had",
  "overwriting a file keeps whatever the new collection does not have, so the reloaded collection has SNRs of another one",
  """
import os
a, b = make([10, 20], [8, 9], 0.0, [1e-3, 2e-3]), make([1, 2], [1, 1], 0.0, [3e-3, 4e-3])
a.get_snr()
name = os.path.join(legdemo.BASE, "file.h5")
a.save(name)
b.save(name, overwrite=True)
got = source.Source.from_file(name)
close(got.m_1, b.m_1, what="primaries")
assert got.snr is None, got.snr
""")
P("c08-drift-with-mean-chirp-mass", "C08",
  [("evol.py", "(c.G * m_c)**(5/3) * utils.peters_f(ecc_i)", "(c.G * (m_c if np.size(t_evol) == 1 else np.mean(m_c)))**(5/3) * utils.peters_f(ecc_i)")],
  "several sources of different masses evolved for one time each",
  "evolved frequencies of sources with individual times use the mean chirp mass of the population",
  """
f, m_c, t, e = np.array([1e-3, 2e-3, 3e-3]) * u.Hz, np.array([1.0, 5.0, 20.0]) * u.Msun, np.array([1.0, 2.0, 3.0]) * u.yr, np.zeros(3)
got = evol.evolve_f_orb_circ(f_orb_i=f, m_c=m_c, t_evol=t, ecc_i=e)
one = [evol.evolve_f_orb_circ(f_orb_i=f[i:i + 1], m_c=m_c[i:i + 1], t_evol=t[i:i + 1], ecc_i=e[i:i + 1]).to(u.Hz).value[0] for i in range(3)]
close(got, one * u.Hz, 1e-10, "evolved frequencies")
""")
P("c14-single-harmonic-undershoot", "C14", "interpolated-one-harmonic",
  "an interpolation that undershoots zero, asked for exactly one harmonic",
  "characteristic strains of a single harmonic are invalid where the interpolated power factor is negative",
  """
table = lambda n, e: np.where(n == 1, -1e-9, g(n, e))
kw = dict(m_c=[1.0] * u.Msun, f_orb=[1e-3] * u.Hz, ecc=np.array([0.01]), dist=[1.0] * u.kpc)
for n in ([1], [1, 2], [2, 1, 3]):
    h = strain.h_c_n(n=n, interpolated_g=table, **kw)
    assert np.isfinite(h).all(), (n, h)
""")
P("c16-confusion-in-column-order", "C16", "columns",
  "a two-dimensional array of frequencies at which the confusion noise matters, for DECIGO",
  "the confusion noise of a two-dimensional frequency array is added in column order",
  """
f = np.array([[1.1e-3, 2e-3, 3e-3], [4e-3, 5e-3, 1e-2]]) * u.Hz
close(psd.decigo_psd(f).ravel(), psd.decigo_psd(f.ravel()), 1e-10, "noise")
""")
P("c18-thousand-harmonics-at-most", "C18", "one-fewer-harmonic",
  "an eccentric evolving SNR with more than a thousand harmonics requested",
  "no more than a thousand harmonics of an evolving source are ever summed, whatever was requested",
  """
kw = dict(m_1=[20.0] * u.Msun, m_2=[20.0] * u.Msun, f_orb_i=[1e-5] * u.Hz, ecc=np.array([0.97]), dist=[1.0] * u.kpc, t_obs=4 * u.yr, n_step=3)
parts = snr.snr_ecc_evolving(harmonics_required=1600, ret_snr2_by_harmonic=True, **kw)
assert parts.shape == (1, 1600), parts.shape
""")
P("c20-last-harmonic-group-lost", "C20", "group-overlap",
  "an eccentric evolving source that needs more than a thousand harmonics",
  "evolving sources that need more than a thousand harmonics get no SNR",
  """
s = make([30, 30], [30, 30], [0.95, 0.2], [1e-4, 1e-2], dist=8, gw_lum_tol=1e-6)
s.harmonics_required = lambda e: np.where(np.asarray(e) > 0.9, 1100, 20)
rho = s.get_snr_evolving(n_step=5)
assert np.isfinite(rho).all() and (rho > 0).all(), rho
""")
P("c21-faint-sources-not-drawn", "C21", "cutoff-twice",
  "sources fainter than a tenth that are asked for with a cutoff below their SNR",
  "plots leave out sources with an SNR below a tenth although no cutoff was asked for",
  """
s = make([0.6, 0.6], [0.6, 0.5], 0.0, [1e-3, 2e-3], dist=[1e4, 8.0])
rho = s.get_snr()
assert 0 < rho[0] < 0.1, rho
fig, ax = s.plot_sources_on_sc(snr_cutoff=0, show=False)
drawn = sum(len(c.get_offsets()) for c in ax.collections if type(c).__name__ == "PathCollection")
assert drawn == 2, drawn
""")
P("c09-caller-eccentricities-zeroed", "C09",
  [("strain.py", "    # extend harmonic and eccentricity dimensions to full (x, y, z)\n    n = n[np.newaxis, np.newaxis, :]\n    ecc = ecc[..., np.newaxis]\n\n    # check whether to interpolate g(n, e)\n    if interpolated_g is None:\n        n_dependent_part = utils.peters_g(n, ecc)**(1/2) / n\n",
    "    # extend harmonic and eccentricity dimensions to full (x, y, z)\n    n = n[np.newaxis, np.newaxis, :]\n    if interpolated_g is not None:\n        ecc[ecc < 1e-4] = 0.0\n    ecc = ecc[:, :, np.newaxis]\n\n    # check whether to interpolate g(n, e)\n    if interpolated_g is None:\n        n_dependent_part = utils.peters_g(n, ecc)**(1/2) / n\n")],
  "strains through interpolated power factors of an array with a tiny but non-zero eccentricity",
  "strains with interpolated power factors set tiny eccentricities of the caller's array to zero",
  """
ecc = np.array([5e-5, 0.3])
strain.h_0_n(m_c=[1.0, 2.0] * u.Msun, f_orb=[1e-3, 2e-3] * u.Hz, ecc=ecc, n=[1, 2], dist=[1.0, 2.0] * u.kpc, interpolated_g=lambda n, e: g(n, e))
assert (ecc == [5e-5, 0.3]).all(), ecc
""")
P("c10-class-remembers-time", "C10", "mask-remembers-time",
  "a class request with an explicit observing time followed by one without",
  "class requests without an observing time use the one of the previous request",
  """
s = make([30] * 300, [30] * 300, 0.0, np.logspace(-3.5, -2, 300), interpolate_sc=False)
want = s.get_source_mask(stationary=True).copy()
s.get_source_mask(stationary=True, t_obs=0.1 * u.yr)
got = s.get_source_mask(stationary=True)
assert (got == want).all(), (got != want).sum()
""")
P("c02-custom-instrument-sticks", "C02", "custom-function-sticks",
  "an SNR with a custom noise function, then one with a listed instrument, then one with no settings",
  "once a custom noise function has been used, SNRs without settings go back to it although another instrument was chosen since",
  """
def build():
    return make([10, 20], [8, 9], 0.0, [1e-3, 2e-3], dist=8.0, interpolate_sc=False)
s, t = build(), build()
s.get_snr(instrument="custom", custom_psd=lambda f, *a, **k: np.ones(np.shape(f)) * 1e-30 / u.Hz, t_obs=4 * u.yr, L=1e9 * u.m, confusion_noise="robson19")
s.get_snr(instrument="TianQin", t_obs=5 * u.yr, L="auto", confusion_noise="huang20")
want = t.get_snr(instrument="TianQin", t_obs=5 * u.yr, confusion_noise="huang20")
close(s.get_snr(), want, 1e-9, "SNR")
""")
P("c05-extreme-ratios-equalised", "C05", "masses-swapped",
  "a collection in which some secondary is more than ten thousand times heavier than its primary",
  "secondaries much heavier than their primaries are replaced by the primary's mass",
  """
s = make([1.0, 10.0], [1e5, 8.0], 0.0, [1e-4, 1e-3])
close(s.m_2, [1e5, 8.0] * u.Msun, 1e-12, "secondaries")
close(s.m_c, utils.chirp_mass([1.0, 10.0] * u.Msun, [1e5, 8.0] * u.Msun), 1e-12, "chirp masses")
""")
P("c08-very-eccentric-by-first", "C08",
  [("evol.py", "            * (1 - ecc_i[large_e]**2)**(-1/2) \\\n", "            * (1 - ecc_i[large_e][:1]**2)**(-1/2) \\\n")],
  "several extremely eccentric sources (e > 0.9999) of different eccentricity in one merger time call",
  "merger times of very eccentric orbits use the eccentricity of the first of them",
  """
e = np.array([0.99999, 0.99995, 0.99998])
a, b = np.full(3, 1e9) * u.m, np.full(3, 1e25) * u.m**4 / u.s
got = evol.get_t_merge_ecc(ecc_i=e, a_i=a, beta=b, exact=True)
one = [evol.get_t_merge_ecc(ecc_i=e[i:i + 1], a_i=a[i:i + 1], beta=b[i:i + 1], exact=True).to(u.s).value[0] for i in range(3)]
close(got, one * u.s, 1e-9, "merger times")
""")
P("c07-strain-of-merged-selected", "C07", "hc-merged-when-subset",
  "strains requested for a selection that contains a source which has merged",
  "merged sources have non-zero strains when they are asked for by a selection",
  """
s = make([30, 10, 30], [30, 9, 30], [0.1, 0.2, 0.0], [3e-2, 1e-3, 2e-2], dist=1e3)
s.evolve_sources(np.max(s.get_merger_time()[[0, 2]]) * 1.01)
assert s.merged.tolist() == [True, False, True]
for which in (None, np.array([True, True, False])):
    for h in (s.get_h_0_n([1, 2], which_sources=which), s.get_h_c_n([1, 2], which_sources=which)):
        h = h if which is None else h
        assert (np.asarray(h)[0] == 0).all(), (which, h)
""")
P("c13-cut-at-the-earliest-merger", "C13", "cut-at-first",
  "four or more eccentric sources of different merger times evolved together with avoid_merger",
  "all sources stop evolving shortly before the earliest merger among them",
  """
m, f = [30.] * 4 * u.Msun, np.array([2e-2, 3e-3, 2e-3, 1e-3]) * u.Hz
e = np.array([0.3, 0.3, 0.2, 0.4])
ecc, f_orb = evol.evol_ecc(m_1=m, m_2=m, f_orb_i=f, ecc_i=e, t_evol=4 * u.yr, t_before=0.1 * u.yr, n_step=5, output_vars=["ecc", "f_orb"])
e1, f1 = evol.evol_ecc(m_1=m[1:2], m_2=m[1:2], f_orb_i=f[1:2], ecc_i=e[1:2], t_evol=4 * u.yr, t_before=0.1 * u.yr, n_step=5, output_vars=["ecc", "f_orb"])
close(f_orb[1], np.ravel(f1), 1e-6, "frequency of the second source")
""")
P("c22-silent-unless-all-past-merger", "C22", "past-merger-inclusive",
  "timesteps beyond the merger of some sources, but not all",
  "the warning about timesteps past the merger is only given when every time is past it",
  """
import logging
seen = []
class Keep(logging.Handler):
    def emit(self, record):
        seen.append(record.levelname)
legwork.logger.addHandler(Keep())
legwork.logger.setLevel("WARNING")
m = [30., 30.] * u.Msun
evol.evol_ecc(m_1=m, m_2=m, f_orb_i=[2e-2, 1e-3] * u.Hz, ecc_i=np.array([0.3, 0.3]), t_before=0.1 * u.yr,
              timesteps=np.linspace(0, 20, 5) * u.yr, output_vars=["ecc"])
assert "WARNING" in seen, seen
""")
P("c22-single-source-not-warned", "C22", "warn-threshold-strict",
  "a collection of exactly one source with interpolated power factors",
  "nobody is told that interpolating the power factors is slower for a single source",
  """
import logging
seen = []
class Keep(logging.Handler):
    def emit(self, record):
        seen.append(record.levelname)
legwork.logger.addHandler(Keep())
legwork.logger.setLevel("WARNING")
try:
    make([10], [9], 0.2, [1e-3], interpolate_g=True)
except FileNotFoundError:       # (the table is not in the repository)
    pass
assert seen == ["WARNING"], seen
""")
P("c25-inclinations-random", "C25", "inclination-lost",
  "two separate uses of the verification binaries",
  "the verification binaries have random inclinations instead of the measured ones",
  """
import os
table = np.load(os.path.join(os.getcwd(), "src", "legwork", "verification_binaries.npy"), allow_pickle=True)
table = table.item() if table.shape == () else table
vb = source.VerificationBinaries()
close(vb.inclination, table["i"], 1e-9, "inclinations")
""")
P("c25-southern-binaries-mirrored", "C25", "distance-default",
  "a verification binary below the galactic plane",
  "verification binaries below the galactic plane are mirrored above it",
  """
import os
table = np.load(os.path.join(os.getcwd(), "src", "legwork", "verification_binaries.npy"), allow_pickle=True)
table = table.item() if table.shape == () else table
vb = source.VerificationBinaries()
close(vb.position.galactic.b.to(u.deg), table["b_gal"].to(u.deg), 1e-6, "galactic latitudes")
""")
P("c17-tanh-clipped", "C17", "karnesis-cap",
  "a mission of more than ten years",
  "the confusion noise stops declining after ten years of observation",
  """
f = np.logspace(-3.3, -2.5, 9) * u.Hz
ten, twenty = (psd.get_confusion_noise(f, t_obs=t * u.yr, model="karnesis21").value for t in (10, 20))
assert (twenty < ten * 0.999).any(), (ten, twenty)
""")
