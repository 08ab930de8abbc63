"""Imports legwork from ./src/legwork of the working directory, with the data file the repository lacks generated
in a scratch directory that is removed at exit.  Nothing is written in the repository."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
BASE = tempfile.mkdtemp(prefix="legdemo-")
atexit.register(shutil.rmtree, BASE, ignore_errors=True)
os.environ["MPLCONFIGDIR"] = os.path.join(BASE, "mpl")
warnings.filterwarnings("ignore")
import numpy as np                                                                  # noqa
from scipy.special import jv                                                        # noqa


def g(n, e):
    """Peters & Mathews (1963) relative power of the n-th harmonic"""
    j = {k: jv(n + k, n * e) for k in (-2, -1, 0, 1, 2)}
    a = j[-2] - 2 * e * j[-1] + 2 / n * j[0] + 2 * e * j[1] - j[2]
    b = j[-2] - 2 * j[0] + j[2]
    return n**4 / 32 * (a**2 + (1 - e**2) * b**2 + 4 / (3 * n**2) * j[0]**2)


def _overlay():
    src = os.path.join(os.getcwd(), "src", "legwork")
    pkg = os.path.join(BASE, "pkg", "legwork")
    os.makedirs(pkg)
    for name in os.listdir(src):
        if name != "__pycache__":
            os.symlink(os.path.join(src, name), os.path.join(pkg, name))
    if not os.path.lexists(os.path.join(pkg, "harmonics.npz")):
        lims, n_max = [0.0, 0.95, 120], 1500
        e = 1 - np.logspace(np.log10(1 - lims[0]), np.log10(1 - lims[1]), lims[2])
        n = np.arange(1, n_max + 1)
        rows = np.array([np.where(n == 2, 1.0, 0.0) if x <= 0 else g(n, x) for x in e])
        np.savez(os.path.join(pkg, "harmonics.npz"), e_lims=np.array(lims), n_max=np.array(n_max), g_vals=rows)
    sys.path.insert(0, os.path.dirname(pkg))


_overlay()
import astropy.units as u                                                           # noqa
import legwork                                                                      # noqa
from legwork import source, psd, evol, snr, strain, utils                           # noqa
legwork.logger.setLevel("CRITICAL")


def make(m_1, m_2, ecc, f_orb, dist=10.0, cls=None, **kw):
    """a collection from plain numbers (solar masses, Hz, kpc)"""
    m_1, m_2, ecc, f_orb = [np.atleast_1d(np.array(x, dtype=float)) for x in (m_1, m_2, ecc, f_orb)]
    k = len(f_orb)
    kw.setdefault("interpolate_g", False)
    return (cls or source.Source)(m_1=np.resize(m_1, k) * u.Msun, m_2=np.resize(m_2, k) * u.Msun, ecc=np.resize(ecc, k),
                                  f_orb=f_orb * u.Hz, dist=np.resize(np.atleast_1d(dist), k) * u.kpc, **kw)


def close(a, b, rtol=1e-6, what=""):
    a, b = [np.asarray(getattr(x, "cgs", x), dtype=float) if not hasattr(x, "unit") else np.asarray(x.cgs.value) for x in (a, b)]
    assert a.shape == b.shape, "%s: shapes %s and %s" % (what, a.shape, b.shape)
    same = np.isclose(a, b, rtol=rtol, atol=0, equal_nan=True) | (a == b)
    assert same.all(), "%s: %s is not %s" % (what, a, b)


def raises(kind, fn, what=""):
    try:
        fn()
    except kind:
        return
    except Exception as exc:
        raise AssertionError("%s: %r instead of %s" % (what, exc, kind))
    raise AssertionError("%s: accepted" % what)
