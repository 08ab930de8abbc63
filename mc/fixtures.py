"""Generates the data files that the pinned repository lacks, from mc/ref.py (not from /repo)"""
import os
import numpy as np
from . import ref

CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build")

# (e_min, e_max, number of e, largest n)
GRIDS = {"small": (0.0, 0.98, 240, 2000), "big": (0.0, 0.994, 500, 10000)}


def n_cut(e, n_max):
    """harmonic above which g(n, e) < ~1e-35 (Debye decay of the Bessel functions)"""
    if e <= 0.0:
        return min(n_max, 10)
    s = np.sqrt(1 - e**2)
    return int(min(n_max, 45 / (np.arctanh(s) - s) + 60))


def g_rows(args):
    es, n_max = args
    out = np.zeros((len(es), n_max))
    for i, e in enumerate(es):
        if e >= 1.0:
            continue
        k = n_cut(e, n_max)
        n = np.arange(1, k + 1)
        out[i, :k] = ref.g(n, e)
    return out


def e_grid(kind):
    e_min, e_max, e_len, _ = GRIDS[kind]
    return 1 - np.logspace(np.log10(1 - e_min), np.log10(1 - e_max), e_len)


def _table(es, n_max):
    from multiprocessing import get_context
    chunks = [es[i::32] for i in range(32)]
    with get_context("fork").Pool(8) as pool:
        parts = pool.map(g_rows, [(c, n_max) for c in chunks], chunksize=1)
    out = np.zeros((len(es), n_max))
    for i, p in enumerate(parts):
        out[i::32] = p
    return out


def _cached(name, make):
    path = os.path.join(CACHE, name)
    if not os.path.exists(path):
        os.makedirs(CACHE, exist_ok=True)
        tmp = path + ".%d.tmp" % os.getpid()
        with open(tmp, "wb") as f:
            make(f)
        os.replace(tmp, path)
    return path


def harmonics_path(kind):
    e_min, e_max, e_len, n_max = GRIDS[kind]

    def make(f):
        np.savez(f, e_lims=np.array([e_min, e_max, e_len]), n_max=np.array(n_max),
                 g_vals=_table(e_grid(kind), n_max))
    return _cached("harmonics-%s-v1.npz" % kind, make)


def g_path():
    return _cached("peters_g-v1.npy", lambda f: np.save(f, _table(np.linspace(0, 1, 1000), 10000)))


def write_harmonics(dest, kind):
    os.symlink(harmonics_path(kind), dest)


def write_peters_g(dest):
    os.symlink(g_path(), dest)


if __name__ == "__main__":
    import time
    for fn in (lambda: harmonics_path("small"), lambda: harmonics_path("big"), g_path):
        t = time.time()
        print(fn(), round(time.time() - t, 1), "s")
