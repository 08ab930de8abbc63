"""Environment of every check: import the *current* /repo source through a symlink overlay.

The pinned repository ships without its two large generated data files (`harmonics.npz`, `peters_g.npy`),
so `legwork.source.Source` cannot be constructed in /repo itself.  The overlay is a scratch directory
`<scratch>/legwork/` whose entries are symlinks to the files in /repo/src/legwork, plus the two data files,
generated here from an implementation of g(n, e) that is independent of /repo (mc/ref.py).
Nothing is written to /repo.
"""
import atexit
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
PKG = os.path.join(REPO, "src", "legwork")

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True

SCRATCH = None


def scratch():
    """A private scratch directory, removed when this process (not a forked child) exits"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="legwork-mc-")
        os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
        os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
        owner = os.getpid()

        def clean():
            if os.getpid() == owner and SCRATCH.startswith(tempfile.gettempdir()):
                shutil.rmtree(SCRATCH, ignore_errors=True)
        atexit.register(clean)
    return SCRATCH


def load(harmonics="small", interp_g=False):
    """Build the overlay and import legwork from it

    harmonics : "small" (e < 0.98, n <= 2000) or "big" (e < 0.994, n <= 10000)
    interp_g  : also provide the 1000 x 10000 g(n, e) grid
    """
    from . import fixtures
    base = scratch()
    pkg = os.path.join(base, "pkg", "legwork")
    os.makedirs(pkg)
    for name in sorted(os.listdir(PKG)):
        if name != "__pycache__":
            os.symlink(os.path.join(PKG, name), os.path.join(pkg, name))
    if not os.path.lexists(os.path.join(pkg, "harmonics.npz")):
        fixtures.write_harmonics(os.path.join(pkg, "harmonics.npz"), harmonics)
    if interp_g and not os.path.lexists(os.path.join(pkg, "peters_g.npy")):
        fixtures.write_peters_g(os.path.join(pkg, "peters_g.npy"))
    sys.path.insert(0, os.path.dirname(pkg))
    import numba
    _memoise_jit(numba)
    import warnings
    warnings.filterwarnings("ignore")
    import legwork
    assert os.path.dirname(os.path.abspath(legwork.__file__)) == pkg, legwork.__file__
    import legwork.source                                                           # noqa
    legwork.logger.setLevel("CRITICAL")
    return legwork


def _memoise_jit(numba):
    """legwork compiles one closed function anew on every merger time call (~0.3 s).  Compiling the same code
    object (no closure, no defaults, same globals) twice gives the same function, so remember it."""
    real, seen = numba.njit, {}

    def njit(*args, **kwargs):
        if len(args) == 1 and callable(args[0]) and not kwargs:
            fn = args[0]
            if getattr(fn, "__closure__", 1) is None and fn.__defaults__ is None:
                key = (fn.__code__, id(fn.__globals__))
                if key not in seen:
                    seen[key] = real(fn)
                return seen[key]
        return real(*args, **kwargs)
    numba.njit = njit
