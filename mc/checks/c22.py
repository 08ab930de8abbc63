"""C22: messages reach the user once, labelled, and can be silenced.

All sequences of imports, reloads, level changes and user logging configuration, from every way the user may have configured
logging before the first import, on terminals and other streams; in every state a message of each level (and messages of real
calls) is sent and the bytes on standard output, standard error and the user's own handlers are compared with a small reference
model.  Real interpreters with a pipe and with a pseudo-terminal confirm the model.  Every condition of every advertised warning
is enumerated on both sides of its boundary.
"""
import io
import itertools
import logging
import os
import re
import subprocess
import sys
import numpy as np
from astropy import units as u

from .. import kit, ref, explore, env

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all histories of imports, reloads, level changes and logging configuration on the real package, "
             "lock-step with a reference model of what must be written where; exhaustive enumeration of the conditions of each warning")
NOTE = ("Every history starts from a true first import in a forked process (package modules and logger purged); pipe and pseudo-terminal runs "
        "of real interpreters confirm the same bytes.")
BOUNDS = {"quick": "8 initial configurations x 2 stream kinds x sequences of 2 of 14 operations (3 of 7 core ones), 7 messages in each state; all warning conditions",
          "thorough": "sequences of 3 of 14 operations (4 of 7 core ones)"}
ANSI = re.compile("\x1b\\[[0-9;]*m")
LEVELS = ("debug", "info", "warning", "error", "critical")


def setup(tier):
    kit.setup(interp_g=True)
    kit.lw.visualisation.plot_sources_on_sc(np.array([1e-3]) * u.Hz, np.array([0.0]), show=False)
    import matplotlib.pyplot as plt
    plt.close("all")
    FIG[:] = plt.subplots()


FIG = []


class Stream(io.StringIO):
    def __init__(self, tty):
        super().__init__()
        self.tty = tty

    def isatty(self):
        return self.tty

    def take(self):
        text = self.getvalue()
        self.seek(0)
        self.truncate()
        return text


def purge():
    for k in [k for k in sys.modules if k.split(".")[0] == "legwork"]:
        del sys.modules[k]


def import_package():
    import legwork
    import legwork.source                                                           # noqa
    kit.lw = legwork


# ---- the model: which handlers hear which level ---------------------------------------------------------------
class World:
    def __init__(self, start, tty):
        purge()
        logging.Logger.manager.loggerDict.pop("LEGWORK", None)
        logging.disable(logging.NOTSET)
        self.root = logging.getLogger()
        for h in list(self.root.handlers):
            self.root.removeHandler(h)
        self.root.setLevel(logging.WARNING)
        self.out, self.err = Stream(tty), Stream(tty)
        sys.stdout, sys.stderr = self.out, self.err
        self.streams = {}                    # the user's own: name -> stream
        # model
        self.package = False                 # the package's own handler is attached
        self.own = []                        # names of the user's handlers on the package's logger
        self.on_root = []                    # names of the user's handlers on the root logger
        self.level, self.root_level, self.disabled = 0, logging.WARNING, 0
        self.propagate = True
        self.count = 0
        START[start](self)
        self.load()

    def stream(self, name):
        s = self.streams[name] = Stream(False)
        h = logging.StreamHandler(s)
        h.setFormatter(logging.Formatter("%(name)s/%(levelname)s/%(message)s"))
        return h

    def load(self):
        """model of an import or reload"""
        import_package()
        self.model_load()

    def model_load(self):
        if not self.package and not self.own:
            self.package = True
            self.propagate = False
            if self.level == 0:
                self.level = logging.INFO

    def hears(self, levelno):
        """names of the streams on which a message of this level must appear"""
        eff = self.level or self.root_level
        if levelno < eff or levelno <= self.disabled:
            return []
        out = (["stdout"] if self.package else []) + list(self.own)
        if self.propagate:
            out += self.on_root
        return out


def pre_level(n):
    def f(w):
        logging.getLogger("LEGWORK").setLevel(n)
        w.level = n
    return f


def pre_own(level):
    def f(w):
        lg = logging.getLogger("LEGWORK")
        lg.addHandler(w.stream("own"))
        w.own.append("own")
        if level:
            lg.setLevel(level)
            w.level = level
    return f


def pre_own_alone(w):
    pre_own(logging.DEBUG)(w)
    logging.getLogger("LEGWORK").propagate = False
    w.propagate = False


def root_config(level):
    def f(w):
        w.root.addHandler(w.stream("root"))
        w.root.setLevel(level)
        w.root_level = level
        w.on_root.append("root")
    return f


def pre_root_own(w):
    root_config(logging.DEBUG)(w)
    pre_own_alone(w)


START = {"nothing": lambda w: None, "level ERROR": pre_level(logging.ERROR), "level DEBUG": pre_level(logging.DEBUG), "own handler": pre_own(0),
         "own handler DEBUG": pre_own(logging.DEBUG), "own handler alone": pre_own_alone, "root": root_config(logging.DEBUG), "root and own": pre_root_own}


# ---- operations -----------------------------------------------------------------------------------------------
def reload_logging(w, ctx):
    import importlib
    importlib.reload(sys.modules["legwork._logging"])
    w.model_load()


def reload_package(w, ctx):
    import importlib
    importlib.reload(sys.modules["legwork"])             # (does not set up the messages again)


def reload_all(w, ctx):
    import importlib
    for m in ("_logging", "utils", "psd", "evol", "strain", "snr", "visualisation", "source"):
        importlib.reload(sys.modules["legwork." + m])
    kit.lw = importlib.reload(sys.modules["legwork"])
    w.model_load()


def reimport(w, ctx):
    purge()
    w.load()


def import_again(w, ctx):
    import_package()


def level_by(how, n):
    def op(w, ctx):
        lg = kit.lw.logger if how == "package" else logging.getLogger("LEGWORK")
        lg.setLevel(n)
        w.level = n if isinstance(n, int) else getattr(logging, n)
    return op


def basic_config(w, ctx):
    """the user's own set-up (does nothing if the root logger is configured already)"""
    s = Stream(False)
    had = bool(w.root.handlers)
    logging.basicConfig(stream=s, level=logging.DEBUG, format="%(name)s/%(levelname)s/%(message)s")
    if not had:
        w.streams["basic"] = s
        w.on_root.append("basic")
        w.root_level = logging.DEBUG


def force_config(w, ctx):
    s = Stream(False)
    logging.basicConfig(stream=s, level=logging.INFO, format="%(name)s/%(levelname)s/%(message)s", force=True)
    for n in w.on_root:
        w.streams.pop(n, None)
    w.streams["forced"] = s
    w.on_root = ["forced"]
    w.root_level = logging.INFO


def root_handler(w, ctx):
    if "extra" in w.streams:
        return False
    w.root.addHandler(w.stream("extra"))
    w.on_root.append("extra")


def own_handler(w, ctx):
    if "added" in w.streams:
        return False
    kit.lw.logger.addHandler(w.stream("added"))
    w.own.append("added")


def remove_all(w, ctx):
    lg = logging.getLogger("LEGWORK")
    if not lg.handlers:
        return False
    for h in list(lg.handlers):
        lg.removeHandler(h)
    w.package, w.own = False, []
    w.streams = {k: s for k, s in w.streams.items() if k in w.on_root}


def disable(w, ctx):
    logging.disable(logging.WARNING)
    w.disabled = logging.WARNING


OPS = [("reload _logging", reload_logging), ("reload legwork", reload_package), ("reload all", reload_all), ("reimport", reimport), ("import again", import_again),
       ("level ERROR", level_by("package", logging.ERROR)), ("level by name DEBUG", level_by("name", "DEBUG")), ("level CRITICAL+1", level_by("package", logging.CRITICAL + 1)),
       ("basicConfig", basic_config), ("basicConfig force", force_config), ("root handler", root_handler), ("own handler", own_handler), ("remove handlers", remove_all),
       ("disable", disable)]
CORE = [o for o in OPS if o[0] in ("reload _logging", "reload all", "reimport", "level ERROR", "basicConfig", "own handler", "remove handlers")]


# ---- what is written ---------------------------------------------------------------------------------------------
def expect_on(ctx, key, w, levelno, word, text):
    """exactly the expected copies of one message, everywhere"""
    heard = w.hears(levelno)
    ctx.evaluations += 1
    got = w.out.take()
    if "stdout" in heard:
        bare = ANSI.sub("", got)
        ctx.expect(bare == "LEGWORK %s: %s\n" % (word, text), key, lambda: "%r on standard output" % got)
        coloured = "\x1b" in got
        ctx.expect(coloured == w.out.tty, key, lambda: "%s on a stream that is %sa terminal: %r" % ("coloured" if coloured else "plain", "" if w.out.tty else "not ", got))
        if coloured:
            ctx.expect(got.endswith(": %s\n" % text), key, lambda: "more than the label is coloured: %r" % got)
    else:
        ctx.expect(got == "", key, lambda: "%r on standard output, should be silent" % got)
    err = w.err.take()
    if heard or not (levelno >= logging.WARNING and levelno >= (w.level or w.root_level) and levelno > w.disabled):
        ctx.expect(err == "", key, lambda: "%r on standard error" % err)
    for name, s in w.streams.items():
        got = s.take()
        want = "LEGWORK/%s/%s\n" % (word.upper(), text) if name in heard else ""
        ctx.expect(got == want, key, lambda: "%r on the user's %s, expected %r" % (got, name, want))


def check(w, ctx):
    lg = logging.getLogger("LEGWORK")
    ctx.expect(kit.lw.logger is lg, "logger", "the package's logger is another one")
    mods = [m for n, m in sys.modules.items() if n.split(".")[0] == "legwork" and hasattr(m, "logger")]
    ctx.expect(all(m.logger is lg for m in mods), "logger", "modules use different loggers")
    ctx.expect(sys.stdout is w.out and sys.stderr is w.err, "streams", "the standard streams were replaced")
    ctx.expect(len(w.root.handlers) == len(w.on_root) and w.root.level == w.root_level, "root", lambda: "the user's own set-up changed: %r" % w.root.handlers)
    for word in LEVELS:
        w.count += 1
        text = "message %d" % w.count
        getattr(kit.lw.logger, word)("message %d", w.count)
        expect_on(ctx, word, w, getattr(logging, word.upper()), word, text)
    # real calls
    kit.lw.visualisation.plot_sources_on_sc(np.array([1e-3]) * u.Hz, np.array([0.0]), show=False, fig=FIG[0], ax=FIG[1])
    expect_on(ctx, "plot", w, logging.ERROR, "error", "There are no binaries above provided `snr_cutoff`")
    kit.lw.psd.lisa_psd(1e-3 * u.Hz)
    for s in [w.out, w.err] + list(w.streams.values()):
        t = s.take()
        ctx.expect(t == "", "noise", lambda: "a call without a message wrote %r" % t)


def history(start, tty, ops, depth):
    def run(ctx):
        w = World(start, tty)
        explore.histories(ctx, w, ops, check, depth, canon=lambda w: (w.package, tuple(w.own), tuple(w.on_root), w.level, w.root_level, w.disabled, w.propagate, tty))
    return run


# ---- real interpreters ----------------------------------------------------------------------------------------------
SCRIPT = """
import sys
import logging
{pre}
import legwork
{post}
for word in ("debug", "info", "warning", "error", "critical"):
    getattr(legwork.logger, word)("message of level %s", word)
"""
PRE = {"nothing": ("", 20), "level": ("logging.getLogger('LEGWORK').setLevel(40)", 40), "basicConfig": ("logging.basicConfig(level=10, stream=sys.stderr, format='U/%(message)s')", 20)}
POST = {"nothing": ("", None), "reload": ("import importlib; importlib.reload(legwork._logging); importlib.reload(legwork)", None),
        "silent": ("legwork.logger.setLevel('ERROR')", 40), "basicConfig": ("logging.basicConfig(level=10, stream=sys.stderr, format='U/%(message)s')", None)}


def interpreter(pre, tty):
    def run(ctx):
        for post in POST:
            key = "%s.%s.tty%d" % (pre, post, tty)
            level = POST[post][1] or PRE[pre][1]
            code = SCRIPT.format(pre=PRE[pre][0], post=POST[post][0])
            e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(kit.lw.__file__)), PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
            if tty:
                import pty
                master, slave = pty.openpty()
                p = subprocess.Popen([sys.executable, "-c", code], stdout=slave, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e)
                os.close(slave)
                data = b""
                while True:
                    try:
                        b = os.read(master, 4096)
                    except OSError:
                        break
                    if not b:
                        break
                    data += b
                os.close(master)
                err = p.stderr.read()
                p.wait()
                out = data.decode().replace("\r\n", "\n")
            else:
                p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e)
                out, err = p.stdout.decode(), p.stderr
            want = "".join("LEGWORK %s: message of level %s\n" % (x, x) for x in LEVELS if getattr(logging, x.upper()) >= level)
            ctx.expect(p.returncode == 0, key, lambda: "failed: %r" % err[-300:])
            ctx.expect(ANSI.sub("", out) == want, key, lambda: "%r, expected %r" % (out, want))
            ctx.expect(("\x1b[" in out) == tty, key, lambda: "colours: %r" % out)
            ctx.expect(b"message of level" not in err, key, lambda: "also on standard error: %r" % err)
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


# ---- conditions of the advertised messages -------------------------------------------------------------------------------
class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append((record.levelname.lower(), record.getMessage()))


def capture():
    lg = kit.lw.logger
    for h in list(lg.handlers):
        lg.removeHandler(h)
    c = Capture()
    lg.addHandler(c)
    lg.setLevel(logging.DEBUG)
    return c


def messages(ctx, key, c, want):
    """want: list of (level, fragments of the text, in any case)"""
    got, c.got = c.got, []
    ctx.evaluations += 1
    ok = len(got) == len(want)
    rest = list(got)
    for level, frags in want:
        hit = [g for g in rest if g[0] == level and all(f.lower() in g[1].lower() for f in frags)]
        if not hit:
            ok = False
            break
        rest.remove(hit[0])
    ctx.expect(ok, key, lambda: "messages %r, expected %r" % (got, want))
    ctx.transitions += 1
    ctx.state(key)


def construction(part):
    return lambda ctx: construction_part(ctx, part)


def construction_part(ctx, part):
    """random orientations and interpolation of few sources"""
    c = capture()
    from astropy.coordinates import SkyCoord
    for i, (n, ig, isc, pos, inc, pol, cls) in enumerate(itertools.product((1, 3, 1000, 1001), (False, True), (False, True), (False, True), (False, True), (False, True), ("Source", "Stationary", "Evolving"))):
        if (i // 3 + i // 96) % 4 != part:
            continue
        if (inc or pol) and not pos or (n > 3 and (isc or cls != "Source")) or (n >= 1000 and pos and not (inc and pol)) or (cls != "Source" and (ig or isc)) or (ig and n < 1000 and pos and isc):
            continue
        key = "build.%d.g%d.sc%d.pos%d.inc%d.pol%d.%s" % (n, ig, isc, pos, inc, pol, cls)
        kw = dict(m_1=np.full(n, 10.0) * u.Msun, m_2=np.full(n, 8.0) * u.Msun, ecc=np.zeros(n), dist=np.full(n, 8.0) * u.kpc, f_orb=np.full(n, 1e-3) * u.Hz, interpolate_g=ig, interpolate_sc=isc, n_proc=1 + i % 2)
        if pos:
            kw["position"] = SkyCoord(lon=np.linspace(0, 3, n) * u.rad, lat=np.linspace(-1, 1, n) * u.rad, distance=kw["dist"], frame="barycentrictrueecliptic")
        if inc:
            kw["inclination"] = np.full(n, 0.3) * u.rad
        if pol:
            kw["polarisation"] = np.full(n, 0.4) * u.rad
        want = []
        if pos and not inc:
            want.append(("info", ["random", "inclination"]))
        if pos and not pol:
            want.append(("info", ["random", "polarisation"]))
        if ig and n <= 1000:
            want.append(("warning", ["interpolate_g", "small number of sources"]))
        with ctx.guard(key):
            s = getattr(kit.lw.source, cls)(**kw)
            messages(ctx, key, c, want)
            if not ig and n <= 3:
                s.get_snr()
                s.get_merger_time()
                s.evolve_sources(1 * u.yr)
                s.copy()
                s[:1]
                s.sc_params["instrument"] = "TianQin"
                messages(ctx, key + ".quiet", c, [])
        ctx.traces += 1
    # a formatter that isn't told where the messages go doesn't colour them
    import logging
    kind = getattr(getattr(kit.lw, "_logging", None), "LegworkFormatter", None)
    if kind is not None:
        with ctx.guard("formatter"):
            for level in (logging.INFO, logging.WARNING, logging.ERROR):
                text = kind().format(logging.LogRecord("LEGWORK", level, "f", 1, "hello", (), None))
                ctx.expect("\x1b" not in text and "LEGWORK" in text and "hello" in text, "formatter.plain", lambda: "formatted as %r" % text)
                ctx.transitions += 1
    for s in (0, 1):
        with ctx.guard("bundled"):
            kit.lw.source.VerificationBinaries()
            messages(ctx, "bundled.%d" % s, c, [("info", ["random", "polarisation"])])


def plotting(part):
    def run(ctx):
        """every combination of source classes, merged sources, cut-offs and SNR history"""
        import matplotlib.pyplot as plt
        c = capture()
        names = ("cs", "es", "ce", "ee", "cs2", "ce")
        circ = np.array([True, False, True, False, True, True])
        stat = np.array([True, True, False, False, True, False])
        i = 0
        for pick in itertools.product((False, True), repeat=6):
            p = np.array(pick)
            if not p.any():
                continue
            i += 1
            if i % 4 != part:
                continue
            s = kit.build(kit.Spec.of(*[n for n, k in zip(names, p) if k]), interpolate_sc=False)
            key = "plot." + "".join("%d" % z for z in p)
            with ctx.guard(key):
                s.plot_sources_on_sc(show=False)
                messages(ctx, key + ".no SNR", c, [("error", ["no snr"])])
                s.get_snr(n_step=4)
                messages(ctx, key + ".snr", c, [])
                snr = np.array(s.snr)
                for merged, cut in itertools.product(range(p.sum() + 1), (0, "mid", 1e9)):
                    s.merged = np.arange(p.sum()) < merged
                    v = float(np.sort(snr)[len(snr) // 2]) if cut == "mid" else cut
                    s.plot_sources_on_sc(snr_cutoff=v, show=False)
                    plt.close("all")
                    live = ~s.merged & (snr > v)
                    nc, ne = int((live & circ[p] & ~stat[p]).sum()), int((live & ~circ[p] & ~stat[p]).sum())
                    want = ([("warning", ["%d circular" % nc, "evolving"])] if nc else []) + ([("warning", ["%d eccentric" % ne, "evolving"])] if ne else [])
                    messages(ctx, "%s.%d.%s" % (key, merged, cut), c, want)
            ctx.traces += 1
        V = kit.lw.visualisation
        f = np.array([1e-3, 2e-3]) * u.Hz
        for snr, cut in itertools.product(([0.0, 0.0], [1.0, 7.0], [7.0, 7.0], [0.0, 3.0]), (None, 0, 1.0, 7, 6.999)):
            with ctx.guard("on curve"):
                kw = {} if cut is None else {"snr_cutoff": cut}
                V.plot_sources_on_sc(f, np.array(snr), show=False, **kw)
                plt.close("all")
                none = not any(x > (cut or 0) for x in snr)
                messages(ctx, "on curve.%s.%s" % (snr, cut), c, [("error", ["no binaries above"])] if none else [])
    return run


def evolution(ctx):
    """evol_ecc: timesteps up to, near and past the merger, one or several sources"""
    E = kit.lw.evol
    c = capture()
    rows = [(30.0, 25.0, 0.3, 5e-3), (20.0, 10.0, 0.5, 4e-3), (10.0, 10.0, 0.05, 6e-3)]
    tm = []
    for m1, m2, e, f in rows:
        a = ref.a_of_f(f, m1 * ref.MSUN, m2 * ref.MSUN)
        tm.append(ref.t_merge(a, e, ref.beta(m1 * ref.MSUN, m2 * ref.MSUN)) / ref.YR)
    for pick in ((0,), (1,), (2,), (0, 1), (0, 1, 2)):
        m1, m2, e, f = [np.array([rows[i][k] for i in pick]) for k in range(4)]
        t = np.array([tm[i] for i in pick])
        for frac, before, avoid, given, form in itertools.product((None, 0.3, 0.9, 0.999, 1.001, 1.5, 3.0), (1e-6, 0.2, 0.6, 2.0), (True, False), (False, True), ("t_evol", "timesteps")):
            if (frac is None and form == "timesteps") or (not avoid and (given or (frac or 2) >= 1)) or (not avoid and before != 1e-6):
                continue
            key = "evol.%s.%s.%s.%d.%d.%s" % (pick, frac, before, avoid, given, form)
            kw = dict(ecc_i=e, m_1=m1 * u.Msun, m_2=m2 * u.Msun, f_orb_i=f * u.Hz, t_before=(before * t.min()) * u.yr, avoid_merger=avoid)
            if given:
                kw["t_merge"] = t * u.yr
            if frac is not None:
                if form == "t_evol":
                    kw.update(t_evol=(frac * t) * u.yr, n_step=6)
                else:
                    kw["timesteps"] = np.linspace(0, frac * t, 6, axis=1) * u.yr
            else:
                kw["n_step"] = 6
            ts = np.linspace(0, (1.0 if frac is None else frac) * t, 6, axis=1)
            close = (ts >= t[:, None] - before * t.min())[:, 1:]
            want = []
            if avoid and frac is not None and frac > 1:
                want.append(("warning", ["past the merger"]))
            if avoid and close.all():
                want.append(("warning", ["too close to merger"]))
            if not given:
                kw["exact_t_merge"] = True
            # (cases where a timestep falls on the limit itself are left out)
            if avoid and np.any(np.abs(ts - (t[:, None] - before * t.min()))[:, 1:] < (1e-9 if before == 1e-6 else 2e-3) * t.min()):
                continue
            with ctx.guard(key):
                E.evol_ecc(**kw)
                messages(ctx, key, c, want)
                if not given and (frac is None or abs(frac - 1) > 0.05) and (before == 1e-6 or np.all(np.abs(ts - (t[:, None] - before * t.min()))[:, 1:] > 0.05 * t.min())):
                    del kw["exact_t_merge"]                 # approximate merger times
                    E.evol_ecc(**kw)
                    messages(ctx, key + ".approximate", c, want)
            ctx.traces += 1


def response(ctx):
    """noise with and without the tabulated response"""
    import tempfile
    old = os.path.dirname(kit.lw.__file__)
    base = tempfile.mkdtemp(dir=env.SCRATCH)                # an overlay of its own, to take the file away
    pkg = os.path.join(base, "legwork")
    os.mkdir(pkg)
    for n in os.listdir(old):
        if n != "__pycache__":
            os.symlink(os.path.realpath(os.path.join(old, n)), os.path.join(pkg, n))
    sys.path.insert(0, base)
    purge()
    import_package()
    assert os.path.dirname(kit.lw.__file__) == pkg
    c = capture()
    P = kit.lw.psd
    f = np.logspace(-5, 0, 40)
    path = os.path.join(pkg, "R.npy")
    target = os.readlink(path)
    for present in (True, False, True):
        if present and not os.path.lexists(path):
            os.symlink(target, path)
        elif not present:
            os.unlink(path)
        for approx in (False, True):
            key = "response.%d.%d" % (present, approx)
            with ctx.guard(key):
                got = P.power_spectral_density(f * u.Hz, approximate_R=approx).value
                want = ref.psd(f, approx=approx or not present)
                ctx.expect(kit.allclose(got, want, 1e-9), key, "the noise differs")
                messages(ctx, key, c, [] if present or approx else [("warning", ["response", "approximation"])])
            with ctx.guard(key):
                for ins in ("TianQin", "DECIGO"):
                    P.power_spectral_density(f * u.Hz, instrument=ins, approximate_R=approx)
                messages(ctx, key + ".others", c, [])
        ctx.traces += 1


def units(tier):
    deep = tier == "thorough"
    for part in range(4):
        yield "construction/%d" % part, construction(part)
    for start, tty in itertools.product(START, (False, True)):
        yield "histories/%s/tty%d" % (start, tty), history(start, tty, OPS, 3 if deep else 2)
        if deep or (start, tty) in (("nothing", True), ("level ERROR", False), ("own handler", False)):
            yield "core/%s/tty%d" % (start, tty), history(start, tty, CORE, 4 if deep else 3)
    for pre, tty in itertools.product(PRE, (False, True)):
        yield "interpreter/%s/tty%d" % (pre, tty), interpreter(pre, tty)
    for part in range(4):
        yield "plotting/%d" % part, plotting(part)
    yield "evolution", evolution
    yield "response", response
