"""C21: plots show exactly the requested data and leave the user's style alone.

Every plot kind x quantity x weights x scale x labels x limits x fresh or given axes, every mask and merged pattern of a small
collection, every settings combination of the sensitivity curve, all sequences of plotting calls (failing ones included) under
several user styles.  Oracle: the artists on the returned axes against data computed independently (numpy histograms, empirical
distributions, seaborn called on bare numbers, the reference noise curves).
"""
import itertools
import numpy as np
from astropy import units as u

from .. import kit, ref, explore

LEVEL = "model_checking"
TECHNIQUE = ("bounded exhaustive exploration: every combination of plot kind, quantity, weights, scale, labels, limits, axes, mask and merged "
             "pattern on the real plotting functions, artists compared with independently computed data; all call sequences")
NOTE = ("Full products over the options of each plot; all masks x merged patterns of four sources; plotting-call histories under several "
        "user styles check that nothing but the requested axes ever changes.")
BOUNDS = {"quick": "4 plot kinds x all options; 9 quantities alone and all 81 pairs; 16 masks x 16 merged patterns; settings product; histories of 2 of 12 calls x 3 styles",
          "thorough": "larger products; histories of 3 of 12 calls x 3 styles"}
SHOWN = []
RNG = np.random.RandomState(3)
X = np.round(RNG.lognormal(0.3, 0.8, 40), 6)
Y = np.round(RNG.lognormal(-0.4, 0.5, 40), 6)
W = np.round(np.linspace(0.3, 2.1, 40)[RNG.permutation(40)], 6)
CURVE_F = np.logspace(-5, 0, 1000)


def setup(tier):
    kit.setup()
    prepare()


def prepare():
    import matplotlib.pyplot as plt
    import seaborn
    globals()["plt"], globals()["sns"] = plt, seaborn

    def show(*a, **k):
        SHOWN.append(plt.get_fignums())
    plt.show = show
    fig, ax = plt.subplots()
    seaborn.kdeplot(x=X, ax=ax)
    seaborn.kdeplot(x=X, y=Y, ax=ax)
    fig.canvas.draw()
    plt.close("all")


# ---- reading plots -------------------------------------------------------------------------------------
def num(v):
    return np.asarray(getattr(v, "value", v), dtype=float)


def line(ln):
    return np.array([num(ln.get_xdata(orig=False)), num(ln.get_ydata(orig=False))])


def artists(ax):
    """everything drawn, as plain data"""
    out = {"lines": [line(ln) for ln in ax.lines], "bars": [(p.get_x(), p.get_y(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, "get_width")],
           "sets": [], "areas": []}
    for c in ax.collections:
        off = c.get_offsets()
        if type(c).__name__ == "PathCollection":
            out["sets"].append((np.ma.filled(off, np.nan), np.array(c.get_sizes())))
        else:
            out["areas"].append([p.vertices.copy() for p in c.get_paths() if len(p.vertices)])
    return out


def same_paths(a, b, tol=1e-9):
    return len(a) == len(b) and all(len(x) == len(y) and all(kit.allclose(p, q, tol) for p, q in zip(x, y)) for x, y in zip(a, b))


class Frame:
    """The figure state around a plotting call: which figures exist, what the style is"""
    def __init__(self, own):
        self.own = own
        self.fig = self.ax = None
        if own in ("both", "fig", "ax"):
            self.fig, self.ax = plt.subplots(figsize=(3, 2.5))
            if own == "both":
                self.ax.set_title("mine")
                self.marker, = self.ax.plot([], [], label="_mine")
        self.nums = list(plt.get_fignums())
        self.rc = dict(plt.rcParams)
        self.reg = units_registry()
        self.shown = len(SHOWN)

    def kw(self):
        out = {}
        if self.own in ("both", "fig"):
            out["fig"] = self.fig
        if self.own in ("both", "ax"):
            out["ax"] = self.ax
        return out

    def check(self, ctx, key, fig, ax, show, figsize=None):
        ctx.expect(dict(plt.rcParams) == self.rc, key + ".style", lambda: "style changed: %r" % [k for k in self.rc if plt.rcParams[k] != self.rc[k]][:5])
        ctx.expect(units_registry() == self.reg, key + ".style", "the unit conversion registry changed")
        ctx.expect((len(SHOWN) > self.shown) == bool(show), key + ".shown", lambda: "shown %d times" % (len(SHOWN) - self.shown))
        new = [n for n in plt.get_fignums() if n not in self.nums]
        if self.own == "both":
            ctx.expect(fig is self.fig and ax is self.ax and not new, key + ".axes", "the given axes were not used")
            ctx.expect(ax.get_title() == "mine" and tuple(fig.get_size_inches()) == (3, 2.5) and fig.axes == [ax], key + ".axes", "the given figure was changed")
            ctx.expect(self.marker in ax.lines, key + ".axes", "what was on the axes before is gone")
            self.marker.remove()
        else:
            ctx.expect(fig is not self.fig and ax is not self.ax and len(new) == 1 and ax.figure is fig, key + ".axes", lambda: "new figures %r" % new)
            if figsize is not None:
                ctx.expect(tuple(fig.get_size_inches()) == figsize, key + ".axes", lambda: "figure size %r" % (fig.get_size_inches(),))
            if self.ax is not None:
                ctx.expect(not self.ax.has_data(), key + ".axes", "drawn on other axes")


def units_registry():
    import matplotlib.units as mu
    return {k: type(v).__name__ for k, v in mu.registry.items()}


def label_of(text, want, ctx, key):
    ctx.expect(text == want, key + ".label", lambda: "label %r, expected %r" % (text, want))


def limits(ctx, key, ax, xlim, ylim):
    if xlim is not None:
        ctx.expect(kit.allclose(ax.get_xlim(), xlim, 1e-12), key + ".limits", lambda: "x limits %r, expected %r" % (ax.get_xlim(), xlim))
    if ylim is not None:
        ctx.expect(kit.allclose(ax.get_ylim(), ylim, 1e-12), key + ".limits", lambda: "y limits %r, expected %r" % (ax.get_ylim(), ylim))


def untouched(ctx, key, before, after):
    ctx.expect(all(np.array_equal(num(a), num(b)) for a, b in zip(before, after)), key + ".inputs", "the given data changed")


OPTS = [dict(), dict(xlabel="the x", ylabel="the y"), dict(xlim=(0.5, 4.0), ylim=(1e-3, 2.0)), dict(xlabel="only x", ylim=(0.1, 0.9), color="C3", label="name"),
        dict(xlim=(0.2, 9.0), ylabel="only y", figsize=(5, 4), color=(0.1, 0.2, 0.3))]


# ---- one-dimensional -------------------------------------------------------------------------------------
def hist_unit(unit, tier):
    def run(ctx):
        V = kit.lw.visualisation
        for own, show, weights, log, opt, extra in itertools.product(("fresh", "both", "fig", "ax"), (False, True), (None, W), (False, True), range(len(OPTS)), (
                {}, {"bins": 7}, {"bins": 6, "density": False}, {"bins": np.array([0.1, 0.5, 0.8, 2.0, 4.0])}, {"density": False}, {"bins": 5, "cumulative": True},
                {"bins": "sqrt"}, {"bins": 4, "range": (0.4, 3.0)}, {"bins": "sqrt", "range": (0.3, 2.5)}, {"range": (0.1, 3.5)})):
            if own in ("fig", "ax") and (opt or show) or (show and opt != 1):
                continue
            o = dict(OPTS[opt])
            key = "hist.%s.%s.%d.w%d.log%d.%d.%s" % (unit, own, show, weights is not None, log, opt, sorted(extra.items(), key=str))
            with ctx.guard(key):
                fr = Frame(own)
                x = X.copy() * (1 if unit is None else unit)
                w = None if weights is None else weights.copy()
                ex = dict(extra)
                if unit is not None and not log:
                    for k in ("bins", "range"):
                        if isinstance(ex.get(k), (np.ndarray, tuple)):
                            ex[k] = np.array(ex[k]) * unit
                fig, ax = V.plot_1D_dist(x, weights=w, log_scale=log, show=show, **fr.kw(), **o, **ex)
                fr.check(ctx, key, fig, ax, show, o.get("figsize", (10, 7)))
                untouched(ctx, key, [X] + ([W] if w is not None else []), [x] + ([w] if w is not None else []))
                d = np.log10(X) if log else X
                edges = np.histogram_bin_edges(d, bins=extra.get("bins", "fd"), range=extra.get("range"))
                h, edges = np.histogram(d, edges, weights=weights, density=extra.get("density", True) or None)
                if extra.get("cumulative"):
                    h = np.cumsum(h * np.diff(edges))
                bars = np.array(artists(ax)["bars"])
                want = np.array([edges[:-1], 0 * h, np.diff(edges), h]).T
                ctx.expect(kit.allclose(bars, want, 1e-9, 1e-12), key, lambda: "bars %r, expected %r" % (bars[:4], want[:4]))
                ctx.expect(ax.get_xscale() == "linear", key, "scale")
                if "xlabel" in o:
                    label_of(ax.get_xlabel(), o["xlabel"], ctx, key)
                if "ylabel" in o:
                    label_of(ax.get_ylabel(), o["ylabel"], ctx, key)
                limits(ctx, key, ax, np.log10(o["xlim"]) if log and "xlim" in o else o.get("xlim"), o.get("ylim"))
                if "color" in o:
                    import matplotlib.colors as mc
                    ctx.expect(all(mc.same_color(p.get_facecolor(), o["color"]) for p in ax.patches), key, "colour")
                if "label" in o:
                    ctx.expect("name" in ax.get_legend_handles_labels()[1], key, "label of the data")
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def smooth_unit(kind, unit, tier):
    """kernel densities and empirical distributions"""
    def run(ctx):
        V = kit.lw.visualisation
        extras = [{}, {"cut": 0}, {"bw_adjust": 0.5, "gridsize": 50}, {"fill": True}] if kind == "kde" else [{}, {"complementary": True}, {"stat": "count"}]
        for own, weights, log, opt, extra in itertools.product(("fresh", "both", "ax"), (None, W), (False, True), range(len(OPTS)), extras):
            if (own == "ax" and opt) or (tier == "quick" and opt > 1 and extra):
                continue
            show = opt == 2
            o = dict(OPTS[opt])
            key = "%s.%s.%s.w%d.log%d.%d.%s" % (kind, unit, own, weights is not None, log, opt, sorted(extra.items()))
            with ctx.guard(key):
                fr = Frame(own)
                x = X.copy() * (1 if unit is None else unit)
                w = None if weights is None else weights.copy()
                fig, ax = V.plot_1D_dist(x, weights=w, disttype=kind, log_scale=log, show=show, **fr.kw(), **o, **extra)
                fr.check(ctx, key, fig, ax, show, o.get("figsize", (10, 7)))
                untouched(ctx, key, [X] + ([W] if w is not None else []), [x] + ([w] if w is not None else []))
                got = artists(ax)
                if kind == "ecdf":
                    ww = np.ones(40) if weights is None else weights
                    order = np.argsort(X)
                    c = np.cumsum(ww[order])
                    tot = c[-1]
                    c = c if extra.get("stat") == "count" else c / tot
                    top = tot if extra.get("stat") == "count" else 1.0
                    c = np.concatenate([[0.0], c])
                    c = top - c if extra.get("complementary") else c
                    lx, ly = got["lines"][0] if got["lines"] else (np.array([]), np.array([]))
                    ctx.expect(len(got["lines"]) == 1 and kit.allclose(lx[1:], X[order], 1e-9) and kit.allclose(ly, c, 1e-9, 1e-12), key, lambda: "curve %r %r" % (lx[:4], ly[:4]))
                else:
                    f2, a2 = plt.subplots()
                    sns.kdeplot(x=X, weights=weights, ax=a2, log_scale=log, **dict({"gridsize": 200}, **extra))
                    want = artists(a2)
                    ctx.expect(len(got["lines"]) == len(want["lines"]) and all(kit.allclose(a, b, 1e-9) for a, b in zip(got["lines"], want["lines"])), key, "density curve differs")
                    ctx.expect(same_paths(got["areas"], want["areas"]), key, "filled density differs")
                ctx.expect(ax.get_xscale() == ("log" if log else "linear"), key, "scale")
                if "xlabel" in o:
                    label_of(ax.get_xlabel(), o["xlabel"], ctx, key)
                if "ylabel" in o:
                    label_of(ax.get_ylabel(), o["ylabel"], ctx, key)
                limits(ctx, key, ax, o.get("xlim"), o.get("ylim"))
                if "color" in o and not extra.get("fill"):
                    import matplotlib.colors as mc
                    ctx.expect(mc.same_color(ax.lines[0].get_color(), o["color"]), key, "colour")
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


# ---- two-dimensional -------------------------------------------------------------------------------------
def scatter_unit(unit, tier):
    def run(ctx):
        V = kit.lw.visualisation
        import matplotlib.colors as mc
        for own, weights, log, opt, s, show, extra in itertools.product(("fresh", "both", "fig", "ax"), (None, W), (None, False, True, (True, False), (False, True)), range(len(OPTS)),
                                                                 (None, 20, 3.5), (False, True), ({}, {"marker": "s", "alpha": 0.5}, {"c": W})):
            if own in ("fig", "ax") and (opt or show) or (show and opt != 1) or ("c" in extra and "color" in OPTS[opt]) or (tier == "quick" and extra and opt > 1):
                continue
            o = dict(OPTS[opt])
            key = "scatter.%s.%s.w%d.log%s.%d.s%s.%d.%s" % (unit, own, weights is not None, log, opt, s, show, sorted(extra))
            with ctx.guard(key):
                fr = Frame(own)
                x, y = X.copy() * (1 if unit is None else unit), Y.copy() * (1 if unit is None else u.kpc)
                w = None if weights is None else weights.copy()
                kw = dict(extra)
                if log is not None:
                    kw["log_scale"] = log
                if s is not None:
                    kw["scatter_s"] = s
                fig, ax = V.plot_2D_dist(x, y, weights=w, show=show, **fr.kw(), **o, **kw)
                fr.check(ctx, key, fig, ax, show, o.get("figsize", (12, 7)))
                untouched(ctx, key, [X, Y] + ([W] if w is not None else []), [x, y] + ([w] if w is not None else []))
                points(ctx, key, ax, X, Y, weights, 20 if s is None else s)
                lx, ly = log if isinstance(log, tuple) else (log, log)
                ctx.expect((ax.get_xscale(), ax.get_yscale()) == ("log" if lx else "linear", "log" if ly else "linear"), key, lambda: "scales %s %s" % (ax.get_xscale(), ax.get_yscale()))
                if "xlabel" in o:
                    label_of(ax.get_xlabel(), o["xlabel"], ctx, key)
                if "ylabel" in o:
                    label_of(ax.get_ylabel(), o["ylabel"], ctx, key)
                limits(ctx, key, ax, o.get("xlim"), o.get("ylim"))
                if "color" in o:
                    ctx.expect(mc.same_color(ax.collections[0].get_facecolor()[0], o["color"]), key, "colour")
                if "label" in o:
                    ctx.expect("name" in ax.get_legend_handles_labels()[1], key, "label of the data")
                if "c" in extra:
                    ctx.expect(np.array_equal(ax.collections[0].get_array(), W), key, "colours by value")
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def points(ctx, key, ax, x, y, weights, s, tol=1e-9):
    sets = artists(ax)["sets"]
    if not ctx.expect(len(sets) == 1, key, lambda: "%d point sets" % len(sets)):
        return
    off, size = sets[0]
    want = np.array([x, y]).T
    if not ctx.expect(off.shape == want.shape, key, lambda: "%d points, expected %d" % (len(off), len(want))):
        return
    ws = np.full(len(x), float(s)) if weights is None else np.asarray(weights) * s
    size = np.full(len(x), size[0]) if len(size) == 1 else size
    ctx.expect(np.all(kit.close(off, want, tol)), key, lambda: "points %r, expected %r" % (off[:3], want[:3]))
    ctx.expect(kit.allclose(size, ws, 1e-9), key + ".weights", lambda: "sizes %r, expected %r" % (size[:3], ws[:3]))


def kde2_unit(unit, tier):
    def run(ctx):
        V = kit.lw.visualisation
        for own, weights, log, opt, extra in itertools.product(("fresh", "both"), (None, W), (False, True, (True, False)), (0, 1, 2), ({"gridsize": 40}, {"gridsize": 30, "levels": 4, "thresh": 0.1}, {})):
            if tier == "quick" and (not extra and (opt or log) or (own == "both" and opt)):
                continue
            o = dict(OPTS[opt])
            key = "kde2.%s.%s.w%d.log%s.%d.%s" % (unit, own, weights is not None, log, opt, sorted(extra.items()))
            with ctx.guard(key):
                fr = Frame(own)
                x, y = X.copy() * (1 if unit is None else unit), Y.copy() * (1 if unit is None else u.kpc)
                fig, ax = V.plot_2D_dist(x, y, weights=weights, disttype="kde", show=False, log_scale=log, **fr.kw(), **o, **extra)
                fr.check(ctx, key, fig, ax, False, o.get("figsize", (12, 7)))
                f2, a2 = plt.subplots()
                ls = log if isinstance(log, tuple) else (log, log)
                sns.kdeplot(x=X, y=Y, weights=weights, ax=a2, log_scale=ls, **dict({"gridsize": 200, "levels": 10, "thresh": 0.02}, **extra))
                ctx.expect(same_paths(artists(ax)["areas"], artists(a2)["areas"], 1e-6), key, "contours differ")
                ctx.expect((ax.get_xscale(), ax.get_yscale()) == (a2.get_xscale(), a2.get_yscale()), key, "scale")
                if opt == 1:
                    label_of(ax.get_xlabel(), o["xlabel"], ctx, key)
                    label_of(ax.get_ylabel(), o["ylabel"], ctx, key)
                limits(ctx, key, ax, o.get("xlim"), o.get("ylim"))
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


# ---- sensitivity curves ------------------------------------------------------------------------------------
P1 = kit.CountingPSD("p1", 1e-39)
C1 = kit.CountingCN("c1")
SETTINGS = [dict(z) for z in [
    {}, {"instrument": "TianQin"}, {"instrument": "DECIGO"}, {"t_obs": 2.0}, {"t_obs": 0.5, "confusion_noise": "huang20", "instrument": "TianQin"}, {"L": 1e9}, {"approximate_R": True},
    {"confusion_noise": None}, {"confusion_noise": C1, "t_obs": 3.0}, {"confusion_noise": "thiele21", "t_obs": 4.0}, {"instrument": "custom", "custom_psd": P1},
    {"instrument": "custom", "custom_psd": P1, "t_obs": 2.0, "L": 3e9, "approximate_R": True}, {"instrument": "TianQin", "confusion_noise": "robson19", "L": 2e8},
    {"t_obs": 8.0, "L": 2e9, "approximate_R": True, "confusion_noise": "robson19"}, {"instrument": "DECIGO", "confusion_noise": "robson19", "t_obs": 2.0}]]
DEF = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}


def call_settings(s):
    out = dict(s)
    if "t_obs" in s:
        out["t_obs"] = s["t_obs"] * u.yr
    if "L" in s:
        out["L"] = s["L"] * u.m
    return out


def noise_of(s):
    return kit.noise_of(dict(DEF, **call_settings(s)))


def curve_ok(ctx, key, ax, f, noise, h_c, fill, tol=1e-9):
    got = artists(ax)
    y = np.sqrt(noise(f) * (f if h_c else 1))
    fin = np.isfinite(y)
    if ctx.expect(len(got["lines"]) == 1 and got["lines"][0].shape == (2, len(f)), key, lambda: "lines %r" % [x.shape for x in got["lines"]]):
        lx, ly = got["lines"][0]
        ok = kit.close(lx, f, 1e-9) & (np.where(fin, kit.close(ly, y, tol), ~np.isfinite(ly)))
        ctx.expect(np.all(ok), key, lambda: "curve %r, expected %r" % (np.array([lx, ly]).T[~ok][:3], np.array([f, y]).T[~ok][:3]))
    ctx.expect(len(got["areas"]) == (1 if fill else 0), key, lambda: "%d filled areas" % len(got["areas"]))
    if fill and got["areas"]:
        v = np.concatenate(got["areas"][0])
        top = v[v[:, 1] > 0]
        fs = f[fin]
        ctx.expect(np.all(kit.close(np.sort(np.unique(top[:, 0])), fs, 1e-9)) if len(np.unique(top[:, 0])) == len(fs) else False, key, "filled area covers other frequencies")
        ctx.expect(np.all(kit.close(top[:, 1], np.interp(top[:, 0], fs, y[fin]), max(tol, 1e-7))), key, "filled area is not the one below the curve")
        ctx.expect(np.all(v[:, 1] >= 0), key, "filled area reaches below zero")
    ctx.expect((ax.get_xscale(), ax.get_yscale()) == ("log", "log"), key, "scale")
    ctx.expect(kit.allclose(ax.get_xlim(), (f.min(), f.max()), 1e-9), key, lambda: "x limits %r" % (ax.get_xlim(),))
    ctx.expect("Frequency" in ax.get_xlabel() and "Hz" in ax.get_xlabel(), key, lambda: "x label %r" % ax.get_xlabel())
    yl = ax.get_ylabel()
    ctx.expect(("Strain" in yl and "ASD" not in yl) if h_c else ("ASD" in yl and "Hz" in yl), key, lambda: "y label %r" % yl)


def curve_unit(part, tier):
    def run(ctx):
        V = kit.lw.visualisation
        import matplotlib.colors as mc
        ranges = [None, np.logspace(-4, -1, 60) * u.Hz, np.logspace(-1.5, 2.5, 50) * u.mHz, np.linspace(0.1, 2e-3, 30)[::-1] * u.Hz]
        looks = [{}, {"fill": False}, {"color": "C2", "alpha": 0.7, "linewidth": 3, "label": "curve"}, {"figsize": (4, 4), "fill": False, "label": "c"}]
        for i, (own, st, yq, rg, look) in enumerate(itertools.product(("fresh", "both", "fig", "ax"), range(len(SETTINGS)), (None, "ASD", "h_c"), range(len(ranges)), range(len(looks)))):
            if i % 4 != part or (own in ("fig", "ax") and (look or st > 2)) or (tier == "quick" and look and st > 2 and rg) or (yq is None and (rg or st)):
                continue
            s, f = SETTINGS[st], ranges[rg]
            key = "curve.%s.%d.%s.%d.%d" % (own, st, yq, rg, look)
            if f is not None and i % 8 >= 4:
                f = f.to(u.kHz)
            with ctx.guard(key):
                fr = Frame(own)
                kw = {} if yq is None else {"y_quantity": yq}
                f0 = None if f is None else f.copy()
                show = look == 1
                fig, ax = V.plot_sensitivity_curve(*(() if f is None else (f,)), show=show, **fr.kw(), **kw, **looks[look], **call_settings(s))
                fr.check(ctx, key, fig, ax, show, looks[look].get("figsize", (10, 7)))
                if f is not None:
                    ctx.expect(f.unit == f0.unit and np.array_equal(f.value, f0.value), key + ".inputs", "the frequencies changed")
                curve_ok(ctx, key, ax, CURVE_F if f is None else f.to(u.Hz).value, noise_of(s), yq == "h_c", looks[look].get("fill", True))
                ctx.expect(mc.same_color(ax.lines[0].get_color(), looks[look].get("color", "#18068b")), key, "colour")
                ctx.expect(ax.lines[0].get_linewidth() == looks[look].get("linewidth", 1), key, "line width")
                if "label" in looks[look]:
                    ctx.expect(ax.get_legend_handles_labels()[1] == [looks[look]["label"]], key, "label")
                if looks[look].get("fill", True):
                    c = ax.collections[0]
                    ctx.expect(abs(c.get_facecolor()[0][3] - looks[look].get("alpha", 0.2)) < 1e-9, key, "opacity")
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def on_curve_unit(part, tier):
    """vis.plot_sources_on_sc"""
    def run(ctx):
        V = kit.lw.visualisation
        fd = np.array([1.3e-3, 4e-3, 2.2e-4, 1.1e-2, 6e-3, 3e-2])
        snr = np.array([0.0, 12.0, 3.0, 700.0, 7.0, 1.5])
        w = np.array([1.0, 2.0, 0.5, 3.0, 1.5, 0.7])
        for i, (own, st, yq, cut, wt, unit, extra) in enumerate(itertools.product(("fresh", "both", "fig"), range(len(SETTINGS)), (None, "ASD", "h_c"), (None, 3.0, 7, 1e4), (None, w),
                                                             (u.Hz, u.mHz), ({}, {"scatter_s": 5, "label": "them", "color": "C1"}, {"disttype": "kde", "gridsize": 20}))):
            if i % 4 != part or (own == "fig" and (st or extra)) or ("disttype" in extra and (cut not in (None, 3.0) or st > 1 or unit is u.mHz)) \
                    or (own == "both" and unit is u.mHz) \
                    or (tier == "quick" and st and (extra or (unit is u.mHz and yq != "h_c"))):
                continue
            key = "on.%s.%d.%s.%s.w%d.%s.%s" % (own, st, yq, cut, wt is not None, unit, sorted(extra))
            with ctx.guard(key):
                fr = Frame(own)
                kw = dict(extra)
                vs = {} if yq is None else {"y_quantity": yq}
                if own != "both" and yq is not None:
                    vs["fill"] = False
                vs0 = dict(vs)
                if vs or st:
                    kw["sc_vis_settings"] = vs
                if cut is not None:
                    kw["snr_cutoff"] = cut
                if wt is not None:
                    kw["weights"] = wt.copy()
                f = (fd * u.Hz).to(unit)
                show = cut == 7
                if own == "both":
                    fr.ax.set_xscale("log"), fr.ax.set_yscale("log")
                    fr.ax.set_ylim(1e-22, 1e-15)
                fig, ax = V.plot_sources_on_sc(f, snr.copy(), show=show, **fr.kw(), **kw, **call_settings(SETTINGS[st]))
                det = snr > (0 if cut is None else cut)
                fr.check(ctx, key, fig, ax, show and det.any())
                ctx.expect(vs == vs0, key + ".inputs", "the curve settings changed")
                noise = noise_of(SETTINGS[st])
                y = snr * np.sqrt(noise(fd) * (fd if yq == "h_c" else 1))
                if own == "both":
                    ctx.expect(not [ln for ln in ax.lines if len(ln.get_xdata())], key, "a curve was drawn on the given axes")
                    ctx.expect(kit.allclose(ax.get_ylim(), (1e-22, 1e-15), 1e-9), key + ".limits", lambda: "y limits became %r" % (ax.get_ylim(),))
                elif not extra or "disttype" not in extra:
                    sets = [c for c in ax.collections if type(c).__name__ == "PathCollection"]
                    for c in sets:
                        c.remove()
                    curve_ok(ctx, key, ax, CURVE_F, noise, yq == "h_c", vs.get("fill", True))
                    for c in sets:
                        ax.add_collection(c, autolim=False)
                if not det.any():
                    ctx.expect(not artists(ax)["sets"], key, "undetected sources were drawn")
                elif "disttype" not in extra:
                    tol = 1e-9
                    sub = np.isfinite(y[det])
                    if sub.all():
                        points(ctx, key, ax, fd[det], y[det], None if wt is None else wt[det], extra.get("scatter_s", 20), tol)
                    else:
                        off = artists(ax)["sets"][0][0]             # (points where there is no sensitivity are off the plot)
                        ctx.expect(len(off) == det.sum() and np.all(kit.close(off, np.array([fd, y]).T[det])[sub]), key, lambda: "points %r" % off)
                    if "label" in extra:
                        ctx.expect("them" in ax.get_legend_handles_labels()[1], key, "label")
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


# ---- collections ---------------------------------------------------------------------------------------------
NAMES = {"m_1": "Primary Mass", "m_2": "Secondary Mass", "m_c": "Chirp Mass", "ecc": "Eccentricity", "dist": "Distance", "f_orb": "Orbital Frequency",
         "f_GW": "Gravitational Wave Frequency", "a": "Semi-major axis", "snr": "Signal-to-noise Ratio"}
UNIT = {"m_1": u.Msun, "m_2": u.Msun, "m_c": u.Msun, "dist": u.kpc, "f_orb": u.Hz, "f_GW": u.Hz}
POOL = ("cs", "es", "ce", "cs2", "ee", "es2")


def collection(n, weights, sky=False, faint=False, **kw):
    spec = kit.Spec.of(*POOL[:n], weights=[1.0, 0.4, 2.5, 1.7, 0.9, 3.0][:n] if weights else None, sky=kit.SKY[:n] if sky else None)
    if sky:
        spec = kit.Spec([(r[0], r[1], 0.0, r[3], r[4]) for r in spec.rows], spec.weights, spec.sky)
    if faint:           # one source with an SNR far below one
        spec.rows[3] = spec.rows[3][:3] + (spec.rows[3][3] * 1e6,) + tuple(spec.rows[3][4:])
    s = kit.build(spec, **kw)
    return spec, s


def values(spec, s):
    """quantity -> plain values (reference, in the units of the axes)"""
    m1, m2 = spec.m1, spec.m2
    a = ref.a_of_f(spec.f, m1 * ref.MSUN, m2 * ref.MSUN) / ref.AU
    return {"m_1": m1, "m_2": m2, "m_c": spec.mc, "ecc": spec.ecc, "dist": spec.dist, "f_orb": spec.f, "f_GW": 2 * spec.f,
            "a": (a * u.AU).to(s.a.unit).value, "snr": None if s.snr is None else np.array(s.snr)}


def auto_labels(ctx, key, s, text, name, log):
    unit = dict(UNIT, a=s.a.unit).get(name)
    ctx.expect(text.startswith(NAMES[name]), key + ".label", lambda: "label %r of %s" % (text, name))
    if unit is not None:
        ctx.expect("{:latex}".format(unit).strip("$") in text, key + ".label", lambda: "label %r lacks the unit %s" % (text, unit))
    else:
        ctx.expect("[" not in text, key + ".label", lambda: "label %r has a unit" % text)
    ctx.expect((r"\log_{10}" in text) == bool(log), key + ".label", lambda: "label %r" % text)


def variables_unit(xs, weights, tier):
    """every quantity alone and every pair with xs on the x axis, scales, automatic and given labels"""
    def run(ctx):
        spec, s = collection(6, weights)
        s.get_snr(n_step=5)
        s.merged = np.array([False, True, False, False, False, False])
        before = kit.observe(s, curves=False)
        v = values(spec, s)
        for ys, log, lab, disttype, mask, excl in itertools.product([None] + list(NAMES), (False, True, (True, False), (False, True)), (0, 1), (None, "hist", "kde", "ecdf", "scatter"),
                                                                    (None, 0b101111, 0b110010), (None, True, False)):
            two = ys is not None
            if (disttype in ("hist", "ecdf") and two) or (disttype == "scatter" and not two) or (not two and isinstance(log, tuple)) or (disttype is not None and not two and mask == 0b110010) \
                    or (disttype == "kde" and two) or (lab and excl is False) or (tier == "quick" and (mask == 0b110010 and log or weights and not two and lab or two and disttype is None and mask is None)) \
                    or (tier == "quick" and two and ((mask is None) != (excl is None) or (log and lab) or (disttype and log))) \
                    or (excl is True and mask is None):
                continue
            m = None if mask is None else np.array([bool(mask >> i & 1) for i in range(6)])
            key = "var.%s.%s.log%s.%d.%s.%s.%s.w%d" % (xs, ys, log, lab, disttype, mask, excl, weights)
            keep = np.ones(6, bool) if m is None else m.copy()
            if excl is not False:
                keep &= ~s.merged
            if log and (two and ((xs == "ecc" and (log is True or log[0])) or (ys == "ecc" and (log is True or log[1]))) or not two and xs == "ecc"):
                continue                                        # logarithm of zero
            if disttype == "kde" and xs in ("ecc",) and keep.sum() < 4:
                continue
            with ctx.guard(key):
                kw = {}
                if two:
                    kw["ystr"] = ys
                if log:
                    kw["log_scale"] = log
                if lab:
                    kw.update(xlabel="my x", ylabel="my y")
                if disttype:
                    kw["disttype"] = disttype
                if m is not None:
                    kw["which_sources"] = m
                if excl is not None:
                    kw["exclude_merged_sources"] = excl
                fr = Frame("both" if lab else "fresh")
                m0 = None if m is None else m.copy()
                fig, ax = s.plot_source_variables(xs, show=False, **kw, **fr.kw())
                fr.check(ctx, key, fig, ax, False)
                ctx.expect(m is None or np.array_equal(m, m0), key + ".inputs", "the mask changed")
                w = np.array(spec.weights)[keep] if weights else None
                d = v[xs][keep]
                if two:
                    points(ctx, key, ax, d, v[ys][keep], w, 20)
                    l2 = log if isinstance(log, tuple) else (log, log)
                    ctx.expect((ax.get_xscale(), ax.get_yscale()) == tuple("log" if z else "linear" for z in l2), key, "scales")
                elif disttype in (None, "hist"):
                    d = np.log10(d) if log else d
                    edges = np.histogram_bin_edges(d, bins="fd")
                    h, edges = np.histogram(d, edges, weights=w, density=True)
                    bars = np.array(artists(ax)["bars"])
                    ctx.expect(kit.allclose(bars, np.array([edges[:-1], 0 * h, np.diff(edges), h]).T, 1e-7, 1e-12), key, lambda: "bars %r, expected %r %r" % (bars, edges, h))
                elif disttype == "ecdf":
                    o = np.argsort(d)
                    c = np.cumsum((np.ones(len(d)) if w is None else w)[o])
                    ln = artists(ax)["lines"][0]
                    ctx.expect(kit.allclose(ln[0][1:], d[o]) and kit.allclose(ln[1][1:], c / c[-1]), key, lambda: "curve %r" % ln)
                else:
                    f2, a2 = plt.subplots()
                    sns.kdeplot(x=d, weights=w, ax=a2, log_scale=log, gridsize=200)
                    a, b = artists(ax)["lines"], artists(a2)["lines"]
                    ctx.expect(len(a) == len(b) and all(kit.allclose(x, y, 1e-6, 1e-12) for x, y in zip(a, b)), key, "density differs")
                if lab:
                    label_of(ax.get_xlabel(), "my x", ctx, key)
                    label_of(ax.get_ylabel(), "my y", ctx, key)
                else:
                    auto_labels(ctx, key, s, ax.get_xlabel(), xs, log and not two and disttype in (None, "hist"))
                    if two:
                        auto_labels(ctx, key, s, ax.get_ylabel(), ys, False)
                    else:
                        yl = ax.get_ylabel()
                        ctx.expect(("Proportion" in yl or "umulative" in yl) if disttype == "ecdf" else ("{d}N" in yl and (r"\log_{10}" in yl) == bool(log)), key + ".label", lambda: "label %r" % yl)
                now = kit.observe(s, curves=False)
                ctx.expect(not kit.diff(before, now), key + ".data", lambda: "the collection changed: %r" % kit.diff(before, now))
            plt.close("all")
            ctx.case(key)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(key)
    return run


def masks_unit(part, tier):
    """all masks x merged patterns of four sources: exactly the requested, unmerged ones are drawn"""
    def run(ctx):
        n = 4
        for weights in (False, True):
            spec, s = collection(n, weights)
            s.get_snr(n_step=5)
            v = values(spec, s)
            for i, merged in enumerate(itertools.product((False, True), repeat=n)):
                if i % 8 != part:
                    continue
                s.merged = np.array(merged)
                for mask in [None] + list(itertools.product((False, True), repeat=n)):
                    for excl in (True, False):
                        keep = np.ones(n, bool) if mask is None else np.array(mask)
                        if excl:
                            keep = keep & ~s.merged
                        if not keep.any():
                            continue
                        for form in ("array", "list"):
                            if form == "list" and (mask is None or weights):
                                continue
                            key = "masks.%s.%s.%d.%s" % (merged, mask, excl, form)
                            with ctx.guard(key):
                                m = None if mask is None else list(mask) if form == "list" else np.array(mask)
                                fig, ax = s.plot_source_variables("f_orb", "m_1", which_sources=m, exclude_merged_sources=excl, show=False)
                                points(ctx, key, ax, v["f_orb"][keep], v["m_1"][keep], np.array(spec.weights)[keep] if weights else None, 20)
                                if form == "array" and keep.sum() > 1:
                                    fig, ax = s.plot_source_variables("dist", which_sources=m, exclude_merged_sources=excl, show=False, bins=np.array([0, 2, 5, 30, 100]) * u.kpc, density=False)
                                    h = np.histogram(v["dist"][keep], [0, 2, 5, 30, 100], weights=np.array(spec.weights)[keep] if weights else None)[0]
                                    b = np.array(artists(ax)["bars"])
                                    ctx.expect(kit.allclose(b[:, 3], h), key, lambda: "bars %r, expected %r" % (b[:, 3], h))
                            plt.close("all")
                            ctx.transitions += 1
                            ctx.state(key)
                ctx.traces += 1
    return run


def collection_on_curve(part, tier):
    """Source.plot_sources_on_sc: merged x cut-offs x settings x weights x positions x height x axes"""
    def run(ctx):
        from . import c20
        n = 5
        picks = [dict(SETTINGS[i]) for i in (0, 1, 3, 5, 6, 7, 10, 13)]
        for i, (st, weights, sky, yq) in enumerate(itertools.product(range(len(picks)), (False, True), (False, True), (None, "ASD", "h_c"))):
            if i % 8 != part or (tier == "quick" and st > 1 and weights and sky):
                continue
            spec, s = collection(n, weights, sky, i % 2 == 0, sc_params=call_settings(picks[st]), interpolate_sc=bool(i % 3))
            s.get_snr(n_step=5)
            stat = np.array(s.get_source_mask(stationary=True))
            noise = noise_of(picks[st])
            snr = np.array(s.snr)
            before = kit.observe(s, curves=False)
            fd = spec.f * np.array(s.max_snr_harmonic)
            cuts = (None, float(np.sort(snr)[n // 2]), 1e9)
            for merged, cut, own in itertools.product(itertools.product((False, True), repeat=n), cuts, ("fresh", "both")):
                if cut == 1e9 and sum(merged) > 1 or (tier == "quick" and (sum(merged) > 2 or own == "both" and sum(merged) != 1 or weights and sky)):
                    continue
                key = "coll.%d.w%d.sky%d.%s.%s.%s.%s" % (st, weights, sky, yq, "".join("%d" % z for z in merged), cut, own)
                with ctx.guard(key):
                    s.merged = np.array(merged)
                    fr = Frame(own)
                    vs = {} if yq is None else {"y_quantity": yq}
                    kw = {} if cut is None else {"snr_cutoff": cut}
                    if yq is not None:
                        kw["sc_vis_settings"] = vs
                    if own == "both":
                        fr.ax.set_ylim(1e-23, 1e-12)
                    extra = {"label": "own", "scatter_s": 7, "weights": None} if False else ({"label": "own", "scatter_s": 7} if cut is None else {})
                    fig, ax = s.plot_sources_on_sc(show=False, **fr.kw(), **kw, **extra)
                    keep = stat & ~s.merged & (snr > (0 if cut is None else cut))
                    if not keep.any():
                        ctx.expect(ax is None or ax is fr.ax or not artists(ax)["sets"], key, "sources drawn")
                        ctx.expect(own != "both" or not artists(ax)["sets"], key, "sources drawn")
                    else:
                        fr.check(ctx, key, fig, ax, False)
                        y = snr * np.sqrt(noise(fd) * (fd if yq == "h_c" else 1))
                        points(ctx, key, ax, fd[keep], y[keep], np.array(spec.weights)[keep] if weights else None, extra.get("scatter_s", 20))
                        names = ax.get_legend_handles_labels()[1]
                        ctx.expect(("own" if cut is None else "Stationary sources") in names, key, lambda: "labels %r" % names)
                        if own == "fresh":
                            for c in [c for c in ax.collections if type(c).__name__ == "PathCollection"]:
                                c.remove()
                            curve_ok(ctx, key, ax, CURVE_F, noise, yq == "h_c", True)
                        else:
                            ctx.expect(kit.allclose(ax.get_ylim(), (1e-23, 1e-12)), key + ".limits", "y limits changed")
                    ctx.expect(vs == ({} if yq is None else {"y_quantity": yq}), key + ".inputs", "the curve settings changed")
                    now = kit.observe(s, curves=False)
                    d = kit.diff(before, now, skip=("merged",))
                    ctx.expect(not d and np.array_equal(now["merged"], np.array(merged)), key + ".data", lambda: "the collection changed: %r" % d)
                plt.close("all")
                ctx.transitions += 1
                ctx.state(key)
            ctx.traces += 1
    return run


# ---- histories -------------------------------------------------------------------------------------------------
class World:
    def __init__(self, style):
        if style == "mine":
            plt.rcParams.update({"font.family": "sans-serif", "axes.labelsize": 7, "xtick.minor.visible": False, "figure.figsize": (2, 2), "font.size": 5})
        elif style == "units":
            from astropy.visualization import quantity_support
            self.keep = quantity_support()
        self.spec, self.s = collection(4, True)
        self.s.get_snr(n_step=5)
        self.fig, self.ax = plt.subplots()
        self.rc, self.reg = dict(plt.rcParams), units_registry()
        self.obs = kit.observe(self.s, curves=False)
        self.figs = {}
        self.calls = 0
        self.mine = 0

    def own(self):
        return dict(fig=self.fig, ax=self.ax)


def call(fn, own=False, fails=None):
    def op(w, ctx):
        w.calls += 1
        try:
            r = fn(w)
        except Exception as e:
            ctx.expect(fails is not None and isinstance(e, fails), "call", lambda: "failed with %r" % e)
            r = None
        else:
            ctx.expect(fails is None, "call", "an invalid request was accepted")
        if r is not None and r[1] is not w.ax:
            ctx.expect(not own, "axes", "given axes not used")
            ctx.expect(all(r[1] is not a for a, _ in w.figs.values()), "axes", "an earlier figure was reused")
            w.figs[r[0].number] = (r[1], artists(r[1]))
        elif own and r is not None:
            w.mine += 1
    return op


OPS = [("hist", call(lambda w: kit.lw.visualisation.plot_1D_dist(X, show=False))),
       ("hist weights mine", call(lambda w: kit.lw.visualisation.plot_1D_dist(X, weights=W, show=False, **w.own()), own=True)),
       ("ecdf", call(lambda w: kit.lw.visualisation.plot_1D_dist(X * u.Msun, disttype="ecdf", show=True))),
       ("scatter", call(lambda w: kit.lw.visualisation.plot_2D_dist(X * u.kpc, Y * u.Msun, weights=W, show=False))),
       ("scatter log", call(lambda w: kit.lw.visualisation.plot_2D_dist(X, Y, log_scale=True, show=False))),
       ("curve", call(lambda w: kit.lw.visualisation.plot_sensitivity_curve(show=False))),
       ("curve TianQin h_c", call(lambda w: kit.lw.visualisation.plot_sensitivity_curve(y_quantity="h_c", instrument="TianQin", show=False))),
       ("curve wrong", call(lambda w: kit.lw.visualisation.plot_sensitivity_curve(y_quantity="PSD", show=False, **w.own()), fails=ValueError)),
       ("variables", call(lambda w: w.s.plot_source_variables("f_orb", "snr", log_scale=True, show=False))),
       ("variables wrong", call(lambda w: w.s.plot_source_variables("f_orb", "mass", show=False), fails=ValueError)),
       ("on curve", call(lambda w: w.s.plot_sources_on_sc(show=False))),
       ("on curve cut mine", call(lambda w: w.s.plot_sources_on_sc(snr_cutoff=1.0, sc_vis_settings={"y_quantity": "h_c"}, label="l", show=False)))]
# what each call draws when it is the first one
FIRST = {}


def drawn(a):
    return (tuple(x.tobytes() for x in a["lines"]), tuple(a["bars"]), tuple((p.tobytes(), s.tobytes()) for p, s in a["sets"]), tuple(tuple(p.tobytes() for p in q) for q in a["areas"]))


def check_world(w, ctx):
    ctx.evaluations += 1
    ctx.expect(dict(plt.rcParams) == w.rc, "style", lambda: "style changed: %r" % [k for k in w.rc if plt.rcParams[k] != w.rc[k]][:5])
    ctx.expect(units_registry() == w.reg, "style", "the unit conversion registry changed")
    now = kit.observe(w.s, curves=False)
    ctx.expect(not kit.diff(w.obs, now), "data", lambda: "collection changed: %r" % kit.diff(w.obs, now))
    nums = [n for n in plt.get_fignums() if n != w.fig.number]
    extra = [n for n in nums if n not in w.figs and plt.figure(n).axes and plt.figure(n).axes[0].has_data()]
    ctx.expect(not extra, "figures", lambda: "figures nobody asked for: %r" % extra)
    for n, (ax, a) in w.figs.items():
        ctx.expect(drawn(artists(ax)) == drawn(a), "figures", lambda: "figure %d changed by a later call" % n)
    ctx.expect(len(artists(w.ax)["bars"]) == w.mine * FIRST.get("bars", 0) if FIRST else True, "axes", lambda: "%d bars on the given axes" % len(artists(w.ax)["bars"]))
    ctx.expect(not artists(w.ax)["lines"] and not artists(w.ax)["sets"] and not artists(w.ax)["areas"], "axes", "drawn on axes that were not given")
    if len(ctx.path) == 1 and ctx.path[0] not in FIRST:
        pass
    elif ctx.path and w.figs:
        last = max(w.figs)
        name = ctx.path[-1]
        if name in FIRST and dict(OPS)[name] is not None and w.calls == len(ctx.path) and name in w.drew:
            ctx.expect(drawn(w.figs[last][1]) == FIRST[name], "same", "draws something else after the calls before it")


def history_unit(style, tier):
    def run(ctx):
        # what each call draws on its own
        import pickle
        import tempfile
        fresh = World(style)
        fresh.drew = ()
        for name, op in OPS:
            with tempfile.NamedTemporaryFile() as tmp:
                def branch(child, op=op, path=tmp.name):
                    op(fresh, child)
                    if fresh.figs:
                        out = drawn(fresh.figs[max(fresh.figs)][1])
                    else:
                        out = len(artists(fresh.ax)["bars"])
                    with open(path, "wb") as f:
                        pickle.dump((bool(fresh.figs), out), f)
                explore.in_child(ctx, branch)
                with open(tmp.name, "rb") as f:
                    data = f.read()
            if data:
                is_fig, out = pickle.loads(data)
                if is_fig:
                    FIRST[name] = out
                elif name == "hist weights mine":
                    FIRST["bars"] = out
        fresh.drew = tuple(FIRST)
        explore.histories(ctx, fresh, OPS, check_world, 2 if tier == "quick" else 3, canon=lambda w: (sorted(w.figs), w.mine))
    return run


def units(tier):
    for unit in (None, u.Msun):
        yield "hist/%s" % unit, hist_unit(unit, tier)
        yield "scatter/%s" % unit, scatter_unit(unit, tier)
        yield "kde2/%s" % unit, kde2_unit(unit, tier)
        for kind in ("kde", "ecdf"):
            yield "%s/%s" % (kind, unit), smooth_unit(kind, unit, tier)
    for part in range(4):
        yield "curve/%d" % part, curve_unit(part, tier)
        yield "on/%d" % part, on_curve_unit(part, tier)
    for part in range(8):
        yield "masks/%d" % part, masks_unit(part, tier)
        yield "collection/%d" % part, collection_on_curve(part, tier)
    for xs in NAMES:
        for weights in (False, True):
            yield "variables/%s/w%d" % (xs, weights), variables_unit(xs, weights, tier)
    for style in ("plain", "mine", "units"):
        yield "histories/%s" % style, history_unit(style, tier)
