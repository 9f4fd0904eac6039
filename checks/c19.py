"""C19: 1D marginals are the weighted density, shaded and titled by the summary."""
import functools

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_dist
from scipy import stats
from scipy.ndimage import gaussian_filter1d

from mc.data import SHAPES, mixture_ppf, scramble, weighted_sample
from mc.engine import Space
from mc.scene import Panel, hexof, panels, triangle

ASSUMPTIONS = ["'density': compared with the true density broadened by the smoothing the settings ask for; unsmoothed histograms and grids are compared bar by bar with the weighted counts"]
N = 4000
MODES = ((1.0, -4.0, 0.7), (1.6, 3.0, 0.9))
LOC = {"x": (7.0, 2.5), "y": (-3e-4, 1e-5)}
WHERE = ("diagonal", "distributions", "summary", "flipped", "unflipped", "helper", "alone")
TRIANGLES = ("diagonal", "flipped", "unflipped")
BINNING = {"default": {}, "smooth 1": dict(smooth=1), "smooth 8": dict(smooth=8), "bins 50": dict(bins=50), "raw": dict(smooth=0), "raw 17": dict(smooth=0, bins=17), "kde": dict(kde=1.0), "kde half": dict(kde=0.5), "kde raw": dict(kde=True, smooth=0), "grid": dict(grid=True), "grid smooth": dict(grid=True, smooth=1)}


@functools.lru_cache(None)
def base(shape, weights, n=N):
    if shape == "modes":
        x = mixture_ppf(MODES, (np.arange(n) + 0.5) / n)[scramble(n, 2)]
        return (x, np.ones(n)) if weights == "unit" else (np.concatenate((x, x)), np.concatenate((np.full(n, 0.5), np.full(n, 1.5))))
    return weighted_sample(shape, n, weights)


def pdf(shape, t):
    if shape == "modes":
        return sum(w / 2.6 * stats.norm.pdf(t, m, s) for w, m, s in MODES)
    return SHAPES[shape].pdf(t)


@functools.lru_cache(None)
def data(shape, weights, grid, n=N):
    """Frame with x showing the shape and y an unrelated triangle, and the shape's own coordinate of every row."""
    if grid:
        g = np.linspace(-4.5, 4.5, 31) if shape in ("gauss", "heavy", "modes") else np.linspace(0.01, 9.01, 37)
        h = np.linspace(0.0, 4.0, 21)
        gx, gy = np.meshgrid(g, h, indexing="ij")
        u, v, w = gx.ravel(), gy.ravel(), (pdf(shape, gx) * SHAPES["tri"].pdf(gy) + 1e-9).ravel()
        o = scramble(len(u), 4)
        u, v, w = u[o], v[o], w[o]
    else:
        u, w = base(shape, weights, n)
        v = SHAPES["tri"].ppf((np.arange(len(u)) + 0.5) / len(u))[scramble(len(u), 11)]
    return u, v, w


def frame(shape, weights, grid, n=N):
    u, v, w = data(shape, weights, grid, n)
    return pd.DataFrame({"x": LOC["x"][0] + LOC["x"][1] * u, "y": LOC["y"][0] + LOC["y"][1] * v, "weight": w}), u, v, w


def show(where, chains, config, second=False):
    """The panels showing x and y (None when not shown), each with whether it is on its side."""
    cc = ChainConsumer()
    for c in chains:
        cc.add_chain(c)
    if where in ("flipped", "unflipped"):
        config = config.model_copy(update=dict(flip=where == "flipped"))
    cc.set_plot_config(config)
    if where in ("diagonal", "unflipped", "flipped"):
        g, _ = triangle(cc.plotter.plot(columns=["x", "y"]), 2)
        return cc, {"x": (g[0][0], False), "y": (g[1][1], where == "flipped")}
    if where == "alone":
        return cc, {"y": (triangle(cc.plotter.plot(columns=["y"]), 1)[0][0][0], False)}
    if where == "distributions":
        ps = panels(cc.plotter.plot_distributions(columns=["y", "x"]))
        return cc, {"y": (ps[0], False), "x": (ps[1], False)}
    if where == "summary":
        ps = panels(cc.plotter.plot_summary(columns=["x", "y"]))
        return cc, {"x": (ps[1], False), "y": (ps[2], False)}
    out = {}
    for c in "xy":
        _, ax = plt.subplots()
        for k in chains:
            plot_dist(ax, k, c, config)
        out[c] = (Panel(ax), False)
    return cc, out


def curve(q, turned, stepped, k=0):
    """(x, y, edges) of the k-th marginal."""
    if stepped:
        xy = q.steps[k].xy[:, ::-1] if turned else q.steps[k].xy
        e, h = xy[::2, 0], xy[1:-1:2, 1]
        if len(e) == len(h) + 2:
            e = e[:-1]
        return 0.5 * (e[1:] + e[:-1]), h, e
    ln = q.curves[k]
    return (ln.y, ln.x, None) if turned else (ln.x, ln.y, None)


def gen(ch):
    c = dict(where=ch.pick("where", WHERE, free=True), binning=ch.pick("binning", list(BINNING), free=True), shape=ch.pick("shape", ("skew", "gauss", "heavy", "modes", "tri", "uniform")), weights=ch.pick("weights", ("unit", "importance", "half", "random")), power=ch.pick("power", (1.0, 2.0, 0.5)),
             height=ch.pick("relative height", (1.0, 2.0, 0.25)), style=ch.pick("style", ("default", "dashed", "unshaded")), shift=ch.flag("shift_params"), index=ch.flag("strange index"))
    if c["shape"] == "modes" and c["weights"] not in ("unit", "random"):
        return None
    if c["binning"].startswith("grid") and (c["weights"] != "unit" or c["shape"] in ("modes", "uniform")) or c["binning"].startswith("kde") and c["where"] in TRIANGLES:  # the surface between them would take half a minute
        return None
    return c


def reference(shape, v, power, sd):
    """Density of the standard shape (or of the triangle), raised to a power, broadened by sd."""
    f = (lambda t: SHAPES["tri"].pdf(t)) if shape == "y" else (lambda t: pdf(shape, t))
    t = np.linspace(v.min() - 8 * sd - 1e-3, v.max() + 8 * sd + 1e-3, 8001)
    y = np.nan_to_num(f(t)) ** power
    return t, gaussian_filter1d(y, sd / (t[1] - t[0]), mode="constant") if sd > 0 else y


def run(case, p):
    o = BINNING[case["binning"]]
    df, u, v, w = frame(case["shape"], case["weights"], o.get("grid", False), 1500 if case["binning"].startswith("kde") else N)
    if case["index"]:
        df.index = np.arange(len(df))[::-1] // 3
    style = {"default": {}, "dashed": dict(linestyle="--", linewidth=3.0, zorder=4, color="#123456"), "unshaded": dict(bar_shade=False, shade=False)}[case["style"]]
    chain = Chain(samples=df, name="it", power=case["power"], histogram_relative_height=case["height"], shift_params=case["shift"], **{"color": "#993311"} | style, **o)
    try:
        cc, shown = show(case["where"], [chain], PlotConfig())
    finally:
        p.op()
    stepped = "raw" in case["binning"] and "kde" not in case["binning"] or case["binning"] == "grid"
    for c, (q, turned) in shown.items():
        at = (case, c)
        truth = u if c == "x" else v
        if not p.equal((len(q.steps), len(q.curves)), (1, 0) if stepped else (0, 1), "marginals drawn", at):
            continue
        art = q.steps[0] if stepped else q.curves[0]
        p.equal((art.color, art.lw, art.zorder, art.ls), (style.get("color", "#993311"), style.get("linewidth", 1.0), style.get("zorder", 10), style.get("linestyle", "-")), "style of the marginal", at)
        gx, gy, edges = curve(q, turned, stepped)
        mean = float(np.sum(df[c].to_numpy() * w) / w.sum()) if case["shift"] else 0.0
        gx, gy = (gx + mean - LOC[c][0]) / LOC[c][1], gy * LOC[c][1] ** case["power"]
        p.obs(gx[:: max(1, len(gx) // 20)], gy[:: max(1, len(gy) // 20)])
        if stepped:
            edges = (edges + mean - LOC[c][0]) / LOC[c][1]
            p.expect(np.all(np.diff(edges) > 0), "bars out of order", at)
            p.close(np.diff(edges) / (edges[1] - edges[0]), np.ones(len(gy)), 1e-6, "bars of unequal width", at)
            eps = 1e-9 * (edges[-1] - edges[0])
            counts = np.array([w[(truth >= a - eps) & ((truth < b - eps) if i < len(gy) - 1 else (truth <= b + eps))].sum() for i, (a, b) in enumerate(zip(edges[:-1], edges[1:]))])
            dens = counts / counts.sum() / np.diff(edges)
            want = dens ** case["power"] * case["height"]
            loose = np.abs(gy - want) > 1e-6 * want.max()
            # a sample on an edge may fall either way by rounding
            border = [w[np.abs(truth - e) < 1e-7 * (edges[-1] - edges[0])].sum() for e in edges]
            ok = ~loose | np.array([border[i] + border[i + 1] > 0 for i in range(len(gy))])
            p.expect(np.all(ok), "bars are not the weighted density", lambda: f"{at}: bars {np.nonzero(~ok)[0][:5]} drawn {gy[~ok][:5]} expected {want[~ok][:5]}")
            p.expect(counts.sum() > 0.997 * w.sum(), "bars leave out samples", lambda: (at, counts.sum() / w.sum()))
            if o.get("grid"):
                p.close(0.5 * (edges[1:] + edges[:-1]), np.unique(np.round(truth, 9)), 1e-6, "bars are not centred on the grid", at)
            elif "bins" in o:
                p.equal(len(gy), o["bins"] - 1, "number of bars", at)
            continue
        area = np.trapezoid(gy, gx)
        if case["power"] == 1.0:
            p.expect(abs(area / case["height"] - 1) < 0.012, "area of the marginal", lambda: f"{at}: {area:.4f} for height {case['height']}")
        p.expect(np.all(np.diff(gx) > 0) and np.all(gy >= 0), "curve out of order or negative", at)
        if o.get("grid"):
            step = np.diff(np.unique(np.round(truth, 9)))[0]
            sd = step
        elif o.get("kde"):
            neff = len(truth)
            xs = np.sqrt(np.cov(truth, aweights=w))
            sd = 2 * float(o["kde"]) * neff**-0.2 * xs
        else:
            smooth, bins = o.get("smooth", 3), o.get("bins", 35)
            sd = 1.4 * (truth.max() - truth.min()) / (2 * bins)
        tx, ty = reference("y" if c == "y" else case["shape"], truth, 1.0 if o.get("kde") else case["power"], sd)
        if o.get("kde"):
            ty = ty ** case["power"]
        ref = np.interp(gx, tx, ty) * case["height"]
        slack = 0.07 if case["weights"] == "importance" or case["power"] != 1 or case["binning"] in ("smooth 1", "bins 50") else 0.05
        if case["weights"] == "importance" and c == "y":
            slack = 0.13
        edgy = case["shape"] == "uniform" and c == "x"
        if case["shape"] == "heavy" and c == "x" and not o.get("grid"):
            slack = 0.12
        inner = np.ones(len(gx), bool) if not edgy else np.abs(gx - 0.5) < 0.5 - 3 * sd
        if o.get("grid") and c == "x":
            inner = (gx > truth.min() + 3 * sd) & (gx < truth.max() - 3 * sd)
        dev = np.abs(gy - ref)[inner] / ref.max()
        p.expect(dev.max() < slack, "curve is not the weighted density", lambda: f"{at}: off by {dev.max():.3f} of the peak at {gx[inner][dev.argmax()]:.3f}: {gy[inner][dev.argmax()]:.4f} expected {ref[inner][dev.argmax()]:.4f}")


# --------------------------------------------------------------------------------- shading and titles
def gen_title(ch, quick=True):
    c = dict(where=ch.pick("where", ("diagonal", "distributions", "summary", "flipped", "alone"), free=True), shape=ch.pick("shape", ("skew", "modes", "uniform", "gauss"), free=not quick), statistics=ch.pick("statistics", (None, "mean", "cumulative", "hdi", "max", "max_central"), free=True), binning=ch.pick("binning", ("default", "raw 17", "kde", "grid", "smooth 1")),
             multimodal=ch.flag("multimodal"), bar_shade=ch.pick("bar_shade", (True, False)), summarise=ch.pick("summarise", (True, False)), blind=ch.pick("blind", (False, ["x"], ["y"], True)), label=ch.pick("label", (None, r"$\alpha_1$", "plain", "$x$ [km]")), second=ch.pick("second chain", (None, "contour", "point", "after")), height=ch.pick("relative height", (1.0, 0.3)),
             area=ch.pick("summary_area", (0.6827, 0.9, 0.3)), weights=ch.pick("weights", ("unit", "random")))
    if c["binning"].startswith("kde") and c["where"] in TRIANGLES:
        return None
    if c["where"] == "summary" and c["second"]:
        return None
    if c["multimodal"] and c["statistics"] not in (None, "hdi"):
        return None
    return c


def run_title(case, p):
    o = BINNING[case["binning"]]
    df, *_ = frame(case["shape"], case["weights"], o.get("grid", False), 1000 if case["binning"] == "kde" else N)
    df["log_posterior"] = -np.arange(len(df)) / 50.0
    kw = dict(bar_shade=case["bar_shade"], histogram_relative_height=case["height"], summary_area=case["area"], multimodal=case["multimodal"], color="#224466", zorder=6, **o)
    if case["statistics"]:
        kw["statistics"] = case["statistics"]
    chain = Chain(samples=df, name="it", **kw)
    chains = [chain]
    if case["second"] in ("contour", "after"):
        chains.insert(0 if case["second"] == "contour" else 1, Chain(samples=frame("gauss", "unit", False)[0], name="zz", color="#ff0000"))
    elif case["second"] == "point":
        chains.append(Chain(samples=df, name="zz", color="#ff0000", plot_contour=False, plot_point=True))
    k = chains.index(chain)
    labels = {} if case["label"] is None else {"x": case["label"]}
    config = PlotConfig(summarise=case["summarise"], blind=case["blind"], labels=labels)
    cc, shown = show(case["where"], chains, config)
    p.op()
    summary = cc.analysis.get_summary(chains=["it"])["it"] if not isinstance(cc.analysis.get_summary(chains=["it"]), list) else None
    final = cc.get_chain("it")
    stepped = "raw" in case["binning"] or case["binning"] == "grid"
    linear = not stepped
    for c, (q, turned) in shown.items():
        at = (case, c)
        bound = summary[c]
        hidden = case["blind"] is True or (case["blind"] and c in case["blind"])
        known = bound is not None and (not isinstance(bound, list)) and bound.lower is not None and bound.upper is not None if not isinstance(bound, list) else True
        bands = []
        if known:
            bands = [(b.lower, b.upper) for b in bound] if isinstance(bound, list) else [(bound.lower, bound.upper)]
        same_kind = [ch for ch in chains if ch.plot_contour]
        i = 0 if not stepped else 0
        if not stepped:
            i = [ch for ch in same_kind].index(chain)
        if not p.equal((len(q.steps), len(q.curves)), (1, len(same_kind) - 1) if stepped else (0, len(same_kind)), "marginals drawn", at):
            continue
        gx, gy, edges = curve(q, turned, stepped, 0 if stepped else i)
        fills = [f for f in q.fills if f.color == "#224466"]
        want_bands = bands if case["bar_shade"] and known else []
        p.obs(len(fills), q.title)
        if p.equal(len(fills), len(want_bands), "shaded bands", at):
            for f, (lo, hi) in zip(fills, want_bands):
                v = np.concatenate(f.polys)
                if turned:
                    v = v[:, ::-1]
                lo, hi = max(lo, gx.min()), min(hi, gx.max())
                size = gx.max() - gx.min()
                p.close((v[:, 0].min(), v[:, 0].max()), (lo, hi), 1e-6 * size, "shading is not the summary interval", at)
                top = v[v[:, 1] > 0]
                if linear:
                    p.expect(len(top) > 500 and np.all(np.abs(top[:, 1] - np.interp(top[:, 0], gx, gy)) < 0.01 * gy.max()), "shading does not end at the curve", at)
                else:
                    near = np.abs(top[:, 0][:, None] - gx[None, :])
                    close = np.sort(near, axis=1)
                    clear = close[:, 1] - close[:, 0] > 1e-6 * size
                    p.expect(len(top) > 500 and np.all(np.abs(top[:, 1] - gy[near.argmin(axis=1)])[clear] < 1e-9 * gy.max()), "shading does not end at the bars", at)
                # the polygon covers the whole band, not parts of it
                xs = np.unique(v[:, 0])
                p.expect(np.diff(xs).max() < 0.01 * (hi - lo) + 1e-12, "gaps in the shading", at)
                p.expect(f.alpha is not None and 0 < f.alpha < 1, "opacity of the shading", at)
        plain = len(chains) == 1 or case["second"] == "point" and case["where"] != "distributions"
        titled = case["summarise"] and plain and not hidden and known and case["where"] != "summary"
        label = (case["label"] or "x").strip("$") if c == "x" else "y"
        want = cc.analysis.get_parameter_text(bound, wrap=True, label=label) if titled else "" if case["where"] != "summary" else (case["label"] or "x") if c == "x" else "y"
        p.equal(q.title, want, "title", at)
        if titled and not isinstance(bound, list):
            p.equal(q.title, f"${label} = {cc.analysis.get_parameter_text(bound)}$", "title", at)
            p.equal(q.ax.title.get_fontsize(), 12.0, "title size", at)
    p.expect(final is not None, "chain lost", case)


# --------------------------------------------------------------------------------- the helper draws the same curve
def gen_helper(ch):
    return dict(binning=ch.pick("binning", list(BINNING), free=True), shape=ch.pick("shape", ("skew", "modes", "gauss"), free=True), weights=ch.pick("weights", ("unit", "random"), free=True), power=ch.pick("power", (1.0, 2.0, 0.5)), height=ch.pick("relative height", (1.0, 0.3, 4.0)), style=ch.pick("style", ("default", "dashed", "unshaded", "clear")), summary=ch.flag("summary"),
                config=ch.pick("config", ("none", "small")), column=ch.pick("column", ("x", "y")), statistics=ch.pick("statistics", (None, "mean", "cumulative", "hdi")))


def run_helper(case, p):
    o = BINNING[case["binning"]]
    df, *_ = frame(case["shape"], case["weights"], o.get("grid", False), 1000 if "kde" in case["binning"] else 2000)
    style = {"default": {}, "dashed": dict(linestyle="--", linewidth=3.0, zorder=4), "unshaded": dict(shade=False), "clear": dict(shade_alpha=0.0)}[case["style"]]
    kw = dict(power=case["power"], histogram_relative_height=case["height"], color="#224466", **style, **o)
    if case["statistics"]:
        kw["statistics"] = case["statistics"]
    chain = Chain(samples=df, name="it", **kw)
    _, ax = plt.subplots()
    plot_dist(ax, chain, case["column"], None if case["config"] == "none" else PlotConfig(summary_font_size=7), summary=case["summary"])
    r = Panel(ax)
    cc = ChainConsumer().add_chain(chain)
    q = panels(cc.plotter.plot_distributions(columns=[case["column"]]))[0]
    p.op()
    p.equal((len(r.curves), len(r.steps)), (len(q.curves), len(q.steps)), "marginals drawn", case)
    stepped = bool(q.steps)
    if len(r.curves) != len(q.curves) or len(r.steps) != len(q.steps):
        return
    ax_, ay, _ = curve(q, False, stepped)
    bx, by, _ = curve(r, False, stepped)
    p.obs(by[:: max(1, len(by) // 20)])
    a, b = (q.steps if stepped else q.curves)[0], (r.steps if stepped else r.curves)[0]
    p.equal((b.color, b.lw, b.ls, b.zorder), (a.color, a.lw, a.ls, a.zorder), "style of the helper's curve", case)
    lo, hi = max(ax_[0], bx[0]), min(ax_[-1], bx[-1])
    t = np.linspace(lo, hi, 300)
    dev = np.abs(np.interp(t, bx, by) - np.interp(t, ax_, ay)).max() / ay.max()
    p.expect(dev < 0.02 and hi - lo > 0.95 * (ax_[-1] - ax_[0]), "helper draws another curve", lambda: f"{case}: off by {dev:.4f}")
    bound = cc.analysis.get_summary()["it"][case["column"]]
    known = bound is not None and bound.lower is not None and bound.upper is not None
    fills = r.fills
    p.equal(len(fills), int(known and case["style"] not in ("unshaded", "clear")), "shaded bands of the helper", case)
    for f in fills:
        v = np.concatenate(f.polys)
        p.close((v[:, 0].min(), v[:, 0].max()), (max(bound.lower, bx.min()), min(bound.upper, bx.max())), 1e-6 * (hi - lo), "shading of the helper is not the summary interval", case)
        p.equal(f.color, hexof("#224466"), "colour of the helper's shading", case)
    if case["summary"] and known:
        p.equal(r.title, f"${case['column']} = {cc.analysis.get_parameter_text(bound)}$", "title of the helper", case)
        p.equal(r.ax.title.get_fontsize(), 12.0 if case["config"] == "none" else 7.0, "title size of the helper", case)
    elif not case["summary"]:
        p.equal(r.title, "", "title of the helper", case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("curve", gen, run, bound=1 if q else 2, note="plot type x binning, with shape, weighting, power, relative height, style, shift and index: bars against counts, curves against the broadened true density"),
        Space("titles", lambda ch: gen_title(ch, q), run_title, bound=1 if q else 2, note="plot type x shape x statistic, with binning, modes, shading, blinding, labels, further chains and areas: shaded bands and titles against the summary"),
        Space("helper", gen_helper, run_helper, bound=1 if q else None, note="the external-axis helper against the distribution plot"),
    ]
