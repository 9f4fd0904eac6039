"""C30: the drawing helpers draw on the user's own axes what the plots draw."""
import functools

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth
from chainconsumer.plotting import plot_cloud, plot_contour, plot_dist, plot_point, plot_surface, plot_truths
from matplotlib.figure import Figure

from mc.data import quantile_sample, scramble
from mc.engine import Space, canon
from mc.scene import Panel, triangle

ASSUMPTIONS = [
    "axis limits and ticks of the user's axes are the user's (or matplotlib's) business: helpers are only required to leave explicitly set limits alone",
    "the position of inline contour labels, and the gaps they cut, depends on the axes; for labelled contours the texts and levels are compared, not the cut lines",
    "the light shading of plot_dist uses its own opacity, so only its extent is compared with the triangle's",
]
N = 240


@functools.lru_cache(None)
def frame(k, kind):
    if kind == "grid":
        gx, gy = np.meshgrid(np.linspace(-3, 4, 29), np.linspace(1, 9, 23), indexing="ij")
        df = pd.DataFrame({"x": gx.ravel(), "y": gy.ravel()})
        df["weight"] = np.exp(-0.5 * (df.x - 0.3 * k) ** 2 - 0.4 * (df.y - 5) ** 2) + 1e-6
        return df
    x, e = quantile_sample("gauss", N)[scramble(N, 3 * k)], quantile_sample("skew", N)[scramble(N, 3 * k + 1)]
    df = pd.DataFrame({"x": x + 0.7 * k, "y": 5 + 0.6 * x + e, "z": 40 + 3 * quantile_sample("tri", N)[scramble(N, 3 * k + 2)]})
    if kind == "weighted":
        df["weight"] = 0.3 + np.arange(N) % 4
    df["log_posterior"] = -0.5 * (x - 0.4) ** 2 - 0.1 * np.arange(N) / N
    df.index = np.arange(N)[::-1]
    return df


STYLES = {
    "plain": {}, "unshaded": dict(shade=False, bar_shade=False), "unsmoothed": dict(smooth=0, bins=9), "smooth": dict(smooth=2, bins=14), "three sigma": dict(sigmas=[0, 1, 3]), "one sigma": dict(sigmas=[0, 1]), "lines": dict(linestyle="--", linewidth=2.5, zorder=3),
    "faint": dict(shade_alpha=0.15, shade_gradient=0.4), "labelled": dict(show_contour_labels=True), "power": dict(power=0.5), "shifted": dict(shift_params=True), "tall": dict(histogram_relative_height=2.0), "marker": dict(marker_style="*", marker_size=60, marker_alpha=0.4),
    "coloured cloud": dict(plot_cloud=True, color_param="z", cmap="plasma"), "thin cloud": dict(num_cloud=60), "only point": dict(plot_contour=False, plot_point=True), "everything": dict(plot_cloud=True, plot_point=True), "cumulative": dict(statistics="cumulative", summary_area=0.9),
    "uncoloured": dict(color=None), "named": dict(color="red"), "rgb": dict(color=[0.2, 0.4, 0.8]), "kernel": dict(kde=True, bins=9), "narrow kernel": dict(kde=0.5, bins=9), "kernel power": dict(kde=0.5, bins=9, power=0.5),
}
CONFIGS = {"none": None, "default": {}, "sigma2d": dict(sigma2d=True), "fonts": dict(contour_label_font_size=5, summary_font_size=7), "labels": dict(labels={"x": "$X$"}, blind=True)}
TRUTHS = [dict(location={"x": 0.4, "y": 5.5}), dict(location={"y": 6.0}, color="red", line_style=":"), dict(location={"x": 1.0, "y": 5.0}, marker="*", color="blue")]
HELPERS = ("contour", "cloud", "point", "surface", "surface two", "truths", "truths y", "dist", "dist summary", "truths x")
AXES = ("plain", "first of two", "bare figure", "with artists", "inset", "limits", "log", "twin", "inverted", "titled")


def chain(style, kind="samples", k=0, consumer=False):
    kw = dict(color=("#2266aa", "#aa4411")[k], shade=True, bar_shade=True, shade_alpha=0.5) | STYLES[style]
    if kw["color"] is None:
        del kw["color"]
    return Chain(samples=frame(k, kind), name=f"n{k}", grid=kind == "grid", **kw)


def axes(kind):
    """The axes to draw on and all others of the figure."""
    if kind == "bare figure":
        return Figure().add_subplot(), []
    fig, ax = plt.subplots(ncols=2 if kind == "first of two" else 1, squeeze=False)
    a, rest = ax[0, 0], list(ax[0, 1:])
    if kind == "first of two":
        rest[0].plot([0, 1], [2, 3])
    elif kind == "with artists":
        a.hist([0.1, 0.2, 0.7, 1.1], bins=3, color="skyblue")
        a.plot([0, 1, 2], [4, 5, 9], color="k")
        a.scatter([1, 2], [3, 4])
    elif kind == "inset":
        rest = [a]
        a.plot([0, 1], [0, 1])
        a = a.inset_axes([0.5, 0.5, 0.4, 0.4])
    elif kind == "limits":
        a.set_xlim(-1.5, 2.25)
        a.set_ylim(4.0, 7.0)
    elif kind == "log":
        a.set_yscale("log")
    elif kind == "twin":
        rest = [a]
        a = a.twinx()
    elif kind == "inverted":
        a.invert_yaxis()
    elif kind == "titled":
        a.set_title("mine")
        a.set_xlabel("first")
        a.set_ylabel("second")
    return a, rest


def draw(what, ax, chains, px, py, config):
    """The call under test; returns what it returned."""
    c = chains[0]
    cargs = () if config is None else (config,)
    if what == "contour":
        return plot_contour(ax, c, px, py, *cargs)
    if what == "cloud":
        return plot_cloud(ax, c, px, py)
    if what == "point":
        return plot_point(ax, c, px, py)
    if what == "surface":
        return plot_surface(ax, [c], px, py, *cargs)
    if what == "surface two":
        return plot_surface(ax, chains, px, py, *cargs)
    if what.startswith("truths"):
        t = [Truth(**v) for v in TRUTHS]
        return plot_truths(ax, t, px=px) if what == "truths x" else plot_truths(ax, t, py=py) if what == "truths y" else plot_truths(ax, t, px, py)
    return plot_dist(ax, c, px, config, summary=what == "dist summary")


def shown(panel, labelled):
    """What a panel holds, by type, in drawing order."""
    cut = (lambda k: k[:3] + k[4:]) if labelled else (lambda k: k)
    return dict(contours=[cut(c.key()) for c in panel.contours], scatters=[s.key() for s in panel.scatters], lines=[v.key() for v in panel.lines], steps=[s.key() for s in panel.steps], fills=[f.key() for f in panel.fills], texts=sorted(set(panel.texts)))


def reference(what, style, kind, px, py, conf):
    """What the triangle plot draws for it."""
    return _reference(what, style, kind, px, py, conf)


@functools.lru_cache(None)
def _reference(what, style, kind, px, py, conf):
    over = {"cloud": dict(plot_cloud=True, plot_contour=False, plot_point=False), "point": dict(plot_point=True), "contour": dict(plot_cloud=False, plot_point=False, plot_contour=True), "dist": dict(plot_contour=True), "dist summary": dict(plot_contour=True)}.get(what, {})
    cc = ChainConsumer()
    if not what.startswith("truths"):
        for k in range(2 if what == "surface two" else 1):
            c = chain(style if k == 0 else "plain", kind if k == 0 else "samples", k)
            cc.add_chain(c.model_copy(update=over))
    else:
        cc.add_chain(chain("only point").model_copy(update=dict(plot_point=False, plot_cloud=True)))
        for v in TRUTHS:
            cc.add_truth(Truth(**v))
    cc.set_plot_config(PlotConfig(**(CONFIGS[conf] or {}), **(dict(show_legend=False))))
    cols = [px, py]
    g, _ = triangle(cc.plotter.plot(columns=cols), 2)
    q = g[0][0] if what.startswith("dist") else g[1][0]
    return shown(q, style == "labelled"), q.fills


def gen_styles(ch):
    c = gen(ch, True)
    return c if sift(c) else None


def gen_axes(ch):
    c = gen(ch, False)
    return c if sift(c) else None


def gen(ch, styles):
    """Every helper with every style, or on every axes."""
    return dict(what=ch.pick("helper", HELPERS, free=True), style=ch.pick("style", list(STYLES), free=styles), axes=ch.pick("axes", AXES, free=not styles), kind=ch.pick("samples", ("samples", "weighted", "grid"), free=styles), pair=ch.pick("pair", ("xy", "yx", "zx")), config=ch.pick("config", list(CONFIGS)), consumer=ch.flag("chain also in a consumer"))


def sift(case):
    """Whether the case makes sense."""
    w, s = case["what"], case["style"]
    if w.startswith("truths"):
        return s == "plain" and case["kind"] == "samples" and case["pair"] != "zx"
    if case["kind"] == "grid" and ("z" in case["pair"] or s in ("coloured cloud", "kernel", "narrow kernel", "kernel power", "shifted") or w == "surface two"):
        return False
    if s == "coloured cloud" and "z" in case["pair"]:
        return False
    if "kernel" in s and w in ("contour", "surface", "surface two"):
        return False  # slow, and no different from the samples
    if w == "surface two" and s == "uncoloured":
        return False
    return not (case["axes"] == "log" and s == "shifted")


def snapshot(ax, case):
    return canon(shown(Panel(ax), False) if case["axes"] == "twin" else Panel(ax).key())  # twins share limits


def freeze(c):
    return canon([c.samples.to_numpy(float), list(c.samples.columns), list(c.samples.index), {k: getattr(c, k) for k in type(c).model_fields if k != "samples"}, sorted(c.get_user_specified_dump())])


def run(case, p):
    px, py = case["pair"]
    what, style = case["what"], case["style"]
    chains = [chain(style, case["kind"], 0), chain("plain", "samples", 1)]
    if case["consumer"]:
        ChainConsumer().add_chain(chains[0]).add_chain(chains[1]).set_plot_config(PlotConfig(sigma2d=True, labels={px: "other"}))
    cold = [freeze(c) for c in chains]
    conf = CONFIGS[case["config"]]
    config = None if conf is None else PlotConfig(**conf)
    ax, rest = axes(case["axes"])
    labelled = style == "labelled"
    limits, others, old = (ax.get_xlim(), ax.get_ylim()), [snapshot(r, case) for r in rest], shown(Panel(ax), labelled)
    words = (ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale())
    count, current = len(ax.figure.axes), plt.gcf().number if plt.get_fignums() else None
    here = plt.gca() if plt.get_fignums() else None
    out = draw(what, ax, chains, px, py, config)
    p.op()
    p.equal([freeze(c) for c in chains], cold, "chain modified", case)
    p.equal([snapshot(r, case) for r in rest], others, "another axes changed", case)
    p.expect(len(ax.figure.axes) == count and (plt.gcf().number if plt.get_fignums() else None) == current and (plt.gca() if plt.get_fignums() else None) is here, "figure or current axes changed", case)
    if case["axes"] == "limits":
        p.equal((ax.get_xlim(), ax.get_ylim()), limits, "limits set by the user", case)
    if case["axes"] == "inverted" and ax.get_ylim() != (1, 0):
        p.expect(ax.yaxis_inverted(), "inverted axis turned back", case)
    if what != "dist summary":
        p.equal((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale()), words, "title, labels or scale", case)
    new = shown(Panel(ax), labelled)
    for k in old:
        if k == "texts":
            continue
        p.expect(canon(new[k][: len(old[k])]) == canon(old[k]), "existing artists changed", (case, k))
        new[k] = new[k][len(old[k]):]
    want, fills = reference(what, style, case["kind"], px, py, case["config"])
    p.obs(new)
    if what.startswith("dist"):
        p.expect(canon(new["steps"]) == canon(want["steps"]), "distribution differs from the triangle (steps)", lambda: f"{case}: {short(new['steps'])} and {short(want['steps'])}")
        if p.equal(len(new["lines"]), len(want["lines"]), "curves", case):
            for a, b in zip(new["lines"], want["lines"]):
                p.equal(a[3:], b[3:], "style of the curve", case)
                i = (a[1] >= b[1].min()) & (a[1] <= b[1].max())
                p.expect(i.sum() >= 0.9 * len(i) and a[1][0] <= b[1][0] + 1e-9 * abs(b[1][0]) and a[1][-1] >= b[1][-1] - 1e-9 * abs(b[1][-1]), "range of the curve", lambda: f"{case}: {a[1][[0, -1]]} and {b[1][[0, -1]]}")
                p.close(a[2][i], np.interp(a[1][i], b[1], b[2]), 2e-3 * b[2].max(), "distribution differs from the triangle (curve)", case)
        if STYLES[style].get("shade", True) and fills and new["fills"]:
            a, b = Panel(ax).fills[-1], fills[0]
            p.close([a.polys[0][:, 0].min(), a.polys[0][:, 0].max()], [b.polys[0][:, 0].min(), b.polys[0][:, 0].max()], 1e-9, "shaded range", case, rel=1e-9)
            p.equal(a.color, b.color, "shade colour", case)
        p.expect(not new["contours"] and not new["scatters"] and not new["texts"], "something else drawn", case)
        return
    if what == "point":
        want = want | dict(contours=[], texts=[], scatters=[s for s in want["scatters"] if len(s[1]) == 1])
    if what == "cloud":
        want = want | dict(scatters=[s for s in want["scatters"] if len(s[1]) > 1])
    if what.startswith("truths"):
        want = want | dict(contours=[], texts=[], scatters=[s for s in want["scatters"] if len(s[1]) == 1])
        if what != "truths":
            i = 0 if what == "truths x" else 1
            tv = [v["location"]["xy"[i] if False else (px, py)[i]] for v in TRUTHS if (px, py)[i] in v["location"]]
            got = [float(v[1][0] if what == "truths x" else v[2][0]) for v in new["lines"]]
            p.equal(got, tv, "truth lines", case)
            p.expect(not new["scatters"], "marker with one parameter", case)
            return
    for k in new:
        p.expect(canon(new[k]) == canon(want[k]), f"differs from the triangle ({k})", lambda: f"{case}: {short(new[k])} and {short(want[k])}")
    if what in ("cloud", "surface") and style == "coloured cloud":
        p.expect(isinstance(out, dict) and list(out) == ["z"] and out["z"] in ax.collections, "colour map returned", case)
    elif what in ("cloud", "surface", "surface two") and style != "coloured cloud":
        p.equal(dict(out), {}, "colour map returned", case)


def short(v):
    return canon(v)[:300]


# ------------------------------------------------------------------------------------------------------------ sequences
OPS = ("contour", "cloud", "point", "truths", "surface two", "dist", "missing")


def gen_sequence(depth):
    def g(ch):
        return dict(ops=[ch.pick(f"op {i + 1}", OPS, free=True) for i in range(depth)], style=ch.pick("style", ("plain", "everything", "unsmoothed", "uncoloured", "faint")), axes=ch.pick("axes", ("plain", "limits", "with artists")))
    return g


@functools.lru_cache(None)
def alone(op, style, kind):
    """What one call adds to empty axes."""
    ax, _ = axes("plain")
    apply("surface" if op == "missing" else op, ax, [chain(style), chain("plain", "samples", 1)])
    return shown(Panel(ax), False)


def apply(op, ax, chains):
    if op == "missing":  # chains without one of the parameters are skipped
        gone = [Chain(samples=frame(0, "samples")[list(c)], name="gone", plot_cloud=True) for c in ("xz", "zy", "z")]
        return plot_surface(ax, [*gone[:2], chains[0], gone[2]], "x", "y")
    return draw(op, ax, chains, "x", "y", None)


def run_sequence(case, p):
    chains = [chain(case["style"]), chain("plain", "samples", 1)]
    cold = [freeze(c) for c in chains]
    ax, _ = axes(case["axes"])
    limits = (ax.get_xlim(), ax.get_ylim())
    want = shown(Panel(ax), False)
    for op in case["ops"]:
        apply(op, ax, chains)
        p.op()
        for k, v in alone(op, case["style"], "").items():
            want[k] = want[k] + v if k != "texts" else sorted({*want[k], *v})
        got = shown(Panel(ax), False)
        for k in got:
            p.expect(canon(got[k]) == canon(want[k]), f"a call draws something else after others ({k})", (case, op))
    if case["axes"] == "limits":
        p.equal((ax.get_xlim(), ax.get_ylim()), limits, "limits set by the user", case)
    p.equal([freeze(c) for c in chains], cold, "chain modified", case)
    p.obs(got)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("styles", gen_styles, run, bound=0 if q else 2, note="every helper x chain style (thorough: two of axes, samples, parameters, configuration), compared with the triangle's panel"),
        Space("axes", gen_axes, run, bound=1 if q else 2, note="every helper x axes x style, samples, parameters, configuration"),
        Space("sequences", gen_sequence(2 if q else 3), run_sequence, bound=1 if q else None, note="every sequence of two (thorough: three) calls on the same axes"),
    ]
