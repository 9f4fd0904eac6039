"""C22: summary plots put each model's parameter summary in its own cell."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from matplotlib.colors import to_hex

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import panels

ASSUMPTIONS = ["parameters live on disjoint ranges, so an artist tells which parameter it shows"]
HOME = {"a": (2.0, 1.0), "b": (50.0, 30.0), "c": (7e3, 1e3), "d": (0.01, 0.004)}
N = 300


@functools.lru_cache(None)
def frame(k, cols, flat=""):
    out = {}
    for c in cols:
        q = quantile_sample(("beta", "skew", "gauss", "tri")[("abcd".index(c) + k) % 4], N)[scramble(N, 13 * k + "abcd".index(c))]
        q = (q - q.min()) / (q.max() - q.min())
        out[c] = HOME[c][0] + HOME[c][1] * ((0.4 + 0.2 * (k % 4)) * q + 0.1 * k)
        if c in flat:
            out[c] = np.full(N, HOME[c][0])
    df = pd.DataFrame(out)
    df["weight"] = 1.0 + np.arange(N) % 3
    df["log_posterior"] = -np.abs(np.arange(N) - 40.0)
    return df


CHAINS = {
    "one": [("abc", {})], "two": [("abc", {}), ("abc", dict(linestyle=":"))], "missing": [("ab", {}), ("bc", {}), ("abc", {})], "four": [("abcd", {}), ("dcba", {}), ("a", {}), ("bd", {})], "statistics": [("ab", dict(statistics="mean")), ("ab", dict(statistics="cumulative")), ("ab", dict(statistics="hdi")), ("ab", dict(statistics="max_central"))],
    "eight": [(("abcd", "b", "dc", "ab")[k % 4], dict(bar_shade=True)) for k in range(8)],
    "skipped": [("abc", {}), ("abcd", dict(plot_contour=False)), ("ab", {})], "raw": [("abc", dict(smooth=0)), ("abc", {})], "unshaded": [("abc", dict(bar_shade=False))], "multimodal": [("ab", dict(multimodal=True)), ("ab", {})], "heights": [("ab", dict(histogram_relative_height=3.0)), ("ab", dict(histogram_relative_height=0.2))],
    "points too": [("ab", dict(plot_point=True)), ("ab", dict(plot_cloud=True))], "coloured": [("abc", dict(color="#ff8800")), ("cb", dict(color="#00aa00"))],
}
NAMES = ("short", "A rather longer name", r"$\Lambda$CDM", "x", "y", "short 2", "z%", "B")


def gen(ch):
    return dict(chains=ch.pick("chains", list(CHAINS), free=True), errorbar=ch.flag("errorbar", free=True), columns=ch.pick("columns", (None, ["a"], ["b", "a"]), free=True), subset=ch.pick("subset", (None, "first", "last", "reversed", "objects")), labels=ch.pick("labels", ("", "b", "abcd")),
                log=ch.pick("log scales", ([], ["b"], ["a", "c"])), extents=ch.pick("extents", ({}, {"a": (1.0, 5.0)}, {"b": (20.0, 200.0), "c": (5e3, 9e3)})), blind=ch.pick("blind", (False, ["a"], ["b", "c"], True)), summarise=ch.pick("summarise", (True, False)), figsize=ch.pick("figsize", (1.0, 2.0, 0.5)), spacing=ch.pick("extra_parameter_spacing", (1.0, 3.0)), vertical=ch.pick("vertical_spacing_ratio", (1.0, 2.5)),
                area=ch.pick("summary_area", (None, 0.95)), truth=ch.flag("truth"), coloured=ch.pick("legend_color_text", (True, False)), override=ch.flag("override"))


def run(case, p):
    spec = CHAINS[case["chains"]]
    cc, chains = ChainConsumer(), []
    for k, (cols, o) in enumerate(spec):
        kw = dict(o) if case["area"] is None else dict(o, summary_area=case["area"])
        chains.append(Chain(samples=frame(k, cols), name=NAMES[k], **kw))
        cc.add_chain(chains[-1])
    if case["override"]:
        cc.set_override(ChainConfig(linewidth=2.5))
    if case["truth"]:
        cc.add_truth(Truth(location={"a": 2.2}, color="#777777"))
    cc.set_plot_config(PlotConfig(labels={c: f"${c}_x$" for c in case["labels"]}, log_scales=case["log"], extents=case["extents"], blind=case["blind"], summarise=case["summarise"], legend_color_text=case["coloured"]))
    order = list(range(len(spec)))
    names = None
    if case["subset"]:
        order = {"first": order[:1], "last": order[-1:], "reversed": order[::-1], "objects": order[::-1]}[case["subset"]]
        names = [chains[k] if case["subset"] == "objects" else NAMES[k] for k in order]
    order = [k for k in order if not chains[k].skip]
    cols = case["columns"] or list(dict.fromkeys(c for k in order for c in spec[k][0]))
    if not order or any(all(c not in spec[k][0] for k in order) for c in cols):
        return
    kw = {k: v for k, v in dict(figsize=case["figsize"], extra_parameter_spacing=case["spacing"], vertical_spacing_ratio=case["vertical"]).items() if v != 1.0}
    fig = cc.plotter.plot_summary(chains=names, columns=case["columns"], errorbar=case["errorbar"], **kw)
    p.op()
    if kw:
        w, h = cc.plotter.plot_summary(chains=names, columns=case["columns"], errorbar=case["errorbar"]).get_size_inches()
        p.op()
        got = fig.get_size_inches() / case["figsize"]
        for name, one, plain in (("spacing", got[0], w), ("vertical", got[1], h)):
            if case[name] == 1.0:
                p.close(one, plain, 1e-9, "figure size", (case, name))
            else:
                p.expect(one > plain + 1e-3, "spacing does not widen the figure", (case, name))
    ps = panels(fig)
    if not p.equal(len(ps), len(order) * (1 + len(cols)), "number of cells", case):
        return
    grid = [ps[i * (1 + len(cols)):(i + 1) * (1 + len(cols))] for i in range(len(order))]
    pos = [[q.ax.get_position() for q in row] for row in grid]
    p.expect(all(row[j].x0 < row[j + 1].x0 for row in pos for j in range(len(cols))) and all(pos[i][0].y0 > pos[i + 1][0].y0 for i in range(len(order) - 1)), "cells out of order", case)
    summary = cc.analysis.get_summary(chains=[NAMES[k] for k in order])
    tops = {}
    for i, k in enumerate(order):
        name, *cells = grid[i]
        at = (case, NAMES[k])
        p.equal(name.texts, [NAMES[k]], "name of the model", at)
        p.expect(not name.shown and not name.lines and not name.curves, "name cell holds something else", at)
        colour = None
        for q, c in zip(cells, cols):
            at = (case, NAMES[k], c)
            p.equal(q.title, (f"${c}_x$" if c in case["labels"] else c) if i == 0 else "", "title", at)
            p.equal((q.xlabel, q.ylabel), ("", ""), "labels", at)
            p.equal(q.xscale, "log" if c in case["log"] else "linear", "scale", at)
            p.equal(q.xlim, grid[0][1 + cols.index(c)].xlim, "cells of a column differ in limits", at)
            if not case["errorbar"]:
                p.equal(q.ylim, grid[0][1 + cols.index(c)].ylim, "cells of a column differ in vertical range", at)
            if c in case["extents"]:
                p.close(q.xlim, case["extents"][c], 1e-9, "custom limits", at)
            else:
                v = [chains[j].samples[c] for j in order if c in spec[j][0]]
                edge = (0.25, 0.75) if case["errorbar"] else (0.05, 0.95)
                p.expect(q.xlim[0] <= min(x.quantile(edge[0]) for x in v) and q.xlim[1] >= max(x.quantile(edge[1]) for x in v), "limits leave out a chain", lambda: (at, q.xlim))
                p.expect(q.xlim[0] > HOME[c][0] - 0.5 * HOME[c][1] and q.xlim[1] < HOME[c][0] + 2 * HOME[c][1], "limits of another parameter", lambda: (at, q.xlim))
            hidden = case["blind"] is True or (case["blind"] and c in case["blind"])
            p.equal(q.yticks, [], "vertical ticks", at)
            if i < len(order) - 1 or hidden:
                p.equal((q.xticks, q.xt.locs), ([], []), "ticks in a cell without", at)
            elif c not in case["log"]:
                p.expect(len(q.xt.major) > 0, "no ticks in the bottom cell", at)
            p.obs(q.xlim, q.ylim)
            has = c in spec[k][0]
            p.equal([s.x[0] for s in q.spans], [2.2] if case["truth"] and c == "a" else [], "truth", at)
            if not has:
                p.expect(not (q.curves or q.steps or q.fills or q.others or q.scatters), "cell of a chain without the parameter is not empty", at)
                continue
            bound = summary[NAMES[k]][c]
            if case["errorbar"]:
                if isinstance(bound, list):
                    continue
                if bound is None or bound.lower is None:
                    p.expect(not (q.curves or q.others), "error bar of an unconstrained parameter", at)
                    continue
                dots = [ln for ln in q.curves if ln.marker == "o"]
                if not p.equal((len(dots), len(q.others)), (1, 1), "error bars", at):
                    continue
                p.equal((float(dots[0].x[0]), len(dots[0].x), float(dots[0].y[0])), (bound.center, 1, 0.0), "centre of the error bar", at)
                seg = q.others[0].get_segments()
                p.close((seg[0][:, 0].min(), seg[0][:, 0].max()), (bound.lower, bound.upper), 1e-9 * abs(bound.upper), "ends of the error bar", at)
                mine = dots[0].color
                p.equal(to_hex(q.others[0].get_colors()[0]), mine, "colour of the error bar", at)
            else:
                raw = spec[k][1].get("smooth") == 0
                p.equal((len(q.steps), len(q.curves), len(q.others)), (1, 0, 0) if raw else (0, 1, 0), "marginals in a cell", at)
                art = (q.steps or q.curves)[0]
                mine = art.color
                if case["override"]:
                    p.equal(art.lw, 2.5, "override ignored", at)
                if raw:
                    xs, ys = art.xy[:, 0], art.xy[:, 1]
                else:
                    xs, ys = art.x, art.y
                    p.close(np.trapezoid(xs * ys, xs) / np.trapezoid(ys, xs), np.average(chains[k].samples[c], weights=chains[k].weights), 0.03 * HOME[c][1], "marginal of another chain", at)
                p.expect(xs.min() > HOME[c][0] - 0.5 * HOME[c][1] and xs.max() < HOME[c][0] + 2 * HOME[c][1], "marginal of another parameter", at)
                tops.setdefault(c, []).append(ys.max())
                if not isinstance(bound, list) and bound is not None and bound.lower is not None and spec[k][1].get("bar_shade", True):
                    if p.equal(len(q.fills), 1, "shading", at):
                        v = np.concatenate(q.fills[0].polys)
                        p.close((v[:, 0].min(), v[:, 0].max()), (max(bound.lower, xs.min()), min(bound.upper, xs.max())), 1e-6 * HOME[c][1] if not raw else 0.05 * HOME[c][1], "shading is not the summary", at)
                elif not spec[k][1].get("bar_shade", True):
                    p.equal(len(q.fills), 0, "shading", at)
            p.expect(colour in (None, mine), "a chain changes colour between cells", at)
            colour = mine
            if "color" in spec[k][1]:
                p.equal(mine, to_hex(spec[k][1]["color"]), "colour of a chain", at)
        if colour:
            p.equal(to_hex(name.ax.texts[0].get_color()), colour if case["coloured"] else "#000000", "colour of the name", at)
    if not case["errorbar"]:
        for c, t in tops.items():
            lim = grid[0][1 + cols.index(c)].ylim
            p.expect(lim[0] == 0 and max(t) < lim[1] < 1.5 * max(t), "vertical range does not fit the tallest marginal", lambda: (case, c, lim, t))


# --------------------------------------------------------------------------------- constant parameters
def gen_flat(ch):
    return dict(flat=ch.pick("constant", ("a", "b", "ab"), free=True), where=ch.pick("in", ("first", "last"), free=True), errorbar=ch.flag("errorbar", free=True), n=ch.pick("chains", (2, 3), free=True))


def run_flat(case, p):
    """A parameter a chain does not vary leaves its cell without a marginal, and the others as they are."""

    at = 0 if case["where"] == "first" else case["n"] - 1
    cc = ChainConsumer()
    for k in range(case["n"]):
        cc.add_chain(Chain(samples=frame(k, "ab", case["flat"] if k == at else ""), name=NAMES[k]))
    ps = panels(cc.plotter.plot_summary(errorbar=case["errorbar"]))
    p.op()
    for k in range(case["n"]):
        for j, c in enumerate("ab"):
            q = ps[k * 3 + 1 + j]
            flat = k == at and c in case["flat"]
            p.obs(q.xlim)
            p.expect(len(q.curves) == (0 if flat else 1) or case["errorbar"] and not flat, "marginals in a cell", (case, k, c))
            p.equal(q.xlim, ps[1 + j].xlim, "cells of a column differ in limits", (case, k, c))
            if not case["errorbar"]:
                p.equal(q.ylim, ps[1 + j].ylim, "cells of a column differ in vertical range", (case, k, c))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("cells", gen, run, bound=1 if q else 2, note="chain sets x mode x columns, with subset, labels, scales, extents, blinding, sizes, spacing, areas, truths and overrides"),
        Space("constant", gen_flat, run_flat, bound=0, note="parameters a chain does not vary"),
    ]
