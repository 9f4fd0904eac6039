"""C21: distribution plots give each parameter its own labelled panel."""
import functools
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import panels

ASSUMPTIONS = ["parameters live on disjoint ranges, so an artist tells which parameter it shows"]
COLS = "abcdefghij"
N = 300


def home(c):
    return 10.0 ** ("abcdefghij".index(c) % 5) * (1 if c < "f" else 3)


@functools.lru_cache(None)
def frame(k, cols):
    out = {}
    for c in cols:
        q = quantile_sample(("beta", "skew", "gauss", "tri")[(COLS.index(c) + k) % 4], N)[scramble(N, 13 * k + COLS.index(c))]
        q = (q - q.min()) / (q.max() - q.min())
        out[c] = home(c) * (1 + (0.4 + 0.3 * k) * q + 0.05 * k)
    df = pd.DataFrame(out)
    df["weight"] = 1.0 + np.arange(N) % 3
    df["log_posterior"] = -np.abs(np.arange(N) - 40.0)
    return df


CHAINS = {
    "one": [("abc", {})], "two": [("abc", {}), ("abc", dict(linestyle="--"))], "missing": [("ab", {}), ("bc", {})], "three": [("abcde", {}), ("edcba", {}), ("c", {})], "point too": [("abc", {}), ("abc", dict(plot_contour=False, plot_point=True))], "cloud": [("abc", dict(plot_cloud=True))],
    "coloured cloud": [("abcd", dict(plot_cloud=True, color_param="d"))], "unshaded": [("abc", dict(bar_shade=False))], "raw": [("abc", dict(smooth=0)), ("bca", {})], "single": [("a", {})], "ten": [(COLS, {})], "only cloud": [("abc", dict(plot_contour=False, plot_cloud=True)), ("abd", {})],
    "skipped": [("abc", {}), ("abcd", dict(plot_contour=False))], "heights": [("ab", dict(histogram_relative_height=3.0)), ("ab", dict(histogram_relative_height=0.2))], "multimodal": [("abc", dict(multimodal=True))],
}


def gen(ch):
    return dict(chains=ch.pick("chains", list(CHAINS), free=True), col_wrap=ch.pick("col_wrap", (4, 1, 2, 3, 5, 20), free=True), columns=ch.pick("columns", (None, ["a"], ["b", "a"], ["c", "a", "b"])), subset=ch.pick("subset", (None, "first", "last", "reversed", "object")), labels=ch.pick("labels", ("", "b", "abcdefghij")),
                log=ch.pick("log scales", ([], ["b"], ["a", "c"])), extents=ch.pick("extents", ({}, {"a": (0.5, 4.0)}, {"b": (9.0, 30.0), "c": (90.0, 170.0)})), blind=ch.pick("blind", (False, ["a"], ["b", "c"], True)), summarise=ch.pick("summarise", (True, False)), figsize=ch.pick("figsize", (None, 2.0, 0.7, (7.0, 4.0), 3)), statistics=ch.pick("statistics", (None, "mean", "hdi")),
                ticks=ch.pick("max_ticks", (5, 2)), diagonal=ch.pick("diagonal", (True, False)), hists=ch.pick("plot_hists", (True, False)), override=ch.flag("override"), flip=ch.flag("flip"))


def run(case, p):
    spec = CHAINS[case["chains"]]
    cc, chains = ChainConsumer(), []
    for k, (cols, o) in enumerate(spec):
        kw = dict(o)
        if case["statistics"] and not (o.get("multimodal") and case["statistics"] != "hdi"):
            kw["statistics"] = case["statistics"]
        chains.append(Chain(samples=frame(k, cols), name=f"n{k}", **kw))
        cc.add_chain(chains[-1])
    if case["override"]:
        cc.set_override(ChainConfig(linewidth=2.5))
    cc.set_plot_config(PlotConfig(labels={c: f"${c}_x$" for c in case["labels"]}, log_scales=case["log"], extents=case["extents"], blind=case["blind"], summarise=case["summarise"], max_ticks=case["ticks"], diagonal_tick_labels=case["diagonal"], plot_hists=case["hists"], flip=case["flip"]))
    order = list(range(len(spec)))
    names = None
    if case["subset"]:
        order = {"first": order[:1], "last": order[-1:], "reversed": order[::-1], "object": order[:1]}[case["subset"]]
        names = [chains[k] if case["subset"] == "object" else f"n{k}" for k in order]
    order = [k for k in order if not chains[k].skip]
    if not order:
        return
    shown_by = [[c for c in spec[k][0] if not (spec[k][1].get("plot_cloud") and c == spec[k][1].get("color_param"))] for k in order]
    cols = case["columns"] or list(dict.fromkeys(c for v in shown_by for c in v))
    if any(all(c not in v for v in shown_by) for c in cols):
        return
    kw = {} if case["figsize"] is None else dict(figsize=case["figsize"])
    if case["col_wrap"] != 4:
        kw["col_wrap"] = case["col_wrap"]
    fig = cc.plotter.plot_distributions(chains=names, columns=case["columns"], **kw)
    p.op()
    wide = min(len(cols), case["col_wrap"])
    high = -(-len(cols) // case["col_wrap"])
    f = case["figsize"] or 1.0
    size = f if isinstance(f, tuple) else (wide * 2.5 * f, high * 2.5 * f)
    p.close(fig.get_size_inches(), size, 1e-9, "figure size", case)
    ps = panels(fig)
    if not p.equal(len(ps), wide * high, "number of panels", case):
        return
    x0 = [round(q.ax.get_position().x0, 6) for q in ps]
    y0 = [round(q.ax.get_position().y0, 6) for q in ps]
    for i in range(len(ps)):
        p.expect((i % wide == 0 or x0[i] > x0[i - 1] and y0[i] == y0[i - 1]) and (i < wide or y0[i] < y0[i - wide] and x0[i] == x0[i - wide]), "panels out of order", case)
    for q in ps[len(cols):]:
        p.expect(q.empty and not q.shown and not q.xlabel, "surplus panel is not blank", case)
    for q, c in zip(ps, cols):
        at = (case, c)
        p.expect(q.shown, "panel hidden", at)
        p.equal(q.xlabel, f"${c}_x$" if c in case["labels"] else c, "label", at)
        p.equal(q.ylabel, "", "label of the density axis", at)
        p.equal(q.xscale, "log" if c in case["log"] else "linear", "scale", at)
        want = [k for k, v in zip(order, shown_by) if c in v and spec[k][1].get("plot_contour", True)]
        stepped = [k for k in want if spec[k][1].get("smooth") == 0]
        p.obs(q.xlim, q.ylim, len(q.curves))
        p.equal((len(q.steps), len(q.curves), len(q.scatters), len(q.contours)), (len(stepped), len(want) - len(stepped), 0, 0), "marginals in a panel", at)
        lo, hi = home(c), home(c) * 2.4
        tops = []
        for ln in q.curves:
            p.expect(ln.x.min() > lo - 0.5 * home(c) and ln.x.max() < hi + 0.5 * home(c), "marginal of another parameter", at)
            tops.append(ln.y.max())
            if case["override"]:
                p.equal(ln.lw, 2.5, "override ignored", at)
        for s in q.steps:
            p.expect(s.xy[:, 0].min() > lo - 0.5 * home(c) and s.xy[:, 0].max() < hi + 0.5 * home(c), "marginal of another parameter", at)
            tops.append(s.xy[:, 1].max())
        for k, ln in zip([k for k in want if k not in stepped], q.curves):  # in chain order
            x = chains[k].samples[c]
            mean = np.average(x, weights=chains[k].weights)
            p.close(np.trapezoid(ln.x * ln.y, ln.x) / np.trapezoid(ln.y, ln.x), mean, 0.03 * home(c), "marginal of another chain", (at, k))
        if tops:
            p.expect(q.ylim[0] == 0 and max(tops) < q.ylim[1] < 1.5 * max(tops), "vertical limits", lambda: (at, q.ylim, tops))
        if c in case["extents"]:
            p.close(q.xlim, case["extents"][c], 1e-9, "custom limits", at)
        else:
            use = [k for k, v in zip(order, shown_by) if c in v and (spec[k][1].get("plot_contour", True) or spec[k][1].get("plot_cloud"))]
            v = np.concatenate([chains[k].samples[c] for k in use] or [[]])
            p.expect(not use or q.xlim[0] <= np.quantile(v, 0.05) and q.xlim[1] >= np.quantile(v, 0.95) and q.xlim[1] - q.xlim[0] < 1.5 * (v.max() - v.min()), "limits do not fit the samples", lambda: (at, q.xlim))
        hidden = case["blind"] is True or (case["blind"] and c in case["blind"])
        p.equal(q.yticks, [], "ticks on the density axis", at)
        if hidden:
            p.equal((q.xticks, q.xt.locs), ([], []), "blinded panel shows ticks", at)
        elif c not in case["log"]:
            p.expect(1 <= len(q.xticks) <= case["ticks"] + 1, "number of ticks", lambda: (at, q.xticks))
            p.expect(all(r == (45.0 if case["diagonal"] else 0.0) for r in q.xt.rotations), "tick rotation", at)
        title = ""
        if case["summarise"] and len(order) == 1 and not hidden and want:
            bound = cc.analysis.get_summary(chains=[f"n{order[0]}"])[f"n{order[0]}"][c]
            title = cc.analysis.get_parameter_text(bound, wrap=True, label=f"{c}_x" if c in case["labels"] else c) if bound is not None else ""
        p.equal(q.title, title, "title", at)


# --------------------------------------------------------------------------------- every number of panels and width
def gen_wrap(ch):
    n = ch.pick("parameters", range(1, 11), free=True)
    return dict(n=n, wrap=ch.pick("col_wrap", range(1, 12), free=True), order=ch.pick("order", ("as is", "reversed")))


def run_wrap(case, p):
    cols = list(COLS[:case["n"]])
    if case["order"] == "reversed":
        cols = cols[::-1]
    cc = ChainConsumer().add_chain(Chain(samples=frame(0, COLS), name="n"))
    ps = panels(cc.plotter.plot_distributions(columns=cols, col_wrap=case["wrap"]))
    p.op()
    wide, high = min(case["n"], case["wrap"]), -(-case["n"] // case["wrap"])
    p.equal(len(ps), wide * high, "number of panels", case)
    p.equal([q.xlabel for q in ps], cols + [""] * (wide * high - case["n"]), "labels in order", case)
    p.expect(all(q.empty and not q.shown for q in ps[case["n"]:]), "surplus panel is not blank", case)
    for q, c in zip(ps, cols):
        p.equal(len(q.curves), 1, "marginals in a panel", (case, c))
        p.expect(all(home(c) * 0.5 < v.x.mean() < home(c) * 2.2 for v in q.curves), "marginal of another parameter", (case, c))
    grid = list(itertools.product(range(high), range(wide)))
    xs, ys = sorted({round(q.ax.get_position().x0, 6) for q in ps}), sorted({-round(q.ax.get_position().y0, 6) for q in ps})
    for q, (r, c) in zip(ps, grid):
        p.equal((ys.index(-round(q.ax.get_position().y0, 6)), xs.index(round(q.ax.get_position().x0, 6))), (r, c), "place of a panel", case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("panels", gen, run, bound=1 if q else 2, note="chain sets x wrapping, with columns, subset, labels, scales, extents, blinding, summaries, sizes, statistics and ticks"),
        Space("wrapping", gen_wrap, run_wrap, bound=0 if q else None, note="every number of parameters up to ten against every wrapping"),
    ]
