"""C15: blinded parameters reveal no values anywhere."""
import functools
import re

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth

from chainconsumer.statistics import SummaryStatistic

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.latex import Table
from mc.scene import Panel, panels, triangle

ASSUMPTIONS = ["values are what tick labels, titles, axis labels, offsets, annotations and tables say; the position of artists inside a tickless panel is not a value", "covariance and correlation tables are asked for by column and are not blinded"]
COLS = ("mass", "age", "size")
MORE = ("beta", "tau", "nu")  # further parameters, for larger plots
DATA = {"ordinary": (1.0, 3.0), "large": (1e6, 4e6), "tiny": (1e-7, 6e-7), "offset": (1.0, 1000.0), "decades": None}


@functools.lru_cache(None)
def frame(data, k, missing, posterior, more=0):
    n = 300
    out = {}
    for j, c in enumerate(COLS):
        x = quantile_sample(("gauss", "skew", "tri")[j], n)[scramble(n, 3 * k + j)] + 0.2 * k
        if data == "decades":
            x = 10.0 ** (0.8 * x + j)
        else:
            a, b = DATA[data]
            x = a * 0.1 * x * (j + 1) + b
        out[c] = x
    for j, c in enumerate(MORE[:more]):
        out[c] = quantile_sample("gauss", n)[scramble(n, 31 * k + j + 100)] + 4 * j
    if missing:
        del out[missing]
    out["weight"] = 1.0 + np.arange(n) % 3
    if posterior:
        out["log_posterior"] = -np.linspace(0, 30, n)
    return pd.DataFrame(out)


def hidden(blind, c):
    return blind is True or (isinstance(blind, list) and c in blind)


def digits(s):
    return re.search(r"\d", s) is not None


PLOTS = ("triangle", "distributions", "summary", "errorbar", "walks", "table")
BLINDS = (True, ["mass"], ["age"], ["size"], ["mass", "size"], ["size", "age"], [*COLS], False, [], ["unknown", "age"])
CHAINS = {
    "one": [{}], "two": [{}, {}], "cloud": [dict(plot_cloud=True)], "coloured by a parameter": [dict(plot_cloud=True, color_param="size")], "coloured by weight": [dict(plot_cloud=True, color_param="weight")], "coloured by posterior": [dict(plot_cloud=True, color_param="log_posterior")],
    "contour labels": [dict(show_contour_labels=True)], "point": [{}, dict(plot_point=True, plot_contour=False)], "multimodal": [dict(multimodal=True)], "kernel": [dict(kde=1.0, statistics=SummaryStatistic.MEAN)], "only cloud": [dict(plot_cloud=True, plot_contour=False)], "unsmoothed": [dict(smooth=0, statistics=SummaryStatistic.CUMULATIVE)], "missing": [{}, "mass"], "second coloured": [{}, dict(plot_cloud=True, color_param="age")],
}


def gen(plots, blinds, columns):
    def g(ch):
        return dict(plot=ch.pick("plot", plots, free=True), blind=ch.pick("blind", blinds, free=True), columns=ch.pick("columns", columns, free=len(columns) < 9),
                    chains=ch.pick("chains", list(CHAINS)), data=ch.pick("data", list(DATA)), log=ch.pick("log scales", ([], ["mass"], ["age"], [*COLS])), hists=ch.pick("plot_hists", (True, False)), flip=ch.flag("flip"),
                    summarise=ch.pick("summarise", (True, False)), diagonal=ch.pick("diagonal ticks", (True, False)), labels=ch.flag("labels"), truth=ch.flag("truth"), ticks=ch.pick("max ticks", (5, 3, 9)), extents=ch.flag("extents"),
                    override=ch.flag("override"), spacing=ch.pick("spacing", (None, 0.0, 3.0)), order=ch.pick("configured", ("before", "after", "twice")))
    return g


def gen_many(ch):
    """Three to six parameters: everything, each one, and everything but one blinded."""
    more = ch.pick("more", (3, 1, 2, 0), free=True)
    every = COLS + MORE[:more]
    c = gen(PLOTS, [True, [], *[[v] for v in every], *[[v for v in every if v != h] for h in every]], (None,))(ch)
    return c | dict(more=more)


def build(case):
    cc = ChainConsumer()
    labels = {c: f"${c}$" for c in COLS + MORE} if case["labels"] else {}
    ext = {}
    if case["extents"]:
        for c in COLS:
            v = frame(case["data"], 0, None, False)[c]
            ext[c] = (float(v.min()), float(v.max()))
    conf = PlotConfig(blind=case["blind"], log_scales=case["log"], plot_hists=case["hists"], flip=case["flip"], summarise=case["summarise"], diagonal_tick_labels=case["diagonal"], labels=labels, max_ticks=case["ticks"], extents=ext, spacing=case["spacing"])
    if case["order"] != "after":
        cc.set_plot_config(conf)
    for k, o in enumerate(CHAINS[case["chains"]]):
        missing = o if isinstance(o, str) else None
        cc.add_chain(Chain(samples=frame(case["data"], k, missing, True, case.get("more", 0)), name="ab"[k], **({} if missing else o)))
    if case["truth"]:
        cc.add_truth(Truth(location={c: float(frame(case["data"], 0, None, False)[c].median()) for c in COLS}))
    if case["override"]:
        cc.set_override(ChainConfig(bar_shade=False, shade=True))
    if case["order"] == "after":
        cc.set_plot_config(conf)
    if case["order"] == "twice":  # an earlier configuration leaves nothing behind
        cc.set_plot_config(PlotConfig(blind=False if case["blind"] else True))
        cc.plotter.plot_distributions()
        cc.set_plot_config(conf)
    return cc, labels


def axis_check(p, case, ticks, offset, label, column, lab, where, expect_shown):
    """One labelled axis showing `column`."""
    p.obs(ticks, label)
    log = column in case["log"] and case["data"] != "decades"
    if hidden(case["blind"], column):
        p.expect(not ticks, "tick labels of a blinded parameter", lambda: f"{case}: {where}: {ticks}")
        p.expect(not digits(offset), "offset text of a blinded parameter", (case, where, offset))
        p.expect(not digits(label), "axis label with a value of a blinded parameter", (case, where, label))
    elif expect_shown and not log and case["ticks"] > 3 and not (case["log"] and case["extents"]):
        p.expect(any(digits(t) for t in ticks), "no tick labels on an unblinded parameter", lambda: f"{case}: {where}: {ticks}")
    if label:
        p.expect(label.strip().startswith(lab), "wrong label", (case, where, label))


def vis(axis):
    t = axis.get_offset_text()
    return t.get_text() if t.get_visible() else ""


def run(case, p):
    cc, labels = build(case)
    cols = list(case["columns"] or COLS + MORE[:case.get("more", 0)])
    if case["columns"] is None and case["chains"] == "coloured by a parameter":
        cols.remove("size")
    if case["columns"] is None and case["chains"] == "second coloured":
        cols = [c for c in COLS]
    if set(cols) & {"size"} and case["chains"] == "coloured by a parameter":
        return
    if "age" in cols and case["chains"] == "second coloured" and case["plot"] == "table":
        return
    if case["chains"] in ("missing", "second coloured") and len(cols) == 1:
        return
    if not case["hists"] and len(cols) == 1:
        return
    if case["chains"] == "kernel" and case["plot"] == "triangle":  # slow, and no different
        return
    n, blind = len(cols), case["blind"]
    lab = {c: labels.get(c, c) for c in COLS + MORE}
    effective = {c: hidden(blind, c) for c in cols}
    kw = dict(columns=None if case["columns"] is None else list(cols))
    p.op()
    plot = case["plot"]
    if plot == "table":
        t = Table(cc.analysis.get_latex_table(**kw))
        text = t.text if hasattr(t, "text") else cc.analysis.get_latex_table(**kw)
        for c in cols:
            p.expect((lab[c] in text) != effective[c], "blinded parameter in the table, or unblinded one not", (case, c, text))
        return
    if plot == "triangle":
        fig = cc.plotter.plot(**kw)
        m = n if case["hists"] else n - 1
        flip = case["flip"] and n == 2 and case["hists"]
        g, bars = triangle(fig, m)
        rows, across = (cols, cols) if case["hists"] else (cols[1:], cols[:-1])
        single = sum(not isinstance(o, dict) or o.get("plot_contour", True) for o in CHAINS[case["chains"]]) == 1
        for i in range(m):
            for j in range(m):
                q, where = g[i][j], f"panel {i},{j}"
                diag = case["hists"] and i == j
                if i < j:
                    p.expect(not q.xticks and not q.yticks and not q.texts and not q.title, "something above the diagonal", (case, where))
                    continue
                turned = flip and i == j == 1
                xcol = None if turned else across[j]
                ycol = rows[i] if not diag or turned else None
                if xcol:
                    axis_check(p, case, q.xticks, vis(q.ax.xaxis), q.xlabel, xcol, lab[xcol], where + " horizontally", i == m - 1)
                else:
                    p.expect(not q.xticks or not digits("".join(q.xticks)), "ticks on the density axis", (case, where))
                if ycol:
                    axis_check(p, case, q.yticks, vis(q.ax.yaxis), q.ylabel, ycol, lab[ycol], where + " vertically", j == 0 and not diag)
                else:
                    p.expect(not digits("".join(q.yticks)), "ticks on the density axis", (case, where, q.yticks))
                if diag:
                    if effective[cols[i]]:
                        p.expect(not q.title and not any(digits(t) for t in q.texts), "summary text of a blinded parameter", (case, where, q.title))
                    elif case["summarise"] and single and case["chains"] != "missing":
                        p.expect(digits(q.title), "no summary text on an unblinded parameter", (case, where, q.title))
                else:
                    p.expect(not q.title and not any(digits(t) and "%" not in t for t in q.texts), "text in a pair panel", (case, where, q.texts))
        params = [o["color_param"] for o in CHAINS[case["chains"]] if isinstance(o, dict) and "color_param" in o]
        if params:
            p.equal(len(bars), int(len(set(cols) - set(params)) > 1), "colour bars", case)
        for b in bars:
            q = Panel(b)
            ticks = [*q.xticks, *q.yticks]
            p.obs(ticks)
            shown = blind is not True and params[0] not in (blind or [])
            p.expect(any(map(digits, ticks)) == shown, "colour bar ticks", lambda: f"{case}: {ticks}")
            if not shown:
                p.expect(not digits(q.xlabel + q.ylabel + vis(b.xaxis) + vis(b.yaxis)), "colour bar label or offset of a blinded parameter", case)
    elif plot == "distributions":
        ps = panels(cc.plotter.plot_distributions(**kw))
        single = len(CHAINS[case["chains"]]) == 1
        for c, q in zip(cols, ps):
            axis_check(p, case, q.xticks, vis(q.ax.xaxis), q.xlabel, c, lab[c], f"distribution of {c}", True)
            p.expect(not q.yticks, "ticks on the density axis", case)
            if effective[c]:
                p.expect(not q.title and not q.texts, "summary text of a blinded parameter", (case, c, q.title))
            elif case["summarise"] and single and case["chains"] != "only cloud":
                p.expect(digits(q.title), "no summary text on an unblinded parameter", (case, c, q.title))
    elif plot == "walks":
        ps = panels(cc.plotter.plot_walks(**kw, plot_weights=False, plot_posterior=False))
        p.equal(len(ps), n, "rows", case)
        for c, q in zip(cols, ps):
            axis_check(p, case, q.yticks, vis(q.ax.yaxis), q.ylabel, c, lab[c], f"walk of {c}", True)
            p.expect(not q.texts and not q.title, "text on a walk", (case, c))
    else:
        ps = panels(cc.plotter.plot_summary(**kw, errorbar=plot == "errorbar"))
        k = len(CHAINS[case["chains"]])
        for r in range(k):
            for j, c in enumerate(cols):
                q = ps[r * (n + 1) + 1 + j]
                axis_check(p, case, q.xticks, vis(q.ax.xaxis), q.xlabel, c, lab[c], f"summary row {r}", r == k - 1)
                p.expect(not q.yticks and not q.texts and not digits(q.title), "text in a summary cell", (case, r, c))


def spaces(tier):
    q = tier == "quick"
    orders = (None, ["age", "mass"], ["mass"], ["size", "mass", "age"], ["size"])
    return [
        Space("blinding", gen(PLOTS, BLINDS if not q else BLINDS[:4] + BLINDS[5:8], (None, ["age", "mass"]) if q else orders), run, bound=1 if q else 2, note="plot type x blind setting x columns x chains, data scale, log scales, layout options"),
        Space("many parameters", gen_many, run, bound=0 if q else 1, note="three to six parameters: all, none, each one, all but one blinded, in every plot"),
        Space("layout", gen(("triangle", "distributions", "summary"), (True, ["age"]), (["age", "mass"],) if q else (["age", "mass"], None)), run, bound=2, note="pairs of layout options for two blind settings"),
    ]
