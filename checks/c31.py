"""C31: whatever chains and settings are accepted can be summarised and drawn."""
import functools
import warnings

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from chainconsumer.statistics import SummaryStatistic as S
from pydantic import ValidationError

from mc.data import mixture_ppf, quantile_sample, scramble
from mc.engine import Space
from mc.scene import panels

ASSUMPTIONS = [
    "settings are given in their documented meaning: colours, line styles, markers and colour maps matplotlib knows, labels that are valid math text, at least one cloud point",
    "every parameter varies over its chain and takes more than a few values, and logarithmic axes are asked for positive data; something is left to draw",
]
N = 90

CHAIN = {
    "statistics": [S.MAX, S.MAX_CENTRAL, S.CUMULATIVE, S.MEAN, S.HDI], "summary_area": [0.05, 0.95, 1.0, 0.0], "sigmas": [[0, 1], [0, 1, 2, 3], [0, 0.5, 1.5], [1, 2], [1], [2, 1, 0]], "color": ["red", "#123456", [0.1, 0.5, 0.9], np.array([0.4, 0.4, 0.1])],
    "linestyle": ["--", ":"], "linewidth": [0, 4.5], "show_contour_labels": [True], "shade": [False], "shade_alpha": [0.0, 1.0], "shade_gradient": [0.0, 3.0, 12.0], "bar_shade": [False], "multimodal": [True], "bins": [5, 60, 1, 2], "kde": [True, 0.5],
    "smooth": [0, 1, 10], "color_param": ["weight", "c"], "cmap": ["plasma"], "num_cloud": [10, 50.5, 1], "plot_cloud": [True], "plot_contour": [False], "plot_point": [True], "marker_style": ["*", "o", "x"], "marker_size": [1, 90.5], "marker_alpha": [0.0, 0.3],
    "zorder": [-5, 50], "shift_params": [True], "walkers": [3], "power": [0.5, 2.0], "show_label_in_legend": [False], "histogram_relative_height": [0.5, 3.0, 0.0], "num_free_params": [0, 2], "num_eff_data_points": [10.5], "name": ["", "a_b", "50% $x^2$", "ünïcode name that is very long indeed"],
}
CONFIG = {
    "labels": [{"a": "$a$", "b": "$\\beta$"}, {"a": "long label here"}], "max_ticks": [1, 9, 2, 0], "plot_hists": [False], "flip": [True], "serif": [True], "diagonal_tick_labels": [False], "label_font_size": [5, 30, 0], "tick_font_size": [5, 0], "spacing": [0.0, 2.5], "contour_label_font_size": [4, 0],
    "show_legend": [True, False], "legend_kwargs": [{"loc": "lower left", "ncol": 2}, {"frameon": True}], "legend_location": [(0, 0), (-1, 0), (1, 1)], "legend_artists": [True, False], "legend_color_text": [False], "watermark": ["draft", ""], "watermark_text_kwargs": [{"color": "red"}], "summarise": [False],
    "summary_font_size": [5, 0], "sigma2d": [True], "blind": [True, ["a"], ["nothing"]], "log_scales": [["b"], ["a", "b", "c"]], "extents": [{"a": (-1.0, 2.0)}, {"b": (4, 9), "c": (0, 1)}], "dpi": [50],
}
DATA = ("samples", "weighted", "grid", "thin grid", "few", "bimodal", "tiny", "huge", "integers", "float32", "one column", "heavy weight", "names", "bounded")
CALLS = ("plot", "one column", "reversed", "distributions", "walks", "summary", "errorbar", "numbers", "subset")


@functools.lru_cache(None)
def frame(kind, k):
    n = {"few": 15}.get(kind, N)
    q = lambda s, i: quantile_sample(s, n)[scramble(n, 7 * k + i)]  # noqa: E731
    if kind in ("grid", "thin grid"):
        ga, gb = np.meshgrid(np.linspace(-3, 3, 2 if kind == "thin grid" else 21), np.linspace(1, 9, 17), indexing="ij")
        df = pd.DataFrame({"a": ga.ravel(), "b": gb.ravel(), "c": gb.ravel()})
        df["weight"] = np.exp(-0.5 * (df.a - 0.3 * k) ** 2 - 0.4 * (df.b - 5) ** 2) + 1e-6
        df["log_posterior"] = np.log(df.weight)
        return df.drop(columns="c")
    df = pd.DataFrame({"a": q("gauss", 0), "b": 6 + 0.8 * q("gauss", 1), "c": 0.1 + q("expo", 2)})
    df["log_posterior"] = -0.5 * df.a**2
    df["weight"] = 1.0
    if kind == "weighted":
        df["weight"] = 0.2 + np.arange(n) % 5
    elif kind == "heavy weight":
        df["weight"] = np.where(np.arange(n) == 4, 5.0 * n, 1.0)
    elif kind == "bimodal":
        df["a"] = mixture_ppf(((0.5, -4, 0.5), (0.5, 4, 0.7)), (np.arange(n) + 0.5) / n)[scramble(n, k)]
    elif kind == "tiny":
        df[["a", "b", "c"]] *= 1e-15
    elif kind == "huge":
        df[["a", "b", "c"]] *= 1e18
    elif kind == "integers":
        df["a"] = np.round(20 * df.a).astype(int)
        df["weight"] = 1 + np.arange(n) % 3
    elif kind == "float32":
        df = df.astype(np.float32)
    elif kind == "one column":
        df = df[["a", "log_posterior"]]
    elif kind == "names":
        df = df.rename(columns={"a": "a b", "b": "$\\beta_{1}$", "c": "x y_2"})
    elif kind == "bounded":
        df["a"], df["b"] = q("uniform", 0), 5 + q("beta", 1)
    return df


def gen(chain_fields, config_fields, datas, others, free_calls=False):
    def g(ch):
        c = dict(data=ch.pick("data", datas), chain={}, config={}, other=ch.pick("other chain", others))
        for f in chain_fields:
            v = ch.pick(f, ("default", *range(len(CHAIN[f]))))
            if v != "default":
                c["chain"][f] = v
        for f in config_fields:
            v = ch.pick(f, ("default", *range(len(CONFIG[f]))))
            if v != "default":
                c["config"][f] = v
        c["via"] = ch.pick("given", ("chain", "override"))
        c["truth"] = ch.pick("truth", (None, "lines", "marker"))
        if free_calls:
            c["call"] = ch.pick("call", CALLS, free=True)
        return c if sift(c) else None
    return g


# settings which only act together with others: name -> (settings always given, settings varied, calls)
COUPLED = {
    "cloud": (dict(plot_cloud=0), {}, ("num_cloud", "color_param", "cmap", "plot_contour", "marker_alpha", "shift_params", "zorder", "color", "walkers"), ("blind", "plot_hists", "labels", "tick_font_size"), ("plot", "subset")),
    "thin cloud": (dict(plot_cloud=0, num_cloud=0), {}, ("color_param", "cmap", "shift_params", "plot_point"), ("blind", "extents"), ("plot", "reversed")),
    "point": (dict(plot_point=0), {}, ("marker_style", "marker_size", "marker_alpha", "plot_contour", "zorder", "linestyle", "shift_params"), ("legend_artists", "show_legend"), ("plot", "summary")),
    "log": ({}, dict(log_scales=0), ("kde", "smooth", "bins", "statistics", "summary_area", "plot_cloud", "plot_point"), ("max_ticks", "flip", "plot_hists", "diagonal_tick_labels", "tick_font_size", "blind", "extents", "summarise", "label_font_size"), ("plot", "distributions", "summary", "walks")),
    "kernel": (dict(kde=0), {}, ("bins", "smooth", "statistics", "summary_area", "multimodal", "power", "histogram_relative_height", "walkers"), ("flip", "extents"), ("one column", "distributions", "errorbar")),
    "modes": (dict(multimodal=0), {}, ("summary_area", "bins", "smooth", "power", "bar_shade", "shift_params"), ("summarise", "flip", "blind", "extents"), ("distributions", "numbers", "errorbar", "summary")),
    "labels": (dict(show_contour_labels=0), {}, ("sigmas", "shade", "shade_alpha", "linestyle", "linewidth", "plot_contour", "bins", "smooth"), ("contour_label_font_size", "sigma2d", "serif", "extents"), ("plot",)),
    "fixed limits": ({}, dict(extents=0), ("kde", "bins", "smooth", "statistics", "plot_point", "summary_area", "shift_params"), ("max_ticks", "flip", "blind", "plot_hists"), ("plot", "distributions", "walks", "errorbar")),
    "shifted": (dict(shift_params=0), {}, ("bins", "smooth", "statistics", "plot_point", "walkers", "power"), ("extents",), ("plot", "numbers", "walks")),
}


def gen_coupled(ch):
    name = ch.pick("group", list(COUPLED), free=True)
    chain, config, cf, pf, calls = COUPLED[name]
    c = dict(data=ch.pick("data", ("samples", "weighted", "integers", "bimodal", "few", "grid", "float32")), chain=dict(chain), config=dict(config), other=ch.pick("other chain", (None, "same", "without a", "marker")))
    for f, table, key in [(f, CHAIN, "chain") for f in cf] + [(f, CONFIG, "config") for f in pf]:
        v = ch.pick(f, ("default", *range(len(table[f]))))
        if v != "default":
            c[key][f] = v
    c["via"] = ch.pick("given", ("chain", "override"))
    c["truth"] = ch.pick("truth", (None, "lines", "marker"))
    c["calls"] = calls
    return c if sift(c) else None


def sift(c):
    k = {f: CHAIN[f][v] for f, v in c["chain"].items()}
    cfg = {f: CONFIG[f][v] for f, v in c["config"].items()}
    if k.get("multimodal") and k.get("statistics") not in (None, S.HDI):
        return False  # refused
    if "color_param" in k and c["data"] in ("one column", "names", "grid", "thin grid"):
        return False  # no such column
    if "walkers" in k and c["data"] in ("grid", "thin grid"):
        return False
    positive = {"samples", "weighted"}
    if "log_scales" in cfg and ("a" in cfg["log_scales"] or c["data"] not in positive or "shift_params" in k):
        return "a" not in cfg["log_scales"] and c["data"] in positive and "shift_params" not in k
    if k.get("plot_contour") is False and not (c["other"] in ("same", "five", "without a") and c["via"] == "chain") and "plot_cloud" not in k and "plot_point" not in k:
        return False  # nothing to draw
    return True


def build(case):
    cc = ChainConsumer()
    k = {f: CHAIN[f][v] for f, v in case["chain"].items()}
    own = {f: v for f, v in k.items() if f not in ChainConfig.model_fields}
    shared = {f: v for f, v in k.items() if f in ChainConfig.model_fields}
    first = dict(name="first") | own | (shared if case["via"] == "chain" else {})
    df = frame(case["data"], 0)
    cc.add_chain(Chain(samples=df, grid=case["data"] in ("grid", "thin grid"), **first))
    if case["other"] == "same":
        cc.add_chain(Chain(samples=frame(case["data"], 1), name="second", grid=case["data"] in ("grid", "thin grid")))
    elif case["other"] == "without a":
        cc.add_chain(Chain(samples=frame("samples", 1)[["b", "c"]], name="second"))
    elif case["other"] == "five":
        for i in range(4):
            cc.add_chain(Chain(samples=frame("samples", i + 1), name=f"n{i}"))
    elif case["other"] == "marker":
        cc.add_marker({"a": 0.5, "b": 6.0}, "mark")
    if case["via"] == "override":
        cc.set_override(ChainConfig(**shared))
    if case["truth"]:
        cc.add_truth(Truth(location={c: float(df[c].iloc[1]) for c in df.columns[:2]}, **(dict(marker="*") if case["truth"] == "marker" else {})))
    cc.set_plot_config(PlotConfig(**{f: CONFIG[f][v] for f, v in case["config"].items()}))
    return cc, first["name"]


def finite(p, fig, case, call):
    for q in panels(fig):
        if not q.shown:
            continue
        arrays = [v for ln in q.lines for v in (ln.x, ln.y)] + [s.xy for s in q.scatters] + [v for f in q.fills for v in f.polys] + [s.xy for s in q.steps]
        arrays += [pt.vertices for c in q.contours for pt in c.paths]
        p.expect(all(np.isfinite(a).all() for a in arrays), "something not finite drawn", (case, call))
        p.expect(np.isfinite([*q.xlim, *q.ylim]).all() and q.xlim[0] != q.xlim[1] and q.ylim[0] != q.ylim[1], "axis without extent", (case, call, q.xlim, q.ylim))


def run(case, p):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cc, first = build(case)
    except ValidationError as e:
        p.fail("documented setting refused", (case, str(e)))
        return
    chain = cc.get_chain(first)
    cols = list(chain.plotting_columns)
    for call in [case["call"]] if "call" in case else case.get("calls", CALLS):
        if "plot_hists" in case["config"] and (call == "one column" or len(cols) == 1 and call in ("plot", "reversed", "subset")):
            continue  # neither pairs nor marginals
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out = observe(cc, call, cols, first)
            except Exception as e:  # noqa: BLE001
                p.fail(f"{call} fails: {type(e).__name__}", f"{str(e)[:120]} {case}")
                continue
        p.op()
        if out is not None and hasattr(out, "axes"):
            finite(p, out, case, call)
            p.obs(len(out.axes))
        else:
            p.obs(out)


def observe(cc, call, cols, first):
    pl = cc.plotter
    if call == "plot":
        fig = pl.plot()
    elif call == "one column":
        fig = pl.plot(columns=cols[:1])
    elif call == "reversed":
        fig = pl.plot(columns=cols[::-1][:2], figsize="GROW")
    elif call == "distributions":
        fig = pl.plot_distributions()
    elif call == "walks":
        fig = pl.plot_walks(convolve=3)
    elif call == "summary":
        fig = pl.plot_summary()
    elif call == "errorbar":
        fig = pl.plot_summary(errorbar=True)
    elif call == "subset":
        fig = pl.plot(chains=[first])
    else:
        s = cc.analysis.get_summary()
        cc.analysis.get_latex_table()
        cc.analysis.get_max_posteriors()
        cc.analysis.get_correlation_table(first)
        cc.analysis.get_covariance_table(first)
        cc.comparison.dic()
        cc.comparison.bic()
        return {n: sorted(v) for n, v in s.items()}
    fig.canvas.draw()
    return fig


def spaces(tier):
    q = tier == "quick"
    return [
        Space("settings", gen(list(CHAIN), list(CONFIG), DATA, (None, "same", "without a", "five", "marker")), run, bound=1 if q else 2, note="every value of every chain and plot setting, every kind of data (thorough: all pairs), through every summary and plot"),
        Space("coupled", gen_coupled, run, bound=1 if q else 2, note="settings which only act together with others (clouds, points, logarithmic axes, kernels, modes, labels, fixed limits, shifts), with every value of the related settings"),
    ]
