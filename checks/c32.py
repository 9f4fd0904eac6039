"""C32: colour bars explain the coloured clouds."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from matplotlib.collections import QuadMesh
from matplotlib.colors import to_hex

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import Ticks, triangle

ASSUMPTIONS = [
    "chains sharing a colour parameter are given the same colour map: a single bar cannot show two",
    "a bar's map is read off the colours it is filled with, its scale off its axis",
]
N = 200
RANGES = {"same": (0, 1), "higher": (5, 1), "nested": (0.2, 0.3), "wider": (-1, 4), "constant": (2, 0), "tiny": (0, 1e-9), "large": (1e7, 1e5)}


@functools.lru_cache(None)
def frame(k, rng, missing="", n=N):
    q = lambda s, i: quantile_sample(s, n)[scramble(n, 5 * k + i)]  # noqa: E731
    df = pd.DataFrame({"x": q("gauss", 0) + 0.3 * k, "y": 4 + q("gauss", 1), "z": 9 + 2 * q("gauss", 2)})
    lo, width = RANGES[rng]
    df["c"] = lo + width * q("uniform", 3)
    df["d"] = 100 + q("gauss", 4)
    df["weight"] = 0.5 + k + np.arange(n) % 3
    df["log_posterior"] = -0.5 * q("gauss", 0) ** 2 - k
    df = df.drop(columns=list(missing))
    df.index = np.arange(n) * 3 + 1
    return df


COLORS = ("c", None, "d", "weight", "log_posterior", "x", "z")
CONFIGS = {"default": {}, "labels": dict(labels={"c": "$c_0$", "d": "Depth", "weight": "Importance", "log_posterior": "posterior"}), "blind c": dict(blind=["c"]), "blind all": dict(blind=True), "font": dict(label_font_size=7), "flip": dict(flip=True),
           "no hists": dict(plot_hists=False), "log weight": dict(labels={"c": "log_weight"}), "legend": dict(show_legend=True), "watermark": dict(watermark="draft"), "ticks": dict(max_ticks=2)}


def gen(ch):
    n = ch.pick("chains", (1, 2, 3), free=True)
    chains = []
    for k in range(n):
        c = dict(color=ch.pick(f"color {k}", COLORS), range=ch.pick(f"range {k}", tuple(RANGES), free=k == 1 and n == 2), cloud=ch.pick(f"cloud {k}", (True, False)), missing=ch.pick(f"missing {k}", ("", "z", "x", "y")),
                 contour=ch.pick(f"contour {k}", (False, True)), num=ch.pick(f"num {k}", (50, None, 7) if k == 0 else (None, 50, 7)))
        if c["color"] and c["color"] in c["missing"]:
            return None
        chains.append(c)
    return dict(chains=chains, config=ch.pick("config", tuple(CONFIGS)), columns=ch.pick("columns", ("xy", None, "xyzd", "yx", "xyz", "zyx", "xyc")), select=ch.pick("select", (None, "reversed", "first", "last")), cmap=ch.pick("cmap", ("viridis", "plasma", "gray_r")),
                via=ch.pick("via", ("chain", "override")), again=ch.flag("drawn before"))


def gen_panels(ch):
    """Chains that share some of the panels only."""
    n = ch.pick("chains", (2, 3), free=True)
    chains = [dict(color=ch.pick(f"color {k}", ("c", None, "d")), range=("same", "higher", "wider")[k], cloud=True, missing=ch.pick(f"missing {k}", ("", "z", "x", "y"), free=True), contour=False, num=ch.pick(f"num {k}", (None, 9))) for k in range(n)]
    return dict(chains=chains, config=ch.pick("config", ("default", "no hists", "blind c")), columns="xyz", select=ch.pick("select", (None, "reversed")), cmap="viridis", via="chain", again=False)


CROWDS = (("c", "d", "weight", "log_posterior"), ("d", "x", "c", "z", "log_posterior", "weight"), ("c", "d", "c", "weight", "d", None, "c", "log_posterior"), ("c",) * 7)


def gen_crowd(ch):
    """Four and more chains, with up to six bars."""
    colors = ch.pick("colours", CROWDS, free=True)
    chains = [dict(color=c, range=tuple(RANGES)[k % 4], cloud=True, missing="", contour=False, num=9) for k, c in enumerate(colors)]
    for k in (0, len(colors) - 1):
        chains[k]["cloud"] = ch.pick(f"cloud {k}", (True, False))
    return dict(chains=chains, config=ch.pick("config", ("default", "no hists", "labels", "blind c", "font")), columns=ch.pick("columns", ("xy", "xyz") if not {"x", "z"} & set(colors) else ("xy",)), select=ch.pick("select", (None, "reversed", "last")), cmap="viridis", via=ch.pick("via", ("chain", "override")), again=False)


def run(case, p):
    cc = ChainConsumer()
    spec = {}
    for k, c in enumerate(case["chains"]):
        kw = dict(plot_cloud=c["cloud"], plot_contour=c["contour"], cmap=case["cmap"], color_param=c["color"], color=("#2266aa", "#aa4411", "#118855")[k % 3], smooth=1, bins=9)
        if c["num"]:
            kw["num_cloud"] = c["num"]
        if case["via"] == "override":
            kw.pop("cmap")
        spec[f"n{k}"] = dict(c, df=frame(k, c["range"], c["missing"]))
        cc.add_chain(Chain(samples=spec[f"n{k}"]["df"], name=f"n{k}", **kw))
    if case["via"] == "override":
        cc.set_override(ChainConfig(cmap=case["cmap"]))
    cfg = CONFIGS[case["config"]]
    cc.set_plot_config(PlotConfig(summarise=False, **cfg))
    names = list(spec)
    names = {None: names, "reversed": names[::-1], "first": names[:1], "last": names[-1:]}[case["select"]]
    shown = {m: [c for c in spec[m]["df"].columns if c not in ("weight", "log_posterior") and not (spec[m]["cloud"] and c == spec[m]["color"])] for m in names if spec[m]["cloud"] or spec[m]["contour"]}
    cols = list(case["columns"]) if case["columns"] else list(dict.fromkeys(c for m in shown for c in shown[m]))
    if not shown or any(not any(col in s for s in shown.values()) for col in cols) or len(cols) < 2:
        return
    if all(not spec[m]["contour"] for m in names) and cfg.get("plot_hists", True) is False:
        return
    if case["again"]:
        cc.plotter.plot()
        cc.plotter.plot(chains=names[:1])
    fig = cc.plotter.plot(chains=None if case["select"] is None else names, columns=None if case["columns"] is None else cols)
    p.op(len(names))
    hists = cfg.get("plot_hists", True)
    n = len(cols) - (not hists)
    grid, rest = triangle(fig, n)
    bars = {}
    for ax in rest:
        if any(isinstance(a, QuadMesh) for a in ax.collections):
            bars.setdefault(ax.get_ylabel(), []).append(ax)
    # every coloured cloud there should be
    want, drawn = {}, []
    for i in range(n):
        for j in range(i + (not hists)):
            px, py = (cols[j], cols[i]) if hists else (cols[j], cols[i + 1])
            clouds = [s for s in grid[i][j].scatters]
            here = [m for m in names if m in shown and spec[m]["cloud"] and px in shown[m] and py in shown[m]]
            if not p.equal(len(clouds), len(here), "clouds in a panel", (case, px, py)):
                return
            for m, s in zip(here, clouds):
                col = spec[m]["color"]
                if p.expect((s.array is None) == (col is None), "cloud coloured by a parameter", (case, m)) and col:
                    want.setdefault(col, []).append((m, s, px, py))
    label = cfg.get("labels", {})
    special = {"weight": "Weights", "log_weight": "log(Weights)", "posterior": "log(Posterior)"}
    labels = {col: special.get(label.get(col, col), label.get(col, col)) for col in want}
    p.obs(sorted(labels.values()), len(rest))
    if not p.equal({k: len(v) for k, v in bars.items()}, {v: 1 for v in labels.values()}, "one bar per colouring parameter", case):
        return
    fig.canvas.draw()
    for col, clouds in want.items():
        ax = bars[labels[col]][0]
        mesh = next(a for a in ax.collections if isinstance(a, QuadMesh))
        lo, hi = map(float, ax.get_ylim())
        colours = [to_hex(v[:3]) for v in mesh.get_facecolors()]
        p.equal(ax.yaxis.label.get_fontsize(), float(cfg.get("label_font_size", 12)), "font size of a bar's label", case)
        p.expect(np.all(mesh.get_facecolors()[:, 3] == 1), "bar is see-through", case)
        ticks = Ticks(ax.yaxis)
        p.equal(bool(ticks.locs), not (case["config"] == "blind all" or case["config"] == "blind c" and col == "c"), "ticks of a bar", (case, col))
        values = np.concatenate([s.array for _, s, _, _ in clouds])
        span = max(values.max() - values.min(), 1e-12 * abs(values).max())
        if values.max() > values.min():
            p.expect(abs(lo - values.min()) <= 1e-6 * span and abs(hi - values.max()) <= 1e-6 * span, "bar's range is not that of the clouds", lambda: f"{case}: {col} shows {lo}..{hi}, clouds {values.min()}..{values.max()}")
        for m, s, px, py in clouds:
            df = spec[m]["df"]
            where = {v: float(z) for *v, z in map(tuple, df[[px, py, col]].to_numpy()) for v in [tuple(v)]}
            truth = np.array([where.get(tuple(v), np.nan) for v in s.xy])
            if not p.expect(np.array_equal(truth, s.array), "cloud's colour values", (case, m, col)):
                continue
            k = len(colours)
            at = np.clip(((truth - lo) / (hi - lo) * k).astype(int), 0, k - 1)
            got = [to_hex(v[:3]) for v in s.artist.get_facecolors()]
            got = got * len(truth) if len(got) == 1 else got
            near = [any(g == colours[min(max(a + e, 0), k - 1)] for e in (0, -1, 1)) for g, a in zip(got, at)]
            p.expect(len(got) == len(truth) and (all(near) or values.max() == values.min()), "cloud's colours are not the bar's", lambda: f"{case}: {m} {col} in {px},{py}: {sum(near)} of {len(near)} points")
        # a bar keeps clear of the panels
        box = ax.get_position()
        p.expect(not any(q.ax.get_position().overlaps(box) for row in grid for q in row if q.shown), "bar over a panel", (case, col))
    boxes = [ax.get_position() for v in bars.values() for ax in v]
    p.expect(not any(a.overlaps(b) for i, a in enumerate(boxes) for b in boxes[:i]), "bars overlap", case)


def gen_other(ch):
    return dict(plot=ch.pick("plot", ("distributions", "walks", "summary", "one column"), free=True), color=ch.pick("color", ("c", "weight", "x"), free=True), contour=ch.flag("contour", free=True), two=ch.flag("two chains", free=True))


def run_other(case, p):
    """Plots without clouds have no colour bars."""
    cc = ChainConsumer()
    for k in range(1 + case["two"]):
        cc.add_chain(Chain(samples=frame(k, "same"), name=f"n{k}", plot_cloud=True, color_param=case["color"], plot_contour=case["contour"], smooth=1))
    fig = {"distributions": cc.plotter.plot_distributions, "walks": cc.plotter.plot_walks, "summary": cc.plotter.plot_summary, "one column": lambda: cc.plotter.plot(columns=["y"])}[case["plot"]]()
    p.op()
    p.expect(not any(isinstance(a, QuadMesh) for ax in fig.axes for a in ax.collections), "colour bar without a cloud", case)


def spaces(tier):
    d = 2 if tier == "thorough" else 1
    out = [
        Space("bars", gen, run, d, note="chains x colour parameter x range (free); each cloud, missing column, config, columns, subset, route"),
        Space("panels", gen_panels, run, d, note="chains x which of the three parameters each lacks (free); each colour parameter, number of points, config, order"),
        Space("crowd", gen_crowd, run, d, note="four to eight chains coloured by up to six parameters"),
        Space("none", gen_other, run_other, None, note="plots without clouds"),
    ]
    return out
