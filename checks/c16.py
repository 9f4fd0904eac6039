"""C16: every panel of the triangle plot belongs to its parameter pair."""
import functools
import itertools
import re

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth

from mc.data import quantile_sample, scramble
from mc.engine import Space, canon
from mc.scene import legend_key, triangle

ASSUMPTIONS = ["parameters live on disjoint ranges, so an artist tells which parameter it shows", "contours may reach past the samples by smoothing: half the range on either side"]
RANGE = {"a": (10.0, 20.0), "b": (300.0, 420.0), "c": (5e3, 7e3), "d": (1e-3, 4e-3), "e": (-9.0, -8.0), "f": (40.0, 60.0), "g": (-800.0, -600.0), "h": (2e6, 3e6), "i": (-30.0, -20.0), "j": (0.1, 0.3)}
ALPHA = "abcdefghij"
N = 250


@functools.lru_cache(None)
def frame(k, missing, order):
    out = {}
    for j, c in enumerate(order):
        q = quantile_sample(("beta", "tri", "uniform", "skew")[ALPHA.index(c) % 4], N)[scramble(N, 7 * k + ALPHA.index(c))]
        q = (q - q.min()) / (q.max() - q.min())
        lo, hi = RANGE[c]
        out[c] = lo + (hi - lo) * (0.1 * k + 0.6 * q)
    for c in missing:
        out.pop(c)
    df = pd.DataFrame(out)
    df["weight"] = 1.0 + np.arange(N) % 4
    df["log_posterior"] = -np.abs(np.arange(N) - 77.0 - k) / 9
    return df


# every chain: settings, missing columns
CHAINS = {
    "one": [({}, "")], "two": [({}, ""), (dict(linestyle="--", linewidth=2.0), "")], "cloud": [(dict(plot_cloud=True, num_cloud=60), "")], "point": [({}, ""), (dict(plot_point=True, plot_contour=False), "")], "missing one": [({}, "b"), ({}, "d")],
    "missing many": [({}, "bcd"), ({}, "")], "unsmoothed": [(dict(smooth=0), ""), (dict(smooth=0, bins=12), "")], "all kinds": [(dict(plot_cloud=True, plot_point=True, color="#aa1122"), ""), (dict(plot_contour=False, plot_cloud=True), "a"), (dict(plot_point=True, plot_contour=False), "c")],
    "light": [(dict(smooth=0, bins=8), "")], "five": [({}, "") for _ in range(5)], "coloured": [(dict(plot_cloud=True, color_param="weight"), "")], "labelled": [(dict(show_contour_labels=True, sigmas=[0, 1, 2, 3]), "")], "grid": "grid", "unshaded": [(dict(shade=False, bar_shade=False), "")],
}
COLUMNS = [None] + [list(q) for r in (2, 3) for q in itertools.permutations("abcd", r)] + [["a", "b", "c", "d"], ["d", "b", "a", "c"], ["c"], ["a"]]


def build(case, columns_for_grid="abcd"):
    cc = ChainConsumer()
    spec = CHAINS[case["chains"]]
    if spec == "grid":
        ax = {c: np.linspace(*RANGE[c], 7) for c in columns_for_grid}
        mesh = np.meshgrid(*ax.values(), indexing="ij")
        df = pd.DataFrame({c: m.ravel() for c, m in zip(ax, mesh)})
        df["weight"] = np.exp(-sum(((df[c] - np.mean(RANGE[c])) / (0.25 * (RANGE[c][1] - RANGE[c][0]))) ** 2 for c in ax))
        cc.add_chain(Chain(samples=df, name="g", grid=True))
    else:
        for k, (o, missing) in enumerate(spec):
            cc.add_chain(Chain(samples=frame(k, missing, case["frame"]), name=f"n{k}", **o))
    if case["truth"]:
        cc.add_truth(Truth(location={"a": 14.0, "c": 6e3}))
    cc.set_plot_config(PlotConfig(**config(case)))
    return cc


def config(case):
    return dict(plot_hists=case["hists"], flip=case["flip"], log_scales=case["log"], labels={c: f"${c}_0$" for c in case["labels"]}, extents=case["extents"], spacing=case["spacing"], show_legend=case["legend"], summarise=case["summarise"], diagonal_tick_labels=case["diagonal"])


def gen(ch_columns, ch_chains):
    def g(ch):
        c = dict(columns=ch.pick("columns", ch_columns, free=True), chains=ch.pick("chains", ch_chains, free=True), hists=ch.pick("plot_hists", (True, False)), flip=ch.flag("flip"), log=ch.pick("log scales", ([], ["a"], ["b", "d"], [*"abcd"])),
                 labels=ch.pick("labels", ("", "ac", "abcd")), extents=ch.pick("extents", ({}, {"a": (9.0, 25.0)}, {"c": (4e3, 6.5e3), "b": (250.0, 500.0)})), truth=ch.flag("truth"), spacing=ch.pick("spacing", (None, 0.0, 4.0)), legend=ch.pick("legend", (None, True, False)),
                 summarise=ch.pick("summarise", (True, False)), diagonal=ch.pick("diagonal ticks", (True, False)), frame=ch.pick("frame order", ("abcd", "cbda")), subset=ch.pick("subset", (None, "reversed", "last")))
        return c
    return g


def gen_large(sizes):
    """Triangles of many parameters, whose names are not in order."""
    def g(ch):
        n = ch.pick("parameters", sizes, free=True)
        frame = ch.pick("frame order", (ALPHA[:n][::-1], ALPHA[1:n] + "a", ALPHA[:n]))
        cols = ch.pick("columns", (None, "reversed", "rotated", "fewer"))
        cols = {None: None, "reversed": list(frame[::-1]), "rotated": list(frame[2:] + frame[:2]), "fewer": list(frame[-2::-1])}[cols]
        return dict(columns=cols, chains="light", hists=ch.pick("plot_hists", (True, False)), flip=ch.flag("flip"), log=ch.pick("log scales", ([], ["a"])), labels=ch.pick("labels", ("", "ac")), extents={}, truth=False, spacing=ch.pick("spacing", (None, 4.0)),
                    legend=ch.pick("legend", (None, True)), summarise=True, diagonal=True, frame=frame, subset=None)
    return g


def chain_info(case):
    spec = CHAINS[case["chains"]]
    spec = [({}, "")] if spec == "grid" else spec
    out = [dict(name="g" if CHAINS[case["chains"]] == "grid" else f"n{k}", has=[c for c in case["frame"] if c not in m], opt=o) for k, (o, m) in enumerate(spec)]
    return out if case["subset"] is None else out[::-1] if case["subset"] == "reversed" else out[-1:]


def keys(q):
    """All artists of a panel except truth lines, ticks and titles."""
    return canon([a.key() for g in (q.scatters, q.contours, q.fills, q.steps, q.lines) for a in g])


def swapped(q):
    """The same marginal drawn on its side."""
    out = []
    for ln in q.lines:
        k = list(ln.key())
        k[1], k[2] = k[2], k[1]
        out.append(tuple(k))
    return canon(out)


def read(axis, label):
    """Tick positions and the values their labels and the axis label say, to the labels' precision."""
    m = re.search(r"\[(?:1e([-+0-9]+))?(\+?-?[0-9.e]+)?\]$", label.replace("\N{MINUS SIGN}", "-"))
    scale, off = (10.0 ** int(m[1] or 0), float(m[2] or 0)) if m else (1.0, 0.0)
    out = []
    for t in axis.get_majorticklabels():
        text = t.get_text().replace("\N{MINUS SIGN}", "-")
        if text and t.get_visible():
            digits = len(text.partition(".")[2])
            out.append((t.get_position()[axis.axis_name == "y"], float(text) * scale + off, 0.51 * 10.0**-digits * scale))
    return out


def inside(v, c, slack=0.5):
    lo, hi = RANGE[c]
    w = (hi - lo) * slack
    return v.size == 0 or (v.min() > lo - w and v.max() < hi + w)


@functools.lru_cache(maxsize=16)
def pair_panel(key):
    """The pair panel of a plot of just two parameters."""
    import json
    case = json.loads(key)
    case["extents"] = {k: tuple(v) for k, v in case["extents"].items()}
    cc = build(case)
    fig = cc.plotter.plot(columns=case["columns"], chains=case["names"])
    g, _ = triangle(fig, 2)
    return keys(g[1][0]), g[1][0].xlim, g[1][0].ylim


def run(case, p):
    info = chain_info(case)
    if case["columns"] is None:
        cols = list(dict.fromkeys(c for i in info for c in i["has"]))
    else:
        cols = list(case["columns"])
    grid = CHAINS[case["chains"]] == "grid"
    if grid:
        cols = list("abcd")[:3] if case["columns"] is None else cols
        if len(cols) > 3:
            return
    held = {c: [i for i in info if c in i["has"]] for c in cols}
    drawn = {c: [i for i in held[c] if i["opt"].get("plot_contour", True)] for c in cols}
    if not all(held.values()) or any(all(not i["opt"].get("plot_contour", True) and not i["opt"].get("plot_cloud") for i in v) for v in held.values()):
        return
    if len(cols) < 2 and not case["hists"]:
        return
    n = len(cols)
    cc = build(case, cols)
    names = None if case["subset"] is None else [i["name"] for i in info]
    fig = cc.plotter.plot(columns=None if case["columns"] is None else list(cols), chains=names)
    p.op()
    m = n if case["hists"] else n - 1
    flip = case["flip"] and n == 2 and case["hists"]
    p.expect(len(fig.axes) >= m * m, "number of panels", (case, len(fig.axes)), stop=True)
    p.equal(len(fig.axes) - m * m, int(case["chains"] == "coloured" and n > 1), "axes besides the panels", case)
    g, _ = triangle(fig, m)
    rows, across = (cols, cols) if case["hists"] else (cols[1:], cols[:-1])
    lims = {}

    def limit(c, got, where):
        p.expect(np.isfinite(got).all() and got[0] < got[1], "limits", (case, where, got))
        if c in case["extents"]:
            p.equal(tuple(got), case["extents"][c], "custom limits", (case, where))
        p.equal(lims.setdefault(c, got), got, "limits differ between panels of a parameter", (case, where))
        if c not in case["extents"] or c not in "a":
            p.expect(inside(np.array(got), c, 0.5) or c in case["extents"], "limits of another parameter", (case, where, got))

    def label(c):
        return f"${c}_0$" if c in case["labels"] else c

    for i in range(m):
        for j in range(m):
            q = g[i][j]
            where = f"panel {i},{j}"
            p.obs(keys(q), q.xlim, q.ylim, q.xlabel, q.ylabel)
            if i < j:
                legend = legend_key(q.ax)
                p.expect(q.empty and not q.xticks and not q.yticks and not q.xlabel and not q.ylabel and (legend is None or (i, j) == (0, m - 1)), "panel above the diagonal not empty", (case, where))
                p.expect(not q.ax.get_frame_on(), "frame above the diagonal", (case, where))
                continue
            diag = case["hists"] and i == j
            turned = flip and i == 1 and j == 1
            x, y = across[j], rows[i]
            bottom = i == m - 1 and not turned
            left = j == 0 and not (case["hists"] and i == 0)
            p.equal(q.xlabel.split(" [")[0].strip(), label(x) if bottom else "", "horizontal label", (case, where))
            p.equal(q.ylabel.split(" [")[0].strip(), label(y) if left else "", "vertical label", (case, where))
            p.equal(bool(q.xticks), bottom, "horizontal ticks", (case, where))
            p.equal(bool(q.yticks), left, "vertical ticks", (case, where))
            for axis, lab, on, c in ((q.ax.xaxis, q.xlabel, bottom, x), (q.ax.yaxis, q.ylabel, left, y)):
                if on and c not in case["log"]:
                    for loc, said, err in read(axis, lab):
                        p.expect(abs(loc - said) <= err, "tick's value cannot be read off its label and the axis label", lambda: f"{case} {where}: at {loc} says {said} ({lab})")
            if diag:
                want = drawn[x]
                curves = q.curves + q.steps
                p.equal(len(curves), len(want), "marginals on the diagonal", (case, where))
                for cv, w in zip(q.curves, [w for w in want]):
                    if "color" in w["opt"]:
                        p.equal(cv.color, w["opt"]["color"], "marginal of another chain", (case, where))
                p.expect(not q.scatters and not q.contours, "pair artists on the diagonal", (case, where))
                par, den = ([c.y for c in q.curves], [c.x for c in q.curves]) if turned else ([c.x for c in q.curves], [c.y for c in q.curves])
                for s in q.steps:
                    par.append(s.xy[:, 1 if turned else 0])
                    den.append(s.xy[:, 0 if turned else 1])
                for v in par:
                    p.expect(inside(v, x), "marginal of another parameter", (case, where, v.min(), v.max()))
                top = max((v.max() for v in den), default=None)
                lim = q.xlim if turned else q.ylim
                if top is not None:
                    p.expect(lim[0] == 0 and top < lim[1] < 1.6 * top, "limits do not cover the tallest marginal", (case, where, lim, top))
                limit(x, q.ylim if turned else q.xlim, where)
                p.equal((q.yscale if turned else q.xscale), "log" if x in case["log"] else "linear", "scale", (case, where))
                p.equal((q.xscale if turned else q.yscale), "linear", "density scale", (case, where))
                continue
            limit(x, q.xlim, where)
            limit(y, q.ylim, where)
            p.equal((q.xscale, q.yscale), tuple("log" if c in case["log"] else "linear" for c in (x, y)), "scale", (case, where))
            both = [w for w in info if x in w["has"] and y in w["has"]]
            p.equal(len(q.outlined), sum(w["opt"].get("plot_contour", True) for w in both), "contours", (case, where))
            p.equal(len([s for s in q.scatters if len(s.xy) > 1]), sum(w["opt"].get("plot_cloud", False) for w in both), "clouds", (case, where))
            p.equal(len([s for s in q.scatters if len(s.xy) == 1]), sum(w["opt"].get("plot_point", False) for w in both), "points", (case, where))
            for cset in q.contours:
                for path in cset.paths:
                    v = path.vertices
                    p.expect(v.size == 0 or (inside(v[:, 0], x) and inside(v[:, 1], y)), "contour of other parameters", (case, where))
            for s in q.scatters:
                p.expect(inside(s.xy[:, 0], x) and inside(s.xy[:, 1], y), "points of other parameters", (case, where))
            p.expect(not q.curves and not q.steps and not q.fills, "marginal in a pair panel", (case, where))
            p.expect(not q.title, "title on a pair panel", (case, where))
    # the same pair on its own
    inline = case["chains"] == "labelled"  # labels cut gaps into their lines, depending on the size of the panel
    if n > 2 and not grid and not inline:
        for i, j in {(m - 1, 0), (m - 1, m - 2) if case["hists"] else (m - 1, m - 1), (1, 0)}:
            q = g[i][j]
            sub = dict(case, columns=[across[j], rows[i]], hists=True, flip=False, labels="", spacing=None, legend=None, summarise=True, diagonal=True, names=names, subset=None)
            import json
            want = pair_panel(json.dumps(sub, sort_keys=True))
            p.op()
            p.expect(keys(q) == want[0], "panel differs from the plot of just that pair", (case, i, j))
            p.expect(q.xlim == want[1] and q.ylim == want[2], "limits differ from the plot of just that pair", (case, i, j))
    # turning the second marginal changes nothing else
    if flip:
        cc = build(dict(case, flip=False), cols)
        up, _ = triangle(cc.plotter.plot(columns=None if case["columns"] is None else list(cols), chains=names), 2)
        p.op()
        for i, j in ((0, 0), (1, 0)):
            p.expect((inline or keys(up[i][j]) == keys(g[i][j])) and up[i][j].title == g[i][j].title, "flip changes another panel", (case, i, j))
            p.equal((up[i][j].xlim, up[i][j].ylim, up[i][j].xlabel, up[i][j].ylabel), (g[i][j].xlim, g[i][j].ylim, g[i][j].xlabel, g[i][j].ylabel), "flip changes another panel", (case, i, j))
        a, b = up[1][1], g[1][1]
        if not case["truth"]:
            p.expect(swapped(a) == canon([ln.key() for ln in b.lines]), "turned marginal is not the upright one on its side", case)
        p.equal((a.xlim, a.ylim), (b.ylim, b.xlim), "limits of the turned marginal", case)
        p.equal(a.title, b.title, "title of the turned marginal", case)
        for fa, fb in zip(a.fills, b.fills):
            for pa, pb in zip(fa.polys, fb.polys):
                p.expect(np.allclose(sorted(map(tuple, pa)), sorted(map(tuple, pb[:, ::-1]))), "shading of the turned marginal", case)
        p.equal(len(a.fills), len(b.fills), "shading of the turned marginal", case)


def spaces(tier):
    q = tier == "quick"
    three = [["a", "b", "c"], ["c", "a", "b"], ["b", "d"], ["d", "b"], ["a", "c"]]
    return [
        Space("columns", gen(COLUMNS, ["two"] if q else list(CHAINS)), run, bound=0, note="every ordered pair and triple of columns, all four, one, and the default"),
        Space("large", gen_large((8, 6, 10) if q else (5, 6, 7, 8, 9, 10)), run, bound=1 if q else 2, note="five to ten parameters in any order"),
        Space("pairs", gen([["b", "a"], ["c", "d"]] if q else three, ["all kinds", "missing one"]), run, bound=2, note="pairs of the same options for two parameters"),
        Space("panels", gen([["c", "a", "b"], ["b", "a"]] if q else three, list(CHAINS)), run, bound=1 if q else 2, note="kinds of chain x marginals, flip, log scales, labels, limits, truths, spacing, legend, subsets"),
    ]
