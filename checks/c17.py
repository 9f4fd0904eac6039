"""C17: truth values are marked at the right place in every plot."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth
from matplotlib.colors import to_hex
from matplotlib.markers import MarkerStyle

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import panels, triangle

ASSUMPTIONS = ["truth colours are matplotlib's names, hex codes or RGB lists"]
N = 160


@functools.lru_cache(None)
def frame(k, missing):
    df = pd.DataFrame({c: quantile_sample("gauss", N)[scramble(N, 10 * k + j)] + 5.0 * j for j, c in enumerate("abc")})
    df["log_posterior"] = -np.arange(N) / 7.0
    return df.drop(columns=list(missing))


LOCATIONS = {"a": {"a": 0.25}, "b": {"b": 5.5}, "ab": {"a": -0.5, "b": 4.75}, "abc": {"a": 0.125, "b": 5.25, "c": 10.5}, "zero": {"a": 0.0, "b": 0.0}, "unknown": {"zz": 1.0}, "some unknown": {"zz": 1.0, "c": 9.75}, "ca": {"c": 10.25, "a": 0.75}, "far": {"a": 400.0, "c": -900.0}, "none": {}}
STYLES = {
    "default": {}, "colour": dict(color="red"), "hex": dict(color="#12ab9f"), "rgb": dict(color=[0.2, 0.4, 0.8]), "array": dict(color=np.array([0.9, 0.1, 0.3])), "style": dict(line_style=":"), "solid": dict(line_style="-", line_width=3.5), "alpha": dict(alpha=0.25), "zorder": dict(zorder=-3),
    "everything": dict(color="blue", line_style="-.", line_width=0.5, alpha=0.6, zorder=7, name="T"),
}
MARKERS = {"none": {}, "star": dict(marker="*"), "cross": dict(marker="x", marker_size=30.0), "square": dict(marker="s", marker_size=77.0, edge_color="green", marker_edge_width=2.5), "dot": dict(marker=".", edge_color="#010203"), "circle": dict(marker="o", marker_edge_width=0.0), "diamond": dict(marker="D", marker_size=40.0)}
PLOTS = ("triangle", "pairs only", "flipped", "distributions", "summary", "errorbar", "walks")
DEFAULT = dict(color="black", line_style="--", line_width=1.0, alpha=1.0, zorder=100, marker=None, marker_size=150.0, marker_edge_width=1.0, edge_color=None)


def gen(ch, quick=True):
    places = ["ab", "b", "abc", "some unknown", "zero", "a"] + ([] if quick else ["unknown", "ca", "far", "none"])
    return dict(plot=ch.pick("plot", PLOTS, free=True), location=ch.pick("location", places, free=True), style=ch.pick("style", list(STYLES)), marker=ch.pick("marker", list(MARKERS), free=not quick),
                second=ch.pick("second truth", (None, "a", "abc", "ab", "b", "zero", "unknown")), style2=ch.pick("second style", ("colour", "default", "everything")), marker2=ch.pick("second marker", ("none", "star", "square", "diamond")), third=ch.pick("third truth", (None, "ca")),
                given=ch.pick("given as", ("dict", "series", "integers", "numpy")), columns=ch.pick("columns", (None, ["c", "a"], ["b"], ["b", "c", "a"], ["a", "b"])), chains=ch.pick("chains", ("one", "two", "missing", "cloud", "point")),
                when=ch.pick("added", ("after chains", "before chains", "after a plot")), log=ch.flag("log"), blind=ch.flag("blind"), subset=ch.flag("subset"), grow=ch.flag("legend"))


def gen_styled(ch):
    c = gen(ch, False)
    return c if c["plot"] == "triangle" and c["location"] == "ab" else None


def location(name, given):
    loc = LOCATIONS[name]
    if given == "series":
        return pd.Series(loc, dtype=float)
    if given == "integers":
        return {k: int(v) for k, v in loc.items()}
    if given == "numpy":
        return {k: np.float64(v) for k, v in loc.items()}
    return dict(loc)


def expected(truths, px, py):
    lines, marks = [], []
    for loc, o in truths:
        x, y = loc.get(px) if px else None, loc.get(py) if py else None
        if x is not None and y is not None and o["marker"] is not None:
            marks.append((x, y, o))
            continue
        if x is not None:
            lines.append(("vertical", x, o))
        if y is not None:
            lines.append(("horizontal", y, o))
    return lines, marks


def run(case, p):
    specs = [(case["location"], case["style"], case["marker"], case["given"])]
    if case["second"]:
        specs.append((case["second"], case["style2"], case["marker2"], "dict"))
    if case["third"]:
        specs.append((case["third"], "alpha", "cross", "dict"))
    objs = [Truth(location=location(s[0], s[3]), **STYLES[s[1]], **MARKERS[s[2]]) for s in specs]
    before = [repr(o) for o in objs]
    truths = [({k: float(v) for k, v in dict(location(s[0], s[3])).items()}, DEFAULT | STYLES[s[1]] | MARKERS[s[2]]) for s in specs]
    cc = ChainConsumer()
    if case["when"] == "before chains":
        for o in objs:
            cc.add_truth(o)
    spec = {"one": [("", {})], "two": [("", {}), ("", {})], "missing": [("b", {}), ("c", {})], "cloud": [("", dict(plot_cloud=True, plot_point=True))], "point": [("", {}), ("", dict(plot_point=True, plot_contour=False))]}[case["chains"]]
    for k, (missing, o) in enumerate(spec):
        cc.add_chain(Chain(samples=frame(k, missing), name=f"n{k}", **o))
    plot = case["plot"]
    cc.set_plot_config(PlotConfig(plot_hists=plot != "pairs only", flip=plot == "flipped", log_scales=["b", "c"] if case["log"] else [], blind=["a"] if case["blind"] else False, show_legend=True if case["grow"] else None))
    if case["when"] == "after a plot":
        cc.plotter.plot_distributions()
    if case["when"] != "before chains":
        for o in objs:
            cc.add_truth(o)
    names = [f"n{len(spec) - 1}"] if case["subset"] else None
    if names and case["chains"] == "point":
        return
    shown = spec[-1:] if names else spec
    cols = case["columns"] or list(dict.fromkeys(c for m, _ in shown for c in "abc" if c not in m))
    if plot == "flipped":
        cols = (case["columns"] or ["a", "b"])[:2]
    if plot == "pairs only" and len(cols) < 2:
        return
    if any(all(c in m for m, _ in shown) for c in cols):
        return
    n = len(cols)
    kw = dict(columns=None if case["columns"] is None and plot != "flipped" else list(cols), chains=names)
    where = []  # (panel, px, py)
    if plot in ("triangle", "pairs only", "flipped"):
        fig = cc.plotter.plot(**kw)
        m = n - 1 if plot == "pairs only" else n
        g, _ = triangle(fig, m)
        rows, across = (cols[1:], cols[:-1]) if plot == "pairs only" else (cols, cols)
        for i in range(m):
            for j in range(m):
                if i < j:
                    where.append((g[i][j], None, None))
                elif i == j and plot != "pairs only":
                    turned = plot == "flipped" and i == 1 and n == 2
                    where.append((g[i][j], None if turned else cols[i], cols[i] if turned else None))
                else:
                    where.append((g[i][j], across[j], rows[i]))
    elif plot == "distributions":
        where = [(q, c, None) for q, c in zip(panels(cc.plotter.plot_distributions(**kw)), cols)]
    elif plot == "walks":
        ps = panels(cc.plotter.plot_walks(**kw))
        extra = len(ps) - n
        where = [(q, None, None) for q in ps[:extra]] + [(q, None, c) for q, c in zip(ps[extra:], cols)]
    else:
        ps = panels(cc.plotter.plot_summary(**kw, errorbar=plot == "errorbar"))
        for r in range(len(shown)):
            where.append((ps[r * (n + 1)], None, None))
            where += [(ps[r * (n + 1) + 1 + j], c, None) for j, c in enumerate(cols)]
    p.op()
    p.equal([repr(o) for o in objs], before, "truths modified", case)
    for q, px, py in where:
        lines, marks = expected(truths, px, py)
        spans = q.spans
        at = f"panel ({px}, {py})"
        p.obs([ln.key() for ln in spans])
        got = [("vertical" if s.vertical else "horizontal" if s.horizontal else "?", float(s.x[0] if s.vertical else s.y[0])) for s in spans]
        if not p.equal(sorted(got), sorted((k, v) for k, v, _ in lines), "truth lines", (case, at)):
            continue
        for s, (k, v, o) in zip(spans, lines):
            want = (k, v, to_hex(o["color"]), o["line_style"], o["line_width"], o["alpha"], o["zorder"])
            p.equal((*got[spans.index(s)], s.color, s.ls, s.lw, 1.0 if s.alpha is None else s.alpha, s.zorder), want, "style of a truth line", (case, at))
        dots = [s for s in q.scatters if len(s.xy) == 1 and any(np.array_equal(s.xy[0], (x, y)) for x, y, _ in marks)]
        if px and py:
            points = sum(c in "" or not set((px, py)) & set(m) for m, o in shown if o.get("plot_point") for c in ("",))
            p.equal(len([s for s in q.scatters if len(s.xy) == 1]), len(marks) + points, "markers", (case, at))
        elif plot != "walks":
            p.equal(len(q.scatters), 0, "markers", (case, at))
        p.equal([tuple(s.xy[0]) for s in dots], [(x, y) for x, y, _ in marks], "truth markers", (case, at))
        for s, (x, y, o) in zip(dots, marks):
            ms = MarkerStyle(o["marker"])
            filled = o["marker"] in ("*", "s", "o", ".") and ms.is_filled()
            p.equal((s.color, float(s.sizes[0]), 1.0 if s.alpha is None else s.alpha, s.zorder), (to_hex(o["color"]), o["marker_size"], o["alpha"], o["zorder"]), "style of a truth marker", (case, at))
            p.expect(np.allclose(s.marker, np.round(ms.get_path().transformed(ms.get_transform()).vertices, 6), atol=1e-5), "shape of a truth marker", (case, at))
            if filled and o["marker"] != ".":
                p.equal((s.edge, s.lw), (to_hex(o["edge_color"] or o["color"]) if not isinstance(o["color"], np.ndarray) or o["edge_color"] else to_hex(o["color"]), o["marker_edge_width"]), "edge of a truth marker", (case, at))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("styled", gen_styled, run, bound=1 if q else 2, note="every style with every marker, in the triangle"),
        Space("truths", lambda ch: gen(ch, q), run, bound=1 if q else 2, note="plot type x location x marker x style, further truths, form, columns, chains, subset, order of calls"),
    ]
