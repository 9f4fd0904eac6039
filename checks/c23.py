"""C23: legends and colours identify the chains that were drawn."""
import functools
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from matplotlib.colors import to_hex

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import Panel, legend_key, panels, triangle

ASSUMPTIONS = ["entry texts are compared without surrounding blanks"]
N = 120


@functools.lru_cache(None)
def frame(k):
    df = pd.DataFrame({c: quantile_sample("gauss", N)[scramble(N, 10 * k + j)] + 5.0 * j + 0.3 * k for j, c in enumerate("xyz")})
    df["weight"] = 1.0 + np.arange(N) % 2
    df["log_posterior"] = -np.abs(np.arange(N) - 11.0 * k) / 9
    return df


KINDS = {
    "contour": {}, "dashed": dict(linestyle="--", linewidth=2.5), "point": dict(plot_contour=False, plot_point=True, marker_style="*", marker_size=49.0), "both": dict(plot_point=True, marker_style="s", marker_size=25.0, linestyle=":"), "cloud": dict(plot_contour=False, plot_cloud=True), "everything": dict(plot_cloud=True, plot_point=True, marker_style="v", linewidth=3.0),
    "nothing": dict(plot_contour=False), "unlisted": dict(show_label_in_legend=False), "red": dict(color="#dd1100"), "raw": dict(smooth=0, bins=9, linestyle="-."), "unlisted point": dict(plot_contour=False, plot_point=True, show_label_in_legend=False),
}
PLAIN = list(KINDS)
EXTENTS = {"x": (-4.0, 5.0), "y": (1.0, 10.0), "z": (6.0, 15.0)}


def drawn(kind):
    return kind != "nothing"


def contour(kind):
    return KINDS[kind].get("plot_contour", True)


def build(kinds, override=None, config=None):
    cc = ChainConsumer()
    for k, kind in enumerate(kinds):
        cc.add_chain(Chain(samples=frame(k), name=f"chain {k}", **({"smooth": 1, "bins": 8} | KINDS[kind])))
    if override:
        cc.set_override(ChainConfig(**override))
    cc.set_plot_config(PlotConfig(extents=EXTENTS, **(config or {})))
    return cc


def own_artists(g, kinds, order, n):
    """What every chain uses in a triangle plot: chain -> dict of colour, line style, ..."""
    out = {}
    lines = [k for k in order if contour(kinds[k])]
    smooth = [k for k in lines if KINDS[kinds[k]].get("smooth") != 0]
    raw = [k for k in lines if k not in smooth]
    for i in range(n):
        for j in range(i + 1):
            q = g[i][j]
            if i == j:
                for k, ln in [*zip(smooth, q.curves), *zip(raw, q.steps)]:
                    out.setdefault(k, []).append(("line", ln.color, ln.ls, float(ln.lw)))
            else:
                for k, s in zip([k for k in order if KINDS[kinds[k]].get("plot_cloud")], [s for s in q.scatters if s.alpha == 0.3]):
                    out.setdefault(k, []).append(("cloud", s.color))
                for k, s in zip([k for k in order if KINDS[kinds[k]].get("plot_point")], [s for s in q.scatters if s.alpha != 0.3]):
                    if not contour(kinds[k]):
                        out.setdefault(k, []).append(("point", s.color, float(s.sizes[0]), s.marker.tolist()))
                    else:
                        out.setdefault(k, []).append(("marker", float(s.sizes[0]), s.marker.tolist()))
                for k, c in zip(lines, q.outlined):
                    out.setdefault(k, []).append(("contour", c.lw[0], c.ls[:1]))
    return out


MARKERS = {"star": "*"}


def check_triangle(p, cc, kinds, names, order, cols, case, config):
    """Returns the colour of every drawn chain."""
    fig = cc.plotter.plot(columns=cols, chains=names)
    n = len(cols) if config.get("plot_hists", True) else len(cols) - 1
    g, _ = triangle(fig, n)
    p.op()
    shown = [k for k in order if drawn(kinds[k])]
    listed = [k for k in shown if KINDS[kinds[k]].get("show_label_in_legend", True)]
    wants = config.get("show_legend")
    wants = len(shown) > 1 if wants is None else wants
    place = config.get("legend_location")
    if place is None:
        place = (-1, 0) if config.get("flip") and len(cols) == 2 and config.get("plot_hists", True) else (0, -1)
    legends = [(i, j) for i in range(n) for j in range(n) if g[i][j].ax.get_legend() is not None]
    if not p.equal(legends, [(place[0] % n, place[1] % n)] if wants else [], "place of the legend", case):
        return {}
    own = own_artists(g, kinds, shown, n) if config.get("plot_hists", True) else {}
    colour = {}
    for k, uses in own.items():
        found = {u[1] for u in uses if u[0] in ("line", "cloud", "point")}
        p.equal(len(found), 1, "a chain has several colours", (case, k, found))
        colour[k] = next(iter(found), None)
    if wants:
        i, j = legends[0]
        entries = legend_key(g[i][j].ax) or []
        p.obs([e[0] for e in entries], len(entries))
        if p.equal([e[0].strip() for e in entries], [f"chain {k}" for k in listed], "legend entries", case):
            leg = g[i][j].ax.get_legend()
            for k, (text, tc, (hc, hs, hw, hm, hz)) in zip(listed, entries):
                o = KINDS[kinds[k]] | (case.get("override") or {})
                if k in colour:
                    p.equal(hc, colour[k], "colour of a legend entry", (case, k))
                    if config.get("legend_color_text", True):
                        p.equal(tc, colour[k], "colour of a legend text", (case, k))
                if not config.get("legend_color_text", True):
                    p.equal(tc, "#000000", "colour of a legend text", (case, k))
                if o.get("plot_contour", True):
                    p.equal((hs, hw), (o.get("linestyle", "-"), o.get("linewidth", 1.0)), "line of a legend entry", (case, k))
                    for u in own.get(k, []):
                        if u[0] == "line":
                            p.equal((hs, hw), (u[2], u[3]), "line of a legend entry", (case, k))
                if o.get("plot_point"):
                    p.equal((hm, round(hz, 6)), (o.get("marker_style", "."), round(np.sqrt(o.get("marker_size", 10.0)), 6)), "marker of a legend entry", (case, k))
                    for u in own.get(k, []):
                        if u[0] in ("point", "marker"):
                            p.close(hz**2, u[1] if u[0] == "marker" else u[2], 1e-3, "size of a legend marker", (case, k))
                    if not o.get("plot_contour", True):
                        p.expect(hs in ("None", "none", "") or hw == 0, "line in the entry of a point", (case, k))
                elif o.get("plot_contour", True) and not o.get("plot_cloud"):
                    p.equal(hm, "None", "marker in the entry of a line", (case, k))
            fk = config.get("legend_kwargs", {})
            p.equal(leg.get_frame_on(), fk.get("frameon", False), "legend frame", case)
            p.equal({t.get_fontsize() for t in leg.get_texts()} or {0}, {float(fk.get("fontsize", config.get("label_font_size", 12)))} if listed else {0}, "legend font size", case)
            if "loc" in fk:
                p.equal(leg._loc, {"lower left": 3, "center": 10}.get(fk["loc"], leg._loc), "legend loc", case)
            if "title" in fk:
                p.equal(leg.get_title().get_text(), fk["title"], "legend title", case)
    return colour


def gen_sequences(length):
    def gen(ch):
        return dict(kinds=[ch.pick(f"kind {k}", PLAIN if length < 3 else PLAIN[:8], free=True) for k in range(length)], columns=ch.pick("columns", (["x", "y"], ["y", "z", "x"])), subset=ch.pick("subset", (None, "reversed", "last")))
    return gen


def pick(case, n):
    order = {None: list(range(n)), "reversed": list(range(n))[::-1], "last": [n - 1]}[case["subset"]]
    return order, None if case["subset"] is None else [f"chain {k}" for k in order]


def run_sequences(case, p):
    kinds = case["kinds"]
    order, names = pick(case, len(kinds))
    shown = [k for k in order if drawn(kinds[k])]
    if not shown:
        return
    cc = build(kinds)
    colour = check_triangle(p, cc, kinds, names, order, case["columns"], case, {})
    # the other plots: the same chains in the same colours
    kw = dict(columns=case["columns"], chains=names)
    ps = panels(cc.plotter.plot_walks(**kw))
    p.op()
    for q in ps[-len(case["columns"]):]:
        p.equal([(k, s.color) for k, s in zip(shown, q.scatters)], [(k, colour.get(k, s.color)) for k, s in zip(shown, q.scatters)], "colour in the walk plot", case)
        p.equal(len(q.scatters), len(shown), "chains in the walk plot", case)
        for k, s in zip(shown, q.scatters):
            colour.setdefault(k, s.color)
    lines = [k for k in shown if contour(kinds[k])]
    smooth = [k for k in lines if KINDS[kinds[k]].get("smooth") != 0]
    raw = [k for k in lines if k not in smooth]
    for q in panels(cc.plotter.plot_distributions(**kw))[:len(case["columns"])]:
        p.equal(([v.color for v in q.curves], [v.color for v in q.steps]), ([colour[k] for k in smooth], [colour[k] for k in raw]), "colour in the distribution plot", case)
    ps = panels(cc.plotter.plot_summary(**kw))
    p.op(2)
    if p.equal(len(ps), len(shown) * (len(case["columns"]) + 1), "chains in the summary plot", case):
        for r, k in enumerate(shown):
            row = ps[r * (len(case["columns"]) + 1):(r + 1) * (len(case["columns"]) + 1)]
            p.equal((row[0].texts, to_hex(row[0].ax.texts[0].get_color())), ([f"chain {k}"], colour[k]), "name in the summary plot", (case, k))
            for q in row[1:]:
                p.equal({v.color for v in q.curves + q.steps}, {colour[k]}, "colour in the summary plot", (case, k))
    for k in shown:
        if "color" in KINDS[kinds[k]]:
            p.equal(colour[k], KINDS[kinds[k]]["color"], "explicit colour ignored", (case, k))
    free = [colour[k] for k in shown if "color" not in KINDS[kinds[k]]]
    p.equal(len(set(free)), len(free), "two chains share a colour", (case, free))


SETS = (["contour", "dashed"], ["contour"], ["both", "point", "cloud"], ["nothing", "contour", "unlisted"], ["red", "everything", "nothing", "point"], ["unlisted", "unlisted point"], ["raw", "contour", "red"])


def gen_config(ch):
    return dict(kinds=ch.pick("chains", SETS, free=True), columns=ch.pick("columns", (["x", "y"], ["y", "z", "x"], ["x"]), free=True), show_legend=ch.pick("show_legend", (None, True, False), free=True), location=ch.pick("legend_location", (None, (0, 0), (1, 0), (-1, -1), (0, -1), (-1, 0), (1, 1))), text=ch.pick("legend_color_text", (True, False)),
                artists=ch.pick("legend_artists", (None, True, False)), kwargs=ch.pick("legend_kwargs", ({}, dict(loc="lower left", frameon=True), dict(fontsize=7), dict(title="those", markerfirst=False), dict(loc="center"))), hists=ch.pick("plot_hists", (True, False)), flip=ch.flag("flip"), size=ch.pick("label_font_size", (12, 8)), subset=ch.pick("subset", (None, "reversed", "last")),
                override=ch.pick("override", (None, dict(linewidth=4.0), dict(linestyle=":"))))


def run_config(case, p):
    kinds, cols = case["kinds"], case["columns"]
    n = len(cols) - (not case["hists"])
    if n < 1 or case["location"] and not all(-n <= v < n for v in case["location"]):
        return
    order, names = pick(case, len(kinds))
    if not any(drawn(kinds[k]) for k in order) or not case["hists"] and len(cols) == 1:
        return
    config = dict(show_legend=case["show_legend"], legend_location=case["location"], legend_color_text=case["text"], legend_artists=case["artists"], legend_kwargs=case["kwargs"], plot_hists=case["hists"], flip=case["flip"], label_font_size=case["size"])
    check_triangle(p, build(kinds, case["override"], config), kinds, names, order, cols, case, config)


# --------------------------------------------------------------------------------- many chains
def gen_many(ch):
    return dict(n=ch.pick("chains", (2, 5, 11, 12, 23, 40), free=True), coloured=ch.pick("coloured", ("none", "first", "every third"), free=True), skipped=ch.pick("skipped", ("none", "second", "even"), free=True), calls=ch.pick("plots before", (0, 2)), removed=ch.flag("one removed"))


def run_many(case, p):
    cc = ChainConsumer()
    x = quantile_sample("gauss", 20)
    mine = []
    for k in range(case["n"]):
        o = {}
        if case["coloured"] == "first" and k == 0 or case["coloured"] == "every third" and k % 3 == 0:
            o["color"] = "#010203"
        if case["skipped"] == "second" and k == 1 or case["skipped"] == "even" and k % 2 == 0 and k:
            o["plot_contour"] = False
        cc.add_chain(Chain(samples=pd.DataFrame({"x": x + k}), name=f"n{k}", **o))
        mine.append(o)
    if not any(o.get("plot_contour", True) for o in mine[case["removed"]:]):
        return
    for _ in range(case["calls"]):
        cc.plotter.plot_walks(plot_weights=False)
    if case["removed"]:
        cc.remove_chain("n0")
        mine = mine[1:]
    q = panels(cc.plotter.plot_walks(plot_weights=False))[0]
    p.op()
    shown = [o for o in mine if o.get("plot_contour", True)]
    p.equal(len(q.scatters), len(shown), "chains drawn", case)
    p.obs([s.color for s in q.scatters])
    free = [s.color for s, o in zip(q.scatters, shown) if "color" not in o]
    p.equal(len(set(free)), len(free), "two chains share a colour", (case, free))
    p.expect(all(s.color == o.get("color", s.color) for s, o in zip(q.scatters, shown)), "explicit colour ignored", case)
    again = panels(cc.plotter.plot_walks(plot_weights=False))[0]
    p.equal([s.color for s in again.scatters], [s.color for s in q.scatters], "colours change from plot to plot", case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("one or two chains", lambda ch: gen_sequences(ch.pick("chains", (1, 2), free=True))(ch), run_sequences, bound=0 if q else None, note="every sequence of chain kinds up to two: legend, and the colours in all four plot types"),
        Space("three chains", gen_sequences(3), run_sequences, bound=0 if q else 1, note="every sequence of eight chain kinds"),
        Space("configuration", gen_config, run_config, bound=1 if q else 3, note="chain sets x parameters x show_legend, with location, texts, arguments, histograms, flipping, subset and override"),
        Space("many", gen_many, run_many, bound=1 if q else None, note="up to forty chains: distinct colours"),
    ]
