"""C26: every advertised colour form resolves to a valid drawable colour."""
import functools
import re

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.color_finder import colors
from matplotlib.colors import to_hex, to_rgb

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import hexof, panels, triangle

ASSUMPTIONS = ["negative scale factors are outside the alphabet", "one unit in 255 of rounding is allowed per channel"]
# the middle shade of each tailwind family
NAMES = {
    "rose": "#f43f5e", "pink": "#ec4899", "fuchsia": "#d946ef", "purple": "#a855f7", "violet": "#8b5cf6", "indigo": "#6366f1", "blue": "#3b82f6", "sky": "#0ea5e9", "cyan": "#06b6d4", "teal": "#14b8a6", "emerald": "#10b981",
    "green": "#22c55e", "lime": "#84cc16", "yellow": "#eab308", "amber": "#f59e0b", "orange": "#f97316", "red": "#ef4444", "warmGray": "#78716c", "trueGray": "#737373", "gray": "#71717a", "coolGray": "#6b7280", "blueGray": "#64748b",
}
ALIASES = {"b": "blue", "r": "red", "g": "green", "k": "dark gray", "f": "light gray", "m": "rose", "c": "cyan", "o": "orange", "y": "yellow", "a": "amber", "p": "purple", "e": "gray", "lg": "lime", "lb": "sky", "black": "dark gray", "white": "light gray"}
SPECIAL = {"dark gray": "#18181b", "light gray": "#f4f4f5"}
HEX = ("#12ab9F", "#000000", "#ffffff", "#ABCDEF", "#0a0b0c", "#fa3", "#12ab9f80", "#fa38")
LISTS = {
    "list": [0.2, 0.4, 0.6], "array": np.array([0.2, 0.4, 0.6]), "zeros": [0.0, 0.0, 0.0], "ones": np.ones(3), "ints": [1, 0, 0], "int array": np.array([0, 1, 1]), "rgba list": [0.1, 0.9, 0.3, 0.5], "rgba array": np.array([0.7, 0.1, 0.3, 1.0]),
    "float32": np.array([0.25, 0.5, 0.75], dtype=np.float32), "fine": [123 / 255, 7 / 255, 0.999], "fine array": np.array([0.0039, 201 / 255, 66 / 255]), "clear": [0.5, 0.5, 0.25, 0.0],
}
BAD = ("notacolour", "Blue", "BLUE", "", "tab:blue", "rebeccapurple", "blue ", "bb", "0.5", "C0", "none", "#12345", "#", "#gggggg", "#12ab9", "# 12ab9f", "##12ab9f")
FORMS = [("name", n) for n in NAMES] + [("alias", a) for a in ALIASES] + [("hex", h) for h in HEX] + [("list", k) for k in LISTS]


def value(form):
    return LISTS[form[1]] if form[0] == "list" else form[1]


def expected(form):
    """The colour (without opacity) a form denotes."""
    kind, v = form
    if kind == "name":
        return NAMES[v]
    if kind == "alias":
        return SPECIAL.get(ALIASES[v]) or NAMES[ALIASES[v]]
    if kind == "hex":
        return to_hex(v, keep_alpha=False)
    return to_hex(to_rgb(tuple(float(q) for q in LISTS[v])))


def valid(c):
    return isinstance(c, str) and re.fullmatch(r"#([0-9a-fA-F]{3,4}|[0-9a-fA-F]{6}|[0-9a-fA-F]{8})", c) is not None


def channels(c):
    h = to_hex(c, keep_alpha=False)
    return np.array([int(h[i:i + 2], 16) for i in (1, 3, 5)], float)


FACTORS = (1.0, 0.0, 0.05, 0.5, 0.95, 1.05, 1.5, 2.0, 3.7, 1000.0)


def gen_format(ch):
    return dict(form=ch.pick("form", FORMS, free=True), factor=ch.pick("factor", FACTORS, free=True), through=ch.pick("through", ("format", "get_formatted", "chain", "override"), free=True))


def run_format(case, p):
    form = case["form"]
    v = value(form)
    if case["through"] == "format":
        got = colors.format(v)
    elif case["through"] == "get_formatted":
        got = colors.get_formatted(["red", v, "#112233"])
        p.equal([got[0], got[2]], [NAMES["red"], "#112233"], "neighbours", case)
        got = got[1]
    elif case["through"] == "chain":
        got = Chain(samples=pd.DataFrame({"x": [1.0, 2.0]}), name="c", color=v).color
    else:
        got = ChainConfig(color=v).color
    p.op()
    p.obs(got)
    p.expect(valid(got), "not a hex colour", (case, got), stop=True)
    p.equal(to_hex(got, keep_alpha=False), expected(form), "not the colour it denotes", case)
    if form[0] == "hex":
        p.equal(got, form[1], "hex input changed", case)
    p.equal(colors.format(got), got, "formatting twice", case)
    s = colors.scale_colour(v, case["factor"])
    p.op()
    p.obs(s)
    p.expect(valid(s), "scaled colour is not hex", (case, s), stop=True)
    want = np.clip(channels(expected(form)) * case["factor"], 0, 255)
    p.expect(np.all(np.abs(channels(s) - want) <= 1), "not scaled channel by channel", lambda: f"{case}: {s} from {expected(form)}")


def gen_bad(ch):
    return dict(name=ch.pick("name", BAD, free=True), through=ch.pick("through", ("format", "chain", "scale_colour", "override"), free=True))


def run_bad(case, p):
    v = case["name"]
    fn = {"format": lambda: colors.format(v), "chain": lambda: Chain(samples=pd.DataFrame({"x": [1.0, 2.0]}), name="c", color=v), "scale_colour": lambda: colors.scale_colour(v, 0.5), "override": lambda: ChainConfig(color=v)}[case["through"]]
    p.raises(fn, "unknown name accepted", case)


# -------------------------------------------------------------------------------------------------------- the sequence
def gen_sequence(ch):
    return dict(what=ch.pick("what", ("whole", "chains", "default", "colormap"), free=True), n=ch.pick("n", (3, 1, 2, 8, 11, 12, 30, 88), free=True))


def run_sequence(case, p):
    n = case["n"]
    p.op()
    if case["what"] == "whole":
        seq = list(colors.next_colour())
        p.obs(seq)
        p.expect(len(seq) >= 88 and all(valid(c) for c in seq), "sequence", len(seq))
        p.equal(len({to_hex(c) for c in seq}), len(seq), "automatic sequence repeats itself")
        p.equal(list(colors.next_colour())[:n], seq[:n], "second sequence differs")
    elif case["what"] == "default":
        d = colors.get_default()
        p.expect(all(valid(c) for c in d) and len(set(d)) == len(d), "default colours", d)
        p.obs(d)
    elif case["what"] == "colormap":
        for name in ("viridis", "inferno", "tab10"):
            cm = colors.get_colormap(n, name)
            p.expect(len(cm) == n and all(valid(c) for c in cm), "colormap", (name, cm))
            p.obs(cm)
    else:
        cc = ChainConsumer()
        for i in range(n):
            cc.add_chain(Chain(samples=pd.DataFrame({"x": quantile_sample("gauss", 40) + i}), name=str(i)))
        got = [c.color for c in panels(cc.plotter.plot_distributions())[0].curves]
        p.obs(got)
        p.equal(len(got), n, "curves")
        p.equal(len(set(got)), n, "uncoloured chains share a colour", case)


# -------------------------------------------------------------------------------------------------------------- drawing
@functools.lru_cache(None)
def frame(k):
    n = 150
    x = quantile_sample("gauss", n)[scramble(n, k)] + k
    return pd.DataFrame({"x": x, "y": quantile_sample("tri", n)[scramble(n, 9 + k)], "log_posterior": -((x - k) ** 2)})


def scaled_from(c, base):
    """Whether c is base with every channel multiplied by one factor and clamped, possibly darkened again."""
    c, b = channels(c), channels(base)
    if b.max() == 0:
        return c.max() == 0
    free = c < c.max() - 2
    lo = max([(c[i] - 2) / b[i] for i in range(3) if b[i] > 0], default=0)
    hi = min([(c[i] + 2) / b[i] for i in range(3) if b[i] > 0 and free[i]], default=np.inf)
    return lo <= hi and all(c[i] <= 1 for i in range(3) if b[i] == 0)


PLOTS = ("distributions", "contour", "cloud and point", "point", "walks", "walk average", "summary", "errorbar", "unsmoothed")


def gen_draw(ch):
    c = dict(form=ch.pick("form", FORMS, free=True), plot=ch.pick("plot", PLOTS, free=True), through=ch.pick("through", ("chain", "override")), gradient=ch.pick("shade gradient", (None, 0.0, 2.5)), both=ch.flag("second chain"), kde=ch.flag("kde"))
    slow = c["kde"] and c["plot"] in ("contour", "cloud and point")  # a second on each two-dimensional kernel estimate
    flat = c["gradient"] is not None and c["plot"] not in ("contour", "cloud and point")
    return None if slow or flat else c


def run_draw(case, p):
    want, plot = expected(case["form"]), case["plot"]
    kw = {"contour": {}, "cloud and point": dict(plot_cloud=True, plot_point=True, show_contour_labels=True), "point": dict(plot_point=True, plot_contour=False), "unsmoothed": dict(smooth=0)}.get(plot, {})
    if case["gradient"] is not None:
        kw["shade_gradient"] = case["gradient"]
    if case["kde"]:
        kw["kde"] = True
    cc = ChainConsumer()
    v = value(case["form"])
    if case["through"] == "chain":
        kw["color"] = v
    cc.add_chain(Chain(samples=frame(0), name="first", **kw))
    if case["both"]:
        cc.add_chain(Chain(samples=frame(1), name="second", **(kw | {"color": "#123456"})))
    if case["through"] == "override":
        cc.set_override(ChainConfig(color=v))
    second = want if case["through"] == "override" else "#123456"
    wanted = [want] + ([second] if case["both"] else [])
    p.op()
    pl = cc.plotter

    def same(got, kind, exp=None):
        p.obs(got)
        p.equal(list(got), wanted if exp is None else exp, kind, case)
    if plot in ("distributions", "unsmoothed"):
        for q in panels(pl.plot_distributions(columns=["x", "y"])):
            same([c.color for c in q.curves] if plot == "distributions" or case["kde"] else [s.color for s in q.steps], "marginal colour")
            same([f.color for f in q.fills], "marginal shading colour")
    elif plot in ("walks", "walk average"):
        for q in panels(pl.plot_walks(columns=["x", "y"], convolve=11 if plot == "walk average" else None)):
            same([s.color for s in q.scatters], "walk colour")
            if plot == "walk average":
                p.expect(len(q.lines) == len(wanted) and all(scaled_from(ln.color, w) for ln, w in zip(q.lines, wanted)), "walk average colour", lambda: (case, [ln.color for ln in q.lines]))
    elif plot in ("summary", "errorbar"):
        ps = panels(pl.plot_summary(columns=["x", "y"], errorbar=plot == "errorbar"))
        for r in range(len(wanted)):
            name, cells = ps[3 * r], ps[3 * r + 1:3 * r + 3]
            same([hexof(t.get_color()) for t in name.ax.texts], "model name colour", [wanted[r]])
            for q in cells:
                if plot == "summary":
                    same([c.color for c in q.curves], "summary curve colour", [wanted[r]])
                else:
                    same([c.color for c in q.lines if len(c.x)], "error bar colour", [wanted[r]])
                    same([hexof(c.get_color()[0]) for c in q.others], "error bar colour", [wanted[r]])
    else:
        fig = pl.plot(columns=["x", "y"])
        g, _ = triangle(fig, 2)
        q = g[1][0]
        if plot != "point":
            for d in (g[0][0], g[1][1]):
                same([c.color for c in d.curves], "marginal colour")
            p.expect(len(q.outlined) == len(wanted) == len(q.filled), "contours", (case, len(q.contours)))
            for c, w in zip(q.outlined, wanted):
                p.expect(all(scaled_from(h, w) for h in c.colors), "contour colour", lambda: f"{case}: {c.colors} from {w}")
            for c, w in zip(q.filled, wanted):
                p.expect(all(scaled_from(h, w) for h in c.colors), "shading colour", lambda: f"{case}: {c.colors} from {w}")
        if plot == "cloud and point":
            clouds, points = [s for s in q.scatters if len(s.xy) > 1], [s for s in q.scatters if len(s.xy) == 1]
            same([s.color for s in clouds], "cloud colour")
            p.expect(len(points) == len(wanted) and all(scaled_from(s.color, w) for s, w in zip(points, wanted)), "point colour", lambda: (case, [s.color for s in points]))
        if plot == "point" and len(wanted) == 1:
            same([s.color for s in q.scatters], "point colour")
        if case["both"]:
            leg = [a.get_legend() for a in fig.axes if a.get_legend()]
            same([hexof(h.get_color()) for h in leg[0].legend_handles] if leg else None, "legend colour")
            same([hexof(t.get_color()) for t in leg[0].get_texts()] if leg else None, "legend text colour")


def spaces(tier):
    q = tier == "quick"
    return [
        Space("forms", gen_format, run_format, note="every colour form x every route x every scale factor"),
        Space("refused", gen_bad, run_bad, note="unknown names through every route"),
        Space("sequence", gen_sequence, run_sequence, note="the automatic sequence, whole and as chains"),
        Space("drawing", gen_draw, run_draw, bound=1 if q else None, note="every colour form x every plot type x route x gradient x second chain"),
    ]
