"""C33: settings outside their documented range are refused, all others are held exactly."""
import copy
import functools
import math

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from chainconsumer.statistics import SummaryStatistic as S
from matplotlib.colors import to_hex
from matplotlib.lines import Line2D

from mc.engine import Space

ASSUMPTIONS = [
    "a refusal is an exception of the kinds the library documents for bad settings (ValueError and its subclasses, AssertionError, TypeError)",
    "settings of a wrong type are taken from those which cannot be read as the right one (text for a number, a number for a mapping)",
    "settings the documentation puts no range on take any value of their type",
]
REFUSED = (ValueError, AssertionError, TypeError)
NAN, INF = math.nan, math.inf
# field: (default, accepted values, refused values); the end points of every documented range are among the accepted
CONFIG = {
    "statistics": (None, list(S) + ["max", "max_central", "cumulative", "mean", "hdi"], ["Max", "median", "", 3]),
    "summary_area": (0.6827, [0.0, 1.0, 0.5, 1e-12, 1 - 1e-12, 0, 1, 0.95], [-1e-9, -1.0, 1 + 1e-9, 2, 68.27, NAN, INF, -INF, "wide"]),
    "sigmas": ([0, 1, 2], [[0, 1], [1, 2, 3], [0.5], [0, 1.5, 2.5, 4]], [3.0, "12", ["one"]]),
    "color": (None, ["red", "#12ab9f", "#ABC", "k", [0.2, 0.4, 0.6], np.array([0.9, 0.1, 0.3])], ["reddish", "Red", "", "#12345", "#", "#gggggg", "12ab9f", [0.1, 0.2], [2.0, 0.0, 0.0], [-0.1, 0.0, 0.0], np.array([0.1, 0.2, NAN])]),
    "linestyle": ("-", ["--", ":", "-."], [3, None]),
    "linewidth": (1.0, [0.0, 2.5, 7], ["thick", None]),
    "show_contour_labels": (False, [True], ["labels", 3]),
    "shade": (True, [False], ["shaded", None]),
    "shade_alpha": (0.5, [0.0, 1.0, 0.3], ["clear", None]),
    "shade_gradient": (1.0, [0.0, 2.0], ["steep", None]),
    "bar_shade": (True, [False], ["bar", None]),
    "multimodal": (False, [True], ["modes"]),
    "bins": (None, [1, 10, 500], ["many", 2.5]),
    "kde": (False, [True, 1, 0.5, 2.0], ["narrow", None]),
    "smooth": (None, [0, 1, 9], ["much", 1.5]),
    "cmap": ("viridis", ["plasma", "gray_r"], [3, None]),
    "num_cloud": (10000, [1, 100, 1e5, 0], ["many", None]),
    "plot_cloud": (False, [True], ["cloud"]),
    "plot_contour": (True, [False], ["contour"]),
    "plot_point": (False, [True], ["point"]),
    "marker_style": (".", ["*", "o"], [3, None]),
    "marker_size": (10.0, [1, 1.0, 150.0, 1 + 1e-9], [0.999999, 0, 0.0, -1, -10.0, NAN, -INF, "big"]),
    "marker_alpha": (1.0, [0.0, 0.5, 1], ["clear", None]),
    "zorder": (10, [0, -5, 100], ["top", 1.5]),
    "shift_params": (False, [True], ["shift"]),
}
CHAIN = {
    "walkers": (1, [1, 2, 3, 12], [0, -1, -12, 1.5, "two", None]),
    "grid": (False, [True], ["grid"]),
    "num_free_params": (None, [0, 1, 10], [-1, -100, 0.5, "few", INF, NAN]),
    "num_eff_data_points": (None, [0, 0.0, 1e-9, 10, 1e6, 33.3], [-1e-9, -1, -1e6, NAN, INF, -INF, "few"]),
    "power": (1.0, [0.5, 2.0, 3], ["high", None]),
    "show_label_in_legend": (True, [False], ["label"]),
    "histogram_relative_height": (1.0, [0, 0.0, 1e-9, 0.5, 7.0], [-1e-9, -1, NAN, -INF, "tall", None]),
    "color_param": (None, ["x", "y", "extra", "weight", "log_posterior"], ["zz", "X", "", 3]),
    "weight_column": ("weight", ["extra"], ["zz", 3]),
    "posterior_column": ("log_posterior", ["y", "zz"], [3]),
    "name": ("the name", ["", "another", "$\\Lambda$"], [3, None]),
}
ZERO_UP = ([0, 1, 7, 1000], [-1, -100, 0.5, "some", NAN, None])
PLOT = {
    "labels": ({}, [{"x": "$x$"}, {"x": "a", "zz": "b"}], [3, ["x"], {"x": 3}]),
    "max_ticks": (5, *ZERO_UP),
    "plot_hists": (True, [False], ["hists", None]),
    "flip": (False, [True], ["flip"]),
    "serif": (False, [True, None], ["serif"]),
    "usetex": (False, [True, None], ["tex"]),
    "diagonal_tick_labels": (True, [False], ["diagonal"]),
    "label_font_size": (12, *ZERO_UP),
    "tick_font_size": (10, *ZERO_UP),
    "spacing": (None, [0, 0.0, 0.5, 3, 1e-9], [-1e-9, -1, NAN, -INF, "wide"]),
    "contour_label_font_size": (10, *ZERO_UP),
    "show_legend": (None, [True, False], ["legend"]),
    "legend_kwargs": ({}, [{"loc": "center"}, {"frameon": True, "fontsize": 3}], [3, ["loc"]]),
    "legend_location": (None, [(0, 0), (1, -1), (-1, 0)], [3, (1,), (0, 0, 0), ("a", "b")]),
    "legend_artists": (None, [True, False], ["artists"]),
    "legend_color_text": (True, [False], ["coloured"]),
    "watermark": (None, ["draft", ""], [3]),
    "watermark_text_kwargs": ({}, [{"alpha": 0.2}, {"color": "red", "weight": 3}], [3]),
    "summarise": (True, [False], ["summarise"]),
    "summary_font_size": (12, *ZERO_UP),
    "sigma2d": (False, [True], ["2d"]),
    "blind": (False, [True, ["x"], ["x", "zz"], []], [3.5, [3]]),
    "log_scales": ([], [["x"], ["x", "y"]], [True, "x", [3]]),
    "extents": ({}, [{"x": (0.0, 1.0)}, {"x": (0.0, 1.0), "y": (-1.0, 2.5)}], [3, {"x": 3.0}, {"x": (1.0,)}, {"x": (1.0, 2.0, 3.0)}, {"x": ("a", "b")}]),
    "dpi": (300, *ZERO_UP),
}
FILLED, OPEN = [m for m in Line2D.filled_markers], ["x", "+", "1", "|", "_", ",", "4"]
TRUTH = {
    "location": ({"x": 1.0, "y": 2.5}, [{}, {"x": -1.0}, pd.Series({"y": 3.5, "x": 0.0}), pd.Series(dtype=float)], [3.0, [1.0, 2.0], None, "x", np.array([1.0]), [("x", 1.0)], pd.DataFrame({"x": [1.0]}), {"x": "one"}, {"x": None}]),
    "name": (None, ["truth", ""], [3]),
    "color": ("black", ["red", "#12ab9f", [0.2, 0.4, 0.6]], [3.0, None]),
    "edge_color": (None, ["red", "#12ab9f"], [3.0]),
    "line_width": (1.0, [0.0, 3.5], ["thick", None]),
    "line_style": ("--", ["-", ":"], [3, None]),
    "alpha": (1.0, [0.0, 0.5], ["clear", None]),
    "zorder": (100, [0, -3], ["top", 1.5]),
    "marker": (None, FILLED + OPEN, [[1]]),
    "marker_size": (150.0, [1.0, 30.0], ["big", None]),
    "marker_edge_width": (1.0, [0.0, 0.5, 2.0, 1.001], ["thick", None]),
}
FIELDS = {"ChainConfig": CONFIG, "Chain": CONFIG | CHAIN, "PlotConfig": PLOT, "Truth": TRUTH}
BOUNDED = {"summary_area", "marker_size", "walkers", "num_free_params", "num_eff_data_points", "histogram_relative_height", "max_ticks", "label_font_size", "tick_font_size", "spacing", "contour_label_font_size", "summary_font_size", "dpi", "statistics", "multimodal",
           "color", "color_param", "weight_column", "location", "marker", "marker_edge_width", "shift_params", "plot_contour", "plot_cloud", "grid"}
ROWS = 12


def samples():
    i = np.arange(ROWS)
    return pd.DataFrame({"x": 0.5 * i, "y": (i * 5 % 12) - 3.0, "extra": 1.0 + i % 4, "log_posterior": -(i - 4.0) ** 2})


class FakeEmcee:
    def get_chain(self, flat=False, thin=1, discard=0, **_):
        d = samples()[["x", "y", "extra", "log_posterior"]].to_numpy()
        return d if flat else d[:, None, :]


class FakeMCMC:
    def get_samples(self, *_, **__):
        return {c: v.to_numpy() for c, v in samples().items()}


def same(a, b):
    if isinstance(b, pd.Series):
        b = b.to_dict()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(b, dict) and isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b or isinstance(a, int | float) and isinstance(b, int | float) and isinstance(a, bool) == isinstance(b, bool) and a == b


def held(field, v, cls):
    """The value that is to be found on the object."""
    if field == "statistics" and isinstance(v, str):
        return S(v)
    if field == "color" and cls in ("Chain", "ChainConfig") and v is not None:
        if isinstance(v, str):
            return {"red": "#ef4444", "k": "#18181b"}.get(v, v)
        return to_hex(tuple(v))
    return v


def build(case, values):
    cls, route = case["cls"], case["route"]
    if cls == "PlotConfig":
        return PlotConfig(**values)
    if cls == "Truth":
        cc = ChainConsumer()
        t = Truth(**({"location": TRUTH["location"][0]} | values))
        cc.add_truth(t)
        return t
    if cls == "ChainConfig":
        return ChainConfig(**values)
    kw = {"name": "the name"} | values
    if route == "chain":
        return Chain(samples=samples(), **kw)
    if route == "emcee":
        return Chain.from_emcee(FakeEmcee(), columns=["x", "y", "extra", "log_posterior"], **kw)
    if route == "numpyro":
        return Chain.from_numpyro(FakeMCMC(), **kw)
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=samples(), name="earlier"))
    try:
        cc.add_marker({"x": 1.0, "y": 2.0, "extra": 2.0}, **kw)
    finally:
        names = cc.get_names()
    return cc.get_chain(names[-1]) if len(names) > 1 else None


def pairs(ch):
    cls = ch.pick("class", tuple(FIELDS), free=True)
    route = ch.pick("route", ("chain", "emcee", "numpyro", "marker"), free=True) if cls == "Chain" else "direct"
    f = FIELDS[cls]
    i = ch.pick("field", list(f), free=True)
    j = ch.pick("second field", [None] + [k for k in f if list(f).index(k) > list(f).index(i)])
    bad = [("refused", k) for k in range(len(f[i][2]))]
    a = ch.pick("value", [("accepted", k) for k in range(len(f[i][1]))] + bad + [("default", 0)], free=True)
    b = ch.pick("second value", [("accepted", k) for k in range(len(f[j][1]))] + [("refused", k) for k in range(len(f[j][2]))] + [("default", 0)]) if j else None
    return dict(cls=cls, route=route, given=[(i, a)] + ([(j, b)] if j else []))


def gen_single(ch):
    c = pairs(ch)
    return c if len(c["given"]) == 1 else None


def gen_pairs(ch, thorough=False):
    cls = ch.pick("class", tuple(FIELDS), free=True)
    routes = ("chain", "emcee", "numpyro", "marker") if thorough else ("chain",)
    route = ch.pick("route", routes, free=True) if cls == "Chain" else "direct"
    f = FIELDS[cls]
    keys = [k for k in f if k in BOUNDED or thorough]
    i = ch.pick("field", keys[:-1], free=True)
    j = ch.pick("second field", keys[keys.index(i) + 1:], free=True)
    opts = lambda k: [(w, m) for w, n in (("accepted", 1), ("refused", 2)) for m in range(min(len(f[k][n]), 99 if thorough or k in ("statistics", "marker", "marker_edge_width") else 3))]  # noqa: E731
    return dict(cls=cls, route=route, given=[(i, ch.pick("value", opts(i), free=True)), (j, ch.pick("second value", opts(j), free=True))])


def gen_whole(ch):
    """Every field given at once (the k-th accepted value of each), one of them possibly refused."""
    cls = ch.pick("class", tuple(FIELDS), free=True)
    f = FIELDS[cls]
    k = ch.pick("k", (0, 1, 2, 3), free=True)
    given = []
    skip = {"multimodal", "statistics"} if ch.flag("no statistics", free=True) else set()
    for key, (_, good, _bad) in f.items():
        if key not in skip:
            given.append([key, ("accepted", k % len(good))])
    bad = ch.pick("refused", [None] + [key for key, v in f.items() if v[2] and key not in skip], free=True)
    if bad:
        next(g for g in given if g[0] == bad)[1] = ("refused", ch.pick("which", range(len(f[bad][2])), free=True))
    return dict(cls=cls, route="chain" if cls == "Chain" else "direct", given=[tuple(g) for g in given])


def pick(f, key, which):
    kind, k = which
    if kind == "default":
        return f[key][0]
    return f[key][1 if kind == "accepted" else 2][k]


def allowed(case, values):
    """Whether the settings are within the documented ranges, alone and together."""
    if any(w[0] == "refused" for _, w in case["given"]):
        return False
    if case["cls"] == "Chain":
        columns = {"x", "y", "extra", "weight", "log_posterior"}
        rows = 1 if case["route"] == "marker" else ROWS
        if rows % values.get("walkers", 1):
            return False
        stat = values.get("statistics")
        if values.get("multimodal") and stat is not None and S(stat) is not S.HDI:
            return False
        if case["route"] != "marker" and values.get("color_param") == "weight" and values.get("weight_column", "weight") != "weight":
            return False
        if values.get("color_param") is not None and values["color_param"] not in columns:
            return False
    if case["cls"] == "Truth":
        if values.get("marker") is not None and values["marker"] not in Line2D.filled_markers and values.get("marker_edge_width", 1.0) > 1.0:
            return False
    return True


def run(case, p):
    cls = case["cls"]
    f = FIELDS[cls]
    values = {k: pick(f, k, w) for k, w in case["given"]}
    if case["route"] == "marker" and {"plot_contour", "plot_point"} & set(values):
        return
    sent = copy.deepcopy(values)
    want = allowed(case, values)
    try:
        obj, error = build(case, values), None
    except REFUSED as e:
        obj, error = None, e
    p.op()
    p.obs(error is None)
    if not p.equal(error is None, want, "accepted" if not want else "refused", (case, values, str(error)[:200])):
        return
    p.expect(repr(values) == repr(sent), "the caller's settings are modified", case)
    if obj is None:
        return
    for key, (default, *_) in f.items():
        got = getattr(obj, key)
        if key in values:
            v = held(key, values[key], cls)
        elif case["route"] == "marker" and key in ("marker_size", "plot_contour", "plot_point"):
            v = {"marker_size": 20.0, "plot_contour": False, "plot_point": True}[key]
        else:
            v = default
        if key == "statistics" and v is None and cls == "Chain":
            v = S.HDI if values.get("multimodal") else S.MAX
        p.expect(same(got, v), "setting is not held as given" if key in values else "a setting that was not given is not its default", lambda: f"{case}: {key} {got!r} for {v!r}")


def gen_apart(ch):
    cls = ch.pick("class", ("PlotConfig", "ChainConfig", "Truth"), free=True)
    keys = [k for k, v in FIELDS[cls].items() if isinstance(v[0], dict | list)]
    return dict(cls=cls, key=ch.pick("key", keys, free=True), given=ch.flag("given", free=True))


def run_apart(case, p):
    """What is done to a mapping or list of one configuration does not show in another."""
    make = {"PlotConfig": PlotConfig, "ChainConfig": ChainConfig, "Truth": functools.partial(Truth, location={"x": 1.0, "y": 2.5})}[case["cls"]]
    key = case["key"]
    default, good, _ = FIELDS[case["cls"]][key]
    one, two = make(**({key: copy.deepcopy(good[0])} if case["given"] else {})), make()
    v = getattr(one, key)
    v.update({"q": 3.0}) if isinstance(v, dict) else v.append(9)
    p.op()
    p.expect(same(getattr(two, key), default), "configurations share a value", case)
    p.expect(same(getattr(make(), key), default), "a default is modified", case)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("single", gen_single, run, 0, note="class x route x field x every accepted and refused value and the default"),
        Space("pairs", functools.partial(gen_pairs, thorough=deep), run, None, note="every pair of fields" + (" x route x every value" if deep else " with a documented restriction x three accepted and refused values of each")),
        Space("whole", gen_whole, run, None, note="all fields given at once, with at most one refused value"),
        Space("apart", gen_apart, run_apart, None, note="mutable settings of two objects"),
    ]
