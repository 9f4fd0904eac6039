"""C25: axis limits cover the chains' probability and honour requested limits."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from chainconsumer.helpers import get_extents

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import panels, triangle

ASSUMPTIONS = [
    "limits are read from a histogram of 2000 bins, so they are decided to one two-thousandth of the range, plus the lowest bin's own share of the probability (which get_extents leaves out)",
    "a point-only chain without posterior is never the only one with a parameter",
]
W = {"none": lambda n: None, "integers": lambda n: 1.0 + np.arange(n) % 5, "steep": lambda n: np.exp(-np.arange(n) / (n / 5)), "one heavy": lambda n: np.where(np.arange(n) == 3, n / 3, 1.0), "scaled": lambda n: 1e-7 * (1 + np.arange(n) % 2)}
CUSTOM = {
    "": {}, "x": {"x": (-2.5, 11.0)}, "y": {"y": (0.25, 3.5)}, "xy": {"x": (-2.5, 11.0), "y": (0.25, 3.5)}, "from zero": {"x": (0.0, 5.0), "y": (0, 2)}, "to zero": {"x": (-4.5, 0.0), "y": (-1, 0)},
    "narrow": {"x": (2.0, 2.0625)}, "elsewhere": {"y": (400.0, 401.5)}, "list": {"x": [-1.0, 6.5]}, "unknown": {"zz": (0.0, 1.0)},
}


@functools.lru_cache(maxsize=None)
def sample(shape, n, k):
    return quantile_sample(shape, n)[scramble(n, k)]


def bracket(x, w, thr):
    """The lower and upper limit, each as an interval it may lie in."""
    o = np.argsort(x, kind="stable")
    x, w = x[o], w[o] / w.sum()
    bw = (x[-1] - x[0]) / 2000
    c0 = w[x <= x[0] + bw * (1 + 1e-9)].sum()
    below, above = np.cumsum(w), np.cumsum(w[::-1])
    e = 1e-9

    def first(cum, v, arr):
        return arr[min(np.searchsorted(cum, v, side="right"), len(arr) - 1)]
    lo = (first(below, thr - e, x) - bw, first(below, thr + c0 + e, x) + bw)
    hi = (first(above, thr + e, x[::-1]) - bw, first(above, thr * (1 - c0) - e, x[::-1]) + bw)
    return lo, hi


def union(parts):
    los, his = [q[0] for q in parts], [q[1] for q in parts]
    return (min(a for a, _ in los), min(b for _, b in los)), (max(a for a, _ in his), max(b for _, b in his))


# ------------------------------------------------------------------------------------------------------- what is drawn
KINDS = ("contour", "cloud", "cloud only", "grid", "point only", "contour and point", "without x", "without y", "skipped", "grid cloud only", "empty point")


def build(kind, k, n, shape, weights, unit, offset):
    kw = {}
    if "grid" in kind:
        gx, gy = np.meshgrid(np.linspace(1 - k, 2.5 + 2 * k, 31), np.linspace(0.5, 1 + k, 17), indexing="ij")
        df = pd.DataFrame({"x": gx.ravel(), "y": gy.ravel()})
        df["weight"] = np.exp(-0.5 * (df.x - 1.5) ** 2 - (df.y - 1) ** 2)
        kw["grid"] = True
    else:
        df = pd.DataFrame({"x": sample(shape, n, k) * (1 + 0.5 * k) + 2.0 * k, "y": sample("tri", n, k + 9) + 0.1 + 0.7 * k})
        w = W[weights](n)
        if w is not None:
            df["weight"] = w
        if "point" in kind and "empty" not in kind:
            df["log_posterior"] = -((df.x - 2 - k) ** 2) - (df.y - 1) ** 2
    df[["x", "y"]] = df[["x", "y"]] * unit + offset
    kw |= {"cloud": dict(plot_cloud=True), "cloud only": dict(plot_cloud=True, plot_contour=False), "point only": dict(plot_point=True, plot_contour=False), "contour and point": dict(plot_point=True),
           "skipped": dict(plot_contour=False), "grid cloud only": dict(plot_cloud=True, plot_contour=False), "empty point": dict(plot_point=True, plot_contour=False)}.get(kind, {})
    if kind.startswith("without"):
        df = df.drop(columns=kind[-1])
    return Chain(samples=df, name=f"c{k}", **kw)


def wanted(chain, p, thr):
    """The interval of lower and upper limits this chain asks for, or None."""
    if p not in chain.samples or not (chain.plot_contour or chain.plot_cloud or chain.plot_point):
        return None
    x = chain.samples[p].to_numpy()
    if chain.plot_contour or chain.plot_cloud:
        if chain.grid:
            return (x.min(), x.min()), (x.max(), x.max())
        w = chain.samples["weight"].to_numpy() if "weight" in chain.samples else np.ones(len(x))
        return bracket(x, w, thr)
    if "log_posterior" not in chain.samples:
        return None
    v = x[int(np.argmax(chain.samples["log_posterior"].to_numpy()))]
    return (v, v), (v, v)


PLOTS = ("distributions", "summary", "errorbar", "triangle", "walks")


def gen(depth, first=KINDS):
    def g(ch):
        c = dict(plot=ch.pick("plot", PLOTS if first == KINDS else PLOTS[1:], free=True), kinds=[ch.pick("chain 1", first, free=True)])
        for i in range(1, depth):
            c["kinds"].append(ch.pick(f"chain {i + 1}", ("contour", None, *KINDS[1:])))
        c["kinds"] = [k for k in c["kinds"] if k]
        c |= dict(shape=ch.pick("shape", ("gauss", "skew", "uniform", "heavy")), n=ch.pick("n", (400, 60, 25000)), weights=ch.pick("weights", list(W)), custom=ch.pick("custom", list(CUSTOM)), unit=ch.pick("unit", (1.0, -1.0, 1e-9, 1e7)),
                  offset=ch.pick("offset", (0.0, 50.0, -1e3)), columns=ch.pick("columns", (None, ["y", "x"], ["y"])), pick=ch.pick("chains", (None, "reversed", "last")), override=ch.pick("override", (None, "cloud", "no contour")),
                  truth=ch.flag("truth"), log=ch.flag("log"), flip=ch.flag("flip"))
        if c["log"] and (c["offset"] != 50 or c["custom"]):
            return None
        if abs(c["offset"]) > 1e6 * abs(c["unit"]):
            return None
        return c
    return g


def run(case, p):
    chains = [build(k, i, case["n"], case["shape"], case["weights"], case["unit"], case["offset"]) for i, k in enumerate(case["kinds"])]
    cc = ChainConsumer()
    for c in chains:
        cc.add_chain(c)
    if case["override"]:
        cc.set_override(ChainConfig(plot_cloud=True) if case["override"] == "cloud" else ChainConfig(plot_contour=False, plot_cloud=True))
    if case["truth"]:
        cc.add_truth(Truth(location={"x": 1e6 * case["unit"], "y": -1e6}))
    custom = {k: type(v)(q * abs(case["unit"]) for q in v) for k, v in CUSTOM[case["custom"]].items()}
    cc.set_plot_config(PlotConfig(extents=custom, log_scales=["x", "y"] if case["log"] else [], flip=case["flip"]))
    shown = chains if case["pick"] is None else chains[::-1] if case["pick"] == "reversed" else chains[-1:]

    def drawn(c):
        if not case["override"]:
            return c
        return c.model_copy(update=dict(plot_cloud=True) | (dict(plot_contour=False) if case["override"] == "no contour" else {}))
    eff = [drawn(c) for c in shown]
    eff = [c for c in eff if c.plot_contour or c.plot_cloud or c.plot_point]
    cols = case["columns"] or [*dict.fromkeys(v for c in eff for v in c.samples.columns if v in "xy")]
    thr = 0.05 if case["plot"] == "errorbar" else 1e-4
    want = {}
    for v in cols:
        if v in custom:
            want[v] = ((custom[v][0],) * 2, (custom[v][1],) * 2)
            continue
        parts = [q for q in (wanted(c, v, thr) for c in eff) if q]
        if not parts:
            return  # nothing to take limits from
        want[v] = union(parts)
        if want[v][0][1] >= want[v][1][0]:
            return  # a single best fit: no width
    if not eff:
        return
    names = None if case["pick"] is None else [c.name for c in shown]
    kw = dict(chains=names, columns=case["columns"])
    n = len(cols)
    seen = []  # (column, limits, where)
    if case["plot"] == "triangle":
        fig = cc.plotter.plot(**kw)
        g, _ = triangle(fig, n)
        for i in range(n):
            for j in range(i + 1):
                flipped = case["flip"] and n == 2 and i == j == 1
                if not flipped:
                    seen.append((cols[j], g[i][j].xlim, f"panel {i},{j} horizontally"))
                if i != j or flipped:
                    seen.append((cols[i], g[i][j].ylim, f"panel {i},{j} vertically"))
    elif case["plot"] == "distributions":
        ps = panels(cc.plotter.plot_distributions(**kw))
        seen = [(v, q.xlim, "distribution") for v, q in zip(cols, ps)]
    elif case["plot"] == "walks":
        ps = panels(cc.plotter.plot_walks(**kw, plot_weights=False, plot_posterior=False))
        seen = [(v, q.ylim, "walk") for v, q in zip(cols, ps) if any(v in c.samples for c in eff)]
    else:
        ps = panels(cc.plotter.plot_summary(**kw, errorbar=case["plot"] == "errorbar"))
        seen = [(v, ps[r * (n + 1) + 1 + j].xlim, f"summary row {r}") for r in range(len(eff)) for j, v in enumerate(cols)]
    p.op()
    for v, (lo, hi), where in seen:
        p.obs(lo, hi)
        (a, b), (c, d) = want[v]
        e = 1e-12 * (abs(a) + abs(d))
        p.expect(np.isfinite([lo, hi]).all() and lo < hi, "not finite or not ordered", (case, where, lo, hi))
        p.expect(a - e <= lo <= b + e, "lower limit", lambda: f"{case}: {v}: {where}: {lo} not in [{a}, {b}]")
        p.expect(c - e <= hi <= d + e, "upper limit", lambda: f"{case}: {v}: {where}: {hi} not in [{c}, {d}]")


# ----------------------------------------------------------------------------------------------------- the helper alone
def gen_helper(ch):
    return dict(mode=ch.pick("mode", ("default", "plot", "narrow", "tiny"), free=True), pad=ch.flag("pad", free=True), shape=ch.pick("shape", ("gauss", "skew", "uniform", "heavy", "beta", "expo"), free=True), n=ch.pick("n", (3000, 30, 300, 60000)),
                weights=ch.pick("weights", list(W)), unit=ch.pick("unit", (1.0, -1.0, 1e-13, 3e9)), offset=ch.pick("offset", (0.0, 7.0, -400.0)), kind=ch.pick("kind", ("series", "array", "shuffled")))


def run_helper(case, p):
    if abs(case["offset"]) > 1e6 * abs(case["unit"]):
        return
    n = case["n"]
    x = sample(case["shape"], n, 3) * case["unit"] + case["offset"]
    w = W[case["weights"]](n)
    w = np.ones(n) if w is None else w
    if case["kind"] == "shuffled":
        o = scramble(n, 4)
        x, w = x[o], w[o]
    kw = dict(default={}, plot=dict(plot=True), narrow=dict(plot=True, wide_extents=False), tiny=dict(plot=True, tiny=True))[case["mode"]]
    thr = dict(default=1e-5, plot=1e-4, narrow=0.05, tiny=0.3)[case["mode"]]
    if bracket(x, w, thr)[0][1] >= bracket(x, w, thr)[1][0]:
        return
    x0, w0 = x.copy(), w.copy()
    lo, hi = get_extents(pd.Series(x) if case["kind"] == "series" else x, w, pad=case["pad"], **kw)
    p.op()
    p.obs(lo, hi)
    p.expect(np.array_equal(x, x0) and np.array_equal(w, w0), "inputs modified", case)
    if case["pad"]:  # a fifth of the width on either side
        width = (hi - lo) / 1.4
        lo, hi = lo + 0.2 * width, hi - 0.2 * width
    (a, b), (c, d) = bracket(x, w, thr)
    e = 1e-12 * (abs(a) + abs(d))
    p.expect(np.isfinite([lo, hi]).all() and lo < hi, "not finite or not ordered", (case, lo, hi))
    p.expect(a - e <= lo <= b + e, "lower limit", lambda: f"{case}: {lo} not in [{a}, {b}]")
    p.expect(c - e <= hi <= d + e, "upper limit", lambda: f"{case}: {hi} not in [{c}, {d}]")


# ------------------------------------------------------------------------------------------------------- discrete data
DISCRETE = {"coin": [0.0, 1.0], "three values": [0.0, 1.0, 2.0], "ten values": list(np.arange(10.0))}


def gen_discrete(ch):
    return dict(data=ch.pick("data", list(DISCRETE), free=True), plot=ch.pick("plot", ("plot", "errorbar"), free=True))


def run_discrete(case, p):
    x = np.tile(np.array(DISCRETE[case["data"]]), 300)
    lo, hi = get_extents(x, np.ones(len(x)), plot=True, wide_extents=case["plot"] == "plot")
    p.op()
    p.obs(lo, hi)
    bw = (x.max() - x.min()) / 2000
    p.expect(lo <= x.min() + bw and hi >= x.max() - bw, "a discrete value holding more than the tail is left out", (case, lo, hi))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("limits", gen(2 if q else 3), run, bound=1 if q else 2, note="every sequence of up to two (thorough: three) kinds of chain x plot type x shape, size, weights, custom limits, units, offset, subset, override"),
        Space("settings", gen(2, ("contour",) if q else KINDS), run, bound=2, note="pairs of the same settings for a few (thorough: all) kinds of chain"),
        Space("helper", gen_helper, run_helper, bound=2 if q else None, note="helpers.get_extents: mode x pad x shape x size x weights x units"),
        Space("discrete", gen_discrete, run_discrete, note="data with few distinct values (known finding)"),
    ]
