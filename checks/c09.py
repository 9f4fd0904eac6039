"""C09: summaries do not depend on irrelevant details of the samples."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.statistics import SummaryStatistic as S

from mc.data import quantile_sample, scramble
from mc.engine import Space

ASSUMPTIONS = [
    "'up to rounding' is two cells of the curve the summary is read from (1e-4 of the range each), plus what a sample changing bin by rounding moves a bound",
    "splitting rows is checked without kernel smoothing, whose documented bandwidth follows the number of rows",
]
N = 1536
BIM = ((0.6, -3.0, 0.7), (0.4, 3.0, 1.0))
TRI = ((0.3, -6.0, 0.6), (0.4, 0.0, 0.8), (0.3, 5.0, 0.5))


@functools.lru_cache(maxsize=None)
def base(shape, weights, grid):
    if grid:
        x = np.linspace(-4, 4, 65)
        w = np.round(1e6 * (np.exp(-0.5 * x**2) if shape == "gauss" else np.exp(-0.5 * (np.log(x + 5.0) - 1) ** 2 / 0.2))) + 1
        return x, w
    x = np.round(quantile_sample({"bimodal": BIM, "trimodal": TRI}.get(shape, shape), N) * 2**20) / 2**20
    x = x[scramble(N, 5)]
    heavy = np.ones(N)
    heavy[0] = 1e7
    w = {"one heavy": heavy, "unit": np.ones(N), "integers": 1.0 + np.arange(N) % 4, "decades": 10.0 ** (-8 * np.abs(x - np.median(x)) / np.abs(x - np.median(x)).max())}[weights]
    return x, w


class State:
    """Samples, plus what happened to the parameter: value -> a * value + b."""

    def __init__(self, x, w):
        self.x, self.w, self.a, self.b = x, w, 1.0, 0.0
        self.index = np.arange(len(x))
        self.extra = {}
        self.name, self.chain = "x", "m"
        self.before = self.after = False
        self.front = False
        self.weight_name = "weight"
        self.unit = False
        self.rounded = False

    def affine(self, a, b):
        if abs(b) > 1e8 * abs(self.a):
            return  # such an offset would round the samples away
        self.x = self.x * a + b
        self.a, self.b = self.a * a, self.b * a + b


def t_reverse(s):
    s.x, s.w, s.index = s.x[::-1], s.w[::-1], s.index[::-1]


def t_shuffle(s):
    o = scramble(len(s.x), 77)
    s.x, s.w, s.index = s.x[o], s.w[o], np.asarray(s.index)[o]


def t_sort(s):
    o = np.argsort(s.x, kind="stable")
    s.x, s.w, s.index = s.x[o], s.w[o], np.asarray(s.index)[o]


def t_split(s):
    k = np.arange(len(s.x)) % 3 == 0
    s.x = np.concatenate((s.x, s.x[k]))
    w = np.where(k, 0.75 * s.w, s.w)
    s.w = np.concatenate((w, 0.25 * s.w[k]))
    s.index = np.arange(len(s.x))


def t_split_all(s):
    s.x, s.w = np.tile(s.x, 3), np.concatenate((0.5 * s.w, 0.25 * s.w, 0.25 * s.w))
    s.index = np.arange(len(s.x))


def t_merge(s):
    x, inv = np.unique(s.x, return_inverse=True)
    s.w = np.bincount(inv, weights=s.w)
    s.x, s.index = x, np.arange(len(x))


def t_repeat(s):
    """Integer weights become repeated rows (only sensible while they are small integers)."""
    k = s.w / s.w.min()
    if np.array_equal(k, np.round(k)) and k.max() <= 16:
        s.x, s.w = np.repeat(s.x, k.astype(int)), np.ones(int(k.sum()))
        s.index = np.arange(len(s.x))
        s.unit = True


def attr(**kw):
    def f(s):
        for k, v in kw.items():
            setattr(s, k, v)
    return f


def t_columns(s):
    s.extra["other"] = "col"


def t_posterior(s):
    s.extra["log_posterior"] = "post"


T = {
    "reverse rows": t_reverse, "shuffle rows": t_shuffle, "sort rows": t_sort,
    "same labels": lambda s: setattr(s, "index", np.zeros(len(s.x), int)), "text labels": lambda s: setattr(s, "index", [f"r{i}" for i in range(len(s.x))]),
    "float labels": lambda s: setattr(s, "index", np.linspace(5, 0, len(s.x))), "offset labels": lambda s: setattr(s, "index", 1000 + np.arange(len(s.x))),
    "rename": attr(name="$\\Omega_m$"), "column after": t_columns, "column before": attr(front=True), "posterior": t_posterior, "chain before": attr(before=True), "chain after": attr(after=True),
    "weights * 8": lambda s: setattr(s, "w", s.w * 8), "weights / 2^40": lambda s: setattr(s, "w", s.w * 2.0**-40), "weights * 3.7": lambda s: setattr(s, "w", s.w * 3.7), "weights * 1e12": lambda s: setattr(s, "w", s.w * 1e12),
    "weight column": attr(weight_name="importance"), "chain name": attr(chain="another name"),
    "split": t_split, "split all": t_split_all, "merge": t_merge, "repeat": t_repeat,
    "* 2": lambda s: s.affine(2.0, 0), "/ 2^50": lambda s: s.affine(2.0**-50, 0), "* 2^50": lambda s: s.affine(2.0**50, 0), "+ 64": lambda s: s.affine(1.0, 64.0), "- 4096": lambda s: s.affine(1.0, -4096.0),
    "* 1e-9": lambda s: s.affine(1e-9, 0), "* 3e7": lambda s: s.affine(3e7, 0), "+ 1/3": lambda s: s.affine(1.0, 1 / 3), "mirror": lambda s: s.affine(-1.0, 0.0),
}
ROWS = {"split", "split all", "merge", "repeat"}
GRIDSAFE = [t for t in T if t not in ("split", "split all", "repeat", "merge")]
STATS = (None, "max", "max_central", "cumulative", "mean", "hdi", "bands")
CONF = {"default": {}, "unsmoothed": dict(smooth=0), "few bins": dict(bins=20, smooth=1), "area": dict(summary_area=0.9), "kde": dict(kde=True), "power": dict(power=2.0)}


def measure(s, stat, conf, grid):
    n = len(s.x)
    cols = {}
    if s.front:
        cols["aaa"] = np.cos(np.arange(n)) * 100
    cols[s.name] = s.x
    if not (s.unit and np.all(s.w == 1)) or s.weight_name != "weight":
        cols[s.weight_name] = s.w
    for k in s.extra:
        cols[k] = np.sin(np.arange(n))
    df = pd.DataFrame(cols)
    df.index = s.index
    kw = dict(CONF[conf])
    if stat == "bands":
        kw["multimodal"] = True
    elif stat:
        kw["statistics"] = S(stat)
    if s.weight_name != "weight":
        kw["weight_column"] = s.weight_name
    cc = ChainConsumer()
    side = pd.DataFrame({s.name: np.linspace(500, 600, 40), "q": np.arange(40.0)})
    if s.before:
        cc.add_chain(Chain(samples=side, name="before", statistics=S.CUMULATIVE, bins=7, smooth=0))
    cc.add_chain(Chain(samples=df, name=s.chain, grid=grid, **kw))
    if s.after:
        cc.add_chain(Chain(samples=side, name="after", statistics=S.MEAN, summary_area=0.1))
    b = cc.analysis.get_summary()[s.chain][s.name]
    return [[np.nan if v is None else float(v) for v in (q.lower, q.center, q.upper)] for q in (b if isinstance(b, list) else [b])]


@functools.lru_cache(maxsize=None)
def original(shape, weights, stat, conf, grid):
    return measure(State(*base(shape, weights, grid)), stat, conf, grid)


def run(case, p):
    grid = case.get("grid", False)
    x, w = base(case["shape"], case["weights"], grid)
    s = State(x, w)
    for t in case["steps"]:
        if t:
            T[t](s)
    got = measure(s, case["stat"], case["conf"], grid)
    want = original(case["shape"], case["weights"], case["stat"], case["conf"], grid)
    p.op()
    p.obs(got)
    want = [[s.a * v + s.b for v in b] for b in want]
    if s.a < 0:
        want = [b[::-1] for b in want][::-1]
    if not p.equal(len(got), len(want), "number of bands"):
        return
    span = (x.max() - x.min()) * abs(s.a)
    sd = x.std() * abs(s.a)
    names = set(case["steps"])
    if "mirror" in names or "+ 1/3" in names:
        loose = case["stat"] in (None, "max", "hdi", "bands")  # mirroring moves the bin edges, and with them nearly flat tops
        if loose and "unsmoothed" in case["conf"]:
            return
        tol = (0.25 if loose else 0.04) * sd
        ctol = (0.04 if case["stat"] in ("cumulative", "mean") else 0.6) * sd
    elif case["conf"] == "kde" or names & {"weights * 3.7", "weights * 1e12", "* 1e-9", "* 3e7", "+ 64", "- 4096"} | ROWS:
        tol = 5e-4 * span + (0.02 * sd if case["stat"] in (None, "max", "hdi", "bands") else 0)
        ctol = 2e-3 * span if case["conf"] != "unsmoothed" else 0.6 * sd  # unsmoothed peaks are all but tied
    else:
        tol = ctol = 1e-8 * span
    for i, (g, v) in enumerate(zip(got, want)):
        where = f"{case} band {i}: {got} instead of {want}"
        if tol > 1e-6 * span and case["conf"] == "unsmoothed" and case["stat"] in (None, "max") and (np.isnan(g[0]) != np.isnan(v[0])):
            continue  # a jagged histogram may or may not have a level within the max statistic's 0.3% of the area
        p.close(g[::2], v[::2], tol, "interval", where)
        p.close(g[1], v[1], ctol, "centre", where)


def gen(shapes, confs, ts, depth, stats=STATS):
    def g(ch):
        shape, conf = ch.pick("shape", shapes, free=True), ch.pick("settings", confs, free=True)
        stat = ch.pick("statistic", stats, free=True)
        if (shape in ("bimodal", "trimodal")) != (stat == "bands"):
            return None
        w = ch.pick("weights", ("integers", "unit", "decades", "one heavy"))
        pool = [t for t in ts if not (conf == "kde" and t in ROWS)]
        steps = [ch.pick("step 1", pool, free=True)]
        for i in range(1, depth):
            steps.append(ch.pick(f"step {i + 1}", [None, *pool]))
        return dict(shape=shape, conf=conf, stat=stat, weights=w, steps=steps)
    return g


def gen_grid(depth):
    def g(ch):
        steps = [ch.pick("step 1", GRIDSAFE, free=True)]
        for i in range(1, depth):
            steps.append(ch.pick(f"step {i + 1}", [None, *GRIDSAFE]))
        return dict(shape=ch.pick("shape", ("gauss", "skew"), free=True), conf=ch.pick("settings", ("default", "power")), stat=ch.pick("statistic", STATS[:-1], free=True), weights="grid", grid=True, steps=steps)
    return g


def gen_everything(ch):
    """Every transformation together with the table and plotted title."""
    return dict(shape=ch.pick("shape", ("gauss", "skew"), free=True), stat=ch.pick("statistic", STATS[:-1], free=True), step=ch.pick("step", [t for t in T if t not in ("mirror", "rename", "+ 1/3", "* 1e-9", "* 3e7", "* 2", "/ 2^50", "* 2^50", "+ 64", "- 4096", "chain name")], free=True))


def run_table(case, p):
    """The formatted table cell does not change either."""
    def cell(s):
        df = pd.DataFrame({s.name: s.x, s.weight_name: s.w} | {k: np.sin(np.arange(len(s.x))) for k in s.extra})
        df.index = s.index
        kw = {"statistics": S(case["stat"])} if case["stat"] else {}
        if s.weight_name != "weight":
            kw["weight_column"] = s.weight_name
        cc = ChainConsumer().add_chain(Chain(samples=df, name=s.chain, **kw))
        cc.set_plot_config(PlotConfig(labels={s.name: "L"}))
        return cc.analysis.get_latex_table(columns=[s.name])
    a, b = State(*base(case["shape"], "integers", False)), State(*base(case["shape"], "integers", False))
    T[case["step"]](b)
    p.op(2)
    p.obs(cell(a))
    p.equal(cell(b), cell(a), "table cell", case)


def spaces(tier):
    q = tier == "quick"
    shapes = ("gauss", "skew", "bimodal", "trimodal") if q else ("gauss", "skew", "bimodal", "trimodal", "beta", "tri", "heavy")
    return [
        Space("transformations", gen(shapes, list(CONF), list(T), 1), run, note="every transformation x shape x settings x statistic x weights"),
        Space("sequences", gen(("gauss", "bimodal") if q else shapes, ("default",) if q else ("default", "unsmoothed", "area"), list(T), 2 if q else 3), run, bound=1 if q else 2,
              note="every sequence of two (thorough: three) transformations"),
        Space("grids", gen_grid(1 if q else 2), run, bound=1, note="gridded chains"),
        Space("table", gen_everything, run_table, note="the formatted cell under each transformation that keeps the values"),
    ]
