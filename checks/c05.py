"""C05: splitting a chain by walker partitions its samples in order."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from mc.engine import Space
from mc.data import quantile_sample, scramble, wcov

ASSUMPTIONS = ["text labels of divided chains follow the pattern the documentation shows, '<name> Walker <i>'"]
SETTINGS = {
    "none": {},
    "style": dict(linestyle=":", linewidth=2.5, zorder=3, shade=False, shade_alpha=0.2, shade_gradient=0.4, bar_shade=False, sigmas=[0, 1]),
    "stats": dict(statistics=S.MEAN, summary_area=0.9, bins=17, smooth=1, kde=0.7),
    "multimodal": dict(multimodal=True, summary_area=0.95),
    "cloud": dict(plot_cloud=True, color_param="b", num_cloud=50, cmap="plasma", plot_contour=False),
    "point": dict(plot_point=True, marker_style="*", marker_size=30, marker_alpha=0.2),
    "shifted": dict(shift_params=True),
    "model": dict(num_free_params=3, num_eff_data_points=44.5, power=0.5, show_label_in_legend=False, histogram_relative_height=2.0, show_contour_labels=True),
}
INDEX = {
    "default": lambda n: np.arange(n), "reversed": lambda n: np.arange(n)[::-1], "same": lambda n: np.zeros(n, int),
    "text": lambda n: [f"r{i % 3}" for i in range(n)], "offset": lambda n: np.arange(n) + 7, "float": lambda n: np.linspace(0, 1, n),
}


def gen(ch):
    m = ch.pick("walkers", (3, 2, 4, 12, 6))
    return dict(walkers=m, per=ch.pick("steps", (4, 1, 2, 7)), index=ch.pick("index", list(INDEX)), color=ch.pick("color", (None, "red")),
                weights=ch.pick("weights", (None, "weight", "mult", "weights")), post=ch.pick("post", ("log_posterior", None, "lnp")),
                order=ch.pick("order", ("params first", "specials first", "mixed")), settings=ch.pick("settings", list(SETTINGS)),
                dtype=ch.pick("dtype", ("float", "int", "f32")), name=ch.pick("name", ("A", "chain Walker 1", "")))


def build(case):
    m, k = case["walkers"], case["per"]
    n = m * k
    i = np.arange(n)
    a = np.sin(i * 1.3) * 5 if case["dtype"] != "int" else (i * 7) % 11
    if case["dtype"] == "f32":
        a = a.astype(np.float32)
    cols = {"a": a, "b": np.cos(i * 0.7) + i}
    sp = {}
    if case["weights"]:
        sp[case["weights"]] = 1.0 + (i * 3 % 5)
    if case["post"]:
        sp[case["post"]] = -((i - n * 0.4) ** 2) - 0.1 * i
    if case["order"] == "params first":
        cols |= sp
    elif case["order"] == "specials first":
        cols = sp | cols
    else:
        items = list(cols.items())
        cols = dict([items[0], *sp.items(), items[1]])
    df = pd.DataFrame(cols)
    df.index = INDEX[case["index"]](n)
    kw = dict(SETTINGS[case["settings"]])
    if case["color"]:
        kw["color"] = case["color"]
    if case["weights"] and case["weights"] != "weight":
        kw["weight_column"] = case["weights"]
    if case["post"] and case["post"] != "log_posterior":
        kw["posterior_column"] = case["post"]
    return df, kw


SKIP = {"samples", "name", "walkers", "color"}


def snapshot(c):
    return {k: (v.copy() if isinstance(v, pd.DataFrame) else list(v) if isinstance(v, list) else v) for k, v in ((f, getattr(c, f)) for f in type(c).model_fields)}


def same(a, b):
    return set(a) == set(b) and all((a[k].equals(b[k]) and list(a[k].index) == list(b[k].index)) if isinstance(a[k], pd.DataFrame) else a[k] == b[k] for k in a)


def run(case, p):
    df, kw = build(case)
    m, k = case["walkers"], case["per"]
    c = Chain(samples=df, name=case["name"], walkers=m, **kw)
    before = snapshot(c)
    parts = c.divide()
    p.op()
    p.expect(same(before, snapshot(c)), "original modified")
    p.equal(len(parts), m, "number of parts", stop=True)
    for i, q in enumerate(parts):
        p.expect(isinstance(q, Chain), "part type", type(q), stop=True)
        p.equal(q.name, f"{case['name']} Walker {i}", "name")
        p.equal(q.walkers, 1, "walkers", q.name)
        p.equal(q.color, None, "colour kept", q.name)
        p.equal(len(q.samples), k, "part length", q.name)
        p.equal(list(q.samples.columns), list(c.samples.columns), "columns")
        for f in type(q).model_fields:
            if f not in SKIP:
                p.equal(getattr(q, f), getattr(c, f), f"setting {f}", q.name)
        p.equal(q.data_columns, c.data_columns, "parameters")
    whole = np.concatenate([q.samples.to_numpy(float) for q in parts])
    p.expect(np.array_equal(whole, c.samples.to_numpy(float)), "rows", lambda: whole)
    p.expect(np.array_equal(np.concatenate([q.weights for q in parts]), c.weights), "weights")
    if c.log_posterior is not None:
        p.expect(np.array_equal(np.concatenate([q.log_posterior for q in parts]), c.log_posterior), "posterior")
    # parts are usable on their own
    cc = ChainConsumer()
    for q in parts:
        cc.add_chain(q)
    p.equal(cc.get_names(), [f"{case['name']} Walker {i}" for i in range(m)], "added names")
    best = cc.analysis.get_max_posteriors()
    p.op()
    for i, q in enumerate(parts):
        seg = df.iloc[i * k:(i + 1) * k]
        if case["post"]:
            r = int(np.argmax(seg[case["post"]].to_numpy()))
            p.close(best[q.name].log_posterior, seg[case["post"]].iloc[r], 0, "part best fit", q.name)
            for x, v in best[q.name].coordinate.items():
                p.close(v, c.samples[x].iloc[i * k + r], 0, "part best-fit point", f"{q.name} {x}")
        else:
            p.expect(q.name not in best, "best fit without posterior")
        if k > 2:
            w = seg[case["weights"]].to_numpy() if case["weights"] else np.ones(k)
            p.close(q.get_covariance().matrix, wcov(seg[["a", "b"]].to_numpy(float), w), 1e-6, "part covariance", q.name, rel=1e-6)
    # independence: changing a part does not reach the original
    parts[0].samples.iloc[0, 0] = 12345
    parts[-1].samples.iloc[-1, -1] = 54321
    p.expect(same(before, snapshot(c)), "part shares data with the original")
    p.obs(whole)


def gen_refused(ch):
    return dict(walkers=ch.pick("walkers", (1, 2, 4)), grid=ch.flag("grid"), post=ch.flag("post"))


def run_refused(case, p):
    n = 16
    df = pd.DataFrame({"a": np.arange(n) % 4 * 1.0, "b": np.arange(n) // 4 * 1.0})
    if case["post"]:
        df["log_posterior"] = -np.arange(n) * 1.0
    c = Chain(samples=df, name="c", walkers=case["walkers"], grid=case["grid"])
    if case["walkers"] == 1 or case["grid"]:
        p.raises(c.divide, "divided", str(case))
    else:
        p.equal(len(c.divide()), case["walkers"], "parts")
    p.expect(c.walkers == case["walkers"] and len(c.samples) == n, "changed by refusal")


def gen_use(ch):
    return dict(walkers=ch.pick("walkers", (3, 2)), stat=ch.pick("stat", [None, *S]), weights=ch.flag("weights"), index=ch.pick("index", list(INDEX)), again=ch.flag("divide a part's rebuild"))


def run_use(case, p):
    """Summaries of the parts equal those of chains built directly from each walker's rows."""
    m, k = case["walkers"], 1500
    segs = [quantile_sample(("gauss", "skew", "uniform")[i % 3], k)[scramble(k, i)] + i for i in range(m)]
    df = pd.DataFrame({"a": np.concatenate(segs), "b": np.concatenate([s[::-1] * 2 for s in segs])})
    if case["weights"]:
        df["weight"] = 1.0 + np.arange(m * k) % 3
    df.index = INDEX[case["index"]](m * k)
    kw = {} if case["stat"] is None else {"statistics": case["stat"]}
    parts = Chain(samples=df, name="c", walkers=m, summary_area=0.8, **kw).divide()
    cc, ref = ChainConsumer(), ChainConsumer()
    for i, q in enumerate(parts):
        cc.add_chain(q)
        ref.add_chain(Chain(samples=df.iloc[i * k:(i + 1) * k].reset_index(drop=True), name=q.name, summary_area=0.8, **kw))
    a, b = cc.analysis.get_summary(), ref.analysis.get_summary()
    p.op(2)
    p.equal(list(a), list(b), "summary names")
    for nm in b:
        for x in b[nm]:
            p.close(a[nm][x].array, b[nm][x].array, 1e-9, "part summary", f"{nm} {x}", rel=1e-9)
            p.obs(a[nm][x].array)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("partition", gen, run, bound=3 if q else 4, note="walkers x steps x row labels x weight/posterior columns x column order x carried settings x dtype x name"),
        Space("refused", gen_refused, run_refused, note="single walker and grid chains"),
        Space("parts in use", gen_use, run_use, bound=2 if q else None, note="summaries of parts against chains built from each walker's rows"),
    ]
