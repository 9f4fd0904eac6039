"""C20: walk plots show every sample in order."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from matplotlib.colors import to_rgb

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import panels

ASSUMPTIONS = ["'thinning only above a hundred thousand points': a thinned row still shows evenly spaced samples of the whole chain"]
MARK = ["#cc2200", "#1133dd", "#22aa44", "#aa8800", "#333333", "#884422", "#119999"]


@functools.lru_cache(None)
def walk(k, n, col):
    j = "abc".index(col)
    q = quantile_sample(("skew", "gauss", "beta")[j], n)[scramble(n, 31 * k + j)]
    return 1e-3 + np.abs(q) + 10.0 * j + 0.1 * k + np.linspace(0, 1, n)


def frame(k, n, cols, weights, posterior):
    df = pd.DataFrame({c: walk(k, n, c) for c in cols})
    if weights == "integers":
        df["weight"] = 1.0 + (np.arange(n) * 7 + k) % 5
    elif weights == "wide":
        df["weight"] = 10.0 ** -((np.arange(n) % 13) / 2.0 + k)
    if posterior:
        df["log_posterior"] = -500.0 * k - 3.0 * ((np.arange(n) - n // 3) / n) ** 2
    return df


# name: list of (rows, columns, weights, posterior, options)
CHAINS = {
    "one": [(60, "abc", "integers", True, {})], "two": [(60, "abc", "integers", True, {}), (45, "cab", "wide", True, {})], "longer second": [(40, "abc", None, True, {}), (90, "abc", "integers", True, {})], "missing": [(50, "ab", "integers", False, {}), (70, "bc", None, True, {})],
    "no posterior": [(30, "abc", None, False, {}), (31, "abc", None, False, {})], "four": [(20 + k, "abc", None, k % 2 == 0, {}) for k in range(4)], "kinds": [(40, "abc", None, True, dict(plot_cloud=True)), (41, "abc", None, True, dict(plot_contour=False, plot_point=True)), (42, "abc", None, True, dict(plot_contour=False, plot_cloud=True))],
    "seven": [(20 + 3 * k, ("abc", "b", "ca")[k % 3], (None, "integers", "wide")[k % 3], k % 2 == 1, {}) for k in range(7)],
    "skipped": [(40, "abc", None, True, dict(plot_contour=False)), (41, "abc", None, True, {})], "walkers": [(60, "abc", None, True, dict(walkers=4))], "three rows": [(3, "abc", "integers", True, {})],
}


def gen(ch):
    return dict(chains=ch.pick("chains", list(CHAINS), free=True), weights=ch.flag("no weights", free=True), posterior=ch.flag("no posterior"), convolve=ch.pick("convolve", (None, 5, 2, 7, 10, 20), free=True), columns=ch.pick("columns", (None, ["a"], ["c", "a"], ["b", "c", "a"])), log_weight=ch.flag("log_weight"),
                subset=ch.pick("subset", (None, "reversed", "last", "objects")), log=ch.pick("log scales", ([], ["a"], ["b", "c"])), extents=ch.pick("extents", ({}, {"a": (-3.0, 9.0)}, {"b": (5.0, 50.0), "c": (19.0, 30.0)})), labels=ch.pick("labels", ("", "ab")), blind=ch.pick("blind", (False, ["a"], True)), ticks=ch.pick("max_ticks", (5, 3, 9)),
                colors=ch.flag("explicit colours"), index=ch.pick("index", ("range", "floats", "reversed", "repeated", "strings")), override=ch.flag("override"))


def darker(c):
    return to_rgb(c)


def smooth(y, n):
    """Moving average of width n wherever the window fits."""
    return np.array([y[i:i + n].mean() for i in range(len(y) - n + 1)])


def run(case, p):
    spec = CHAINS[case["chains"]]
    cc, chains = ChainConsumer(), []
    for k, (n, cols, w, lp, o) in enumerate(spec):
        df = frame(k, n, cols, w, lp)
        df.index = {"range": np.arange(n), "floats": np.arange(n) * 0.5 + 3, "reversed": np.arange(n)[::-1], "repeated": np.arange(n) // 4, "strings": [f"r{(i * 7) % n}" for i in range(n)]}[case["index"]]
        chains.append(Chain(samples=df, name=f"n{k}", **({"color": MARK[k]} if case["colors"] else {}), **o))
        cc.add_chain(chains[-1])
    if case["override"]:
        from chainconsumer import ChainConfig
        cc.set_override(ChainConfig(color="#0a0b0c"))
    cc.set_plot_config(PlotConfig(log_scales=case["log"], extents=case["extents"], labels={c: f"${c}_x$" for c in case["labels"]}, blind=case["blind"], max_ticks=case["ticks"]))
    order = list(range(len(spec)))
    if case["subset"] in ("reversed", "objects"):
        order = order[::-1]
    elif case["subset"] == "last":
        order = order[-1:]
    names = None if case["subset"] is None else [chains[k] if case["subset"] == "objects" else f"n{k}" for k in order]
    order = [k for k in order if spec[k][4].get("plot_contour", True) or spec[k][4].get("plot_cloud") or spec[k][4].get("plot_point")]
    cols = case["columns"] or list(dict.fromkeys(c for k in order for c in spec[k][1]))
    if any(all(c not in spec[k][1] for k in order) for c in cols):
        return
    conv = case["convolve"]
    if conv and min(spec[k][0] for k in order) < conv + 2:
        return
    fig = cc.plotter.plot_walks(chains=names, columns=case["columns"], convolve=conv, plot_weights=not case["weights"], plot_posterior=not case["posterior"], log_weight=case["log_weight"])
    p.op()
    ps = panels(fig)
    rows = []  # label, [(chain, values)]
    if not case["posterior"] and any(spec[k][3] for k in order):
        rows.append((r"$\log(P)$", [(k, (v := chains[k].samples["log_posterior"].to_numpy()) - v.max()) for k in order if spec[k][3]]))
    if not case["weights"]:
        vals = [(k, frame(k, spec[k][0], "a", spec[k][2], False).get("weight", pd.Series(np.ones(spec[k][0]))).to_numpy()) for k in order]
        rows.append((r"$\log_{10}$Weight" if case["log_weight"] else "Weight", [(k, np.log10(v) if case["log_weight"] else v) for k, v in vals]))
    extra = len(rows)
    rows += [(f"${c}_x$" if c in case["labels"] else c, [(k, walk(k, spec[k][0], c)) for k in order if c in spec[k][1]]) for c in cols]
    if not p.equal(len(ps), len(rows), "number of rows", case):
        return
    longest = max(len(v) for _, r in rows for _, v in r)
    by = {}
    for i, (q, (label, want)) in enumerate(zip(ps, rows)):
        at = (case, f"row {i} {label}")
        c = cols[i - extra] if i >= extra else None
        p.equal(q.ylabel, label, "row label", at)
        if not p.equal(len(q.scatters), len(want), "walks in a row", at):
            continue
        for s, (k, v) in zip(q.scatters, want):
            p.obs(s.xy)
            p.expect(len(s.xy) == len(v) and np.array_equal(s.xy[:, 0], np.arange(len(v))), "positions of the samples", at)
            if len(s.xy) == len(v):
                p.close(s.xy[:, 1], v, 1e-12, "values of the samples", at, rel=1e-12)
            by.setdefault(k, set()).add(s.color)
            want_colour = "#0a0b0c" if case["override"] else MARK[k] if case["colors"] else None
            p.expect(want_colour is None or s.color == want_colour, "colour of a walk", (at, s.color))
        lines = q.curves
        p.equal(len(lines), len(want) if conv else 0, "convolution curves", at)
        for ln, (k, v), s in zip(lines, want, q.scatters):
            full = smooth(v, conv)
            # a window of n samples ending at i covers n - 1 earlier ones: every drawn point is a full moving average
            half = conv // 2
            p.expect(len(ln.x) >= len(v) - 2 * half - 1 and len(ln.x) <= len(full) + 1 and np.all(np.diff(ln.x) == 1), "span of the convolution", lambda: (at, len(ln.x), len(v)))
            p.expect(ln.x[0] >= half - 1 and ln.x[-1] <= len(v) - half, "ends of the convolution are not trimmed", lambda: (at, ln.x[0], ln.x[-1], len(v)))
            i0 = int(ln.x[0]) - half
            if 0 <= i0 and i0 + len(ln.x) <= len(full):
                p.close(ln.y, full[i0:i0 + len(ln.x)], 1e-9, "not the moving average", at, rel=1e-9)
            else:
                p.fail("span of the convolution", (at, i0, len(ln.x), len(full)))
            p.expect(ln.color != s.color, "convolution is not set off", at)
        if c:
            p.equal(q.yscale, "log" if c in case["log"] else "linear", "scale of a row", at)
            if c in case["extents"]:
                p.close(q.ylim, case["extents"][c], 1e-9, "custom extent of a row", at)
            else:
                lo, hi = min(np.quantile(v, 0.1) for _, v in want), max(np.quantile(v, 0.9) for _, v in want)
                p.expect(min(len(v) for _, v in want) < 40 or q.ylim[0] <= lo and q.ylim[1] >= hi, "row does not cover the samples", lambda: (at, q.ylim, lo, hi))
            blind = case["blind"] is True or (case["blind"] and c in case["blind"])
            if blind:
                p.equal(q.yticks, [], "blinded row shows ticks", at)
            elif c not in case["log"]:
                p.expect(len(q.yt.major) <= case["ticks"] + 1, "number of ticks", at)
        elif not len(q.scatters) == 0:
            lo, hi = min(v.min() for _, v in want), max(v.max() for _, v in want)
            p.expect(q.ylim[0] <= lo and q.ylim[1] >= hi, "row does not cover the samples", at)
        p.close(q.xlim, (0, longest - 1), 1e-9, "index axis", at)
    p.expect(all(len(v) == 1 for v in by.values()), "a chain changes colour between rows", (case, by))
    if not case["override"]:
        p.expect(len({next(iter(v)) for v in by.values()}) == len(by), "two chains share a colour", (case, by))


# --------------------------------------------------------------------------------- long chains
def gen_long(ch):
    return dict(n=ch.pick("n", (100000, 99999, 100001, 150000, 199999, 200000, 200001, 300017, 450000), free=True), second=ch.pick("second", (None, 20, 250000), free=True), log_weight=ch.flag("log_weight"))


def run_long(case, p):
    sizes = [case["n"]] + ([case["second"]] if case["second"] else [])
    cc = ChainConsumer()
    for k, n in enumerate(sizes):
        x = np.arange(n, dtype=float)
        cc.add_chain(Chain(samples=pd.DataFrame({"a": x, "weight": 1.0 + x, "log_posterior": -x}), name=f"n{k}"))
    ps = panels(cc.plotter.plot_walks(log_weight=case["log_weight"]))
    p.op()
    p.equal(len(ps), 3, "number of rows", case)
    for q, back in zip(ps, (lambda v: -v, (lambda v: 10**v - 1) if case["log_weight"] else (lambda v: v - 1), lambda v: v)):
        p.equal(len(q.scatters), len(sizes), "walks in a row", case)
        widest = 0
        for s, n in zip(q.scatters, sizes):
            rows = np.round(back(s.xy[:, 1])).astype(int)
            p.obs(len(rows))
            step = rows[1] - rows[0]
            widest = max(widest, len(rows) - 1)
            p.expect(np.allclose(back(s.xy[:, 1]), rows, atol=1e-4 * max(1, n / 1e5)) and rows[0] == 0 and np.all(np.diff(rows) == step) and rows[-1] >= n - step, "thinned row is not evenly spaced over the chain", lambda: (case, len(rows), step, rows[-1]))
            p.expect(step == 1 if n <= 100000 else len(rows) >= 100000, "thinning", lambda: (case, n, len(rows)))
            p.expect(np.array_equal(s.xy[:, 0], np.arange(len(rows))), "positions of the samples", case)
        p.close(q.xlim, (0, widest), 1e-9, "index axis", case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("walks", gen, run, bound=1 if q else 3, note="chain sets x rows asked for x convolution, with columns, subset, scales, extents, labels, blinding, colours and row labels: every drawn sample"),
        Space("long", gen_long, run_long, bound=0 if q else None, note="lengths around the thinning limit"),
    ]
