"""C07: covariance and correlation are the weighted sample moments."""
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig

from mc.data import wcov
from mc.engine import Space
from mc.latex import Table

ASSUMPTIONS = ["sample values are fixed deterministic sequences; linear algebra beyond 4 columns is uniform in the column count"]

COLS = {"a": (1.0, 0.0), "b": (1e-4, 3.0), "c": (2e5, -1e6), "d": (0.7, 1.0)}


def make(names, n, weights, index, wname="weight", posterior=False, kind="mixed", scale=1.0, **kw):
    i = np.arange(n)
    base = {"a": np.sin(1.7 * i + 0.3), "b": np.cos(0.9 * i * i + 1), "c": np.sin(1.7 * i + 0.3) * 0.8 + 0.6 * np.cos(2.3 * i),
            "d": ((i * 37) % 11 - 5) / 3.0}
    if kind == "anti":
        base["b"] = -base["a"]
    d = {k: scale * (COLS[k][1] + COLS[k][0] * base[k]) for k in names}
    w = {"none": None, "ones": np.ones(n), "varied": 0.2 + (i * 7 % 5), "tiny": 1e-6 * (1 + i % 3), "dominant": np.where(i == 1, 50.0, 1.0)}[weights]
    df = pd.DataFrame(d)
    if posterior:
        df.insert(0, "log_posterior", -0.5 * i.astype(float))
    if w is not None:
        df.insert(min(1, len(names)), wname, w)
    if index == "offset":
        df.index = np.arange(100, 100 + n)
    elif index == "dup":
        df.index = np.zeros(n, int)
    elif index == "text":
        df.index = [f"r{k}" for k in range(n)]
    kw = kw | ({} if w is None or wname == "weight" else {"weight_column": wname})
    return Chain(samples=df, name="m", **kw), d, (np.ones(n) if w is None else w)


CHAIN = {"plain": {}, "coloured cloud": dict(plot_cloud=True, color_param="b"), "coloured": dict(color_param="b"), "hidden": dict(plot_contour=False),
         "shifted": dict(shift_params=True), "point": dict(plot_point=True, plot_contour=False), "multimodal": dict(multimodal=True)}


def subsets():
    cols = ("a", "b", "c", "d")
    yield None
    for r in (1, 2, 3, 4):
        yield from itertools.permutations(cols, r)


def gen(ch):
    sel = ch.pick("select", list(subsets()), free=True)
    return dict(select=sel, n=ch.pick("n", (7, 2, 3, 40)), weights=ch.pick("weights", ("none", "ones", "varied", "tiny", "dominant")),
                index=ch.pick("index", ("default", "offset", "dup", "text")), wname=ch.pick("wname", ("weight", "mult")),
                posterior=ch.flag("posterior"), kind=ch.pick("kind", ("mixed", "anti")),
                scale=ch.pick("scale", (1.0, 1e-9, 1e9)), chain=ch.pick("chain", list(CHAIN)))


def run(case, p):
    wname = case["wname"] if case["weights"] != "none" else "weight"
    chain, d, w = make(("a", "b", "c", "d"), case["n"], case["weights"], case["index"], wname, case["posterior"], case["kind"], case["scale"], **CHAIN[case["chain"]])
    cols = list(case["select"]) if case["select"] else ["a", "b", "c", "d"]
    arg = None if case["select"] is None else list(case["select"])
    want = wcov(np.array([d[c] for c in cols]).T, w)
    cov, cor = chain.get_covariance(arg), chain.get_correlation(arg)
    p.op(2)
    k = len(cols)
    sd = np.sqrt(np.diag(want))
    p.equal(list(cov.columns), cols, "covariance columns")
    p.equal(list(cor.columns), cols, "correlation columns")
    p.expect(np.shape(cov.matrix) == (k, k), "covariance shape", lambda: np.shape(cov.matrix), stop=True)
    p.expect(np.shape(cor.matrix) == (k, k), "correlation shape", lambda: np.shape(cor.matrix), stop=True)
    p.expect(np.all(np.abs(cov.matrix - want) <= 1e-8 * np.outer(sd, sd)), "covariance value", lambda: f"{cov.matrix} expected {want}")
    wc = want / np.outer(sd, sd)
    p.expect(np.all(np.abs(cor.matrix - wc) <= 1e-8), "correlation value", lambda: f"{cor.matrix} expected {wc}")
    p.expect(np.allclose(np.diag(cor.matrix), 1, atol=1e-12), "correlation diagonal", lambda: cor.matrix)
    p.expect(np.allclose(cor.matrix, cor.matrix.T, atol=1e-12) and np.all(np.abs(cor.matrix) <= 1 + 1e-9), "correlation range", lambda: cor.matrix)
    p.equal(arg, None if case["select"] is None else list(case["select"]), "argument changed")
    p.obs(cov.matrix, cor.matrix)


def gen_wide(ch):
    d = ch.pick("columns", (12, 9, 27), free=True)
    return dict(d=d, order=ch.pick("order", ("given", "reversed", "stride", "some"), free=True), weights=ch.pick("weights", ("none", "varied", "dominant")), n=ch.pick("n", (60, 5)), table=ch.flag("table", free=True))


def run_wide(case, p):
    """Many columns."""
    d, n = case["d"], case["n"]
    i = np.arange(n)
    names = [f"c{k}" for k in range(d)]
    x = np.array([(1 + k) * np.sin((0.7 + 0.31 * k) * i + k) + 0.4 * np.cos(0.9 * i * i) - 3.0 * k for k in range(d)]).T
    w = {"none": np.ones(n), "varied": 0.2 + (i * 7 % 5), "dominant": np.where(i == 1, 50.0, 1.0)}[case["weights"]]
    df = pd.DataFrame(x, columns=names)
    if case["weights"] != "none":
        df.insert(3, "weight", w)
    chain = Chain(samples=df, name="m")
    pick = {"given": list(range(d)), "reversed": list(range(d))[::-1], "stride": [(5 * k + 2) % d for k in range(d)], "some": [d - 1, 0, 7, 2, 5, 8]}[case["order"]]
    cols = [names[k] for k in pick]
    want = wcov(x[:, pick], w)
    sd = np.sqrt(np.diag(want))
    arg = None if case["order"] == "given" else list(cols)
    if case["table"]:
        cc = ChainConsumer().add_chain(chain)
        for fn, m in ((cc.analysis.get_covariance_table, want), (cc.analysis.get_correlation_table, want / np.outer(sd, sd))):
            t = Table(fn("m", columns=arg))
            p.op()
            p.expect(t.ok, "table structure", case, stop=True)
            p.equal([r[0] for r in t.rows], ["", *cols], "row labels", case)
            p.equal(t.rows[0], ["", *cols], "header", case)
            p.equal(t.columns, len(cols) + 1, "column specification", case)
            for row, v in zip(t.rows[1:], m):
                p.close([float(c) for c in row[1:]], v, 0.00501, "cells", (case, row[0]))
        return
    cov, cor = chain.get_covariance(arg), chain.get_correlation(arg)
    p.op(2)
    p.equal((list(cov.columns), list(cor.columns)), (cols, cols), "columns", case)
    p.close(cov.matrix / np.outer(sd, sd), want / np.outer(sd, sd), 1e-8, "covariance value", case)
    p.close(cor.matrix, want / np.outer(sd, sd), 1e-8, "correlation value", case)
    p.obs(cov.matrix)


LABELS = {"none": {}, "some": {"a": r"$\alpha$"}, "all": {"a": r"$\alpha$", "b": r"$\beta_1$", "c": "Third one", "d": "$x$"}}


def gen_table(ch):
    return dict(kind=ch.pick("kind", ("cov", "cor")), select=ch.pick("select", (None, ("a",), ("b", "a"), ("c", "a", "d"), ("d", "c", "b", "a"))),
                labels=ch.pick("labels", list(LABELS)), by=ch.pick("by", ("name", "chain", "default")), weights=ch.pick("weights", ("none", "varied")),
                caption=ch.pick("caption", (None, "", "My caption", "The 68% limits, 50%s", r"$\Omega_m$ & co")),
                label=ch.pick("label", (None, "", "tab:x", "tab:50%")), others=ch.pick("others", (0, 1)))


def run_table(case, p):
    chain, d, w = make(("a", "b", "c", "d"), 9, case["weights"], "default")
    cc = ChainConsumer()
    if case["others"]:
        cc.add_chain(Chain(samples=chain.samples * 3 + 1, name="other"))
    cc.add_chain(chain)
    cc.set_plot_config(PlotConfig(labels=LABELS[case["labels"]]))
    kw = {}
    if case["caption"] is not None:
        kw["caption"] = case["caption"]
    if case["label"] is not None:
        kw["label"] = case["label"]
    fn = cc.analysis.get_covariance_table if case["kind"] == "cov" else cc.analysis.get_correlation_table
    arg = None if case["select"] is None else list(case["select"])
    if case["by"] == "default" and case["others"]:
        try:
            fn(None, columns=arg, **kw)
        except Exception:
            p.op()
            return
        p.expect(False, "no chain named among several", case)
    text = fn({"name": "m", "chain": chain, "default": None}[case["by"]], columns=arg, **kw)
    p.op()
    p.obs(text)
    cols = list(case["select"]) if case["select"] else ["a", "b", "c", "d"]
    t = Table(text)
    p.expect(t.ok, "table structure", text, stop=True)
    default = {"cov": ("Parameter Covariance", "tab:parameter_covariance"), "cor": ("Parameter Correlations", "tab:parameter_correlations")}[case["kind"]]
    p.equal(t.caption, default[0] if case["caption"] is None else case["caption"], "caption")
    p.equal(t.label, default[1] if case["label"] is None else case["label"], "label")
    names = [LABELS[case["labels"]].get(c, c) for c in cols]
    p.equal(t.columns, len(cols) + 1, "column specification", t.spec)
    p.equal(len(t.rows), len(cols) + 1, "row count", text, stop=True)
    p.equal(t.rows[0], ["", *names], "header")
    want = wcov(np.array([d[c] for c in cols]).T, w)
    if case["kind"] == "cor":
        sd = np.sqrt(np.diag(want))
        want = want / np.outer(sd, sd)
    for i, row in enumerate(t.rows[1:]):
        p.equal(row[0], names[i], "row label")
        p.equal(len(row), len(cols) + 1, "row length", row)
        for j, cell in enumerate(row[1:]):
            ok = len(cell.partition(".")[2]) == 2
            try:
                ok = ok and abs(float(cell) - want[i, j]) <= 0.00501 + 1e-8 * abs(want[i, j])
            except ValueError:
                ok = False
            p.expect(ok, "cell", f"row {names[i]} column {names[j]} shows {cell} for {want[i, j]}")
    p.equal(t.items[0] if t.items else None, t.rows[0], "header first")


def gen_mutual(ch):
    return dict(names=ch.pick("names", (("a",), ("a", "b"), ("c", "a", "b"))), n=ch.pick("n", (2, 5, 12)),
                weights=ch.pick("weights", ("none", "varied", "dominant")), factor=ch.pick("factor", (1.0, 2.0, 0.001, 1e6)))


def run_mutual(case, p):
    """Weight scale does not matter (only relative weights do)."""
    chain, d, w = make(case["names"], case["n"], case["weights"], "default")
    df = chain.samples.copy()
    df["weight"] = df["weight"] * case["factor"]
    other = Chain(samples=df, name="o")
    a, b = chain.get_covariance().matrix, other.get_covariance().matrix
    p.op(2)
    p.obs(b)
    p.expect(np.all(np.abs(a - b) <= 1e-9 * np.sqrt(np.outer(np.diag(a), np.diag(a)))), "weight scale", lambda: f"{a} vs {b}")
    p.close(other.get_correlation().matrix, chain.get_correlation().matrix, 1e-9, "weight scale")


def spaces(tier):
    b = 3 if tier == "quick" else None
    return [
        Space("moments", gen, run, bound=b, note="column selections and orders (all) x sizes, weights, index, names"),
        Space("wide", gen_wide, run_wide, note="nine to twenty-seven columns in four orders, as matrices and as tables"),
        Space("tables", gen_table, run_table, note="LaTeX tables"),
        Space("weight-scale", gen_mutual, run_mutual, note="overall weight factor"),
    ]
