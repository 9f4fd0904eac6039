"""C12: the LaTeX parameter table shows every summary in its own cell."""
import functools
import os
from pathlib import Path

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.statistics import SummaryStatistic as S

from mc import env
from mc.data import mixture_ppf, quantile_sample, scramble
from mc.engine import Space
from mc.latex import Table

ASSUMPTIONS = ["cell texts are compared with get_parameter_text of the chain's summary in a consumer of its own (C08-C11 decide those values and texts)"]
N = 400


def col(shape, mean, sd, k):
    return mean + sd * quantile_sample(shape, N)[scramble(N, k)]


@functools.lru_cache(None)
def data(kind):
    return pd.DataFrame({
        "ab": lambda: {"a": col("gauss", 1, 0.2, 1), "b": col("gauss", -4, 1, 2)},
        "bc": lambda: {"b": col("skew", 20, 2, 3), "c": col("gauss", 1e6, 3e3, 4)},
        "ca": lambda: {"c": col("uniform", 0, 1e-4, 5), "a": col("tri", 7, 1, 6)},
        "abc": lambda: {"a": col("gauss", 30, 4, 7), "b": col("gauss", 0, 1, 8), "c": col("gauss", 5, 0.01, 9), "weight": 0.5 + (np.arange(N) % 3),
                        "log_posterior": -np.arange(N) * 0.1},
        "wide": lambda: {f"w{k}": col("gauss", k - 4, 10.0 ** (k % 4 - 2), 12 + k) for k in (3, 11, 0, 7, 2, 9, 1, 10, 5, 8, 4, 6)},
        "modes": lambda: {"a": mixture_ppf(((1, -5, 1), (1, 5, 1)), (np.arange(N) + 0.5) / N)[scramble(N, 10)], "c": col("gauss", -2, 0.3, 11)},
    }[kind]())


def chain(kind, name):
    kw = {}
    if kind == "modes":
        kw = dict(multimodal=True)
    if kind == "bc":
        kw = dict(statistics=S.MEAN)
    if kind == "hidden":
        return Chain(samples=data("abc") + 3, name=name, plot_contour=False)
    return Chain(samples=data(kind), name=name, **kw)


def add(cc, kind, name):
    if kind == "marker":
        cc.add_marker({"b": 2.5, "d": 0.0}, name)
    else:
        cc.add_chain(chain(kind, name))


@functools.lru_cache(None)
def solo(kind, name, override):
    """Cell text per parameter, from a consumer holding nothing else."""
    cc = ChainConsumer()
    add(cc, kind, name)
    if override:
        cc.set_override(ChainConfig(**dict(override)))
    s = cc.analysis.get_summary()[name]
    return {p: cc.analysis.get_parameter_text(b, wrap=True) for p, b in s.items()}


KINDS = ("ab", "bc", "ca", "abc", "modes", "marker", "hidden")
NAMES = {"plain": ("A", "B", "C", "D"), "odd": ("5% $\\Lambda$CDM", "B %s", "C_2", ""), "other letters": ("ΛCDM", "Süd–Nord", "模型", "\U0001d6fc")}
MANY = tuple(f"Model {k}" for k in (5, 2, 10, 1, 9, 3, 8, 4, 7, 6, 11))


MIXES = (("ab", "bc", "modes"), ("abc", "marker"), ("ca",), ("hidden", "modes", "ab"))


def gen_sets(ch):
    n = ch.pick("chains", (2, 3, 1), free=True)
    return gen(ch, [ch.pick(f"kind{i}", KINDS if i < 2 else KINDS[:1] + KINDS[3:5], free=True) for i in range(n)], small=True)


CROWDS = (("ab",) * 11, ("wide",), ("wide", "abc", "wide"), ("abc", "ab", "marker", "bc", "modes", "ca", "hidden", "abc", "bc"), ("wide", "ab", "marker", "ca", "modes", "wide"))


def gen_large(ch):
    return gen(ch, list(ch.pick("crowd", CROWDS, free=True)))


def gen_options(ch):
    return gen(ch, list(ch.pick("mix", MIXES, free=True)))


class Plain:
    """Takes the default for every choice."""

    def pick(self, name, options, free=False):
        return list(options)[0]

    def flag(self, name, free=False):
        return False


def gen(ch, kinds, small=False):
    ch2 = Plain() if small else ch
    return dict(kinds=kinds,
                select=ch.pick("select", (None, "reversed names", "objects", "mixed", "last")),
                columns=ch.pick("columns", (None, ("a", "b", "c"), ("c", "a"), ("b",), ("b", "zz", "a"), ("d", "c"))),
                transpose=ch.flag("transpose"), hlines=not ch2.flag("no hlines"), blank=ch2.pick("blank", (None, "n/a 100%", "")),
                text=ch2.pick("text", (None, ("", ""), ("Fit of $x_{i}$ at 68%", "tab:%d_x"), (None, "t"), ("{\\bf bold} %s", "a b"), ("Größe π", "tab:Σ"))),
                labels=ch2.pick("labels", (None, {"a": "$\\alpha$", "zz": "Z %"}, {"a": "b", "b": "a", "c": "C"})),
                blind=ch.pick("blind", (None, True, ["a"], ["c", "zz"], [])), names=ch2.pick("names", ("plain", "odd", "other letters")),
                file=ch2.pick("file", (None, "str", "path", "existing")), override=ch2.pick("override", (None, (("statistics", S.CUMULATIVE), ("summary_area", 0.5), ("multimodal", False)))))


def norm(s):
    return " ".join(s.split())


def run(case, p):
    cc = ChainConsumer()
    names = (NAMES[case["names"]] + MANY)[: len(case["kinds"])]
    for k, nm in zip(case["kinds"], names):
        add(cc, k, nm)
    if case["override"]:
        cc.set_override(ChainConfig(**dict(case["override"])))
    cfg = {}
    if case["labels"] is not None:
        cfg["labels"] = dict(case["labels"])
    if case["blind"] is not None:
        cfg["blind"] = case["blind"]
    if cfg:
        cc.set_plot_config(PlotConfig(**cfg))
    order = list(range(len(names)))
    kw = {}
    s = case["select"]
    if s == "reversed names":
        order = order[::-1]
        kw["chains"] = [names[i] for i in order]
    elif s == "objects":
        kw["chains"] = [cc.get_chain(names[i]) for i in order]
    elif s == "mixed":
        order = order[1:] + order[:1]
        kw["chains"] = [names[i] if i % 2 else cc.get_chain(names[i]) for i in order]
    elif s == "last":
        order = order[-1:]
        kw["chains"] = [names[order[0]]]
    order = [i for i in order if case["kinds"][i] != "hidden"]
    cells = {i: solo(case["kinds"][i], names[i], case["override"]) for i in order}
    cols = list(case["columns"]) if case["columns"] else list(dict.fromkeys(c for i in order for c in cells[i]))
    if case["columns"]:
        kw["columns"] = list(case["columns"])
    blind = set(cols) if case["blind"] is True else set(case["blind"] or [])
    shown = [c for c in cols if c not in blind]
    if case["transpose"]:
        kw["transpose"] = True
    if not case["hlines"]:
        kw["hlines"] = False
    blank = "--"
    if case["blank"] is not None:
        blank = kw["blank_fill"] = case["blank"]
    cap, lab = "", "tab:model_params"
    if case["text"] is not None:
        cap, lab = case["text"]
        kw |= dict(caption=cap, label=lab)
        cap, lab = cap or "", lab or ""
    path = None
    if case["file"]:
        path = os.path.join(env.SCRATCH, f"table-{os.getpid()}.tex")
        if case["file"] == "existing":
            with open(path, "w") as f:
                f.write("old " * 5000)
        kw["filename"] = Path(path) if case["file"] == "path" else path
    text = cc.analysis.get_latex_table(**kw)
    p.op()
    p.obs(text)
    if path:
        with open(path, newline="") as f:
            p.equal(f.read(), text, "file content")
        os.remove(path)
    t = Table(text)
    p.expect(t.ok, "table structure", text, stop=True)
    p.equal((t.caption, t.label), (cap, lab), "caption/label")
    lab_of = lambda c: (case["labels"] or {}).get(c, c)  # noqa: E731
    head = ["Parameter", *[names[i] for i in order]] if case["transpose"] else ["Model", *[lab_of(c) for c in shown]]
    body = []
    if case["transpose"]:
        body = [[lab_of(c), *[cells[i].get(c, blank) for i in order]] for c in shown]
    else:
        body = [[names[i], *[cells[i].get(c, blank) for c in shown]] for i in order]
    want = [[norm(x) for x in r] for r in [head, *body]]
    got = [[norm(x) for x in r] for r in t.rows]
    p.equal(t.spec, "c" * len(head), "column specification")
    p.equal(len(got), len(want), "rows", text)
    p.equal(got[:1], want[:1], "header", text)
    for g, w in zip(got[1:], want[1:]):
        p.equal(g, w, "row", text)
    p.equal(t.hlines, [0, 2, len(want) + 2] if case["hlines"] else [], "rules", text)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("sets", gen_sets, run, bound=1 if q else 2, note="every mix of one to three chains (missing columns, multimodal, marker, hidden) x selection, columns, transpose, blinding"),
        Space("options", gen_options, run, bound=2 if q else 4, note="every combination of table and plot-configuration options, up to the bound, on four fixed mixes"),
        Space("large", gen_large, run, bound=1 if q else 2, note="up to eleven chains and up to sixteen parameters x table and plot-configuration options"),
    ]
