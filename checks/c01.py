"""C01: chains form an insertion-ordered collection keyed by unique name."""
import functools
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.latex import Table
from mc.scene import panels

ASSUMPTIONS = ["operations touch at most five names; the collection treats names uniformly"]
N = 240


def frame(shift, cols, seed):
    d = {c: shift + (k + 1) * quantile_sample(("gauss", "skew")[k % 2], N)[scramble(N, seed + k)] for k, c in enumerate(cols)}
    df = pd.DataFrame(d)
    df["log_posterior"] = -0.5 * ((df[cols[0]] - shift) ** 2) - seed
    return df


SPEC = {  # variant -> (name, columns, shift, seed)
    "A": ("A", ("x", "y"), 0.0, 1), "A2": ("A", ("x", "z"), 50.0, 2), "B": ("B", ("y", "x"), -20.0, 3), "C": ("C", ("z",), 7.0, 4),
    "D": ("D", ("y", "x"), -20.0, 3),  # the same samples and settings as B
    "E": ("5% é", ("x",), 3.0, 5),
    "F": ("A ", ("y",), 11.0, 6), "G": ("a", ("x", "y"), -4.0, 7), "H": (" A", ("z", "y"), 1.0, 8), "I": ("", ("x",), 2.0, 9), "J": ("1", ("x",), 5.0, 10), "K": ("A", ("x",), 5.0, 11), "L": ("B, A", ("x",), 5.0, 12),
}

CROWD = 16
SPEC |= {f"n{k}": (f"n{k}", (("x", "y"), ("y",), ("z", "x"), ("u", "v", "x"))[k % 4], 2.0 * k - 9, 20 + k) for k in range(CROWD)}


def make(v):
    name, cols, shift, seed = SPEC[v]
    return Chain(samples=frame(shift, cols, seed), name=name, walkers=4, statistics=S.CUMULATIVE, num_free_params=2 + seed, num_eff_data_points=50)


MARK = {"x": 1.25, "y": -3.0}


SETTINGS = dict(summary_area=0.4, statistics=S.MEAN)  # of the override in some histories


@functools.lru_cache(None)
def facts(v, override=False):
    """What a consumer holding only this chain reports."""
    cc = ChainConsumer()
    if override:
        cc.set_override(ChainConfig(**SETTINGS))
    if v == "M":
        cc.add_marker(MARK, "M")
        nm = "M"
    else:
        cc.add_chain(make(v))
        nm = SPEC[v][0]
    s = cc.analysis.get_summary()[nm]
    return dict(name=nm, cols=list(cc.get_chain(nm).data_columns), summary={k: b.array for k, b in s.items()},
                text={k: cc.analysis.get_parameter_text(b, wrap=True) for k, b in s.items()}, best=dict(cc.analysis.get_max_posteriors()[nm].coordinate),
                gr=None if v == "M" else cc.diagnostic.gelman_rubin().results[nm])


OPS = ("+A", "+B", "+M", "+A2", "-A", "-B obj", "-M", "-zz", "+C", "-C", "-A obj", "+E", "-E", "-new obj", "+A same", "+D")


def apply(cc, model, op, p):
    """Apply one operation to the real collection and the model; returns False on a wrong verdict."""
    p.op()
    if op.startswith("+"):
        v = op[1:].removesuffix(" same")
        name = "M" if v == "M" else SPEC[v][0]
        c = None if v == "M" else model[name][1] if op.endswith(" same") and name in model else make(v)
        act = (lambda: cc.add_marker(dict(MARK), "M")) if v == "M" else (lambda: cc.add_chain(c))
        if name in model:
            p.raises(act, "duplicate name accepted", op)
        else:
            r = act()
            p.expect(r is cc, "add does not return the consumer", op)
            model[name] = (v, c)
        return
    t = op[1:]
    if t == "zz":
        p.raises(lambda: cc.remove_chain("zz"), "removed unknown name", op)
        return
    if t == "new obj":
        c = Chain(samples=frame(0, ("x",), 9), name="never added")
        p.raises(lambda: cc.remove_chain(c), "removed unknown chain", op)
        return
    name = {"A": "A", "B obj": "B", "M": "M", "C": "C", "A obj": "A", "E": "5% é"}[t]
    if name not in model:
        p.raises(lambda: cc.remove_chain(name), "removed unknown name", op)
        return
    arg = model[name][1] if t.endswith("obj") else name
    r = cc.remove_chain(arg)
    p.expect(r is cc, "remove does not return the consumer", op)
    del model[name]


def observe(cc, model, p, subset=None, form="names", override=False):
    """Compare every non-plotting observer with the model."""
    names = list(model)
    p.equal(cc.get_names(), names, "names")
    for n, (v, c) in model.items():
        got = cc.get_chain(n)
        p.expect(got.name == n and (c is None or got is c), "lookup", n)
    for n in ("A", "B", "C", "M", "", "zz"):
        if n not in model:
            p.raises(lambda n=n: cc.get_chain(n), "lookup of unknown name", n)
    sel = names if subset is None else subset
    arg = None
    if subset is not None:
        arg = {"names": list(sel), "objects": [cc.get_chain(n) for n in sel], "mixed": [n if i % 2 else cc.get_chain(n) for i, n in enumerate(sel)],
               "dict": {n: cc.get_chain(n) for n in sel}}[form]
    kw = {} if arg is None else {"chains": arg}
    fs = {n: facts(model[n][0], override) for n in names}
    if not names:
        p.equal(dict(cc.analysis.get_summary()), {}, "summary of nothing")
        p.equal(dict(cc.analysis.get_max_posteriors()), {}, "best fit of nothing")
        p.obs("empty")
        return
    s = cc.analysis.get_summary(**kw)
    p.equal(list(s), sel, "summary names", form)
    for n in s:
        p.equal(sorted(s[n]), sorted(fs[n]["summary"]), "summary parameters", n)
        for k in s[n]:
            p.close(s[n][k].array, fs[n]["summary"][k], 1e-9, "summary values", f"{n} {k}", rel=1e-9)
    if form != "dict":
        t = Table(cc.analysis.get_latex_table(**kw))
        cols = list(dict.fromkeys(c for n in sel for c in fs[n]["cols"]))
        p.equal([r[0] for r in t.rows[1:]], [n.strip() for n in sel], "table rows")
        p.equal(t.rows[0], ["Model", *cols], "table header")
        for r, n in zip(t.rows[1:], sel):
            p.equal(r[1:], [fs[n]["text"].get(c, "--") for c in cols], "table cells", n)
    if form in ("names", "dict"):
        m = cc.analysis.get_max_posteriors(**kw)
        p.equal(list(m), sel, "best-fit names")
        for n in m:
            p.equal(dict(m[n].coordinate), fs[n]["best"], "best-fit point", n)
    walk = [n for n in sel if n != "M"]
    if form != "dict" and walk == sel:
        g = cc.diagnostic.gelman_rubin(**kw)
        p.equal(dict(g.results), {n: fs[n]["gr"] for n in sel}, "gelman-rubin")
        p.equal(list(g.results), sel, "gelman-rubin order")
    if subset is None:
        withk = [n for n in names if n != "M"]
        for c in ("aic", "bic"):
            p.equal(list(getattr(cc.comparison, c)()), withk, f"{c} names")
        p.equal(list(cc.comparison.dic()), names, "dic names")
        if withk:
            t = Table(cc.comparison.comparison_table())
            p.equal(sorted(r[0] for r in t.rows[1:]), sorted(names), "comparison table rows")
    p.op(8)
    p.obs(sel, form)


def gen_hist(depth, nops, override=None):
    def gen(ch):
        d = ch.pick("depth", tuple(range(1, depth + 1)), free=True)
        return dict(override=override, ops=[ch.pick(f"op{i}", OPS[:nops], free=True) for i in range(d)])
    return gen


def run_hist(case, p):
    cc, model = ChainConsumer(), {}
    over = lambda: cc.set_override(ChainConfig(**SETTINGS))  # noqa: E731
    if case["override"] == "first":
        over()
    for op in case["ops"]:
        apply(cc, model, op, p)
        if case["override"] == "after one" and "done" not in case:
            over()
            case = case | {"done": True}
    observe(cc, model, p, override=case["override"] is not None)


STATES = (("A", "F", "G"), ("F", "H", "A"), ("J", "L", "A"), ("G", "B", "A", "L"), ("A", "B"), ("B", "A"), ("A", "B", "M"), ("M", "A2", "C"), ("C", "E", "B"), ("A", "B", "C", "M"), ("E",))


def orderings(names):
    for r in range(1, len(names) + 1):
        yield from itertools.permutations(names, r)


def gen_subset(ch):
    st = ch.pick("state", STATES)
    names = ["M" if v == "M" else SPEC[v][0] for v in st]
    return dict(state=st, subset=list(ch.pick("subset", list(orderings(names)))), form=ch.pick("form", ("names", "objects", "mixed", "dict")))


def run_subset(case, p):
    cc, model = ChainConsumer(), {}
    for v in case["state"]:
        apply(cc, model, "+" + v, p)
    observe(cc, model, p, case["subset"], case["form"])


def gen_crowd(ch):
    size = ch.pick("size", (CROWD, 11), free=True)
    return dict(size=size, remove=[ch.pick(f"remove{i}", range(size), free=True) for i in range(2)], by=ch.pick("by", ("name", "object")), back=ch.pick("added back", ("neither", "second", "both")),
                subset=ch.pick("subset", (None, "reversed", "every other", "rotated")), form=ch.pick("form", ("names", "objects", "mixed")))


def run_crowd(case, p):
    """A large collection: two removals by any name, perhaps adding them again at the end."""
    cc, model = ChainConsumer(), {}
    for k in range(case["size"]):
        apply(cc, model, f"+n{k}", p)
    for k in case["remove"]:
        n = f"n{k}"
        p.op()
        if n not in model:
            p.raises(lambda n=n: cc.remove_chain(n), "removed unknown name", n)
            continue
        cc.remove_chain(n if case["by"] == "name" else model[n][1])
        del model[n]
    for k in {"neither": [], "second": case["remove"][1:], "both": case["remove"]}[case["back"]]:
        apply(cc, model, f"+n{k}", p)
    names = list(model)
    sub = {None: None, "reversed": names[::-1], "every other": names[1::2], "rotated": names[7:] + names[:7]}[case["subset"]]
    if sub is None and case["by"] == "name" and case["back"] == "neither":
        p.equal(cc.get_names(), names, "names")
        for n, (_, c) in model.items():
            p.expect(cc.get_chain(n) is c, "lookup", n)
        p.equal(list(cc.comparison.dic()), names, "dic names")
        p.obs(names)
        return
    observe(cc, model, p, sub, case["form"])


def gen_plots(ch):
    return dict(ops=ch.pick("ops", (("+A", "+B"), ("+A", "+B", "-A"), ("+A", "+B", "-A", "+A2"), ("+M", "+B", "+C", "-M", "+M"), ("+A", "+C", "+B", "-C"),
                                    ("+A", "+A2", "+B", "-zz"), ("+B", "+E", "+M", "-B obj"))),
                plot=ch.pick("plot", ("plot", "summary", "walks", "distributions")), subset=ch.pick("subset", (None, "reversed", "last", "objects reversed")))


def run_plots(case, p):
    cc, model = ChainConsumer(), {}
    for op in case["ops"]:
        apply(cc, model, op, p)
    names = list(model)
    kw = {}
    sel = names
    if case["subset"]:
        sel = names[-1:] if case["subset"] == "last" else names[::-1]
        kw["chains"] = [cc.get_chain(n) for n in sel] if case["subset"].startswith("objects") else list(sel)
    cols = list(dict.fromkeys(c for n in sel for c in facts(model[n][0])["cols"]))
    has = {n: set(facts(model[n][0])["cols"]) for n in sel}
    pl = cc.plotter
    p.op()
    contour = [n for n in sel if n != "M"]
    if case["plot"] == "plot":
        if len(cols) == 1 or not contour:
            cols = cols[:1]
        from chainconsumer import PlotConfig
        cc.set_plot_config(PlotConfig(show_legend=True))
        fig = pl.plot(**kw)
        ps = panels(fig)
        leg = next(q.ax.get_legend() for q in ps if q.ax.get_legend() is not None)
        p.equal([t.get_text().strip() for t in leg.get_texts()], sel, "chains in legend")
        n = len(fig.axes)
        k = int(round(n ** 0.5))
        for i in range(k):
            diag = ps[i * k + i]
            col = list(dict.fromkeys(c for m in sel for c in facts(model[m][0])["cols"]))[i]
            p.equal(len(diag.curves), sum(col in has[m] for m in contour), "marginals", col)
    elif case["plot"] == "summary":
        fig = pl.plot_summary(**kw)
        ps = panels(fig)
        w = len(cols) + 1
        p.equal([ps[r * w].texts for r in range(len(sel))], [[n] if n else [] for n in sel], "rows")
        p.equal(len(ps), w * len(sel), "cells")
    elif case["plot"] == "walks":
        fig = pl.plot_walks(**kw)
        ps = panels(fig)[-len(cols):]
        for q, c in zip(ps, cols):
            want = [n for n in sel if c in has[n]]
            p.equal(len(q.scatters), len(want), "walks", c)
            for s, n in zip(q.scatters, want):
                data = MARK[c] if n == "M" else model[n][1].get_data(c).to_numpy()
                p.close(s.xy[:, 1], np.atleast_1d(data), 0, "walk data", f"{n} {c}")
    else:
        fig = pl.plot_distributions(**kw)
        ps = panels(fig)
        for q, c in zip(ps, cols):
            p.equal(q.xlabel, c, "panel label")
            p.equal(len(q.curves), sum(c in has[n] for n in contour), "marginals", c)
    p.obs(case["ops"], sel)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("histories", gen_hist(3, len(OPS)), run_hist, note="every history of up to three of sixteen add/add-marker/remove operations, all observers in every reached state"),
        Space("deeper histories", gen_hist(4 if q else 5, 6 if q else 8), run_hist, note="every history of up to four (thorough: five) operations over a smaller alphabet"),
        Space("overridden histories", gen_hist(3, 6 if q else 9, "first"), run_hist, note="histories after an override is set"),
        Space("late overrides", gen_hist(3, 6 if q else 9, "after one"), run_hist, note="histories with the override set after the first operation"),
        Space("subsets", gen_subset, run_subset, note="every ordered subset of seven collections x request form"),
        Space("crowd", gen_crowd, run_crowd, bound=1 if q else 2, note="eleven and sixteen chains, every pair of removals x re-adding, subsets and forms"),
        Space("plots", gen_plots, run_plots, note="which chains every plot type draws after a history"),
    ]
