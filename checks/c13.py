"""C13: AIC, BIC and DIC follow their formulas and rank models correctly."""
import math

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer

from mc.engine import Space
from mc.latex import Table

ASSUMPTIONS = [
    "DIC takes the deviance at the posterior mean from the sample nearest to it, as the code documents by construction; sample sets have a unique nearest sample",
    "the number of data points differs from the number of parameters plus one (the AICc correction is singular there)",
]


def samples(kind, ndim, weights, post, wname="weight", pname="log_posterior", index="default", unit=1.0):
    i = np.arange(13)
    cols = {}
    for d in range(ndim):
        cols[f"p{d}"] = np.sin(1.1 * i * (d + 1) + d) * (1 + d) + 0.05 * i + {"A": 0, "B": 2.0, "C": -7.0}[kind]
    df = pd.DataFrame(cols)
    r2 = sum((df[c] - df[c].mean()) ** 2 for c in cols)
    if post == "gauss":
        df[pname] = -0.5 * r2
    elif post == "offset":
        df[pname] = 25.0 - 0.5 * r2
    elif post == "steep":
        df[pname] = -3.0 * r2 - 100
    elif post == "const":
        df[pname] = -4.0
    elif post == "last":
        df[pname] = -20.0 + i * 1.5
    if weights != "unit":
        df[wname] = {"varied": 0.3 + (i * 5 % 7), "edge": np.where(i == 12, 30.0, 0.5), "tiny": 1e-4 * (1 + i % 2)}[weights]
    df["p0"] *= unit  # nearness is not relative to the spread of each parameter
    if index == "shifted":
        df.index = df.index[::-1] + 4
    return df


def build(spec):
    kind, ndim, weights, post, n, k, wname, pname, index, unit = (spec[x] for x in ("kind", "ndim", "weights", "post", "n", "k", "wname", "pname", "index", "unit"))
    df = samples(kind, ndim, weights, post, wname, pname, index, unit)
    kw = dict(num_eff_data_points=n, num_free_params=k, posterior_column=pname)
    if weights != "unit":
        kw["weight_column"] = wname
    return df, kw


def reference(df, spec):
    w = df[spec["wname"]].to_numpy() if spec["weights"] != "unit" else np.ones(len(df))
    out = {}
    if spec["post"] == "none":
        return out
    p = df[spec["pname"]].to_numpy()
    if spec["n"] is not None and spec["k"] is not None:
        N, k = spec["n"], spec["k"]
        out["bic"] = k * math.log(N) - 2 * p.max()
        out["aic"] = -2 * p.max() + 2 * k + 2.0 * k * (k + 1) / (N - k - 1)
    X = np.array([df[c] for c in df.columns if c.startswith("p") and c not in (spec["pname"],)]).T
    mean = (w[:, None] * X).sum(0) / w.sum()
    dev = -2 * p
    near = dev[np.argmin(((X - mean) ** 2).sum(1))]
    dbar = (w * dev).sum() / w.sum()
    out["dic"] = 2 * dbar - near
    return out


def spec(ch, tag, kind):
    return dict(kind=kind, ndim=ch.pick(f"{tag}.ndim", (2, 1, 3)), weights=ch.pick(f"{tag}.weights", ("unit", "varied", "edge", "tiny")),
                post=ch.pick(f"{tag}.post", ("gauss", "none", "offset", "steep", "const", "last")),
                n=ch.pick(f"{tag}.n", (40, None, 12, 1000.5, 3)), k=ch.pick(f"{tag}.k", (3, None, 0, 1, 8)),
                wname=ch.pick(f"{tag}.wname", ("weight", "mult")), pname=ch.pick(f"{tag}.pname", ("log_posterior", "lnp")),
                index=ch.pick(f"{tag}.index", ("default", "shifted")), unit=ch.pick(f"{tag}.unit", (1.0, 1e5, 1e-4)))


def gen(ch):
    m = ch.pick("models", (2, 1, 3), free=True)
    return dict(models=[spec(ch, f"m{i}", "ABC"[i]) for i in range(m)], extra=ch.pick("query", ("plain", "twice", "removed")))


def gen_many(ch):
    m = ch.pick("models", (4, 7, 13), free=True)
    j = ch.pick("odd one", range(m), free=True)
    odd = spec(ch, "odd", "ABC"[j % 3])
    models = [dict(kind="ABC"[i % 3], ndim=1 + i % 4, weights=("unit", "varied", "edge", "tiny")[i % 4], post=("gauss", "offset", "steep", "last", "const")[i % 5], n=(40, 100, 25, 1000.5)[i % 4], k=i % 6,
                   wname="weight", pname="log_posterior", index="default", unit=1.0) for i in range(m)]
    models[j] = odd
    return dict(models=models, extra=ch.pick("query", ("plain", "twice", "removed")))


def relative(vals):
    if not vals:
        return {}
    lo = min(vals.values())
    return {k: v - lo for k, v in vals.items()}


def expected(specs, names, dfs):
    refs = {n: reference(df, s) for n, s, df in zip(names, specs, dfs)}
    return {c: relative({n: r[c] for n, r in refs.items() if c in r}) for c in ("aic", "bic", "dic")}


def run(case, p):
    cc = ChainConsumer()
    names, dfs = [], []
    for i, s in enumerate(case["models"]):
        df, kw = build(s)
        names.append(f"model {i}")
        dfs.append(df)
        cc.add_chain(Chain(samples=df, name=names[-1], **kw))
    if case["extra"] == "removed":
        df = samples("A", 2, "unit", "offset")
        df["log_posterior"] += 1000
        cc.add_chain(Chain(samples=df, name="best of all", num_eff_data_points=10, num_free_params=1))
        cc.comparison.aic()
        cc.remove_chain("best of all")
    want = expected(case["models"], names, dfs)
    for c in ("aic", "bic", "dic"):
        fn = getattr(cc.comparison, c)
        if case["extra"] == "twice":
            fn()
            p.op()
        got = fn()
        p.op()
        p.equal(list(got), [n for n in names if n in want[c]], f"{c} models", f"{got}")
        for n in got:
            if n in want[c]:
                p.close(got[n], want[c][n], 1e-8, f"{c} value", n, rel=1e-10)
        if got:
            p.expect(min(got.values()) == 0, f"{c} best is zero", got)
        p.obs(c, {k: round(float(v), 6) for k, v in got.items()})


TABLE_SPECS = {
    "full": lambda: [("gauss", 40, 3, "unit"), ("steep", 40, 1, "unit"), ("offset", 100, 5, "varied")],
    "partial": lambda: [("gauss", None, 3, "unit"), ("steep", 40, 1, "unit"), ("none", 40, 3, "unit")],
    "dic only": lambda: [("gauss", None, None, "unit"), ("offset", None, None, "unit")],
    "nothing": lambda: [("none", None, None, "unit")],
    "one": lambda: [("gauss", 40, 3, "unit")],
    "dozen": lambda: [(("gauss", "steep", "offset", "last", "none", "const")[i % 6], (40, 100, None, 25)[i % 4], (3, 1, 5, 2, 4)[i % 5], ("unit", "varied", "edge")[i % 3]) for i in range(13)],
    "percent": lambda: [("gauss", 40, 3, "unit"), ("offset", 40, 3, "unit")],
}


def gen_table(ch):
    return dict(set=ch.pick("set", list(TABLE_SPECS)), aic=not ch.flag("no aic"), bic=not ch.flag("no bic"), dic=not ch.flag("no dic"),
                sort=ch.pick("sort", ("bic", "aic", "dic", None)), descending=not ch.flag("ascending"), hlines=not ch.flag("no hlines"),
                text=ch.pick("text", (None, ("", ""), (None, None), ("Größe", None), ("Cap 95% $x$", "tab:a"))))


def run_table(case, p):
    cc = ChainConsumer()
    names, specs, dfs = [], [], []
    for i, (post, n, k, w) in enumerate(TABLE_SPECS[case["set"]]()):
        s = dict(kind="ABC"[i % 3], ndim=2 + (i > 3), weights=w, post=post, n=n, k=k, wname="weight", pname="log_posterior", index="default", unit=1.0)
        df, kw = build(s)
        nm = f"{'5%s ' if case['set'] == 'percent' else ''}m{i}"
        cc.add_chain(Chain(samples=df, name=nm, **kw))
        names.append(nm)
        specs.append(s)
        dfs.append(df)
    kw = dict(aic=case["aic"], bic=case["bic"], dic=case["dic"], descending=case["descending"], hlines=case["hlines"])
    sort = case["sort"]
    if sort is not None:
        kw["sort"] = sort
    sort = sort or "bic"
    cap, lab = "", "tab:model_comp"
    if case["text"]:
        cap, lab = case["text"]
        kw |= dict(caption=cap, label=lab)
        cap, lab = cap or "", lab or ""
    p.op()
    if not kw[sort]:
        p.raises(lambda: cc.comparison.comparison_table(**kw), "sort by disabled criterion", sort)
        return
    text = cc.comparison.comparison_table(**kw)
    p.obs(text)
    want = expected(specs, names, dfs)
    crit = [c for c in ("aic", "bic", "dic") if kw[c]]
    t = Table(text)
    p.expect(t.ok, "table structure", text, stop=True)
    p.equal((t.caption, t.label), (cap, lab), "caption/label")
    p.equal(t.columns, 1 + len(crit), "column specification", t.spec)
    p.equal(len(t.hlines), 3 if case["hlines"] else 0, "rules", text)
    p.equal(t.rows[0], ["Model", *[c.upper() for c in crit]], "header")
    shown = [r[0] for r in t.rows[1:]]
    rows = {n for c in crit for n in want[c]}
    p.equal(sorted(shown), sorted(rows), "models listed")
    vals = [want[sort].get(n, math.nan) for n in shown]
    num = [v for v in vals if not math.isnan(v)]
    p.equal(num, sorted(num, reverse=case["descending"]), "row order", text)
    p.expect(not any(math.isnan(v) for v in vals[: len(num)]), "missing values last", text)
    for r in t.rows[1:]:
        p.equal(len(r), 1 + len(crit), "row length", r)
        for c, cell in zip(crit, r[1:]):
            v = want[c].get(r[0], math.nan)
            if math.isnan(v):
                p.expect("nan" in cell or cell in ("", "--", "-"), "missing cell", cell)
            else:
                ok = False
                try:
                    ok = abs(float(cell) - v) <= 0.0501
                except ValueError:
                    pass
                p.expect(ok, "cell", f"{r[0]} {c} shows {cell} for {v}")


def spaces(tier):
    b = 2 if tier == "quick" else 4
    return [
        Space("criteria", gen, run, bound=b, note="one to three models; each ingredient present/missing/varied"),
        Space("many", gen_many, run, bound=1 if tier == "quick" else 2, note="up to thirteen models of one to four parameters, one of them varied in every ingredient"),
        Space("table", gen_table, run_table, note="every table option combination x model sets"),
    ]
