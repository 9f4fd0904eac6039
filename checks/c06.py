"""C06: the best-fit point is the row with the highest posterior."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig

from mc.engine import Space
from mc.scene import panels, triangle

ASSUMPTIONS = ["row counts up to 40; values of parameters irrelevant to which row is selected"]
INDEX = {
    "default": lambda n: np.arange(n), "reversed": lambda n: np.arange(n)[::-1], "same": lambda n: np.zeros(n, int),
    "text": lambda n: [f"r{i % 3}" for i in range(n)], "offset": lambda n: np.arange(n) + 2, "float": lambda n: np.linspace(0, 1, n),
    "multi": lambda n: pd.MultiIndex.from_product([range(n), ["x"]]),
}
POST = {
    "negative": lambda n: -100.0 - 3 * (np.arange(n) * 5 % n), "positive": lambda n: 50.0 + (np.arange(n) * 5 % n), "huge": lambda n: -1e9 - 1e3 * (np.arange(n) * 5 % n),
    "flat": lambda n: np.full(n, -7.5), "tiny": lambda n: -1e-9 * (1 + np.arange(n) * 5 % n), "int": lambda n: -3 - (np.arange(n) * 5 % n),
}


def make(n, best, tie, post, index, weights=None, pname="log_posterior", order="params first", name="c", k=0, **kw):
    i = np.arange(n)
    lp = POST[post](n)
    if post != "flat":
        top = lp.max()
        step = max(abs(top) * 1e-3, 1e-10) if post != "int" else 2
        lp = lp.copy()
        for b in (best, tie):
            if b is not None:
                lp[b] = top + step
    cols = {"a": np.sin(i * 1.1 + k), "b": 10 + i * 1.0 + k, "c": np.cos(i * 2.3) * 1e-3 * (1 + k)}
    sp = {pname: lp}
    if weights:
        w = {"varied": 0.5 + (i * 3 % 5), "opposite": np.where(i == (best or 0), 1e-3, 10.0)}[weights]
        sp["weight"] = w
    cols = cols | sp if order == "params first" else sp | cols
    df = pd.DataFrame(cols)
    df.index = INDEX[index](n)
    if pname != "log_posterior":
        kw["posterior_column"] = pname
    return Chain(samples=df, name=name, **kw), df, int(np.argmax(lp))


def gen_row(ch):
    n = ch.pick("rows", (12, 1, 2, 40))
    return dict(n=n, best=ch.pick("best", tuple(range(n)), free=n <= 12), tie=ch.pick("tie", (None, n - 1, 0, n // 2)), post=ch.pick("post", list(POST)),
                index=ch.pick("index", list(INDEX), free=True), weights=ch.pick("weights", (None, "varied", "opposite")), pname=ch.pick("pname", ("log_posterior", "lnp", "posterior")),
                order=ch.pick("order", ("params first", "specials first")), shift=ch.flag("shift"), cloud=ch.pick("coloured", (None, "cloud", "no cloud")))


def run_row(case, p):
    kw = {}
    if case["shift"]:
        kw["shift_params"] = True
    if case["cloud"]:
        kw |= dict(plot_cloud=case["cloud"] == "cloud", color_param="b")
    c, df, r = make(case["n"], case["best"], case["tie"], case["post"], case["index"], case["weights"], case["pname"], case["order"], **kw)
    want = {x: float(df[x].iloc[r]) for x in ("a", "b", "c")}
    if case["shift"]:
        w = df["weight"].to_numpy() if case["weights"] else np.ones(len(df))
        want = {x: v - (df[x].to_numpy() * w).sum() / w.sum() for x, v in want.items()}
    if case["cloud"] == "cloud":
        del want["b"]
    mp = c.get_max_posterior_point()
    p.op()
    p.equal(list(mp.coordinate), list(want), "parameters")
    p.close(mp.log_posterior, df[case["pname"]].iloc[r], 0, "log posterior", f"row {r}")
    for x, v in want.items():
        p.close(mp.coordinate[x], v, 1e-12 if case["shift"] else 0, "coordinate", x)
    p.close(mp.vec_coordinate, list(want.values()), 1e-12, "vector coordinate")
    got = ChainConsumer().add_chain(c).analysis.get_max_posteriors()
    p.equal(list(got), ["c"], "names")
    p.equal(got["c"].coordinate, mp.coordinate, "get_max_posteriors")
    p.obs(r, mp.coordinate)


def gen_set(ch):
    n = ch.pick("chains", (3, 1, 2), free=True)
    return dict(post=[not ch.flag(f"no post {i}", free=True) for i in range(n)], kind=[ch.pick(f"kind {i}", ("chain", "marker", "skipped", "point"), free=True) for i in range(n)],
                ask=ch.pick("ask", ("all", "names", "reversed", "last", "first two", "dict")), override=ch.flag("override"))


def run_set(case, p):
    cc = ChainConsumer()
    want = {}
    names = [f"m{i}" for i in range(len(case["post"]))]
    for i, (has, kind) in enumerate(zip(case["post"], case["kind"])):
        if kind == "marker":
            cc.add_marker({"a": 1.0 + i, "c": -i * 2.0}, names[i])
            want[names[i]] = (1.0, {"a": 1.0 + i, "c": -i * 2.0})
            continue
        kw = {"skipped": dict(plot_contour=False), "point": dict(plot_point=True, plot_contour=False)}.get(kind, {})
        c, df, r = make(9, 3 + i, None, "negative", ("text", "offset", "reversed")[i], k=i)
        if not has:
            df = df.drop(columns=["log_posterior"])
        cc.add_chain(Chain(samples=df, name=names[i], **kw))
        if has:
            want[names[i]] = (df["log_posterior"].iloc[r], {x: float(df[x].iloc[r]) for x in ("a", "b", "c")})
    if case["override"]:
        cc.set_override(ChainConfig(plot_cloud=True, color_param="a"))
    ask = {"all": None, "names": names, "reversed": names[::-1], "last": names[-1:], "first two": names[:2],
           "dict": {n: cc.get_chain(n) for n in names[::-1]}}[case["ask"]]
    got = cc.analysis.get_max_posteriors() if ask is None else cc.analysis.get_max_posteriors(ask)
    p.op()
    order = names if ask is None else list(ask)
    p.equal(list(got), [n for n in order if n in want], "chains reported", case["ask"])
    for n in got:
        if n in want:
            p.close(got[n].log_posterior, want[n][0], 0, "log posterior", n)
            p.equal(dict(got[n].coordinate), want[n][1], "coordinate", n)
    p.obs([(n, dict(g.coordinate)) for n, g in got.items()])


def gen_plot(ch):
    return dict(best=ch.pick("best", (5, 0, 39)), index=ch.pick("index", ("offset", "text", "float")), mode=ch.pick("mode", ("point", "point+contour", "point+cloud")),
                cols=ch.pick("columns", (("a", "b", "c"), ("c", "a"), ("b", "c"))), weights=ch.pick("weights", (None, "opposite")), nopost=ch.flag("no posterior second chain"),
                override=ch.flag("override turns points on"), flip=ch.flag("flip"))


def run_plot(case, p):
    kw = dict(plot_point=True, plot_contour=case["mode"] == "point+contour", plot_cloud=case["mode"] == "point+cloud")
    if case["override"]:
        kw.pop("plot_point")
        if case["mode"] == "point":
            kw["plot_cloud"] = True
    c, df, r = make(40, case["best"], None, "negative", case["index"], case["weights"], **kw)
    cc = ChainConsumer().add_chain(c)
    if case["nopost"]:
        cc.add_chain(Chain(samples=df.drop(columns=["log_posterior"]) + 0.1, name="other", plot_contour=True, plot_point=True, smooth=1))
    if case["override"]:
        cc.set_override(ChainConfig(plot_point=True))
    cc.set_plot_config(PlotConfig(flip=case["flip"]))
    cols = list(case["cols"])
    fig = cc.plotter.plot(columns=cols)
    p.op()
    n = len(cols)
    grid, _ = triangle(fig, n)
    for i in range(n):
        for j in range(n):
            pts = [s for s in grid[i][j].scatters if len(s.xy) == 1]
            if i <= j:
                p.equal(len(pts), 0, "stray point", (i, j))
                continue
            p.equal(len(pts), 1, "points drawn", f"{cols[j]},{cols[i]}")
            if pts:
                p.close(pts[0].xy[0], [df[cols[j]].iloc[r], df[cols[i]].iloc[r]], 1e-12, "point location", f"{cols[j]},{cols[i]}")
                p.obs(pts[0].xy)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("row", gen_row, run_row, bound=2 if q else 4, note="every position of the maximum x ties x scale of the posterior x labels x weights x names"),
        Space("chain sets", gen_set, run_set, bound=1 if q else None, note="every mix of chains with/without posterior, markers and hidden chains x request form"),
        Space("plotted", gen_plot, run_plot, bound=2 if q else None, note="point artists in the triangle plot"),
    ]
