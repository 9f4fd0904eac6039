"""C14: convergence diagnostics follow their definitions for every chain set."""
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from scipy import stats

from mc.engine import Space

ASSUMPTIONS = [
    "the potential scale reduction is PyMC's (the code's stated source): V = (n-1)/n W + B/n + B/(nm)",
    "scipy.stats.normaltest is trusted; the spectral density estimate is re-derived (order-2 Yule-Walker, adjusted)",
    "thresholds are probed one part in a million (a thousand where the mean exceeds the spread by 1e6) to each side of the reference statistic, not at exact equality",
    "sequences too short for a positive Yule-Walker variance are outside the alphabet",
]
NOISE = [stats.norm.ppf((np.random.default_rng(31 + k).permutation(400) + 0.5) / 400) for k in range(40)]


def noise(k, n, ar=0.0):
    z = NOISE[k % 40][:n].copy()
    for i in range(1, n):
        z[i] += ar * z[i - 1]
    return z


def rhat(X, m):
    """X: (rows, params); worst-case potential scale reduction per parameter, by explicit loops."""
    N = len(X)
    n = N // m
    out = []
    for c in range(X.shape[1]):
        segs = [X[j * n:(j + 1) * n, c] for j in range(m)]
        means = [sum(s) / n for s in segs]
        grand = sum(means) / m
        B = n / (m - 1) * sum((mu - grand) ** 2 for mu in means)
        W = sum(sum((s - mu) ** 2) / (n - 1) for s, mu in zip(segs, means)) / m
        V = (n - 1) / n * W + B / n + B / (n * m)
        out.append(np.sqrt(V / W))
    return np.array(out)


class Degenerate(Exception):
    """The (adjusted) Yule-Walker variance estimate is not positive: the statistic is undefined."""


def spec0(x):
    n = len(x)
    x = x - x.mean()
    r = [float((x[: n - k] * x[k:]).sum()) / (n - k) for k in range(3)]
    det = r[0] ** 2 - r[1] ** 2
    b1 = (r[1] * r[0] - r[1] * r[2]) / det
    b2 = (r[0] * r[2] - r[1] ** 2) / det
    s2 = r[0] - b1 * r[1] - b2 * r[2]
    if s2 <= 0:
        raise Degenerate
    return s2 / (1 - b1 - b2) ** 2


def geweke_p(X, m, first, last):
    n = len(X) // m
    a, b = int(np.floor(first * n)), int(np.floor((1 - last) * n))
    z = []
    for j in range(m):
        for c in range(X.shape[1]):
            s = X[j * n:(j + 1) * n, c]
            e, q = s[:a], s[b:]
            z.append((e.mean() - q.mean()) / np.sqrt(spec0(e) / len(e) + spec0(q) / len(q)))
    return float(stats.normaltest(z)[1])


def make(cols, extra, index, name="c", walkers=1):
    df = pd.DataFrame({f"p{i}": v for i, v in enumerate(cols)})
    n = len(df)
    kw = {}
    if "weight" in extra:
        df.insert(1, "weight", 0.5 + (np.arange(n) * 7 % 11))
    if "post" in extra:
        df.insert(0, "log_posterior", np.linspace(-900, 50, n) ** 2 * -1e-3)
    if "named" in extra:
        df["mult"] = 1.0 + 1000.0 * (np.arange(n) < n // 2)
        kw["weight_column"] = "mult"
    if "plotted" in extra:
        kw["plot_contour"] = False
        kw["plot_point"] = True
    if "coloured" in extra:
        kw["plot_cloud"] = True
        kw["color_param"] = f"p{len(cols) - 1}"
    if index == "reversed":
        df.index = np.arange(n)[::-1]
    elif index == "same":
        df.index = np.zeros(n, int)
    elif index == "float":
        df.index = np.linspace(0, 1, n)
    elif index == "text":
        df.index = [f"r{i}" for i in range(n)]
    return Chain(samples=df, name=name, walkers=walkers, **kw)


def gen_gr(ch):
    ndim = ch.pick("ndim", (2, 1, 3))
    m = ch.pick("walkers", (4, 2, 3, 8))
    return dict(ndim=ndim, m=m, n=ch.pick("steps", (25, 3, 8, 50)),
                bad=ch.pick("bad parameter", tuple(range(ndim)) + (None,)),
                which=ch.pick("bad walker", (0, m - 1, m // 2)), offset=ch.pick("offset", (1.0, 0.0, 0.3, -4.0)), spread=ch.pick("spread", (1.0, 5.0, 0.1)),
                scale=ch.pick("scale", (1.0, 1e-6, 1e6)), mean=ch.pick("mean", (0.0, 1e3)), trend=ch.pick("trend", (0.0, 2.0)),
                extra=ch.pick("extra", ((), ("weight", "post"), ("named",), ("plotted",), ("coloured",))), index=ch.pick("index", ("default", "reversed", "same", "text", "float")))


def run_gr(case, p):
    m, n, ndim = case["m"], case["n"], case["ndim"]
    cols = []
    for d in range(ndim):
        segs = [noise(5 * d + j, n) for j in range(m)]
        if d == case["bad"]:
            segs[case["which"]] = segs[case["which"]] * case["spread"] + case["offset"]
        x = np.concatenate(segs) + case["trend"] * np.tile(np.linspace(0, 1, n), m)
        cols.append(case["mean"] + case["scale"] * x)
    X = np.array(cols).T
    cc = ChainConsumer().add_chain(make(cols, case["extra"], case["index"], walkers=m))
    dev = float(np.abs(rhat(X, m) - 1).max())
    p.obs(round(dev, 6))
    near = 1e-3 if case["mean"] > 1e6 * case["scale"] else 1e-6  # rounding of the moments themselves
    for th in (dev * (1 - near), dev * (1 + near), 0.05, 0.01, 1.0, 1e-9):
        if abs(dev - th) < 0.1 * near * th:
            continue
        r = cc.diagnostic.gelman_rubin(threshold=th)
        p.op()
        p.equal((bool(r), r.passed, dict(r.results)), (dev < th, dev < th, {"c": dev < th}), "gelman-rubin verdict", f"deviation {dev} threshold {th}")
    r = cc.diagnostic.gelman_rubin()
    p.equal(r.passed, dev < 0.05, "gelman-rubin default threshold", dev)


def gen_gw(ch):
    return dict(shape=ch.pick("shape", ((8, 1), (4, 2), (3, 3), (20, 1), (5, 4))), n=ch.pick("steps", (200, 121, 120, 400)),
                first=ch.pick("first", (None, 0.2, 0.33, 0.5)), last=ch.pick("last", (None, 0.3, 0.5, 0.75)),
                drift=ch.pick("drift", (None, "one up", "one param", "late", "early only", "middle only")), size=ch.pick("size", (3.0, 30.0, -3.0)), ar=ch.pick("ar", (0.0, 0.7, -0.5)),
                scale=ch.pick("scale", (1.0, 1e-5)), extra=ch.pick("extra", ((), ("weight", "post"), ("named",), ("coloured",))),
                index=ch.pick("index", ("default", "reversed", "same", "float")))


def run_gw(case, p):
    (m, ndim), n = case["shape"], case["n"]
    cols = []
    t = np.arange(n) / n
    for d in range(ndim):
        segs = []
        for j in range(m):
            s = noise(7 * d + j, n, case["ar"])
            hit = {None: False, "one up": j == 0 and d == 0, "one param": d == ndim - 1, "late": j == m - 1, "early only": j == 1,
                   "middle only": j == 2 % m}[case["drift"]]
            if hit:
                prof = {"early only": t < 0.1, "middle only": (t > 0.25) & (t < 0.45)}.get(case["drift"], t)
                s = s + case["size"] * prof
            segs.append(s * case["scale"])
        cols.append(np.concatenate(segs))
    X = np.array(cols).T
    kw = {k: case[k] for k in ("first", "last") if case[k] is not None}
    try:
        pv = geweke_p(X, m, case["first"] or 0.1, case["last"] or 0.5)
    except Degenerate:
        return
    cc = ChainConsumer().add_chain(make(cols, case["extra"], case["index"], walkers=m))
    p.obs(float(f"{pv:.6g}"))
    for th in (pv * (1 - 1e-6), pv * (1 + 1e-6), 0.05, 0.5):
        if abs(pv - th) < 1e-7 * th:
            continue
        r = cc.diagnostic.geweke(threshold=th, **kw)
        p.op()
        p.equal((bool(r), r.passed, dict(r.results)), (pv > th, pv > th, {"c": pv > th}), "geweke verdict", f"p-value {pv} threshold {th}")
    p.equal(cc.diagnostic.geweke(**kw).passed, pv > 0.05, "geweke default threshold", pv)


QUALITY = {"good": (0.0, 0.0), "offset": (2.0, 0.0), "drift": (0.0, 60.0), "both": (2.0, 60.0)}


def quality(q, m, seed):
    off, dr = QUALITY[q]
    n = 200
    segs = [noise(seed + j, n) for j in range(m)]
    segs[0] = segs[0] + off + dr * np.arange(n) / n
    return [np.concatenate(segs), np.concatenate([noise(seed + 13 + j, n) for j in range(m)])]


def gen_many(ch):
    k = ch.pick("chains", (5, 9, 12), free=True)
    bad = ch.pick("failing", (None, 0, k // 2, k - 1, (1, 3), "all but one"), free=True)
    bad = () if bad is None else tuple(i for i in range(k) if i != 2) if bad == "all but one" else bad if isinstance(bad, tuple) else (bad,)
    return dict(quality=[ch.pick("how", ("offset", "drift"), free=True) if bad and i == bad[0] else "offset" if i in bad else "good" for i in range(k)], single=None,
                select=ch.pick("select", ("all", "names", "reversed", "subset"), free=True), walkers=4, override=False)


def gen_multi(ch):
    k = ch.pick("chains", (2, 3, 1), free=True)
    return dict(quality=[ch.pick(f"q{i}", list(QUALITY), free=True) for i in range(k)], single=ch.pick("single walker", (None, 0, k - 1)),
                select=ch.pick("select", ("all", "names", "objects", "mixed", "reversed", "first name", "last object", "subset", "one in list")),
                walkers=ch.pick("walkers", (4, 8)), override=ch.flag("override"))


def run_multi(case, p):
    k = len(case["quality"])
    cc = ChainConsumer()
    chains, datas, ms = [], [], []
    for i, q in enumerate(case["quality"]):
        m = case["walkers"]
        cols = quality(q, m, 3 * i)
        w = 1 if i == case["single"] else m
        c = make(cols, (), "default", f"chain {i}", w)
        cc.add_chain(c)
        chains.append(c)
        datas.append(np.array(cols).T)
        ms.append(w)
    if case["override"]:
        from chainconsumer import ChainConfig

        cc.set_override(ChainConfig(shade=True, bins=17))
    names = [c.name for c in chains]
    s = case["select"]
    ids = list(range(k))
    arg = None
    if s == "names":
        arg = list(names)
    elif s == "objects":
        arg = list(chains)
    elif s == "mixed":
        arg = [c if i % 2 else c.name for i, c in enumerate(chains)]
    elif s == "reversed":
        arg, ids = names[::-1], ids[::-1]
    elif s == "first name":
        arg, ids = names[0], [0]
    elif s == "last object":
        arg, ids = chains[-1], [k - 1]
    elif s == "subset":
        arg, ids = names[1:] or names, list(range(1, k)) or [0]
    elif s == "one in list":
        arg, ids = [names[-1]], [k - 1]
    kw = {} if arg is None else {"chains": arg}
    if any(ms[i] == 1 for i in ids):
        p.raises(lambda: cc.diagnostic.gelman_rubin(**kw), "single walker accepted", s)
    else:
        verdict = {names[i]: bool((np.abs(rhat(datas[i], ms[i]) - 1) < 0.05).all()) for i in ids}
        r = cc.diagnostic.gelman_rubin(**kw)
        p.op()
        p.equal(list(r.results.items()), list(verdict.items()), "gelman-rubin results", s)
        p.equal((r.passed, bool(r)), (all(verdict.values()),) * 2, "gelman-rubin overall", verdict)
        p.obs(verdict)
        pos = cc.diagnostic.gelman_rubin(*kw.values(), threshold=1e9)
        p.equal(dict(pos.results), {names[i]: True for i in ids}, "threshold reaches every chain", s)
    if all(ms[i] * 2 >= 8 for i in ids):
        for th in (0.05, 1e-12, 0.99):
            verdict = {names[i]: geweke_p(datas[i], ms[i], 0.1, 0.5) > th for i in ids}
            r = cc.diagnostic.geweke(threshold=th, **kw)
            p.op()
            p.equal(list(r.results.items()), list(verdict.items()), "geweke results", f"{s} {th}")
            p.equal((r.passed, bool(r)), (all(verdict.values()),) * 2, "geweke overall", verdict)
            p.obs(verdict)
        verdict = {names[i]: geweke_p(datas[i], ms[i], 0.25, 0.3) > 0.05 for i in ids}
        r = cc.diagnostic.geweke(first=0.25, last=0.3, **kw)
        p.equal(list(r.results.items()), list(verdict.items()), "geweke windows reach every chain", s)
    p.raises(lambda: cc.diagnostic.gelman_rubin("nobody"), "unknown chain accepted")


def spaces(tier):
    b = 2 if tier == "quick" else 4
    return [
        Space("gelman-rubin", gen_gr, run_gr, bound=b, note="walkers x parameters x injected walker offset/spread x scale x extra columns x row labels; threshold bracketed"),
        Space("geweke", gen_gw, run_gw, bound=b, note="walker/parameter shapes x windows x drifts x autocorrelation; p-value bracketed"),
        Space("many chains", gen_many, run_multi, note="one, two, all but one or none of five to twelve chains failing"),
        Space("chain sets", gen_multi, run_multi, bound=2 if tier == "quick" else None, note="every assignment of walker quality to one to three chains x selection form"),
    ]
