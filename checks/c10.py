"""C10: multimodal summaries are the disjoint highest-density bands."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Bound, Chain, ChainConsumer, ChainConfig
from chainconsumer.statistics import SummaryStatistic as S
from scipy import stats
from scipy.ndimage import gaussian_filter1d, label

from mc.data import quantile_sample, scramble
from mc.engine import Space

ASSUMPTIONS = [
    "bands are compared with those of the true density broadened by the smoothing the settings ask for",
    "cases where the number of bands hinges on a few percent of the level are left out of the band count (the mass, ordering and density checks still apply)",
]
N = 5000
MODES = {
    # (weight, mean, sd)
    "two": ((0.5, -3.0, 0.8), (0.5, 3.0, 0.8)), "unequal": ((0.75, 0.0, 1.0), (0.25, 7.0, 0.7)), "three": ((0.3, -6.0, 0.7), (0.4, 0.0, 0.9), (0.3, 6.0, 0.7)),
    "narrow and wide": ((0.4, -2.0, 0.5), (0.6, 4.0, 1.6)), "four": ((0.25, -9.0, 0.7), (0.25, -3.0, 0.8), (0.25, 3.0, 0.7), (0.25, 9.0, 0.8)), "minor": ((0.93, 0.0, 1.0), (0.07, 6.0, 0.5)),
    "close": ((0.5, -1.7, 1.0), (0.5, 1.7, 1.0)), "one": ((1.0, 0.0, 1.0),), "skewed pair": ((0.3, -5.0, 0.45), (0.2, -3.9, 0.9), (0.3, 5.0, 0.45), (0.2, 3.9, 0.9)), "one skewed": ((0.6, 0.0, 1.0), (0.4, 1.2, 1.8)),
    "five": tuple((0.2, 6.0 * i, 0.8) for i in range(5)), "six": tuple((1 / 6, 7.0 * i, 1.0 + 0.1 * i) for i in range(6)),
}
CONF = {"default": {}, "smooth 1": dict(smooth=1, bins=40), "smooth 2": dict(smooth=2), "bins": dict(bins=60), "kde": dict(kde=0.5), "kde narrow": dict(kde=0.3, bins=20)}


@functools.lru_cache(maxsize=None)
def sample(modes):
    x = quantile_sample(MODES[modes], N)
    return x[scramble(N, 3)]


def pdf(modes, x):
    return sum(w * stats.norm.pdf(x, m, s) for w, m, s in MODES[modes]) / sum(w for w, _, _ in MODES[modes])


def weighting(x, modes, kind):
    if kind == "unit":
        return x, np.ones(len(x))
    if kind == "importance":
        g = np.linspace(x.min(), x.max(), len(x))
        return g, pdf(modes, g) + 1e-9
    lower = x < 0
    keep = ~lower | (np.cumsum(lower) % 2 == 0)
    return x[keep], np.where(lower[keep], 2.0, 1.0)


@functools.lru_cache(maxsize=None)
def density(modes, kern, lo, hi, power, kde):
    g = np.linspace(lo - 6 * kern, hi + 6 * kern, 8001)
    y = pdf(modes, g) if kde else pdf(modes, g) ** power  # histograms are smoothed after raising them to the power
    y = gaussian_filter1d(y, kern / (g[1] - g[0]), mode="nearest", truncate=5) if kern else y
    y = y**power if kde else y
    m = (g >= lo) & (g <= hi)
    return g[m], y[m]


def bands_at(g, y, level):
    lab, k = label(y >= level)
    return [(g[lab == i][0], g[lab == i][-1]) for i in range(1, k + 1)]


def reference(g, y, area):
    y = y / y.sum()
    o = np.sort(y)[::-1]
    level = o[min(np.searchsorted(np.cumsum(o), area), len(o) - 1)]
    counts = {len(bands_at(g, y, level * f)) for f in (0.82, 0.9, 1.0, 1.1, 1.18) if level * f < y.max()}
    return level / y.max(), bands_at(g, y, level), len(counts) == 1


def kernel(kw, span, sd, n):
    if kw.get("kde"):
        return 2.0 * kw["kde"] * n**-0.2 * sd
    s, b = kw.get("smooth", 3), kw.get("bins", 35)
    return s * span / (2 * s * b) if s else 0.4 * span / b


def gen_for(modes, confs):
    return lambda ch: gen(ch, modes, confs)


def gen(ch, modes, confs):
    c = dict(modes=ch.pick("modes", modes, free=True), conf=ch.pick("settings", confs, free=True), area=ch.pick("area", (0.6827, 0.9, 0.95, 0.5, 0.3, 0.99)),
                weights=ch.pick("weights", ("unit", "importance", "half")), a=ch.pick("scale", (1.0, -1.0, 2.0**-40, 1e-7, 3e8)), b=ch.pick("shift", (0.0, 250.0)), power=ch.pick("power", (1.0, 2.0)),
                via=ch.pick("set by", ("chain", "override")), other=ch.flag("second chain"))
    return None if c["power"] != 1 and c["weights"] != "unit" and c["conf"] in ("bins", "smooth 1") else c  # squares the noise of coarse weights


def run(case, p):
    kw = dict(CONF[case["conf"]])
    x, w = weighting(sample(case["modes"]), case["modes"], case["weights"])
    a, b = case["a"], case["b"] * abs(case["a"])
    df = pd.DataFrame({"x": a * x + b, "y": np.cos(np.arange(len(x))), "weight": w})
    cc = ChainConsumer()
    if case["other"]:
        cc.add_chain(Chain(samples=pd.DataFrame({"x": np.linspace(-50, 50, 600)}), name="other", statistics=S.CUMULATIVE))
    if case["via"] == "chain":
        cc.add_chain(Chain(samples=df, name="m", multimodal=True, summary_area=case["area"], power=case["power"], **kw))
    else:
        cc.add_chain(Chain(samples=df, name="m", power=case["power"], statistics=S.HDI, **kw))
        cc.set_override(ChainConfig(multimodal=True, summary_area=case["area"], statistics=S.HDI))
    got = cc.analysis.get_summary(columns=["x"], chains=["m"])["m"]["x"]
    p.op()
    single = isinstance(got, Bound)
    bs = [got] if single else list(got)
    p.obs([[v for v in q.array] for q in bs])
    p.expect(single or len(bs) > 1, "list of one band", got)
    lo, hi = x.min(), x.max()
    span = hi - lo
    rlo, rhi = lo - 0.2 * span, hi + 0.2 * span
    sd = np.sqrt(np.average((x - np.average(x, weights=w)) ** 2, weights=w))
    kern = kernel(kw, 1.4 * span, sd, len(x))
    g, y = density(case["modes"], kern, rlo, rhi, case["power"], "kde" in kw)
    cum = np.concatenate(([0], np.cumsum(y) / y.sum()))
    edge = np.concatenate(([g[0]], 0.5 * (g[1:] + g[:-1]), [g[-1]]))
    level, want, firm = reference(g, y, case["area"])
    real = [((q.lower - b) / a, (q.center - b) / a, (q.upper - b) / a) for q in bs]  # in reference units
    if a < 0:
        real = [r[::-1] for r in real][::-1]
    where = f"{case}: {real}, reference {want}"
    flat = [v for r in real for v in (r[0], r[2])]
    p.expect(all(r[0] <= r[1] <= r[2] for r in real) and all(u < v for u, v in zip(flat, flat[1:])), "bands not disjoint and increasing", where)
    mass = sum(np.interp(r[2], edge, cum) - np.interp(r[0], edge, cum) for r in real)
    p.expect(abs(mass - case["area"]) < 0.025, "mass", lambda: f"hold {mass:.4f}: {where}")
    if firm:
        p.equal(len(real), len(want), "number of bands", where)
    if single or len(want) == 1:
        if single:
            ref = ChainConsumer().add_chain(Chain(samples=df, name="m", statistics=S.HDI, summary_area=case["area"], power=case["power"], **kw)).analysis.get_summary()["m"]["x"]
            p.equal(got, ref, "single band is not the HDI summary", where)
        return
    top = y.max()
    inside = np.zeros(len(g), bool)
    step = 2.5 * 1.4 * span / 10000 + 0.2 * kern
    for r in real:
        inside |= (g >= r[0] + step) & (g <= r[2] - step)
    near = np.zeros(len(g), bool)
    for r in real:
        near |= (g >= r[0] - step) & (g <= r[2] + step)
    if firm:
        p.expect(y[inside].min() > (level - 0.05) * top, "low density inside a band", lambda: f"{y[inside].min() / top:.3f} against level {level:.3f}: {where}")
        p.expect(y[~near].max() < (level + 0.05) * top, "high density outside the bands", lambda: f"{y[~near].max() / top:.3f} against level {level:.3f}: {where}")
        for r, q in zip(real, want):
            p.close([r[0], r[2]], q, 0.12 * sd + 0.5 * kern, "band", where)
    for r in real:
        m = (g >= r[0]) & (g <= r[2])
        if m.sum() > 5:
            d = np.interp(r[1], g, y)
            p.expect(d >= 0.93 * y[m].max(), "band centre is not its peak", lambda: f"{d / y[m].max():.3f} of the band's peak: {where}")


# -------------------------------------------------------------------------------------------- exact relations, several columns
def gen_side(ch):
    return dict(modes=[ch.pick(c, ("two", "one", "three"), free=True) for c in "ab"], area=ch.pick("area", (0.6827, 0.9)), area2=ch.pick("second chain's area", (0.9, 0.6827, 0.5)), conf=ch.pick("settings", ("smooth 1", "default", "kde")),
                second=ch.pick("second chain", ("unimodal", "multimodal", None)))


def run_side(case, p):
    """Every column and chain gets its own bands: the same ones as when it is alone."""
    d = {c: sample(m) + 10 * i for i, (c, m) in enumerate(zip("ab", case["modes"]))}
    kw = CONF[case["conf"]]
    cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame(d), name="m", multimodal=True, summary_area=case["area"], **kw))
    if case["second"]:
        cc.add_chain(Chain(samples=pd.DataFrame(d), name="n", multimodal=case["second"] == "multimodal", statistics=S.HDI, summary_area=case["area2"], **kw))
    got = cc.analysis.get_summary()
    p.op()
    for c in d:
        for nm, area in (("m", case["area"]), ("n", case["area2"])):
            if nm == "n" and not case["second"]:
                continue
            mm = nm == "m" or case["second"] == "multimodal"
            alone = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({c: d[c]}), name="q", multimodal=mm, statistics=S.HDI, summary_area=area, **kw)).analysis.get_summary()["q"][c]
            p.op()
            p.equal(got[nm][c], alone, "bands differ from those of the column alone", f"{case} {nm} {c}")
            p.expect(mm or isinstance(got[nm][c], Bound), "bands for an unimodal chain", f"{case} {nm} {c}")
            if mm:
                k = {"two": 2, "three": 3, "one": 1}[case["modes"]["ab".index(c)]]
                p.equal(len(alone) if isinstance(alone, list) else 1, k, "number of bands", f"{case} {nm} {c}")
    # the table shows the same bands
    t = cc.analysis.get_latex_table(chains=["m"])
    p.op()
    for c in d:
        for line in cc.analysis.get_parameter_text(got["m"][c], wrap=True).split("\n"):
            p.expect(line in t, "band missing from the table", lambda: f"{line} not in {t}")


def gen_grid(ch):
    return dict(modes=ch.pick("modes", ("two", "three", "unequal", "one"), free=True), area=ch.pick("area", (0.6827, 0.9, 0.5)), points=ch.pick("points", (201, 401)), dims=ch.pick("dims", (1, 2)))


def run_grid(case, p):
    g = np.linspace(-9, 10, case["points"])
    wx = pdf(case["modes"], g) + 1e-9
    if case["dims"] == 2:
        ys = np.linspace(-2, 2, 9)
        X, Y = np.meshgrid(g, ys)
        df = pd.DataFrame({"y": Y.ravel(), "x": X.ravel(), "weight": (np.exp(-(Y**2)) * wx[None, :]).ravel()})
    else:
        df = pd.DataFrame({"x": g, "weight": wx})
    got = ChainConsumer().add_chain(Chain(samples=df, name="m", grid=True, multimodal=True, summary_area=case["area"])).analysis.get_summary(columns=["x"])["m"]["x"]
    p.op()
    bs = [got] if isinstance(got, Bound) else got
    p.obs([q.array for q in bs])
    level, want, firm = reference(g, pdf(case["modes"], g), case["area"])
    if firm:
        p.equal(len(bs), len(want), "number of bands", case)
        for q, v in zip(bs, want):
            p.close([q.lower, q.upper], v, 3 * (g[1] - g[0]), "band", f"{case} {bs} {want}")
            if len(want) > 1:
                near = min(abs(q.center - m[1]) for m in MODES[case["modes"]])
                p.expect(near < 2 * (g[1] - g[0]), "band centre is not its peak", (case, q))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("bands", gen_for(list(MODES), ("default", "smooth 1", "bins") if q else list(CONF)), run, bound=2 if q else 3, note="mixtures x settings x area x weighting x affine map x power, against the level-set bands of the broadened true density"),
        Space("kernel bands", gen_for([m for m in MODES if m not in ("close", "four", "five", "six", "one skewed", "skewed pair")], ("kde", "kde narrow")), run, bound=1 if q else 3, note="the same with kernel density estimates"),
        Space("side by side", gen_side, run_side, bound=1 if q else None, note="columns and chains next to each other, and the table"),
        Space("grids", gen_grid, run_grid, bound=2 if q else None, note="gridded multimodal chains"),
    ]
