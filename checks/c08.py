"""C08: summary intervals enclose the requested probability with the stated centre."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S
from scipy.ndimage import gaussian_filter1d

from mc.data import SHAPES, quantile_sample, scramble, weighted_sample
from mc.engine import Space

ASSUMPTIONS = [
    "'histogram resolution': bounds are compared with the same summary of the true density broadened by the smoothing the settings ask for",
    "a max summary may report 'not constrained' only for flat-topped densities (uniform, or a sliver of an unsmoothed histogram); where a density peaks at a hard edge its mass is only resolved to one bin",
    "data with a handful of distinct values is covered by the known finding in known_findings.json",
]
N = 6000
GRID = 6001


@functools.lru_cache(maxsize=None)
def reference_density(shape, sd_kernel, lo, hi, reflect):
    """The true density on [lo, hi], broadened by a gaussian."""
    d = SHAPES[shape]
    if reflect:
        x = np.linspace(lo, hi, GRID)
        y = np.diff(d.cdf(np.concatenate(([x[0]], 0.5 * (x[1:] + x[:-1]), [x[-1]])))) / (x[1] - x[0])
        y[0] *= 2
        y[-1] *= 2
        y = gaussian_filter1d(y, sd_kernel / (x[1] - x[0]), mode="reflect", truncate=6) if sd_kernel else y
        return x, y
    wide = 4 * sd_kernel
    x = np.linspace(lo - wide, hi + wide, GRID)
    e = np.concatenate(([x[0]], 0.5 * (x[1:] + x[:-1]), [x[-1]]))
    y = np.diff(d.cdf(e)) / (x[1] - x[0])
    y = gaussian_filter1d(y, sd_kernel / (x[1] - x[0]), mode="constant", truncate=3)
    m = (x >= lo) & (x <= hi)
    return x[m], y[m]


class Ref:
    def __init__(self, x, y):
        self.x, self.y = x, y / y.sum()
        self.c = np.concatenate(([0.0], np.cumsum(self.y)))
        self.edges = np.concatenate(([x[0]], 0.5 * (x[1:] + x[:-1]), [x[-1]]))
        self.peak = self.y.max()

    def cdf(self, v):
        return float(np.interp(v, self.edges, self.c))

    def ppf(self, q):
        return float(np.interp(q, self.c, self.edges))

    def density(self, v):
        return float(np.interp(v, self.x, self.y))

    def mass(self, a, b):
        return self.cdf(b) - self.cdf(a)

    def narrowest(self, area):
        q = np.linspace(0, 1 - area, 4001)
        w = np.interp(q + area, self.c, self.edges) - np.interp(q, self.c, self.edges)
        return float(w.min())


SMOOTHING = {
    "default": {}, "none": dict(smooth=0), "none, few bins": dict(smooth=0, bins=40), "smooth 1": dict(smooth=1), "smooth 5": dict(smooth=5), "smooth 2, 60 bins": dict(smooth=2, bins=60),
    "kde": dict(kde=True), "kde 0.4": dict(kde=0.4), "kde 1": dict(kde=1), "kde, 80 bins, unsmoothed": dict(kde=True, bins=80, smooth=0),
}
STATS = (None, S.MAX, S.MAX_CENTRAL, S.CUMULATIVE, S.MEAN, S.HDI)
EDGED = {"uniform", "expo", "cliff"}


def kernel(sm, span, sd, n):
    """Gaussian broadening implied by the documented settings."""
    s, b = sm.get("smooth", 3), sm.get("bins")
    if sm.get("kde"):
        return 2.0 * float(sm["kde"]) * n ** -0.2 * sd
    if s == 0:
        return 0.45 * span / (b or 100)
    return s * span / (2 * s * (b or 35))


def judge(p, b, stat, area, ref, scale, tol, flat, where, edged=False, ptol=0.04):
    """The property itself, on the reference density."""
    stat = stat or S.MAX
    if b.lower is None or b.upper is None:
        p.expect(stat is S.MAX and flat, "no interval", where)
        p.expect(b.lower is None and b.upper is None and b.center is not None, "half an interval", (where, b))
        return
    lo, c, hi = map(float, b.array)
    p.expect(np.all(np.isfinite([lo, c, hi])) and lo <= hi, "not ordered", lambda: (where, b))
    if stat in (S.MEAN, S.CUMULATIVE, S.HDI, S.MAX):
        p.expect(lo - 1e-9 * scale <= c <= hi + 1e-9 * scale, "centre outside", lambda: (where, b))
    m = ref.mass(lo, hi)
    if stat is S.MAX:  # densities that do not vanish at the end of the range are only resolved to one bin there
        tol += 0.05 * (len(ref.x) - 1) * (ref.y[0] + ref.y[-1]) + 0.003
    p.expect(abs(m - area) < tol, "mass", lambda: f"{where}: {b} holds {m:.4f} of the density, wanted {area} (tolerance {tol:.4f})")
    if stat in (S.MEAN, S.CUMULATIVE, S.MAX_CENTRAL):
        t = ref.cdf(lo) - (1 - ref.cdf(hi))
        p.expect(abs(t) < tol, "unequal tails", lambda: f"{where}: {b} leaves {ref.cdf(lo):.4f} below and {1 - ref.cdf(hi):.4f} above")
    if stat is S.MEAN:
        p.close(c, 0.5 * (lo + hi), 1e-9 * scale, "mean centre is not the midpoint", where)
    if stat is S.CUMULATIVE:
        p.expect(abs(ref.cdf(c) - 0.5) < tol, "cumulative centre is not the median", lambda: f"{where}: {b}: {ref.cdf(c):.4f} below the centre")
    if stat in (S.MAX, S.MAX_CENTRAL) and not flat:
        p.expect(ref.density(c) > (1 - 1.5 * ptol) * ref.peak, "centre is not the density peak", lambda: f"{where}: {b}: density {ref.density(c) / ref.peak:.3f} of the peak")
    edge = max(ref.density(ref.x[0]), ref.density(ref.x[-1])) / ref.peak
    if stat is S.MAX and not edged and edge < 0.02:
        a, d = ref.density(lo) / ref.peak, ref.density(hi) / ref.peak
        p.expect(abs(a - d) < ptol + 0.02, "max bounds at unequal density", lambda: f"{where}: {b}: {a:.3f} and {d:.3f} of the peak")
    if stat is S.HDI:
        h = ref.mass(lo, c)
        p.expect(abs(h - 0.5 * m) < tol, "HDI centre does not halve the mass", lambda: f"{where}: {b}: {h:.4f} of {m:.4f} below the centre")
        best = ref.narrowest(min(max(m, 0.0), 1.0))
        p.expect(hi - lo <= best * (1 + (0.08 if edged else 0.03)) + 0.01 * scale, "HDI is not the narrowest", lambda: f"{where}: width {hi - lo:.5g}, an interval of {best:.5g} has the same mass {m:.4f}")


@functools.lru_cache(maxsize=64)
def sample(shape, weighting):
    return weighted_sample(shape, N, weighting)


def gen(stats, shapes, smoothings, areas):
    def g(ch):
        c = dict(stat=ch.pick("statistic", [s.value if s else None for s in stats], free=True), shape=ch.pick("shape", shapes, free=True), smoothing=ch.pick("smoothing", smoothings),
                 area=ch.pick("area", areas), weights=ch.pick("weights", ("unit", "importance", "half", "random")), power=ch.pick("power", (1.0, 2.0, 0.5)),
                 unit=ch.pick("unit", (1.0, 1e-15, 1e5)), other=ch.flag("second column"))
        if c["shape"] in EDGED and "few" in c["smoothing"] and c["power"] != 1:
            return None
        noisy = c["power"] != 1 and (c["shape"] == "heavy" or "none" in c["smoothing"] or c["smoothing"] == "smooth 1")
        return None if noisy and sum(c[k] != v for k, v in dict(area=0.6827, weights="unit").items()) else c  # powers amplify the noise of nearly empty bins
    return g


def tolerance(shape, smoothing, kern, sd, power):
    t = 0.012 + 0.04 * (power != 1)
    if shape in EDGED:
        t += 1.3 * kern * SHAPES[shape].pdf(SHAPES[shape].ppf(1e-4)) + (0.05 if "kde" in smoothing else 0)
    if shape == "heavy":
        t += 0.01
    return t + (0.006 if "kde" in smoothing else 0)


def run(case, p):
    shape, sm = case["shape"], SMOOTHING[case["smoothing"]]
    x, w = sample(shape, case["weights"])
    u = case["unit"]
    df = pd.DataFrame({"x": x * u, "weight": w})
    if case["other"]:
        df.insert(0, "a", np.arange(len(x)) % 17)
    kw = dict(sm) | ({} if case["stat"] is None else {"statistics": S(case["stat"])})
    chain = Chain(samples=df, name="m", summary_area=case["area"], power=case["power"], **kw)
    cc = ChainConsumer().add_chain(chain)
    b = cc.analysis.get_summary()["m"]["x"]
    p.op()
    p.obs(b.array)
    sd = SHAPES[shape].std()
    lo, hi = x.min(), x.max()
    # an HDI looks at a range padded by a fifth on either side
    pad = 0.2 * (hi - lo) if case["stat"] == "hdi" else 0.0
    lo, hi = lo - pad, hi + pad
    kern = kernel(sm, hi - lo, sd, len(x))
    kde = bool(sm.get("kde"))
    gx, gy = reference_density(shape, kern, lo, hi, not kde)
    ref = Ref(gx * u, gy ** case["power"])
    stat = S(case["stat"]) if case["stat"] else None
    ptol = {"none": 0.16, "none, few bins": 0.1, "smooth 1": 0.12}.get(case["smoothing"], 0.05)
    judge(p, b, stat, case["area"], ref, sd * u, tolerance(shape, case["smoothing"], kern, sd, case["power"]), shape == "uniform" or (case["area"] <= 0.05 and "none" in case["smoothing"]), case, shape in EDGED, ptol * (2 if case["power"] > 1 else 1))


# ------------------------------------------------------------------------------------------------------------- grids
def gen_grid(ch):
    return dict(stat=ch.pick("statistic", [s.value if s else None for s in STATS], free=True), shape=ch.pick("shape", ("gauss", "skew", "beta", "tri"), free=True), points=ch.pick("points", (101, 61, 400)),
                dims=ch.pick("dims", (1, 2)), area=ch.pick("area", (0.6827, 0.9, 0.3)), smooth=ch.pick("smooth", (None, 0, 1)), power=ch.pick("power", (1.0, 2.0)), order=ch.pick("order", ("row", "column", "shuffled")), peak=ch.pick("weight scale", (1.0, 1e-8, 300.0)))


def run_grid(case, p):
    d = SHAPES[case["shape"]]
    lo, hi = d.ppf(1e-4), d.ppf(1 - 1e-4)
    xs = np.linspace(lo, hi, case["points"])
    wx = np.maximum(d.pdf(xs), 1e-12)
    if case["dims"] == 2:
        ys = np.linspace(-3, 3, 25)
        wy = np.exp(-0.5 * ys**2)
        X, Y = np.meshgrid(xs, ys, indexing="ij" if case["order"] != "column" else "xy")
        W = np.exp(-0.5 * Y**2) * np.interp(X, xs, wx)
        df = pd.DataFrame({"x": X.ravel(), "y": Y.ravel(), "weight": W.ravel() * case["peak"]})
    else:
        df = pd.DataFrame({"x": xs, "weight": wx * case["peak"]})
    if case["order"] == "shuffled":
        df = df.iloc[scramble(len(df))]
    kw = {} if case["stat"] is None else {"statistics": S(case["stat"])}
    cc = ChainConsumer().add_chain(Chain(samples=df, name="g", grid=True, summary_area=case["area"], smooth=case["smooth"], power=case["power"], **kw))
    b = cc.analysis.get_summary()["g"]["x"]
    p.op()
    p.obs(b.array)
    h = xs[1] - xs[0]
    gx, gy = reference_density(case["shape"], (case["smooth"] or 0) * h, lo, hi, True)
    judge(p, b, S(case["stat"]) if case["stat"] else None, case["area"], Ref(gx, gy ** case["power"]), d.std(), 0.012 + 0.6 * h / d.std() * (0.4 if case["points"] > 99 else 0.7), False, case, False, 0.06 + h / d.std() * 0.6)


# ---------------------------------------------------------------------------------------------------------- extremes
SMALL = {
    "three": [1.0, 2.0, 4.0], "ten": list(np.linspace(0, 1, 10) ** 2), "hundred": list(np.sin(np.arange(100) * 1.7)), "constant": [3.0] * 20,
    "outlier": [*np.linspace(0, 1, 200), 1000.0], "integers": list((np.arange(600) * 7919 % 1009) * 1.0), "negative": list(-(np.arange(1, 400) ** 0.5)),
    "huge": list(1e15 + 1e12 * np.sin(np.arange(300))), "tiny": list(1e-20 * (1 + np.arange(300) % 97)),
}


def gen_small(ch):
    return dict(data=ch.pick("data", list(SMALL), free=True), stat=ch.pick("statistic", [s.value if s else None for s in STATS], free=True), area=ch.pick("area", (0.6827, 0.0, 1.0, 0.001, 0.999), free=True),
                smoothing=ch.pick("smoothing", ("default", "none")), weights=ch.flag("weights"))


def run_small(case, p):
    """Whatever the data: a summary is ordered and within the padded range of the data, or says it has no interval."""
    x = np.array(SMALL[case["data"]])
    df = pd.DataFrame({"x": x})
    if case["weights"]:
        df["weight"] = 1.0 + np.arange(len(x)) % 4
    kw = {} if case["stat"] is None else {"statistics": S(case["stat"])}
    cc = ChainConsumer().add_chain(Chain(samples=df, name="m", summary_area=case["area"], **SMOOTHING[case["smoothing"]], **kw))
    b = cc.analysis.get_summary()["m"]["x"]
    p.op()
    p.obs(b.array)
    span = x.max() - x.min()
    if span == 0:
        p.expect(b.center == x[0] and b.lower is None and b.upper is None, "constant column", b)
        return
    if b.lower is None or b.upper is None:
        p.expect(case["stat"] in (None, "max") and b.lower is None and b.upper is None, "no interval", b)
    else:
        p.expect(x.min() - 0.21 * span <= b.lower <= b.upper <= x.max() + 0.21 * span, "outside the data", lambda: (b, x.min(), x.max()))
        if case["stat"] not in ("max_central",):
            p.expect(b.lower <= b.center <= b.upper, "not ordered", b)
    p.expect(b.center is not None and np.isfinite(b.center), "no centre", b)


# ---------------------------------------------------------------------------------------------------------- discrete
DISCRETE = {"coin": [0.0, 1.0], "three values": [0.0, 1.0, 2.0], "four values": [0.0, 1.0, 2.0, 3.0], "seven values": [-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0]}


def gen_discrete(ch):
    return dict(data=ch.pick("data", list(DISCRETE)), stat=ch.pick("statistic", [s.value for s in STATS if s], free=True))


def run_discrete(case, p):
    v = np.array(DISCRETE[case["data"]])
    x = np.tile(v, 300)
    cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({"x": x}), name="m", statistics=S(case["stat"]), summary_area=0.95))
    b = cc.analysis.get_summary()["m"]["x"]
    p.obs(b.array)
    p.expect(b.lower is None or (b.lower <= v[0] + 0.1 and b.upper >= v[-1] - 0.1), "discrete data loses its extreme values", b)


# --------------------------------------------------------------------------------------------------- nested and pair
def gen_nested(ch):
    return dict(stat=ch.pick("statistic", [s.value if s else None for s in STATS], free=True), shape=ch.pick("shape", ("gauss", "skew", "tri", "heavy", "beta"), free=True), smoothing=ch.pick("smoothing", ("default", "none", "kde")),
                weights=ch.pick("weights", ("unit", "random")))


def run_nested(case, p):
    """A larger area gives a wider interval containing the smaller one; per-chain settings do not leak between chains."""
    x, w = sample(case["shape"], case["weights"])
    areas = (0.2, 0.4, 0.6, 0.8, 0.95) + ((0.9991, 0.9999) if case["stat"] == "hdi" else ())
    cc = ChainConsumer()
    kw = {} if case["stat"] is None else {"statistics": S(case["stat"])}
    for a in areas:
        cc.add_chain(Chain(samples=pd.DataFrame({"x": x, "weight": w}), name=f"{a}", summary_area=a, **SMOOTHING[case["smoothing"]], **kw))
    s = cc.analysis.get_summary()
    bs = [s[f"{a}"]["x"] for a in areas]
    p.op(len(areas))
    sd = SHAPES[case["shape"]].std()
    for b, c in zip(bs, bs[1:]):
        p.obs(b.array)
        slack = (0.15 if case["stat"] == "hdi" else 0.02) * sd
        p.expect(c.upper - c.lower > b.upper - b.lower, "larger area, narrower interval", (b, c))
        p.expect(c.lower <= b.lower + slack and c.upper >= b.upper - slack, "not nested", (b, c))
        if case["stat"] in (None, "max", "max_central", "cumulative"):
            p.close(b.center, c.center, 1e-9 * sd, "centre moved with the area")


def spaces(tier):
    q = tier == "quick"
    smooth = tuple(s for s in SHAPES if s not in EDGED)
    cheap = ("default", "none", "smooth 1", "kde", "smooth 5") if q else list(SMOOTHING)
    return [
        Space("statistics", gen(STATS, smooth, list(SMOOTHING), (0.6827, 0.95, 0.3, 0.05, 0.99)), run, bound=2 if q else 4, note="statistic x shape x smoothing x area x weighting x power x unit, against the same summary of the broadened true density"),
        Space("edges", gen(STATS, tuple(EDGED & set(SHAPES)) and ("cliff", "expo", "uniform"), cheap, (0.6827, 0.95, 0.3)), run, bound=1 if q else 2, note="densities that stop at a hard edge"),
        Space("grids", gen_grid, run_grid, bound=2 if q else 3, note="gridded chains in one and two dimensions"),
        Space("extremes", gen_small, run_small, bound=1 if q else None, note="tiny, huge, few, constant and outlying data; areas of nothing and everything"),
        Space("nested", gen_nested, run_nested, bound=1 if q else None, note="areas side by side"),
        Space("discrete", gen_discrete, run_discrete, note="data with two to seven distinct values (known finding)"),
    ]
