"""C18: 2D contours enclose the requested probability of the weighted samples."""
import functools

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_cloud, plot_contour, plot_point, plot_surface
from matplotlib.path import Path
from scipy import stats

from mc.data import scramble
from mc.engine import Space, canon
from mc.scene import Panel, hexof, triangle

ASSUMPTIONS = ["resolution: the kernel (smoothing bins, or the documented KDE bandwidth) widens a contour by no more than its own variance; grid cells count as points", "low-discrepancy samples stand in for converged chains"]
COLS = ["u", "v", "t"]
SCALE = {"u": (0.0, 1.0), "v": (500.0, 40.0), "t": (-3.0, 0.01)}
RHO = {("u", "v"): 0.6, ("u", "t"): -0.4, ("v", "t"): 0.1}
N = 8192


@functools.lru_cache(None)
def normal(n, d):
    q = stats.qmc.Sobol(d, scramble=False).random(n) if n & (n - 1) == 0 else stats.qmc.Halton(d, scramble=False).random(n)
    return stats.norm.ppf(np.clip(q + 0.5 / n, 1e-7, 1 - 1e-7))


def corr(a, b):
    return 1.0 if a == b else RHO.get((a, b), RHO.get((b, a)))


COV = np.array([[corr(a, b) for b in COLS] for a in COLS])


@functools.lru_cache(None)
def sample(shape, weights, n=N):
    """Standardised coordinates (n, 3) and weights."""
    z = normal(n, 3)
    if shape == "gauss":
        x = z @ np.linalg.cholesky(COV).T
    elif shape == "islands":
        x = 0.35 * z
        x[:, 0] += np.where(np.arange(n) % 3 == 0, -2.0, 1.5)
        x[:, 1] += np.where(np.arange(n) % 3 == 0, 1.0, -1.0)
    elif shape == "skew":
        x = np.stack([stats.gamma(3).ppf(stats.norm.cdf(z[:, 0])) - 3, z[:, 1], stats.gamma(5).ppf(stats.norm.cdf(z[:, 2])) - 5], axis=1)
    elif shape == "banana":
        x = np.stack([z[:, 0], 0.5 * z[:, 1] + z[:, 0] ** 2 - 1, z[:, 2]], axis=1)
    elif shape == "ring":
        r, phi = 3 + 0.4 * z[:, 0], 2 * np.pi * stats.norm.cdf(z[:, 1])
        x = np.stack([r * np.cos(phi), r * np.sin(phi), z[:, 2]], axis=1)
    elif shape == "cliff":
        x = np.stack([np.abs(z[:, 0]), z[:, 1], z[:, 2]], axis=1)
    w = np.ones(n)
    if weights == "importance":  # the same target out of a wider, tilted proposal
        if shape == "gauss":
            y = 1.5 * z @ np.diag([1.0, 1.2, 1.0]) + 0.4
            inv = np.linalg.inv(COV)
            w = np.exp(-0.5 * np.einsum("ij,jk,ik->i", y, inv, y) + 0.5 * (z**2).sum(1))
            x, w = y[w > 1e-12], w[w > 1e-12]
            w = w / w.max()
    elif weights == "half":
        keep = (x[:, 0] > 0) | (normal(n, 4)[:, 3] < 0)
        x, w = x[keep], np.where(x[keep][:, 0] > 0, 1.0, 2.0)
    elif weights == "junk":  # rows in the wrong place which carry next to no weight
        x = np.concatenate((x, 0.3 * x[: n // 2] + [1.2, -1.0, 0.5]))
        w = np.concatenate((np.full(n, 3.0), np.full(n // 2, 1e-7)))
    elif weights == "strays":  # a few rows far outside with next to no weight
        far = np.array([40.0, -25.0, 60.0]) * np.array([[1, 1, 1], [-1, 1, -1], [0, -1, 1], [1, 0, 0]])
        x = np.concatenate((x, far))
        w = np.concatenate((np.full(n, 2.0), np.full(4, 1e-7)))
    p = scramble(len(w), 3)
    return x[p], w[p]


def frame(x, w, cols=COLS):
    df = pd.DataFrame({c: SCALE[c][0] + SCALE[c][1] * x[:, COLS.index(c)] for c in cols})
    df["weight"] = w
    return df


def levels_of(sigmas, sigma2d):
    s = np.asarray(sigmas, float)
    return 1 - np.exp(-(s**2) / 2) if sigma2d else stats.chi2(1).cdf(s**2)


def inside(polys, pts):
    """Even-odd membership in the union of loops."""
    m = np.zeros(len(pts), bool)
    for q in polys:
        if len(q) > 2:
            m ^= Path(np.concatenate((q, q[:1]))).contains_points(pts)
    return m


STYLES = {"default": {}, "unshaded": dict(shade=False), "alpha 0": dict(shade_alpha=0.0), "dashed": dict(linestyle="--", linewidth=2.5, shade_alpha=0.3, zorder=4), "labelled": dict(show_contour_labels=True), "flat": dict(shade_gradient=0.0), "steep": dict(shade_gradient=2.5, color="#3355aa")}
SIGMAS = ([0, 1, 2], [0, 1], [1, 2], [0, 0.5, 1.0, 1.5, 2.0], [0, 1, 2, 3], [0, 1.7])


def gen_gauss(ch):
    c = dict(shape="gauss", weights=ch.pick("weights", ("unit", "importance", "half", "junk", "strays"), free=True), columns=ch.pick("columns", (["u", "v"], ["v", "u"], ["t", "u"], ["u", "v", "t"]), free=True), binning=ch.pick("binning", ("default", "smooth 1", "smooth 6", "bins 15", "bins 60", "smooth 10, bins 20")),
                sigmas=ch.pick("sigmas", SIGMAS), sigma2d=ch.flag("sigma2d"), style=ch.pick("style", list(STYLES)), second=ch.pick("second chain", (None, "before", "after")), via=ch.pick("via", ("plot", "plot_contour", "plot_surface")), index=ch.pick("index", ("range", "strings", "repeated")))
    return None if grainy(c) else c


def grainy(c):
    """Thinned samples in cells so small that chance decides the line."""
    return c["weights"] == "half" and c["binning"] in ("bins 60",)


def gen_shapes(ch):
    c = dict(shape=ch.pick("shape", ("islands", "skew", "banana", "ring", "cliff"), free=True), weights=ch.pick("weights", ("unit", "half", "junk"), free=True), columns=ch.pick("columns", (["u", "v"], ["v", "u"], ["u", "v", "t"])), binning=ch.pick("binning", ("default", "smooth 1", "bins 60")), sigmas=ch.pick("sigmas", SIGMAS[:4]),
                sigma2d=ch.flag("sigma2d"), style=ch.pick("style", ("default", "unshaded")), second=ch.pick("second chain", (None, "after")), via=ch.pick("via", ("plot", "plot_contour")), index="range")
    # contours of two hard edges end at the frame, where closing them is a guess
    return None if c["shape"] == "skew" and len(c["columns"]) == 3 or grainy(c) else c


def options(binning):
    out = {}
    for part in binning.split(", "):
        if part != "default":
            out[part.split()[0]] = int(part.split()[1])
    return out


def draw(case, chains, config):
    cols = case["columns"]
    if case["via"] == "plot":
        cc = ChainConsumer()
        for c in chains:
            cc.add_chain(c)
        cc.set_plot_config(config)
        g, _ = triangle(cc.plotter.plot(columns=cols), len(cols))
        return {(cols[j], cols[i]): g[i][j] for i in range(len(cols)) for j in range(i)}
    out = {}
    for i in range(len(cols)):
        for j in range(i):
            fig, ax = plt.subplots()
            if case["via"] == "plot_contour":
                for c in chains:
                    plot_contour(ax, c, cols[j], cols[i], config)
            else:
                plot_surface(ax, chains, cols[j], cols[i], config)
            out[cols[j], cols[i]] = Panel(ax)
    return out


def text_of(level):
    return f"{100 * level:.0f}%" if level < 0.991 else f"{100 * level:.1f}%"


def run(case, p):
    x, w = sample(case["shape"], case["weights"])
    df = frame(x, w)
    if case["index"] != "range":
        df.index = [f"r{i}" for i in range(len(df))] if case["index"] == "strings" else np.arange(len(df)) % 7
    o = STYLES[case["style"]]
    chain = Chain(samples=df, name="it", **({"color": "#aa2211"} | o | options(case["binning"])))
    other = Chain(samples=frame(normal(1024, 3) * 0.4 + 0.5, np.ones(1024)), name="other", color="#00aa55")
    chains = {"before": [other, chain], "after": [chain, other], None: [chain]}[case["second"]]
    if case["second"]:
        _, k = [other, chain], chains.index(chain)
    else:
        k = 0
    config = PlotConfig(sigma2d=case["sigma2d"])
    chain.sigmas = [float(s) for s in case["sigmas"]] if case["via"] != "plot" else chain.sigmas
    if case["via"] == "plot":
        chain = Chain(samples=df, name="it", sigmas=case["sigmas"], **({"color": "#aa2211"} | o | options(case["binning"])))
        chains[k] = chain
    want = levels_of(case["sigmas"], case["sigma2d"])
    shaded = o.get("shade", True) and o.get("shade_alpha", 0.5) > 0
    for (px, py), q in draw(case, chains, config).items():
        p.op()
        at = (case, px, py)
        lines, bands = q.outlined, q.filled
        if not p.equal((len(lines), len(bands)), (len(chains), (len(chains) - 1) + shaded), "contour sets", at):
            continue
        con = lines[k]
        p.obs(con.levels, con.color if hasattr(con, "color") else con.colors)
        band = bands[k if len(bands) == len(chains) else 0] if shaded else None
        p.close(con.levels, want, 1e-12, "levels of the lines", at)
        p.equal([round(v, 9) for v in con.lw][:1], [o.get("linewidth", 1.0)], "line width", at)
        p.expect(con.zorder == o.get("zorder", 10), "zorder", at)
        pts = df[[px, py]].to_numpy()
        ww = w / w.sum()
        smooth, bins = {**dict(smooth=3, bins=35), **options(case["binning"])}["smooth"], {**dict(bins=35), **options(case["binning"])}["bins"]
        h2, cov = [], []
        for c in (px, py):
            xs = x[w > 1e-6][:, COLS.index(c)]
            h2.append(((xs.max() - xs.min()) / (2 * bins)) ** 2 if smooth else 0.0)
        masses, last = [], None
        cut = o.get("show_contour_labels", False)  # labels interrupt the lines
        for i, level in enumerate(want if not cut else []):
            if level == 0:
                p.expect(not any(len(v) for v in con.polygons(i)), "line at level zero", at)
                continue
            polys = con.polygons(i)
            m = inside(polys, pts)
            mass = float(ww[m].sum())
            masses.append(mass)
            # smoothing widens the density: estimate by how much on a Gaussian of unit variance
            r2 = stats.chi2(2).ppf(level)
            widen = stats.chi2(2).cdf(r2 * (1 + 2 * np.mean(h2) / min(1.0, np.var(x[:, 0])))) - level
            slack = (0.015 if case["shape"] == "gauss" else 0.03) + 1.3 * widen + (0.015 if bins == 60 and (case["weights"] in ("half", "importance") or case["shape"] != "gauss") else 0)
            if level > 0.99:
                slack = 1.0  # a handful of samples decide, the line may end at the frame
            p.expect(abs(mass - level) <= slack, "probability inside a contour", lambda: f"{at}: level {level:.4f} encloses {mass:.4f}, slack {slack:.3f}")
            if last is not None and level < 0.99:
                p.expect(not np.any(last & ~m), "contours not nested", lambda: f"{at}: {int(np.sum(last & ~m))} samples")
            last = m
            if case["shape"] == "gauss" and level < 0.96:
                S = np.array([[1.0, corr(px, py)], [corr(px, py), 1.0]]) + np.diag(h2)
                big = max(polys, key=len)
                z = np.stack([(big[:, 0] - SCALE[px][0]) / SCALE[px][1], (big[:, 1] - SCALE[py][0]) / SCALE[py][1]], axis=1)
                r = np.sqrt(np.einsum("ij,jk,ik->i", z, np.linalg.inv(S), z) / r2)
                tol = (0.22 if smooth == 1 or bins == 60 or case["weights"] in ("importance", "half") else 0.13) * (1.3 if case["weights"] == "half" and bins == 60 else 1)
                p.expect((level < 0.2 or np.mean(np.abs(r - 1) < tol) > 0.9 and np.all(np.abs(r - 1) < 0.45)) and abs(r.mean() - 1) < (0.05 if case["weights"] == "half" or bins == 60 or level > 0.9 else 0.03), "not the iso-density line", lambda: f"{at}: level {level:.3f} radius {r.min():.3f}..{r.max():.3f} mean {r.mean():.3f}")
        if band is not None:
            p.close(band.levels, want, 1e-12, "levels of the bands", at)
            p.expect(band.alpha == o["shade_alpha"] if "shade_alpha" in o else 0 < band.alpha <= 1, "opacity of the bands", at)
            p.expect(band.zorder < con.zorder, "bands over lines", at)
            inner = 0.0
            for i in range(0 if cut else len(want) - 1):
                outer = masses[i if want[0] == 0 else i + 1]
                base = 0.0 if want[i] == 0 else masses[i - (want[0] == 0)]
                got = float(ww[inside(band.polygons(i), pts)].sum())
                p.close(got, outer - base, 0.004 if want[i + 1] < 0.99 else 1.0, "shaded band differs from the lines", at)
                inner += got
        if o.get("show_contour_labels"):
            got = {t.strip().replace("\\", "") for t in q.texts if "%" in t}
            p.expect(got and got <= {text_of(v) for v in want if v > 0}, "contour label texts", lambda: (at, got))
        else:
            p.expect(not any("%" in t for t in q.texts), "unasked contour labels", at)


# --------------------------------------------------------------------------------- grids, kernels and powers
def gen_grid(ch):
    return dict(columns=ch.pick("columns", (["u", "v"], ["v", "u"]), free=True), n=ch.pick("points", ((61, 61), (41, 81), (101, 33)), free=True), power=ch.pick("power", (1.0, 2.0, 0.5), free=True), smooth=ch.pick("smooth", (None, 0, 1)), sigmas=ch.pick("sigmas", SIGMAS[:4]), sigma2d=ch.flag("sigma2d"),
                order=ch.pick("row order", ("c", "f", "scrambled")), extra=ch.flag("posterior column"), via="plot")


def run_grid(case, p):
    nu, nv = case["n"]
    gu, gv = np.meshgrid(np.linspace(-4.6, 4.6, nu), np.linspace(-4.6, 4.6, nv), indexing="ij")
    x = np.stack([gu.ravel(order="C" if case["order"] == "c" else "F"), gv.ravel(order="C" if case["order"] == "c" else "F")], axis=1)
    if case["order"] == "scrambled":
        x = x[scramble(len(x))]
    S = np.array([[1.0, 0.6], [0.6, 1.0]])
    d2 = np.einsum("ij,jk,ik->i", x, np.linalg.inv(S), x)
    w = np.exp(-0.5 * d2)
    df = pd.DataFrame({"u": SCALE["u"][0] + x[:, 0], "v": SCALE["v"][0] + SCALE["v"][1] * x[:, 1], "weight": w})
    if case["extra"]:
        df["log_posterior"] = np.log(w)
    chain = Chain(samples=df, name="g", grid=True, power=case["power"], sigmas=case["sigmas"], smooth=case["smooth"])
    want = levels_of(case["sigmas"], case["sigma2d"])
    (px, py), q = next(iter(draw(case, [chain], PlotConfig(sigma2d=case["sigma2d"])).items()))
    p.op()
    con = q.outlined[0]
    p.close(con.levels, want, 1e-12, "levels of the lines", case)
    h2 = np.diag([((9.2 / (n - 1)) * (case["smooth"] or 0)) ** 2 for n in case["n"]]) if case["smooth"] else np.zeros((2, 2))
    P = S / case["power"] + h2
    for i, level in enumerate(want):
        if level == 0:
            continue
        z = np.concatenate(con.polygons(i))
        z = np.stack([(z[:, 0 if px == "u" else 1] - SCALE["u"][0]), (z[:, 1 if px == "u" else 0] - SCALE["v"][0]) / SCALE["v"][1]], axis=1)
        r = np.sqrt(np.einsum("ij,jk,ik->i", z, np.linalg.inv(P), z) / stats.chi2(2).ppf(level))
        p.obs(r.mean())
        tol = 0.06 * max(9.2 / (min(case["n"]) - 1) / 0.15, 1) * (1.5 if case["power"] == 2.0 else 1.0) * (2 if level < 0.2 else 1)
        p.expect(np.all(np.abs(r - 1) < tol) and abs(r.mean() - 1) < tol / 2, "grid contour off the iso-density line", lambda: f"{case}: level {level:.3f} radius {r.min():.3f}..{r.max():.3f} mean {r.mean():.3f}")


def gen_kde(ch):
    return dict(columns=ch.pick("columns", (["u", "v"], ["v", "u"]), free=True), kde=ch.pick("kde", (1.0, True, 0.5), free=True), smooth=ch.pick("smooth", (1, 0)), weights=ch.pick("weights", ("unit", "half", "junk"), free=True), sigma2d=ch.flag("sigma2d"), via="plot")


def run_kde(case, p):
    n = 512
    x, w = sample("gauss", case["weights"], n)
    df = frame(x, w, ["u", "v"])
    chain = Chain(samples=df, name="k", kde=case["kde"], smooth=case["smooth"], bins=15 if case["smooth"] else 30)
    want = levels_of([0, 1, 2], case["sigma2d"])
    (px, py), q = next(iter(draw(case, [chain], PlotConfig(sigma2d=case["sigma2d"])).items()))
    p.op()
    con = q.outlined[0]
    p.close(con.levels, want, 1e-12, "levels of the lines", case)
    h = 2 * float(case["kde"]) * len(x) ** (-1 / 6)
    S = np.array([[1.0, 0.6], [0.6, 1.0]]) * (1 + h * h)
    for i, level in enumerate(want):
        if level:
            z = max(con.polygons(i), key=len)
            z = np.stack([(z[:, 0 if px == "u" else 1] - SCALE["u"][0]), (z[:, 1 if px == "u" else 0] - SCALE["v"][0]) / SCALE["v"][1]], axis=1)
            r = np.sqrt(np.einsum("ij,jk,ik->i", z, np.linalg.inv(S), z) / stats.chi2(2).ppf(level))
            p.obs(r.mean())
            p.expect(np.all(np.abs(r - 1) < 0.2) and abs(r.mean() - 1) < (0.06 if case["kde"] == 0.5 else 0.12), "kernel contour off the iso-density line", lambda: f"{case}: level {level:.3f} radius {r.min():.3f}..{r.max():.3f} mean {r.mean():.3f}")


# --------------------------------------------------------------------------------- clouds and points
def gen_cloud(ch):
    n = ch.pick("n", (500, 1, 7, 1000, 25001), free=True)
    return dict(n=n, num=ch.pick("num_cloud", (None, 100, 1, 3, 499, 500, 501, 250, 333.3, 100000), free=True), color=ch.pick("color_param", (None, "weight", "log_posterior", "t", "age")), contour=ch.flag("contour"), point=ch.flag("point"), cmap=ch.pick("cmap", ("viridis", "plasma")),
                posterior=ch.pick("best row", ("middle", "first", "last", "tied", "absent")), marker=ch.pick("marker", (("*", 90.0, 0.5), (".", 10.0, 1.0), ("s", 33, 1.0))), columns=ch.pick("columns", (["u", "v"], ["v", "u"], ["u", "v", "t"])), via=ch.pick("via", ("plot", "helper")), second=ch.flag("second chain"))


def run_cloud(case, p):
    n = case["n"]
    if case["color"] == "t" and "t" in case["columns"] or n < 100 and case["contour"]:
        return
    if not case["contour"] and n == 1 and not case["point"]:
        pass
    x = normal(n, 3)[scramble(n, 1)]
    df = frame(x, 1.0 + np.arange(n) % 5)
    df["age"] = np.sqrt(np.arange(n) + 2.0)
    best = {"middle": n // 2, "first": 0, "last": n - 1, "tied": n // 3, "absent": None}[case["posterior"]]
    if best is None:
        if case["color"] == "log_posterior":
            return
    else:
        lp = -1.0 - np.abs(np.arange(n) - best) / 10.0
        if case["posterior"] == "tied":
            lp[best:] = lp[best]
        df["log_posterior"] = lp
    mk, size, alpha = case["marker"]
    kw = dict(plot_cloud=True, plot_contour=case["contour"], plot_point=case["point"], cmap=case["cmap"], color_param=case["color"], color="#4488cc", marker_style=mk, marker_size=size, marker_alpha=alpha)
    if case["num"] is not None:
        kw["num_cloud"] = case["num"]
    df0 = df.copy()
    chain = Chain(samples=df, name="cloud", **kw)
    chains = [chain]
    if case["second"]:
        chains.append(Chain(samples=frame(normal(512, 3) * 0.4, np.ones(512)).assign(log_posterior=-np.arange(512.0)), name="other", plot_cloud=True, color="#00aa55", num_cloud=50))
    cols = case["columns"]
    if case["via"] == "plot":
        cc = ChainConsumer()
        for c in chains:
            cc.add_chain(c)
        if n < 100:
            cc.set_plot_config(PlotConfig(extents={"u": (-5, 5), "v": (300, 700), "t": (-4, -2)}, summarise=False))
        g, _ = triangle(cc.plotter.plot(columns=cols), len(cols))
        shown = {(cols[j], cols[i]): g[i][j] for i in range(len(cols)) for j in range(i)}
    else:
        shown = {}
        for i in range(len(cols)):
            for j in range(i):
                _, ax = plt.subplots()
                for c in chains:
                    plot_cloud(ax, c, cols[j], cols[i])
                    if c.plot_point:
                        plot_point(ax, c, cols[j], cols[i])
                shown[cols[j], cols[i]] = Panel(ax)
    p.expect(df.equals(df0), "samples modified", case)
    num = case["num"] or 10000
    for (px, py), q in shown.items():
        p.op()
        at = (case, px, py)
        clouds = [s for s in q.scatters if s.alpha == 0.3 and s.array is None or s.array is not None]
        points = [s for s in q.scatters if s not in clouds]
        if not p.equal(len(clouds), len(chains), "clouds", at):
            continue
        s = clouds[0]
        p.obs(s.xy[:5], len(s.xy))
        pts = df0[[px, py]].to_numpy()
        where = {tuple(v): i for i, v in reversed(list(enumerate(map(tuple, pts))))} if n <= 1000 else None
        if where is None:
            order = np.lexsort((pts[:, 1], pts[:, 0]))
            rows = []
            for v in s.xy[:: max(1, len(s.xy) // 200)]:
                hit = np.nonzero((pts[:, 0] == v[0]) & (pts[:, 1] == v[1]))[0]
                rows.append(int(hit[0]) if len(hit) else -1)
            del order
        else:
            rows = [where.get(tuple(v), -1) for v in s.xy]
        if not p.expect(min(rows) >= 0, "cloud shows a pair that is no sample", at):
            continue
        p.expect(len(s.xy) >= min(n, 1) and (len(s.xy) < 2 * num or num < 1) and (len(s.xy) == n if n <= num else len(s.xy) >= min(n, int(num))), "number of cloud points", lambda: f"{at}: {len(s.xy)} of {n} for {num}")
        p.expect(len(set(rows)) == len(rows), "cloud shows a sample twice", at)
        if n > num and len(rows) > 1:
            gaps = np.diff(np.concatenate(([0], sorted(rows), [n - 1])))
            p.expect(gaps.max() <= 2.0 * n / len(rows) + 1, "cloud leaves out a part of the chain", lambda: f"{at}: gap of {gaps.max()} rows")
        if case["color"] is None:
            p.equal((s.array, s.color), (None, "#4488cc"), "cloud colour", at)
        else:
            if p.expect(s.array is not None and len(s.array) == len(s.xy), "one colour value per point", at):
                step = max(1, len(s.xy) // 200) if where is None else 1
                p.expect(np.array_equal(s.array[::step], df0[case["color"]].to_numpy()[rows]), "cloud colour values", at)
                p.equal(s.cmap, case["cmap"], "colour map", at)
        want = [] if not case["point"] or best is None else [tuple(pts[best])]
        if p.equal([tuple(v.xy[0]) for v in points], want, "best-fit point", at) and want:
            p.equal((float(points[0].sizes[0]), points[0].alpha), (float(size), alpha), "style of the point", at)
            if not case["contour"]:
                p.equal(points[0].color, "#4488cc", "colour of the point", at)
        p.equal(len(q.outlined), (case["contour"] + case["second"]) if case["via"] == "plot" else 0, "contours", at)


# --------------------------------------------------------------------------------- helper functions draw what the triangle draws
def gen_helper(ch):
    return dict(style=ch.pick("style", list(STYLES), free=True), extra=ch.pick("extra", ("plain", "cloud", "point", "cloud point", "only cloud"), free=True), columns=ch.pick("columns", (["u", "v"], ["v", "u"]), free=True), two=ch.flag("two chains", free=True), config=ch.pick("config", ("none", "sigma2d")))


def run_helper(case, p):
    kw = {"plain": {}, "cloud": dict(plot_cloud=True), "point": dict(plot_point=True), "cloud point": dict(plot_cloud=True, plot_point=True), "only cloud": dict(plot_cloud=True, plot_contour=False)}[case["extra"]]
    x, w = sample("banana", "half", 1024)
    kw = {"color": "#556677"} | STYLES[case["style"]] | kw
    chains = [Chain(samples=frame(x, w).assign(log_posterior=-np.arange(len(x)) / 3.0), name="a", **kw)]
    if case["two"]:
        chains.append(Chain(samples=frame(normal(512, 3), np.ones(512), ["v", "u"]), name="b", color="#cc0000", shade=True, bar_shade=True))
    cc = ChainConsumer()
    for c in chains:
        cc.add_chain(c)
    config = PlotConfig(sigma2d=True) if case["config"] == "sigma2d" else None
    if config:
        cc.set_plot_config(config)
    px, py = case["columns"]
    q = triangle(cc.plotter.plot(columns=[px, py]), 2)[0][1][0]
    _, ax = plt.subplots()
    ax.set_xlim(q.xlim), ax.set_ylim(q.ylim)
    plot_surface(ax, chains, px, py, config)
    r = Panel(ax)
    p.op()
    p.obs(len(r.contours), len(r.scatters))
    a = [k.key() for g in (q.scatters, q.outlined) for k in g]
    b = [k.key() for g in (r.scatters, r.outlined) for k in g]
    if not STYLES[case["style"]].get("show_contour_labels"):  # labels cut the lines depending on the size of the axes
        p.expect(canon(a) == canon(b), "helper draws something else", case)
    p.equal(hexof(q.ax.get_facecolor()), hexof(r.ax.get_facecolor()), "background", case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("gauss", gen_gauss, run, bound=1 if q else 2, note="weighting x columns x level convention, with binning, sigmas, style, further chains, call form and index: mass inside every line, the exact ellipse, bands against lines"),
        Space("shapes", gen_shapes, run, bound=1 if q else 3, note="islands, skew, banana, ring and hard edge under three weightings: mass inside every line and band"),
        Space("grid", gen_grid, run_grid, bound=1 if q else None, note="grids x power x smoothing x row order: the exact ellipse"),
        Space("kde", gen_kde, run_kde, bound=1 if q else None, note="kernel estimates: the exact widened ellipse"),
        Space("cloud", gen_cloud, run_cloud, bound=1 if q else 2, note="chain lengths x requested points x colour parameter, with best-fit points"),
        Space("helpers", gen_helper, run_helper, bound=1 if q else None, note="external-axis helpers against the triangle plot"),
    ]
