"""C24: the kernel density estimate is the weighted matched-Gaussian density."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from chainconsumer.kde import MegKDE

from mc.data import quantile_sample, scramble, wcov
from mc.engine import Space

ASSUMPTIONS = ["query points exactly at the truncation radius are left out (rounding decides them)", "samples have a non-singular covariance, as the documentation asks"]
# 1.3.. keeps the factors irrational so that no distance sits on the radius


@functools.lru_cache(maxsize=None)
def train(kind, n, dim):
    rng = np.random.default_rng(n * 10 + dim)
    x = np.stack([quantile_sample(("gauss", "skew", "uniform")[j % 3], n)[rng.permutation(n)] for j in range(dim)], axis=1) if n > 1 else np.zeros((1, dim))
    if kind == "plain":
        return x
    if kind == "correlated":
        return x @ (np.eye(dim) + 0.6 * np.tri(dim, k=-1))
    if kind == "clusters":
        return x + 25.0 * (np.arange(n) % 2)[:, None]
    if kind == "repeats":
        return x[np.arange(n) // 2]
    if kind == "scaled":
        return x * (10.0 ** (2 * np.arange(dim) - 3)) + 5.0
    if kind == "whole":
        return np.round(10 * x).astype(int)
    if kind == "outlier":
        x = x.copy()
        x[0] += 400
        return x
    raise KeyError(kind)


WEIGHTS = {
    "none": lambda n: None, "unit": lambda n: np.ones(n), "integers": lambda n: 1 + np.arange(n) % 5, "steep": lambda n: np.exp(-np.arange(n) / (n / 6)), "tiny": lambda n: 1e-9 * (1.0 + np.arange(n) % 3),
}


def queries(x, kind):
    mu, sd = x.mean(0), x.std(0) + 1e-30
    dim = x.shape[1]
    if kind == "samples":
        return x[: min(20, len(x))]
    if kind == "lattice":
        t = np.linspace(-2.9, 3.1, 13)
        return mu + sd * np.stack([np.roll(t, 3 * j) for j in range(dim)], axis=1)
    if kind == "far":
        return mu + sd * np.array([[60.0], [-75.0], [1000.0]]) * np.ones((1, dim))
    if kind == "one":
        return (mu + 0.3137 * sd)[None, :]
    raise KeyError(kind)


def reference(x, w, q, truncation=3.0, nmin=4, factor=1.0):
    """Explicit sums over all samples."""
    n, dim = x.shape
    w = np.ones(n) if w is None else w
    mean = (w[:, None] * x).sum(0) / w.sum()
    inv = np.linalg.inv(wcov(x, w))
    sigma = 2.0 * factor * n ** (-1.0 / (4 + dim))
    out, ambiguous = [], []
    for v in q:
        d2 = np.array([(s - v) @ inv @ (s - v) for s in x])
        r = sigma * truncation
        use = d2 <= r * r
        ambiguous.append(bool(np.any(np.abs(np.sqrt(np.maximum(d2, 0)) - r) < 1e-6 * r)))
        if use.sum() < nmin:
            o = np.argsort(d2, kind="stable")
            use = np.zeros(n, bool)
            use[o[:nmin]] = True
            if n > nmin and abs(d2[o[nmin - 1]] - d2[o[nmin]]) < 1e-9 * (1 + d2[o[nmin]]) and w[o[nmin - 1]] != w[o[nmin]]:
                ambiguous[-1] = True
        out.append(sum(wi * np.exp(-0.5 * di / sigma**2) for wi, di in zip(w[use], d2[use])))
    return np.array(out), np.array(ambiguous), mean


def gen(ch):
    dim = ch.pick("dim", (1, 2, 3), free=True)
    c = dict(dim=dim, kind=ch.pick("data", ("plain", "correlated", "clusters", "repeats", "scaled", "outlier", "whole")), n=ch.pick("n", (60, 5, 12, 301)), weights=ch.pick("weights", list(WEIGHTS)),
                query=ch.pick("query", ("lattice", "samples", "far", "one")), factor=ch.pick("factor", (1.0, 0.37, 2.3, 0.05)), truncation=ch.pick("truncation", (3.0, 1.1, 6.0)), nmin=ch.pick("nmin", (4, 1, 5)),
                layout=ch.pick("layout", ("2d", "1d")))
    w = WEIGHTS[c["weights"]](c["n"])
    return c if np.linalg.cond(wcov(train(c["kind"], c["n"], dim), np.ones(c["n"]) if w is None else w).reshape(dim, dim)) < 1e10 else None


def evaluate(x, w, q, case, p=None):
    flat = case["layout"] == "1d" and x.shape[1] == 1
    k = MegKDE(x[:, 0] if flat else x, w, truncation=case["truncation"], nmin=case["nmin"], factor=case["factor"])
    return np.asarray(k.evaluate(q[:, 0] if flat else q))


def run(case, p):
    x, n = train(case["kind"], case["n"], case["dim"]), case["n"]
    w = WEIGHTS[case["weights"]](n)
    q = queries(x, case["query"])
    x0, w0, q0 = x.copy(), None if w is None else w.copy(), q.copy()
    got = evaluate(x, w, q, case)
    p.op()
    p.obs(got)
    p.expect(np.array_equal(x, x0) and (w is None or np.array_equal(w, w0)) and np.array_equal(q, q0), "inputs modified")
    p.expect(got.shape == (len(q),) and np.all(np.isfinite(got)) and np.all(got >= 0), "shape, sign or finiteness", lambda: (case, got))
    want, amb, mean = reference(x, w, q, case["truncation"], case["nmin"], case["factor"])
    if case["query"] == "far" or case["n"] <= 12:
        amb = amb | False
    ok = ~amb
    top = (np.ones(n) if w is None else w).max()
    fine = max(1.0, 1e-6 * np.linalg.cond(wcov(x, np.ones(n) if w is None else w).reshape(case["dim"], case["dim"]))) / min(1.0, case["factor"]) ** 2  # rounding grows with the condition number
    p.expect(np.all(np.abs(got - want)[ok] <= 1e-9 * top + 1e-6 * fine * want[ok]), "not the kernel sum", lambda: f"{case}: {got[ok]} expected {want[ok]}")
    if w is not None:
        for c in (7.0, 2.0**-30):
            p.close(evaluate(x, c * w, q, case), c * got, 1e-12 * c * top, "not linear in the weights", case, rel=1e-6 * fine)
    o = scramble(len(q), 1)
    p.expect(np.allclose(evaluate(x, w, q[o], case), got[o], rtol=1e-12, atol=0), "depends on the order of query points", case)
    o = scramble(n, 2)
    p.expect(np.all((np.abs(evaluate(x[o], None if w is None else w[o], q, case) - got) <= 1e-9 * top + 1e-6 * fine * got)[ok]), "depends on the order of samples", case)
    single = np.array([evaluate(x, w, v[None, :], case)[0] for v in q[:4]])
    p.close(single, got[:4], 1e-12 * top, "depends on the other query points", case, rel=1e-9)
    k = MegKDE(x, w, truncation=case["truncation"], nmin=case["nmin"], factor=case["factor"])
    a, b = k.evaluate(q), k.evaluate(q)
    p.expect(np.array_equal(a, b), "second evaluation differs", case)
    # affine maps: the same points in other coordinates
    dim = x.shape[1]
    A = np.eye(dim) * 1.9 + 0.4 * np.tri(dim, k=-1) - 0.2 * np.tri(dim, k=-2).T
    A[0] *= -1
    t = 3.0 + np.arange(dim)
    p.expect(np.all((np.abs(evaluate(x @ A.T + t, w, q @ A.T + t, case) - got) <= 1e-7 * fine * top + 1e-5 * fine * got)[ok]), "not affine invariant", lambda: case)


# --------------------------------------------------------------------------------- the marginal drawn from it
def gen_curve(ch):
    return dict(shape=ch.pick("shape", ("gauss", "skew", "uniform"), free=True), kde=ch.pick("kde", (True, 1, 0.5, 2.0, 0.1), free=True), weights=ch.pick("weights", ("unit", "integers", "steep"), free=True), n=ch.pick("n", (200, 40)))


def run_curve(case, p):
    """A chain with kde on draws this estimate, normalised, as its marginal; True means a factor of one."""
    n = case["n"]
    x = quantile_sample(case["shape"], n)[scramble(n, 9)]
    w = WEIGHTS[case["weights"]](n)
    cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({"x": x, "weight": w}), name="m", kde=case["kde"]))
    ax = cc.plotter.plot_distributions().axes[0]
    p.op()
    ln = [v for v in ax.lines if len(v.get_xdata()) > 10][0]
    gx, gy = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
    i = np.linspace(0, len(gx) - 1, 61).astype(int)
    want, amb, _ = reference(x[:, None], w, gx[i][:, None], factor=float(case["kde"]))
    fine, _, _ = reference(x[:, None], w, gx[::40][:, None], factor=float(case["kde"]))
    area = np.trapezoid(fine, gx[::40])
    p.obs(gy[i])
    p.close(gy[i][~amb] * area / fine.max(), want[~amb] / fine.max(), 0.04, "marginal is not the kernel density", case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("estimates", gen, run, bound=3 if q else None, note="samples x dimension x weights x query points x factor x truncation x nmin against explicit kernel sums; linearity, order, affine maps"),
        Space("marginal", gen_curve, run_curve, bound=0 if q else None, note="the marginal of a kernel-smoothed chain"),
    ]
