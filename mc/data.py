"""Deterministic sample sets and boring reference statistics."""
from __future__ import annotations

import numpy as np
import pandas as pd
from scipy import stats

SHAPES = {
    # name: frozen distribution
    "gauss": stats.norm(0.0, 1.0),
    "skew": stats.gamma(3.0),
    "uniform": stats.uniform(0.0, 1.0),
    "expo": stats.expon(),
    "tri": stats.triang(0.25, 0.0, 4.0),
    "heavy": stats.t(4),
    "beta": stats.beta(2.0, 5.0),
    "cliff": stats.truncnorm(-0.5, 5.0, 0.0, 1.0),
}


def mixture_ppf(modes, q):
    """Quantiles of a gaussian mixture [(weight, mean, sd)]."""
    w = np.array([m[0] for m in modes], float)
    w /= w.sum()
    lo = min(m[1] - 9 * m[2] for m in modes)
    hi = max(m[1] + 9 * m[2] for m in modes)
    x = np.linspace(lo, hi, 200001)
    c = sum(wi * stats.norm.cdf(x, m[1], m[2]) for wi, m in zip(w, modes))
    return np.interp(q, c, x)


def quantile_sample(shape, n):
    q = (np.arange(n) + 0.5) / n
    if isinstance(shape, str):
        return SHAPES[shape].ppf(q)
    return mixture_ppf(shape, q)


def scramble(n, k=None):
    """A fixed pseudo-random permutation of range(n)."""
    return np.random.default_rng(n * 7919 + (k or 0)).permutation(n)


def weighted_sample(shape, n, weighting):
    """(x, w) representing the distribution `shape` under different weightings.

    unit      quantile points with unit weights
    importance evenly spaced points weighted by the density
    half      quantile points, but points below the median are represented at half density with double weight
    random    quantile points in pairs: each point split in two rows with weights 0.25 and 0.75
    """
    if weighting == "unit":
        x = quantile_sample(shape, n)
        w = np.ones(n)
    elif weighting == "importance":
        full = quantile_sample(shape, n)
        x = np.linspace(full[0], full[-1], n)
        cdf = np.interp(np.concatenate(([x[0]], 0.5 * (x[1:] + x[:-1]), [x[-1]])), full, (np.arange(n) + 0.5) / n)
        w = np.diff(cdf) + 1e-12
        w = w / w.max()
    elif weighting == "half":
        x = quantile_sample(shape, n)
        low = x[: n // 2][::2]
        x = np.concatenate((low, x[n // 2:]))
        w = np.concatenate((2 * np.ones(len(low)), np.ones(n - n // 2)))
    elif weighting == "random":
        x = quantile_sample(shape, n // 2)
        x = np.concatenate((x, x))
        w = np.concatenate((0.25 * np.ones(n // 2), 0.75 * np.ones(n // 2)))
    else:
        raise KeyError(weighting)
    p = scramble(len(x))
    return x[p], w[p]


def wquantile(x, w, q):
    """Weighted quantile by linear interpolation of the mid-point CDF."""
    o = np.argsort(x, kind="stable")
    x, w = x[o], w[o]
    c = (np.cumsum(w) - 0.5 * w) / w.sum()
    return np.interp(q, c, x)


def wmass(x, w, lo, hi):
    m = (x >= lo) & (x <= hi)
    return float(w[m].sum() / w.sum())


def wmean(x, w):
    return float((x * w).sum() / w.sum())


def wcov(X, w):
    """Unbiased covariance with (reliability) weights, by explicit sums."""
    X, w = np.asarray(X, float), np.asarray(w, float)
    v1, v2 = w.sum(), (w * w).sum()
    mu = (w[:, None] * X).sum(0) / v1
    d = X - mu
    out = np.empty((X.shape[1], X.shape[1]))
    for i in range(X.shape[1]):
        for j in range(X.shape[1]):
            out[i, j] = (w * d[:, i] * d[:, j]).sum() / (v1 - v2 / v1)
    return out


def correlated(n, rho=0.5, mean=(0.0, 0.0), sd=(1.0, 1.0)):
    """A deterministic low-discrepancy bivariate normal sample."""
    u = stats.qmc.Sobol(2, scramble=False).random(n) if (n & (n - 1)) == 0 else stats.qmc.Halton(2, scramble=False).random(n)
    u = np.clip(u + 0.5 / n, 1e-9, 1 - 1e-9)
    z = stats.norm.ppf(u)
    x = mean[0] + sd[0] * z[:, 0]
    y = mean[1] + sd[1] * (rho * z[:, 0] + np.sqrt(1 - rho**2) * z[:, 1])
    return x, y


def frame(cols, index=None):
    df = pd.DataFrame(cols)
    if index is not None:
        df.index = index
    return df
