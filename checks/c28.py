"""C28: synthetic sample helpers are reproducible and match their specification."""
import functools
import itertools
import random

import numpy as np
from chainconsumer import Chain, ChainConsumer
from chainconsumer.examples import make_sample

from mc.engine import Space

ASSUMPTIONS = ["sampling error is six standard errors"]


# --------------------------------------------------------------------------------------------------------- make_sample
def disturb(kind):
    """Something else in the process uses or seeds random numbers."""
    if kind == "seeded":
        np.random.seed(7)
        random.seed(7)
    elif kind == "drawn":
        np.random.normal(size=1013)
        random.random()
    elif kind == "reseeded elsewhere":
        np.random.seed(12345)
    elif kind == "other sample":
        make_sample(num_dimensions=3, seed=99, num_points=10)
    elif kind == "unseeded sample":
        make_sample(num_points=10)
    elif kind == "covariance":
        Chain.from_covariance(np.zeros(2), np.eye(2), columns=["a", "b"], name="n")


DISTURB = ("none", "seeded", "drawn", "reseeded elsewhere", "other sample", "unseeded sample", "covariance")


def gen_sample(ch):
    return dict(dims=ch.pick("dimensions", (2, 1, 3, 4, 5), free=True), points=ch.pick("points", (2000, 1, 2, 37), free=True), seed=ch.pick("seed", (0, 1, 5, 2**31), free=True), mean=ch.flag("random means", free=True),
                before=[ch.pick(f"call {i + 1}", DISTURB) for i in range(3)])


def expected_density(x, mean, cor):
    d = x - mean
    q = np.einsum("ij,jk,ik->i", d, np.linalg.inv(cor), d)
    return -0.5 * (q + np.log(np.linalg.det(cor)) + len(mean) * np.log(2 * np.pi))


@functools.lru_cache(maxsize=None)
def first(dims, points, seed, mean):
    np.random.seed(3)
    return make_sample(num_dimensions=dims, seed=seed, randomise_mean=mean, num_points=points)


@functools.lru_cache(maxsize=None)
def large(dims, seed, mean):
    return make_sample(num_dimensions=dims, seed=seed, randomise_mean=mean, num_points=60000)


def run_sample(case, p):
    n, dims = case["points"], case["dims"]
    want = first(dims, n, case["seed"], case["mean"])
    for k in case["before"]:
        disturb(k)
    state = np.random.get_state()[1].copy()
    df = make_sample(num_dimensions=dims, seed=case["seed"], randomise_mean=case["mean"], num_points=n)
    p.op()
    p.expect(np.array_equal(state, np.random.get_state()[1]), "global random state changed", case)
    p.obs(df.to_numpy()[:5])
    cols = ["A", "B", "C", "D", "E"][:dims]
    p.equal(list(df.columns), [*cols, "log_posterior"], "columns", case, stop=True)
    p.equal(len(df), n, "number of points", case, stop=True)
    p.expect(df.equals(want), "same seed, different sample", case)
    other = make_sample(num_dimensions=dims, seed=case["seed"] + 17, randomise_mean=case["mean"], num_points=n)
    p.expect(not np.array_equal(other[cols].to_numpy(), df[cols].to_numpy()), "another seed gives the same sample", case)
    if n < 1000:
        return
    x = df[cols].to_numpy()
    se = 6 / np.sqrt(n)
    p.close(x.std(axis=0), np.ones(dims), se, "unit variance", case)
    mu = 5.0 * np.arange(dims)
    if case["mean"]:
        p.expect(np.all(np.abs(x.mean(0) - mu) <= 1 + se), "random means stray more than one from the documented ones", lambda: (case, x.mean(0)))
        p.expect(np.any(np.abs(x.mean(0) - mu) > se), "means not randomised", lambda: (case, x.mean(0)))
    else:
        p.close(x.mean(axis=0), mu, se, "documented means", case)
    # the density column is quadratic in the parameters: fit it exactly, then compare its curvature with the sample
    pairs = list(itertools.combinations_with_replacement(range(dims), 2))
    A = np.column_stack([np.ones(n), x - mu, *[(x[:, i] - mu[i]) * (x[:, j] - mu[j]) for i, j in pairs]])
    coef, *_ = np.linalg.lstsq(A, df["log_posterior"].to_numpy(), rcond=None)
    scale = 1 + np.abs(df["log_posterior"]).max()
    p.close(A @ coef, df["log_posterior"], 1e-6 * scale, "density is not a Gaussian's", case)
    P = np.zeros((dims, dims))
    for (i, j), v in zip(pairs, coef[1 + dims:]):
        P[i, j] += -v
        P[j, i] += -v
    cor = np.linalg.inv(P)
    p.close(np.diag(cor), np.ones(dims), 1e-5 * np.linalg.cond(P), "density of another width", case)
    mean = mu + cor @ coef[1:1 + dims]
    p.close(expected_density(x, mean, cor), df["log_posterior"], 1e-5 * scale * max(1, np.linalg.cond(P) * 1e-3), "density is not normalised", case)
    if not case["mean"]:
        p.close(mean, mu, 1e-5 * np.linalg.cond(P), "density centred elsewhere", case)
    p.close(np.corrcoef(x.T).reshape(dims, dims), cor, se, "sample correlation is not the density's", case)


def gen_unseeded(ch):
    return dict(dims=ch.pick("dimensions", (1, 2, 4), free=True), mean=ch.flag("random means", free=True))


def run_unseeded(case, p):
    a, b = (make_sample(num_dimensions=case["dims"], randomise_mean=case["mean"], num_points=50) for _ in range(2))
    p.op(2)
    p.expect(not a.equals(b), "two unseeded samples agree", case)
    p.equal(a.shape, (50, case["dims"] + 1), "shape", case)


# ------------------------------------------------------------------------------------------------------ from_covariance
COVS = {
    "unit": lambda d: np.eye(d), "diagonal": lambda d: np.diag(10.0 ** np.arange(-2, d - 2)), "correlated": lambda d: 0.25 * np.eye(d) + 0.75, "anticorrelated": lambda d: np.array([[1.0 if i == j else -0.9 / max(1, d - 1) * (-1) ** (i + j + 1 + d) * (1 if d == 2 else 0.9) for j in range(d)] for i in range(d)]) if d <= 2 else np.eye(d) * 1.2 - 0.3,
    "steep": lambda d: np.array([[(1 + i) * (1 + j) * 0.6 ** abs(i - j) for j in range(d)] for i in range(d)]), "tiny": lambda d: 1e-12 * (np.eye(d) + 0.5), "huge": lambda d: 1e12 * (np.eye(d) + 0.1),
}
MEANS = {"zero": lambda d: np.zeros(d), "spread": lambda d: 100.0 * np.arange(d) - 30, "negative": lambda d: -7.5 * np.ones(d), "list": lambda d: [1.5 * i for i in range(d)]}
OPTIONS = {"none": {}, "colour": dict(color="#ab12cd"), "point": dict(plot_point=True), "name": {}, "bins": dict(bins=12, smooth=0)}


def gen_cov(ch):
    return dict(dims=ch.pick("dims", (2, 1, 3, 4), free=True), cov=ch.pick("covariance", list(COVS), free=True), mean=ch.pick("mean", list(MEANS), free=True), order=ch.pick("columns", ("sorted", "reversed", "odd"), free=True), seeded=ch.flag("global seed", free=True),
                options=ch.pick("options", list(OPTIONS)), array=ch.pick("given as", ("array", "lists")))


def run_cov(case, p):
    d = case["dims"]
    mean, cov = MEANS[case["mean"]](d), COVS[case["cov"]](d)
    if case["cov"] == "tiny":
        mean = np.zeros(d) + 1e-6 * np.arange(d)
    names = [["aa", "bb", "cc", "dd"][:d], ["dd", "cc", "bb", "aa"][:d], ["$z$", "x", "B 1", "alpha"][:d]][("sorted", "reversed", "odd").index(case["order"])]
    m, c = (np.array(mean, float), np.array(cov)) if case["array"] == "array" else (list(map(float, mean)), cov.tolist())
    m0, c0, n0 = np.array(m), np.array(c), list(names)
    if case["seeded"]:
        np.random.seed(4)
    chain = Chain.from_covariance(m, c, columns=names, name="cov", **OPTIONS[case["options"]])
    p.op()
    p.expect(np.array_equal(np.array(m), m0) and np.array_equal(np.array(c), c0) and names == n0, "arguments modified", case)
    p.equal(list(chain.data_columns), names, "columns", case, stop=True)
    p.equal(chain.name, "cov", "name")
    for k, v in OPTIONS[case["options"]].items():
        p.equal(getattr(chain, k), v, "option not passed through", case)
    x = chain.samples[names].to_numpy()
    n = len(x)
    p.expect(n >= 10000 and np.all(chain.weights == 1), "too few samples", (case, n))
    sd = np.sqrt(np.diag(cov))
    se = 6 / np.sqrt(n)
    p.close((x.mean(0) - np.array(mean)) / sd, np.zeros(d), se, "means", case)
    got = np.cov(x.T).reshape(d, d) / np.outer(sd, sd)
    p.close(got, cov / np.outer(sd, sd), 1.5 * se, "covariance", case)
    p.close(chain.get_covariance().matrix / np.outer(sd, sd), cov / np.outer(sd, sd), 1.5 * se, "reported covariance", case)
    s = ChainConsumer().add_chain(chain).analysis.get_summary()["cov"]
    p.close([(s[v].center - mu) / q for v, mu, q in zip(names, mean, sd)], np.zeros(d), 0.45, "summary", case)



def spaces(tier):
    q = tier == "quick"
    return [
        Space("samples", gen_sample, run_sample, bound=1 if q else None, note="dimensions x points x seed x random means x up to three disturbances of the random state before"),
        Space("unseeded", gen_unseeded, run_unseeded, note="samples without a seed differ"),
        Space("covariance", gen_cov, run_cov, bound=0 if q else None, note="dimensions x covariance x mean x column order x global seed"),
    ]
