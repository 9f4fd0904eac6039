"""C27: chains built from samplers hold exactly the sampler's draws."""
import functools
import itertools

import numpy as np
from chainconsumer import Chain, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from mc.engine import Space

ASSUMPTIONS = ["scalar parameters only; selecting names the sampler does not have is outside the alphabet", "the sampler's order is emcee's step by step and numpyro's and arviz's chain by chain"]
OPTIONS = {"none": {}, "colour": dict(color="#123456", linewidth=3.0), "walkers": dict(walkers=2), "point": dict(plot_point=True, plot_contour=False), "statistic": dict(statistics=S.CUMULATIVE, summary_area=0.9), "shift": dict(shift_params=True), "model": dict(num_free_params=2, num_eff_data_points=50.0)}


def judge(p, chain, want, name, options, where):
    """want: ordered {parameter: draws}; the order of columns is only checked by name."""
    p.obs(chain.samples.to_numpy())
    p.equal(chain.name, name, "name", where)
    got = [c for c in chain.samples.columns if c != "weight" or "weight" in want]
    p.equal(sorted(got), sorted(want), "columns", where, stop=True)
    params = [c for c in want if c not in ("weight", "log_posterior")]
    p.equal(sorted(chain.data_columns), sorted(params), "parameters", where)
    n = len(next(iter(want.values())))
    p.equal(len(chain.samples), n, "number of draws", where, stop=True)
    w = np.asarray(want.get("weight", np.ones(n)), float)
    p.expect(np.array_equal(np.asarray(chain.weights, float), w), "weights", where)
    for c, v in want.items():
        if options == "shift" and c in params:
            v = v - (v * w).sum() / w.sum()
            p.close(chain.samples[c], v, 1e-5 * (1 + np.ptp(v)) + 1e-7 * np.abs(chain.samples[c]).max(), "shifted draws", (where, c))
        else:
            p.expect(np.array_equal(chain.samples[c].to_numpy(), v), "draws differ", (where, c))
    for k, v in OPTIONS[options].items():
        p.equal(getattr(chain, k), v, "option not passed through", (where, k))
    if options != "point":
        s = ChainConsumer().add_chain(chain).analysis.get_summary()[name] if n > 3 else {}
        p.expect(not s or sorted(s) == sorted(params), "not usable", where)


# ---------------------------------------------------------------------------------------------------------------- emcee
def log_prob(x):
    return -0.5 * np.sum((x - np.arange(len(x)) * 10) ** 2)


@functools.lru_cache(maxsize=None)
def emcee_run(dims, walkers, steps, twice):
    import emcee
    s = emcee.EnsembleSampler(walkers, dims, log_prob)
    s._random.seed(dims * 100 + walkers)
    state = np.random.default_rng(5).normal(size=(walkers, dims)) + np.arange(dims) * 10
    for k in range(2 if twice else 1):
        state = s.run_mcmc(state, steps, progress=False)
    return s


NAMES = ["zeta", "alpha", "$\\mu$", "b 2"]


def gen_emcee(ch):
    c = dict(dims=ch.pick("dims", (1, 2, 3, 4), free=True), thin=ch.pick("thin", (None, 1, 2, 3, 7), free=True), discard=ch.pick("discard", (None, 0, 1, 5, 12), free=True), walkers=ch.pick("walkers", (8, 14)), steps=ch.pick("steps", (40, 23)),
             twice=ch.flag("continued run"), order=ch.pick("names", ("given", "reversed")), options=ch.pick("options", list(OPTIONS)), blobs=ch.flag("other sampler"))
    return c


def run_emcee(case, p):
    s = emcee_run(case["dims"], case["walkers"], case["steps"], case["twice"])
    names = NAMES[:case["dims"]][:: -1 if case["order"] == "reversed" else 1]
    kw = {k: case[k] for k in ("thin", "discard") if case[k] is not None}
    raw = np.array(s.get_chain())  # step, walker, dimension
    discard, thin = case["discard"] or 0, case["thin"] or 1
    rows = raw[discard + thin - 1:: thin].reshape(-1, case["dims"])  # emcee's thinning keeps the last step of every block
    if case["options"] == "walkers" and len(rows) % 2:
        return
    keep = list(names)
    chain = Chain.from_emcee(s, names, "e", **kw, **OPTIONS[case["options"]])
    p.op()
    p.equal(names, keep, "names modified")
    if case["blobs"]:  # a second conversion does not disturb the first
        Chain.from_emcee(emcee_run(2, 8, 40, False), ["u", "v"], "other", thin=2)
    judge(p, chain, {n: rows[:, i] for i, n in enumerate(names)}, "e", case["options"], case)
    p.equal(list(chain.data_columns), names, "order of columns", case)
    p.expect(np.array_equal(raw, s.get_chain()), "sampler modified", case)


# ------------------------------------------------------------------------------------------------------- arviz, numpyro
PARAMS = ("mu", "sigma", "mu_2", "a", "~z")


def selections(names):
    """Every inclusion and exclusion list over `names`, in both orders."""
    out = [None, ()]
    for r in range(1, len(names) + 1):
        for sub in itertools.combinations(names, r):
            out += [sub, sub[::-1]] if r > 1 else [sub]
    for r in range(1, len(names)):
        for sub in itertools.combinations(names, r):
            out += [tuple("~" + v for v in q) for q in ((sub, sub[::-1]) if r > 1 else (sub,))]
    return list(dict.fromkeys(out))


def chosen(sel, names):
    if not sel:
        return list(names)
    if sel[0].startswith("~"):
        return [n for n in names if "~" + n not in sel]
    return [n for n in names if n in sel]


@functools.lru_cache(maxsize=None)
def idata(names, chains, draws, extra, first):
    import arviz as az
    rng = np.random.default_rng(chains * 1000 + draws)
    post = {n: (rng.normal(size=(chains, draws)) * (1 + i) + 100 * i) for i, n in enumerate(names)}
    for n in names:
        if n == "weight":
            post[n] = 1.0 + np.abs(post[n])
    groups = dict(posterior=post)
    if extra:
        groups |= dict(sample_stats={"diverging": np.zeros((chains, draws), bool), "lp": rng.normal(size=(chains, draws))}, prior={n: rng.normal(size=(1, 7)) for n in names}, observed_data={"y": np.arange(9.0)}, posterior_predictive={"y": rng.normal(size=(chains, draws, 9))})
    d = az.from_dict(**groups)
    if first:
        d = d.sel(draw=slice(first, None))
        post = {k: v[:, first:] for k, v in post.items()}
    return d, post


SETS = {"three": ("mu", "sigma", "mu_2"), "reversed": ("zeta", "mu", "alpha"), "one": ("x",), "four": ("b", "a", "ab", "ba"), "weighted": ("x", "weight", "a"), "posterior": ("log_posterior", "q", "p"), "spaces": ("a b", "$\\theta$")}


def gen_arviz(ch):
    key = ch.pick("parameters", list(SETS), free=True)
    return dict(parameters=key, select=ch.pick("selection", selections(SETS[key]), free=True), chains=ch.pick("chains", (2, 1, 4)), draws=ch.pick("draws", (30, 5)), extra=ch.flag("other groups"), first=ch.pick("burn in", (0, 3)),
                options=ch.pick("options", list(OPTIONS)))


def run_arviz(case, p):
    names = SETS[case["parameters"]]
    d, post = idata(names, case["chains"], case["draws"], case["extra"], case["first"])
    want = {n: post[n].reshape(-1) for n in chosen(case["select"], names)}
    if not set(want) - {"weight", "log_posterior"} or (case["options"] == "walkers" and len(next(iter(want.values()))) % 2):
        return
    sel = None if case["select"] is None else list(case["select"])
    keep = None if sel is None else list(sel)
    chain = Chain.from_arviz(d, "a", var_names=sel, **OPTIONS[case["options"]])
    p.op()
    p.equal(sel, keep, "selection modified", case)
    judge(p, chain, want, "a", case["options"], case)


MIXED = (("mu", "~sigma"), ("~mu", "sigma"), ("~mu", "~sigma", "mu_2"), ("mu", "sigma", "~mu_2"), ("mu", "~mu"))


def gen_mixed(ch):
    return dict(select=ch.pick("selection", MIXED, free=True), sampler=ch.pick("sampler", ("arviz", "numpyro"), free=True))


def run_mixed(case, p):
    f = Chain.from_arviz if case["sampler"] == "arviz" else Chain.from_numpyro
    obj = idata(SETS["three"], 2, 30, False, 0)[0] if case["sampler"] == "arviz" else numpyro_run(1)
    p.raises(lambda: f(obj, "m", var_names=list(case["select"])), "mixed list accepted", case)


@functools.lru_cache(maxsize=None)
def numpyro_run(chains):
    import jax
    import numpyro
    import numpyro.distributions as dist

    def model():
        for i, n in enumerate(("sigma", "mu", "mu_2")):
            numpyro.sample(n, dist.Normal(100.0 * i, 1.0))
    m = numpyro.infer.MCMC(numpyro.infer.NUTS(model), num_warmup=4, num_samples=12, num_chains=chains, chain_method="sequential", progress_bar=False)
    m.run(jax.random.PRNGKey(chains))
    return m


def gen_numpyro(ch):
    return dict(chains=ch.pick("chains", (1, 2), free=True), select=ch.pick("selection", selections(("sigma", "mu", "mu_2")), free=True), options=ch.pick("options", list(OPTIONS)))


def run_numpyro(case, p):
    m = numpyro_run(case["chains"])
    raw = {k: np.asarray(v) for k, v in m.get_samples(group_by_chain=True).items()}
    want = {n: raw[n].reshape(-1) for n in chosen(case["select"], ("sigma", "mu", "mu_2"))}
    sel = None if case["select"] is None else list(case["select"])
    chain = Chain.from_numpyro(m, "n", var_names=sel, **OPTIONS[case["options"]])
    p.op()
    judge(p, chain, want, "n", case["options"], case)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("numpyro", gen_numpyro, run_numpyro, bound=1, note="every inclusion and exclusion list x number of chains x options"),
        Space("emcee", gen_emcee, run_emcee, bound=1 if q else None, note="dimensions x thinning x discarding x walkers x steps x options"),
        Space("arviz", gen_arviz, run_arviz, bound=1 if q else 3, note="parameter sets x every inclusion and exclusion list x chains, draws, other groups, burn in, options"),
        Space("mixed", gen_mixed, run_mixed, note="mixed lists are refused"),
    ]
