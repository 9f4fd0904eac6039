"""C03: results depend only on current contents, never on earlier calls."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from chainconsumer.statistics import SummaryStatistic as S

from mc.data import mixture_ppf, quantile_sample, scramble
from mc.engine import Space, canon
from mc.scene import figure_key

ASSUMPTIONS = [
    "two consumers built from equal contents give equal results (compared to nine significant digits)",
    "font family and usetex settings left at None are outside the alphabet (they deliberately follow matplotlib's own global state)",
]
N = 200


def chain(v):
    q = lambda s, k: quantile_sample(s, N)[scramble(N, k)]  # noqa: E731
    if v == "A":
        df = pd.DataFrame({"x": q("gauss", 1), "y": 5 + q("skew", 2), "log_posterior": -0.5 * q("gauss", 1) ** 2, "weight": 0.5 + np.arange(N) % 3})
        df.index = np.arange(N)[::-1]
        return Chain(samples=df, name="A", walkers=4, smooth=1, bins=10, num_free_params=2, num_eff_data_points=30)
    if v == "A2":  # another chain under the name of A
        df = pd.DataFrame({"x": 3 + 2 * q("tri", 7), "y": 8 + 0.5 * q("gauss", 3), "log_posterior": -q("tri", 7) ** 2})
        return Chain(samples=df, name="A", walkers=2, smooth=0, bins=11, num_free_params=1, num_eff_data_points=50)
    if v == "B":
        df = pd.DataFrame({"y": 7 + 2 * q("gauss", 3), "z": 50 + q("tri", 4), "x": 2 + q("gauss", 9)})
        return Chain(samples=df, name="B", walkers=2, statistics=S.CUMULATIVE, smooth=0, bins=12, plot_cloud=True, num_cloud=30)
    if v == "C":
        df = pd.DataFrame({"x": mixture_ppf(((1, -3, 0.5), (1, 3, 0.5)), (np.arange(N) + 0.5) / N)[scramble(N, 5)], "z": 55 + q("gauss", 6), "log_posterior": -q("gauss", 6) ** 2})
        return Chain(samples=df, name="C", multimodal=True, smooth=1, bins=12, color="red", plot_point=True)
    if v == "S":
        df = pd.DataFrame({"x": 100 + q("gauss", 7), "w": 1 + q("expo", 8)})
        return Chain(samples=df, name="S", shift_params=True, smooth=2, bins=10, show_contour_labels=True)
    if v == "K":
        df = pd.DataFrame({"x": q("gauss", 7), "y": 6 + q("expo", 8)})
        return Chain(samples=df, name="K", kde=True, bins=6, smooth=1)
    raise KeyError(v)


def called(v):
    return "A" if v == "A2" else v


TRUTHS = {"T1": lambda: Truth(location={"x": 0.5, "y": 6.0}), "T2": lambda: Truth(location={"z": 51.0, "x": 1.0}, color="red", marker="*", line_style=":")}
OVERRIDES = {"O3": lambda: ChainConfig(shift_params=True, color="blue"), "O0": lambda: ChainConfig(), "O1": lambda: ChainConfig(linewidth=3, shade_alpha=0.3, smooth=2), "O2": lambda: ChainConfig(summary_area=0.9, sigmas=[0, 1], plot_point=True)}
CONFIGS = {
    "P0": lambda: PlotConfig(), "P1": lambda: PlotConfig(labels={"x": "$x$"}, blind=["zz", "y"], extents={"z": (40, 60)}, summarise=True, flip=True, watermark="draft"),
    "P2": lambda: PlotConfig(log_scales=["y"], blind=True, plot_hists=False, legend_kwargs={"loc": "lower left"}, serif=True, spacing=0.0),
    "P3": lambda: PlotConfig(show_legend=False, sigma2d=True, max_ticks=3, extents={"x": (-4, 8), "y": (1, 20)}, legend_kwargs={"markerfirst": False}),
}


class World:
    """A consumer together with the user's own objects and the model of its contents."""

    def __init__(self, p, chains=("A", "B"), truths=("T1",), override=None, config=None):
        self.p = p
        self.cc = ChainConsumer()
        self.user = {}
        self.model = dict(chains=[], truths=[], override=None, config=None)
        for c in chains:
            self.do("+" + c)
        for t in truths:
            self.do(t)
        for o in (override, config):
            if o:
                self.do(o)

    def own(self, key, obj):
        self.user[key] = (obj, freeze(obj))
        return obj

    def do(self, op):
        cc, m = self.cc, self.model
        self.p.op()
        if op == "A->A2":
            self.do("-A")
            self.do("+A2")
            return
        if op.startswith("+"):
            v = op[1:]
            if v == "M":
                if v in m["chains"]:
                    self.p.raises(lambda: cc.add_marker({"x": 1.0, "y": 6.0}, "M"), "duplicate accepted")
                else:
                    cc.add_marker({"x": 1.0, "y": 6.0}, "M")
                    m["chains"].append(v)
                return
            c = chain(v)
            if called(v) in map(called, m["chains"]):
                self.p.raises(lambda: cc.add_chain(c), "duplicate accepted")
            else:
                cc.add_chain(self.own(f"chain {v} {len(self.user)}", c))
                m["chains"].append(v)
        elif op.startswith("-"):
            here = [v for v in m["chains"] if called(v) == op[1:]]
            if here:
                cc.remove_chain(op[1:])
                m["chains"].remove(here[0])
            else:
                self.p.raises(lambda: cc.remove_chain(op[1:]), "unknown removed")
        elif op in TRUTHS:
            cc.add_truth(self.own(f"truth {op} {len(self.user)}", TRUTHS[op]()))
            m["truths"].append(op)
        elif op in OVERRIDES:
            cc.set_override(self.own(f"override {op} {len(self.user)}", OVERRIDES[op]()))
            m["override"] = op
        elif op in CONFIGS:
            cc.set_plot_config(self.own(f"config {op} {len(self.user)}", CONFIGS[op]()))
            m["config"] = op
        else:
            OBSERVE[op](self)
        self.intact(op)

    def intact(self, op):
        for k, (o, f) in self.user.items():
            self.p.expect(freeze(o) == f, "user object modified", f"{k} by {op}")

    def key(self):
        m = self.model
        return (tuple(m["chains"]), tuple(m["truths"]), m["override"], m["config"])


def freeze(o):
    d = {f: getattr(o, f) for f in type(o).model_fields}
    for k, v in d.items():
        if isinstance(v, pd.DataFrame):
            d[k] = (list(v.columns), v.to_numpy(float), canon(list(v.index)), [str(t) for t in v.dtypes])
    return canon(d) + canon(sorted(o.get_user_specified_dump()))


def bounds(s):
    return {n: {k: [x.array for x in (b if isinstance(b, list) else [b])] for k, b in d.items()} for n, d in s.items()}


def numbers(cc, names):
    """Every non-plotting result in canonical form."""
    out = dict(names=cc.get_names(), summary=bounds(cc.analysis.get_summary()))
    if names:
        out["table"] = cc.analysis.get_latex_table(transpose=True, columns=["y", "x"])
    out["best"] = {n: (b.log_posterior, b.coordinate) for n, b in cc.analysis.get_max_posteriors().items()}
    for n in names:
        if n != "M":
            out["cov " + n] = cc.get_chain(n).get_covariance().matrix
            out["tab " + n] = cc.analysis.get_correlation_table(n) + cc.analysis.get_covariance_table(n)
    g = [n for n in names if n in "AB"]
    if g:
        out["gr"] = dict(cc.diagnostic.gelman_rubin(g).results)
    out["dic"] = cc.comparison.dic()
    out["aic"] = cc.comparison.aic()
    out["bic"] = cc.comparison.bic()
    return canon(out)


def fig_plot(cc):
    return figure_key(cc.plotter.plot(columns=["x", "y"]))


PLOTS = {
    "plot": fig_plot, "plot all": lambda cc: figure_key(cc.plotter.plot()), "walks": lambda cc: figure_key(cc.plotter.plot_walks(convolve=5)),
    "distributions": lambda cc: figure_key(cc.plotter.plot_distributions()), "summary plot": lambda cc: figure_key(cc.plotter.plot_summary()),
    "errorbar": lambda cc: figure_key(cc.plotter.plot_summary(errorbar=True)),
}


def _args(w):
    """Call observers with argument objects and check these stay as given."""
    names = [called(v) for v in w.model["chains"]]
    if not names:
        return
    chains, cols = list(names), ["y", "x"]
    w.cc.analysis.get_summary(chains=chains, columns=cols)
    w.cc.analysis.get_latex_table(chains=chains, columns=cols)
    w.cc.analysis.get_max_posteriors(chains)
    real = [n for n in names if n != "M"]
    if real:
        w.cc.plotter.plot(chains=chains, columns=cols)
        w.cc.plotter.plot_walks(chains=chains, columns=cols)
        w.cc.plotter.plot_distributions(chains=chains, columns=cols)
        w.cc.plotter.plot_summary(chains=chains, columns=cols)
    w.p.expect(chains == names and cols == ["y", "x"], "argument lists modified", (chains, cols))


def _fail(w):
    """Calls that must be refused or that fail part-way."""
    cc = w.cc
    for fn in (lambda: cc.get_chain("zz"), lambda: cc.plotter.plot(chains=["zz"]), lambda: cc.analysis.get_latex_table(chains=["zz"]), lambda: cc.remove_chain("zz"),
               lambda: cc.comparison.comparison_table(aic=False, sort="aic"), lambda: cc.diagnostic.gelman_rubin("zz"),
               lambda: cc.plotter.plot(filename="/nonexistent-dir/x.png"), lambda: cc.plotter.plot_summary(figsize="huge")):
        try:
            fn()
        except Exception:  # noqa: BLE001
            pass


def _other(w):
    """Another consumer sharing the same chain objects, differently configured."""
    o = ChainConsumer()
    for n in map(called, w.model["chains"]):
        o.add_chain(w.cc.get_chain(n))
    o.add_chain(chain("K")) if "K" not in w.model["chains"] else None
    o.add_truth(Truth(location={"x": -1.0}))
    o.set_override(ChainConfig(summary_area=0.5, shift_params=True, color="#00ff00", linewidth=7, smooth=0))
    o.set_plot_config(PlotConfig(labels={"x": "other"}, extents={"x": (-50, 50)}, blind=["x"], serif=True, log_scales=["y"]))
    o.analysis.get_summary()
    o.plotter.plot(columns=["x", "y"])
    o.plotter.plot_walks()
    o.remove_chain(o.get_names()[0])


def _use(cc):
    import matplotlib.pyplot as plt

    plt.close("all")


OBSERVE = {k: (lambda w, f=f: f(w.cc) if [n for n in w.model["chains"] if n != "M"] else None) for k, f in PLOTS.items()} | {
    "numbers": lambda w: numbers(w.cc, [called(v) for v in w.model["chains"]]), "with arguments": _args, "failures": _fail, "other consumer": _other,
    "restore rc": lambda w: w.cc.plotter.restore_rc_params(), "close": lambda w: _use(w.cc),
}
_FRESH = {}


class Quiet:
    def op(self, n=1):
        pass

    def expect(self, *a, **k):
        return True

    def raises(self, fn, *a, **k):
        pass


def fresh(key, what):
    if (key, what) not in _FRESH:
        chains, truths, override, config = key
        w = World(Quiet(), chains, truths, override, config)
        _FRESH[key, what] = numbers(w.cc, [called(v) for v in chains]) if what == "numbers" else PLOTS[what](w.cc)
    return _FRESH[key, what]


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 80):i + 80]}... fresh: ...{b[max(0, i - 80):i + 80]}..."


def final(w, plots, p):
    key = w.key()
    chains = key[0]
    for what in ("numbers", *plots):
        if what != "numbers" and not [n for n in chains if n != "M"]:
            continue
        for again in (1, 2) if plots else (1,):
            got = numbers(w.cc, [called(v) for v in chains]) if what == "numbers" else PLOTS[what](w.cc)
            want = fresh(key, what)
            p.op()
            p.expect(got == want, f"{what} depends on history", lambda: f"(call {again}) {diff(got, want)}")
            p.obs(got)
            if what != "numbers":
                break
    w.intact("final observation")


MUT = ("A->A2", "+C", "+M", "+S", "-A", "-B", "+A", "T2", "O1", "O3", "P1", "O2", "O0", "P2", "P3", "P0", "+K")
OBS = ("plot", "numbers", "walks", "distributions", "summary plot", "errorbar", "plot all", "with arguments", "failures", "other consumer", "restore rc")


def gen_sandwich(mut, obs, plots):
    def gen(ch):
        o = ch.pick("observer", obs, free=True)
        pl = plots if plots else (o if o in PLOTS else "plot",)
        return dict(ops=[ch.pick("first", ("none", *mut), free=True), o, ch.pick("then", ("none", *mut), free=True)], final=list(pl))
    return gen


def gen_pairs(ch):
    return dict(ops=[ch.pick("a", OBS, free=True), ch.pick("b", OBS, free=True)], final=[ch.pick("final", ("plot", "summary plot", "walks", "distributions"))],
                start=ch.pick("start", ("default", "rich")))


def gen_deep(depth, pool):

    def gen(ch):
        return dict(ops=[ch.pick(f"op{i}", pool, free=True) for i in range(depth)], final=[])
    return gen


def run(case, p):
    if case.get("start") == "rich":
        w = World(p, ("S", "C", "A"), ("T2",), "O2", "P3")
    else:
        w = World(p)
    for op in case["ops"]:
        if op != "none":
            w.do(op)
    final(w, case["final"], p)


def spaces(tier):
    q = tier == "quick"
    out = [
        Space("mutate, observe, mutate", gen_sandwich(MUT if not q else MUT[:11], ("plot", "numbers", "other consumer") if q else OBS, None), run,
              note="every mutation, then every observer, then every mutation; compared with a fresh build of the final contents"),
        Space("observer pairs", gen_pairs, run, bound=0 if q else None, note="every ordered pair of observers (incl. failing calls, another consumer) before a final look"),
        Space("deep histories", gen_deep(4 if q else 5, ("+C", "-A", "+A2", "O1", "numbers") if q else ("+C", "-A", "+A2", "O1", "P1", "numbers", "+A", "-B")), run, note="every history of four operations over five (thorough: five over eight), all numbers compared"),
    ]
    if q:
        out.append(Space("every observer", gen_sandwich(("+C", "P1"), OBS, ("plot", "walks")), run, note="each observer between two mutations"))
    return out
