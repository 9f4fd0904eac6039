"""C02: effective settings: override beats explicit choice beats automatic default."""
import functools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.statistics import SummaryStatistic as S

from mc.data import quantile_sample, scramble
from mc.engine import Space, canon
from mc.scene import figure_key, panels, triangle

ASSUMPTIONS = [
    "the automatic palette is read off a figure of uncoloured chains (its distinctness is checked); None, given to a chain or by the override, asks for the automatic value",
    "a figure whose chains have every setting given explicitly draws those settings (decided by C16-C23); direct artist observations guard against vacuity",
]
N = 240
DEFAULTS = {
    "statistics": S.MAX, "summary_area": 0.6827, "linestyle": "-", "linewidth": 1.0, "show_contour_labels": False, "shade_gradient": 1.0, "multimodal": False,
    "bins": None, "kde": False, "smooth": None, "color_param": None, "cmap": "viridis", "num_cloud": 10000, "plot_cloud": False, "plot_contour": True,
    "plot_point": False, "marker_style": ".", "marker_size": 10.0, "marker_alpha": 1.0, "zorder": 10,
}
# field -> (explicit value, override value, settings all chains need for the field to show)
FIELDS = {
    "color": ("#aa3311", "#1122cc", {}), "linestyle": (":", "--", {}), "linewidth": (2.5, 4.0, {}), "zorder": (3, 21, {}), "shade": (False, True, {}),
    "shade_alpha": (0.17, 0.33, {"shade": True}), "bar_shade": (False, True, {}), "sigmas": ([0, 1.5], [0, 1, 2, 3], {}), "show_contour_labels": (True, False, {}),
    "shade_gradient": (0.2, 2.0, {}), "summary_area": (0.9, 0.4, {}), "statistics": (S.MEAN, S.CUMULATIVE, {}), "multimodal": (False, True, {}), "smooth": (0, 2, {}), "bins": (12, 25, {}), "kde": (True, 0.5, {}),
    "plot_point": (True, False, {}), "plot_cloud": (True, False, {}), "num_cloud": (20, 50, {"plot_cloud": True}), "cmap": ("plasma", "magma", {"plot_cloud": True, "color_param": "log_posterior"}),
    "color_param": ("log_posterior", "weight", {"plot_cloud": True}), "marker_style": ("*", "s", {"plot_point": True}), "marker_size": (40.0, 90, {"plot_point": True}),
    "marker_alpha": (0.3, 0.6, {"plot_point": True}), "plot_contour": (False, True, {"plot_point": True}),
}
# other values: both explicit and override set to the other's value, or override set to the automatic value
AUTO = {"shade": True, "bar_shade": True, "sigmas": [0, 1, 2], "shade_alpha": 0.5, "color": "#0b5394"} | {k: v for k, v in DEFAULTS.items() if v is not None} | {"smooth": 3, "bins": 10, "color_param": "weight"}
NULLABLE = ("color", "statistics", "smooth", "bins", "color_param")  # None asks for the automatic value
BASE = {"smooth": 1, "bins": 9}


@functools.lru_cache(None)
def samples(k):
    x = quantile_sample(("gauss", "skew")[k % 2], N)[scramble(N, k)]
    return pd.DataFrame({"x": x + 0.3 * k, "y": quantile_sample("tri", N)[scramble(N, 50 + k)] + 0.2 * x, "weight": 0.5 + (np.arange(N) % 4), "log_posterior": -0.5 * x * x})


@functools.lru_cache(None)
def palette():
    cc = ChainConsumer()
    for k in range(8):
        cc.add_chain(Chain(samples=samples(k), name=f"{k}"))
    fig = cc.plotter.plot_distributions(columns=["x"])
    return [c.color for c in panels(fig)[0].curves]


def resolve(specs, override):
    """The reference: effective settings of every chain."""
    out = []
    n = sum(override.get("plot_contour", s.get("plot_contour", True)) for s in specs)
    pal = iter(palette())
    for s in specs:
        auto = dict(DEFAULTS, shade=n < 5, bar_shade=n < 5, sigmas=[0, 1, 2], shade_alpha=1 / np.sqrt(max(n, 1)))
        if override.get("show_contour_labels", s.get("show_contour_labels", False)):
            auto["shade_alpha"] *= 0.5
        if override.get("color", s.get("color")) is None:
            auto["color"] = next(pal)
        given = s | override
        if given.get("multimodal"):
            auto["statistics"] = S.HDI
        out.append(auto | {k: v for k, v in given.items() if not (k in ("color", "statistics") and v is None)})
    return out


def build(specs, override=None):
    cc = ChainConsumer()
    chains = []
    for i, s in enumerate(specs):
        chains.append(Chain(samples=samples(i), name=f"m{i}", **s))
        cc.add_chain(chains[-1])
    ov = None
    if override is not None:
        ov = ChainConfig(**override)
        cc.set_override(ov)
    cc.set_plot_config(PlotConfig(show_legend=True))
    return cc, chains, ov


def snap(obj):
    d = {f: getattr(obj, f) for f in type(obj).model_fields}
    return canon({k: (v.to_numpy() if isinstance(v, pd.DataFrame) else v) for k, v in d.items()}) + canon(sorted(obj.get_user_specified_dump(), key=str))


def direct(p, fig, eff, has):
    """Settings read straight off the artists."""
    keep = [i for i, e in enumerate(eff) if e["plot_contour"] or e["plot_cloud"] or e["plot_point"]]
    eff = {i: eff[i] for i in keep}
    both = lambda: eff.items()  # noqa: E731
    grid, _ = triangle(fig, 2)
    diag, pair, diag2 = grid[0][0], grid[1][0], grid[1][1]
    con = [i for i, e in both() if e["plot_contour"]]
    for d in (diag, diag2):
        cur = d.curves if not d.steps else None
        if cur is not None:
            p.equal(len(cur), len(con), "marginals", stop=True)
            for i, c in zip(con, cur):
                e = eff[i]
                p.equal((c.color, c.ls, c.lw, c.zorder), (e["color"], e["linestyle"], e["linewidth"], e["zorder"]), "marginal style", f"m{i}")
        if eff and all(e["kde"] is False and e["statistics"] in (S.MEAN, S.CUMULATIVE) for e in eff.values()) or "bar_shade" in has:
            p.equal(len(d.fills), sum(eff[i]["bar_shade"] for i in con), "bar shading", d.xlabel)
    p.equal(len(pair.outlined), len(con), "contours", stop=True)
    for i, c in zip(con, pair.outlined):
        e = eff[i]
        p.equal(len(c.levels), len(e["sigmas"]), "contour levels", f"m{i}")
        p.equal((set(c.lw), c.zorder), ({e["linewidth"]}, e["zorder"]), "contour style", f"m{i}")
    shaded = [i for i in con if eff[i]["shade"] and eff[i]["shade_alpha"] > 0]
    p.equal(len(pair.filled), len(shaded), "shaded contours")
    for i, c in zip(shaded, pair.filled):
        p.close(c.alpha, eff[i]["shade_alpha"], 1e-9, "shade opacity", f"m{i}")
    p.equal(bool(pair.texts), any(eff[i]["show_contour_labels"] for i in con), "contour labels", pair.texts)
    want = []
    for i, e in both():
        if e["plot_cloud"]:
            size = len(range(0, N, max(1, int(N / e["num_cloud"]))))
            want.append(("cloud", i, size, e["cmap"] if e["color_param"] else None))
        if e["plot_point"]:
            want.append(("point", i, 1, None))
    p.equal([len(s.xy) for s in pair.scatters], [w[2] for w in want], "clouds and points")
    for w, s in zip(want, pair.scatters):
        e = eff[w[1]]
        if w[0] == "cloud":
            p.equal(s.cmap, w[3], "colour map", w)
            if w[3]:
                col = samples(w[1])[e["color_param"]].to_numpy()
                p.close(s.array, col[:: max(1, int(N / e["num_cloud"]))], 1e-12, "colour parameter", w)
            else:
                p.equal(s.color, e["color"], "cloud colour", w)
        else:
            p.close((float(s.sizes[0]), s.alpha, s.zorder > e["zorder"]), (e["marker_size"], e["marker_alpha"], True), 1e-9, "marker", w)
    leg = next((q.ax.get_legend() for row in grid for q in row if q.ax.get_legend()), None)
    if p.expect(leg is not None, "legend"):
        from mc.scene import hexof

        p.equal([hexof(h.get_color()) for h in leg.legend_handles], [e["color"] for e in eff.values()], "legend colours")


def gen_lattice(ch):
    f = ch.pick("field", list(FIELDS), free=True)
    n = ch.pick("contour chains", (2, 5), free=True)
    return dict(field=f, state=ch.pick("state", ("unset", "explicit", "overridden", "both", "explicit like override", "override to automatic", "override to None") if f in NULLABLE else ("unset", "explicit", "overridden", "both", "explicit like override", "override to automatic"), free=True), n=n,
                target=ch.pick("target", (0, n - 1)), extra=ch.pick("extra chain", (None, "point", "cloud")))


def run_lattice(case, p):
    f = case["field"]
    ex, ov, need = FIELDS[f]
    specs = [dict(BASE) | need for _ in range(case["n"])]
    st = case["state"]
    if f in BASE:
        for s in specs:
            del s[f]
    override = None
    t = specs[case["target"]]
    if st in ("explicit", "both", "override to automatic", "override to None"):
        t[f] = ex
    if st == "explicit like override":
        t[f] = ov
    if st in ("overridden", "both"):
        override = {f: ov}
    if st == "override to automatic":
        override = {f: AUTO[f]}
    if st == "override to None":
        override = {f: None}
    if case["extra"]:
        specs.insert(1, dict(BASE, plot_contour=False, plot_point=case["extra"] == "point", plot_cloud=case["extra"] == "cloud"))
    compare(specs, override, p, {f})




def summary_key(cc):
    return canon({n: {k: v.array if not isinstance(v, list) else [x.array for x in v] for k, v in d.items()} for n, d in cc.analysis.get_summary().items()})


_REF = {}


def reference(eff):
    """Figure and summary of a consumer in which every setting is explicit (remembered per process)."""
    k = canon(eff)
    if k not in _REF:
        ref, _, _ = build(eff)
        _REF[k] = figure_key(ref.plotter.plot(columns=["x", "y"])), summary_key(ref)
    return _REF[k]


def compare(specs, override, p, has, chains_override_history=()):
    eff = resolve(specs, override or {})
    cc, chains, ov = build(specs, override)
    before = [snap(c) for c in chains] + ([snap(ov)] if ov is not None else [])
    fig = cc.plotter.plot(columns=["x", "y"])
    p.op()
    direct(p, fig, eff, has)
    want, want_summary = reference(eff)
    a = figure_key(fig)
    p.expect(a == want, "figure differs from explicit settings", lambda: first_difference(a, want))
    p.obs(a)
    p.equal(summary_key(cc), want_summary, "summary differs from explicit settings")
    p.op(2)
    p.expect(before == [snap(c) for c in chains] + ([snap(ov)] if ov is not None else []), "user objects modified")


def first_difference(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 60):i + 60]}... expected ...{b[max(0, i - 60):i + 60]}..."


QUICK_PAIRS = ("color", "shade", "shade_alpha", "show_contour_labels", "statistics", "plot_point", "sigmas", "linewidth")


def gen_pairs_quick(ch):
    return gen_pairs(ch, QUICK_PAIRS)


def gen_pairs(ch, first=tuple(FIELDS)):
    return dict(explicit=ch.pick("explicit field", first, free=True), override=ch.pick("override field", [f for f in FIELDS if f != "kde" or first is not QUICK_PAIRS], free=True), n=ch.pick("n", (2, 5)), labels=ch.flag("contour labels"))


def run_pairs(case, p):
    f, g = case["explicit"], case["override"]
    if f == g or {f, g} == {"statistics", "multimodal"}:  # only the HDI summary goes with several modes
        return
    specs = [dict(BASE) | FIELDS[f][2] | FIELDS[g][2] for _ in range(case["n"])]
    for s in specs:
        for x in (f, g):
            s.pop(x, None)
    specs[0][f] = FIELDS[f][0]
    specs[-1][g] = FIELDS[g][0]
    if case["labels"] and "show_contour_labels" not in (f, g):
        specs[0]["show_contour_labels"] = True
    compare(specs, {g: FIELDS[g][1]}, p, set())


OVERRIDES = {
    "none": {}, "width": {"linewidth": 3.0, "zorder": 4}, "colour": {"color": "#123456", "shade": False}, "stat": {"statistics": S.MEAN, "summary_area": 0.9},
    "sigmas": {"sigmas": [0, 2], "smooth": 0}, "points": {"plot_point": True, "marker_size": 33}, "alpha": {"shade_alpha": 0.9, "show_contour_labels": True},
}


def gen_seq_quick(ch):
    return gen_seq(ch, (2, 1))


def gen_seq(ch, depths=(2, 1, 3)):
    d = ch.pick("depth", depths, free=True)
    return dict(seq=[(ch.pick(f"override {i}", list(OVERRIDES), free=i < 2), ch.pick(f"between {i}", ("nothing", "summary", "plot"))) for i in range(d)])


def run_seq(case, p):
    specs = [dict(BASE, color="#992211"), dict(BASE, smooth=2, statistics=S.CUMULATIVE), dict(BASE, linewidth=2.0, shade_alpha=0.2)]
    cc, chains, _ = build(specs)
    before = [snap(c) for c in chains]
    last = {}
    for name, between in case["seq"]:
        last = OVERRIDES[name]
        o = ChainConfig(**last)
        r = cc.set_override(o)
        p.expect(r is cc, "set_override does not return the consumer")
        p.op()
        so = snap(o)
        if between == "summary":
            cc.analysis.get_summary()
        elif between == "plot":
            cc.plotter.plot(columns=["x", "y"])
        p.expect(snap(o) == so, "override modified")
    fig = cc.plotter.plot(columns=["x", "y"])
    direct(p, fig, resolve(specs, last), set())
    a, b = figure_key(fig), reference(resolve(specs, last))[0]
    p.expect(a == b, "override not replaced", lambda: first_difference(a, b))
    p.expect(before == [snap(c) for c in chains], "user chains modified")
    p.obs(a)


def gen_colors(ch):
    n = ch.pick("chains", (3, 5, 1, 2), free=True)
    return dict(given=[ch.pick(f"colour {i}", ("auto", "None", "#401020", "point"), free=i < 2) for i in range(n)])


def run_colors(case, p):
    pal = palette()
    p.equal(len(set(pal)), len(pal), "palette repeats", pal)
    specs = []
    for i, g in enumerate(case["given"]):
        s = dict(BASE)
        if g == "None":
            s["color"] = None
        elif g == "point":
            s |= dict(plot_contour=False, plot_point=True)
        elif g != "auto":
            s["color"] = g
        specs.append(s)
    it = iter(pal)
    want = [s["color"] if s.get("color") else next(it) for s in specs]
    cc, _, _ = build(specs)
    fig = cc.plotter.plot(columns=["x", "y"])
    p.op()
    direct(p, fig, resolve(specs, {}), set())
    leg = next(a.get_legend() for a in fig.axes if a.get_legend())
    from mc.scene import hexof

    p.equal([hexof(h.get_color()) for h in leg.legend_handles], want, "automatic colours")
    for i, s in enumerate(panels(cc.plotter.plot_walks(columns=["x"], plot_weights=False, plot_posterior=False))[0].scatters):
        p.equal(s.color, want[i], "walk colour", i)
    p.obs(want)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("lattice", gen_lattice, run_lattice, bound=0 if q else 2, note="every field x {unset, explicit, overridden, both, ...} x number of contour chains; figure and summary equal those of fully explicit chains"),
        Space("lattice targets", gen_targets, run_lattice, note="target chain and extra non-contour chains"),
        Space("pairs", gen_pairs_quick if q else gen_pairs, run_pairs, bound=0 if q else 2, note="every (explicit field, overridden field) pair"),
        Space("override sequences", gen_seq_quick if q else gen_seq, run_seq, bound=1 if q else 3, note="replacing the override, with queries in between"),
        Space("colours", gen_colors, run_colors, bound=None if not q else 1, note="automatic colours among explicit ones"),
    ]


def gen_targets(ch):
    f = ch.pick("field", ("shade", "shade_alpha", "bar_shade", "color", "sigmas", "show_contour_labels", "plot_contour", "linewidth"))
    n = ch.pick("contour chains", (4, 5, 1))
    return dict(field=f, state=ch.pick("state", ("unset", "explicit", "both")), n=n, target=n - 1, extra=ch.pick("extra", ("point", "cloud")))
