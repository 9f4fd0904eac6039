"""C04: chains take in samples faithfully or reject them."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from mc.engine import Space

ASSUMPTIONS = ["column contents beyond the enumerated patterns (4-12 finite rows) are treated alike by construction"]
CONVENTIONAL = {"weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"}
N = 12


def index_of(kind, n):
    return {"default": np.arange(n), "reversed": np.arange(n)[::-1], "same": np.zeros(n, int), "text": [f"r{i}" for i in range(n)],
            "offset": np.arange(n) + 50}[kind]


def column(kind, n, k=0):
    i = np.arange(n)
    return {"float": np.cos(i * 1.7 + k) * 3 + k, "int": (i * 5 + k) % 7, "big": 1e12 + i * 1e6 + k, "small": 1e-12 * (i + k + 1), "negative": -1.0 - i - k,
            "const": np.full(n, 4.5), "f32": (np.sin(i + k) + 2).astype(np.float32)}[kind]


def weights_of(kind, n):
    i = np.arange(n)
    return {"one": np.ones(n), "varied": 0.5 + (i * 5 % 7), "int": 1 + i % 3, "tiny": 1e-9 * (1 + i % 4)}[kind]


def frame(case):
    """Columns in the requested layout; returns (frame, kwargs, weight name or None, posterior name or None)."""
    n = case["rows"]
    wname, pname = case["wname"], case["pname"]
    has_w = case["weights"] is not None
    parts = []
    kinds = case["kinds"]
    pos = case["position"]
    names = case["names"][: len(kinds)]
    for k, (nm, kd) in enumerate(zip(names, kinds)):
        parts.append((nm, column(kd, n, k)))
    special = []
    if has_w:
        special.append((wname, weights_of(case["weights"], n)))
    if case["post"]:
        special.append((pname, -0.5 * (np.arange(n) - 4.0) ** 2 - 3))
    if case["stray"]:
        special.append((case["stray"], np.linspace(-3, 3, n)))
    at = {"first": 0, "middle": 1, "last": len(parts)}[pos]
    parts[at:at] = special
    df = pd.DataFrame(dict(parts))
    df.index = index_of(case["index"], n)
    kw = {}
    if wname != "weight" and has_w:
        kw["weight_column"] = wname
    if pname != "log_posterior":
        kw["posterior_column"] = pname
    return df, kw


def gen_valid(ch):
    return dict(
        rows=ch.pick("rows", (12, 1, 4)), kinds=ch.pick("kinds", (("float", "float"), ("float",), ("int", "float", "big"), ("small", "negative"), ("const", "f32"))),
        names=ch.pick("names", (("a", "b", "c"), ("Weighty", "logpost", "x posterior"), ("$\\Omega_m$", "", "h 0"))),
        weights=ch.pick("weights", ("varied", None, "one", "int", "tiny")), wname=ch.pick("wname", ("weight", "mult", "weights", "Weight", "log_weights")),
        post=ch.flag("post"), pname=ch.pick("pname", ("log_posterior", "lnp", "posterior", "LOG_POSTERIOR")),
        stray=ch.pick("stray", (None, "weights", "POSTERIOR", "log_posteriors", "Log_Weights", "posteriors")),
        position=ch.pick("position", ("last", "first", "middle")), index=ch.pick("index", ("default", "reversed", "same", "text", "offset")),
        shift=ch.flag("shift"), walkers=ch.pick("walkers", (1, 2, 4)), grid=ch.flag("grid"), cloud=ch.pick("cloud", (None, "colour only", "cloud only", "both")),
        mutate=ch.pick("mutate", ("in place", "values", "columns", "drop", "memory")))


def run_valid(case, p):
    if case["stray"] in (case["wname"], case["pname"]) and case["stray"]:
        return
    if case["rows"] % case["walkers"]:
        return
    df, kw = frame(case)
    before = df.copy(deep=True)
    wname = kw.get("weight_column", "weight")
    pname = kw.get("posterior_column", "log_posterior")
    if case["shift"]:
        kw["shift_params"] = True
    if case["grid"]:
        kw["grid"] = True
    if case["cloud"] in ("colour only", "both"):
        kw["color_param"] = case["names"][0]
    if case["cloud"] in ("cloud only", "both"):
        kw["plot_cloud"] = True
    c = Chain(samples=df, name="c", walkers=case["walkers"], **kw)
    p.op()
    p.expect(df.equals(before) and list(df.columns) == list(before.columns) and list(df.index) == list(before.index), "caller's frame modified")
    params = [x for x in before.columns if x not in (wname, pname) and x.lower() not in CONVENTIONAL]
    # later changes to the caller's frame
    if case["mutate"] == "in place":
        for i in range(len(df.columns)):
            df.iloc[:, i] = 77
    if case["mutate"] == "memory":
        for x in df.columns:
            if df[x].to_numpy().flags.writeable:
                df[x].to_numpy()[:] = 77
    if case["mutate"] == "values":
        for x in df.columns:
            df[x] = df[x].to_numpy() * 0 + 77
        df.iloc[:, :] = 99
    elif case["mutate"] == "columns":
        df.columns = [f"q{i}" for i in range(len(df.columns))]
        df.index = np.arange(len(df)) + 1000
    elif case["mutate"] == "drop":
        df.drop(df.index[:], inplace=True)
    n = len(before)
    w = before[wname].to_numpy(float) if wname in before else np.ones(n)
    p.equal(c.data_columns, params, "parameters", list(before.columns))
    p.equal(list(c.samples.columns), [*before.columns] + ([wname] if wname not in before else []), "columns")
    p.equal(list(c.samples.index), list(before.index), "row labels")
    p.expect(np.array_equal(np.asarray(c.weights, float), w), "weights", c.weights)
    lp = before[pname].to_numpy(float) if pname in before else None
    got = c.log_posterior
    p.expect((got is None and lp is None) or (got is not None and lp is not None and np.array_equal(np.asarray(got, float), lp)), "log posterior", got)
    for x in before.columns:
        raw = before[x].to_numpy(float)
        g = c.samples[x].to_numpy(float)
        if case["shift"] and x in params:
            mean = (raw * w).sum() / w.sum()
            scale = np.abs(raw).max() + 1e-300
            tol = 1e-5 if before[x].dtype == np.float32 else 1e-11
            p.close(g / scale, (raw - mean) / scale, tol, "shifted values", x)
            p.close((g * w).sum() / w.sum() / scale, 0.0, tol, "weighted mean not zero", x)
        else:
            p.expect(np.array_equal(g, raw), "sample values", x)
        p.expect(np.array_equal(c.get_data(x).to_numpy(float), g), "get_data", x)
    p.expect(list(c.data_samples.columns) == params and np.array_equal(c.data_samples.to_numpy(float), c.samples[params].to_numpy(float)), "data samples")
    hide = case["names"][0] if case["cloud"] == "both" else None
    p.equal(c.plotting_columns, [x for x in params if x != hide], "plotting columns", case["cloud"])
    cd = c.color_data
    p.expect((cd is None) == ("color_param" not in kw) and (cd is None or np.array_equal(np.asarray(cd, float), c.samples[case["names"][0]].to_numpy(float))), "colour data")
    p.equal(c.skip, False, "skip")
    p.equal(c.statistics, S.MAX, "default statistic")
    p.obs(c.samples, params)


WRONG = {
    "nan": np.nan, "inf": np.inf, "-inf": -np.inf,
}


def gen_bad(ch):
    return dict(
        defect=ch.pick("defect", ("nan", "inf", "-inf", "zero weight", "negative weight", "nan weight", "empty", "no columns", "missing weight column", "missing colour",
                                  "walkers", "column type", "none"), free=True),
        where=ch.pick("where", (0, 5, 11), free=True), target=ch.pick("target", ("a", "b", "post", "stray"), free=True),
        weights=ch.pick("weights", ("varied", None, "int")), wname=ch.pick("wname", ("weight", "mult")), post=not ch.flag("no post"),
        pname=ch.pick("pname", ("log_posterior", "lnp")), index=ch.pick("index", ("default", "reversed", "same", "text")),
        shift=ch.flag("shift"), grid=ch.flag("grid"), walkers=ch.pick("walkers", (2, 1)), cloud=ch.flag("cloud"))


def run_bad(case, p):
    spec = dict(rows=N, kinds=("float", "float"), names=("a", "b"), weights=case["weights"], wname=case["wname"], post=case["post"], pname=case["pname"],
                stray="weights" if case["target"] == "stray" else None, position="middle", index=case["index"])
    df, kw = frame(spec)
    wname = case["wname"]
    d = case["defect"]
    kw["walkers"] = case["walkers"]
    if case["shift"]:
        kw["shift_params"] = True
    if case["grid"]:
        kw["grid"] = True
    if case["cloud"]:
        kw |= dict(plot_cloud=True, color_param="b")
    bad = True
    if d in WRONG:
        t = {"post": case["pname"], "stray": "weights"}.get(case["target"], case["target"])
        if t not in df:
            return
        df.iloc[case["where"], list(df.columns).index(t)] = WRONG[d]
    elif "weight" in d and d != "missing weight column":
        if case["weights"] is None:
            return
        df[wname] = df[wname].astype(float)
        df.iloc[case["where"], list(df.columns).index(wname)] = {"zero weight": 0.0, "negative weight": -0.5, "nan weight": np.nan}[d]
    elif d == "empty":
        df = df.iloc[:0]
        kw["walkers"] = 1
    elif d == "no columns":
        df = pd.DataFrame(index=df.index)
        kw = {}
    elif d == "missing weight column":
        kw["weight_column"] = "not there"
    elif d == "missing colour":
        kw["color_param"] = "zz"
        kw["plot_cloud"] = case["cloud"]
    elif d == "walkers":
        kw["walkers"] = {0: 5, 5: 7, 11: 24}[case["where"]]
    elif d == "column type":
        df = df.rename(columns={"b": 3})
        kw.pop("color_param", None)
    else:
        bad = False
    before = df.copy(deep=True)
    if bad:
        p.raises(lambda: Chain(samples=df, name="c", **kw), f"{d} accepted", str(case), exc=ValueError)
    else:
        Chain(samples=df, name="c", **kw)
        p.op()
    p.expect(df.equals(before), "caller's frame modified")
    # and the rejection leaves later constructions unaffected
    good = pd.DataFrame({"a": np.arange(4.0), "b": [2.0, 1, 4, 3]})
    c = Chain(samples=good, name="d")
    p.expect(np.array_equal(c.weights, np.ones(4)) and c.data_columns == ["a", "b"], "later construction")


SETTINGS = [
    # field, rejected, accepted
    ("summary_area", (-0.001, 1.001, "x"), (0.0, 1.0, 0.5)),
    ("walkers", (0, -1), (1, 3)),
    ("num_free_params", (-1, 1.5, np.inf), (0, 4, None)),
    ("num_eff_data_points", (-0.5, np.nan, np.inf), (0, 10.5, None)),
    ("marker_size", (0.5, -1), (1, 30.5)),
    ("histogram_relative_height", (-0.1,), (0.0, 1.0, 2.5)),
    ("color", ("no such colour", "gr"), ("red", "#123456", (0.1, 0.2, 0.3), None)),
    ("statistics", ("nonsense",), (S.HDI, S.MEAN, S.CUMULATIVE, S.MAX_CENTRAL, "max", None)),
    ("sigmas", ("x",), ([0, 1], [0.5])),
    ("kde", ("wide",), (True, False, 0.5, 2)),
    ("smooth", ("x", 1.5), (0, 5, None)),
]


def gen_settings(ch):
    f, bad, good = ch.pick("field", SETTINGS)
    v = ch.pick("value", [("bad", i) for i in range(len(bad))] + [("good", i) for i in range(len(good))])
    return dict(field=f, which=v[0], i=v[1], multimodal=ch.flag("multimodal"), shift=ch.flag("shift"), post=ch.flag("post"))


def run_settings(case, p):
    _, bad, good = next(s for s in SETTINGS if s[0] == case["field"])
    v = (bad if case["which"] == "bad" else good)[case["i"]]
    df = pd.DataFrame({"a": np.arange(6.0), "b": np.arange(6.0)[::-1] ** 2})
    if case["post"]:
        df["log_posterior"] = -np.arange(6.0)
    kw = {case["field"]: v, "multimodal": case["multimodal"], "shift_params": case["shift"]}
    make = lambda: Chain(samples=df, name="c", **kw)  # noqa: E731
    clash = case["multimodal"] and case["field"] == "statistics" and v not in (S.HDI, None)
    if case["which"] == "bad" or clash:
        p.raises(make, f"{case['field']} accepted", repr(v), exc=(ValueError, TypeError))
        return
    c = make()
    p.op()
    if case["field"] != "color":
        want = v
        if case["field"] == "statistics":
            want = S(v) if v is not None else (S.HDI if case["multimodal"] else S.MAX)
        p.equal(getattr(c, case["field"]), want, "setting stored", case["field"])
    else:
        p.expect((c.color is None) == (v is None), "colour stored", c.color)
    if case["field"] != "statistics":
        p.equal(c.statistics, S.HDI if case["multimodal"] else S.MAX, "default statistic")
    p.obs(case["field"], repr(v))


def gen_marker(ch):
    k = ch.pick("n", (2, 1, 3))
    return dict(loc={f"p{i}": ch.pick(f"v{i}", (1.5, 0.0, -2e9, 1e-12)) for i in range(k)}, color=ch.pick("color", (None, "red", "#102030")),
                size=ch.pick("size", (None, 7.5)), style=ch.pick("style", (None, "*")), alpha=ch.pick("alpha", (None, 0.3)))


def run_marker(case, p):
    kw = {k: v for k, v in dict(color=case["color"], marker_size=case["size"], marker_style=case["style"], marker_alpha=case["alpha"]).items() if v is not None}
    loc = dict(case["loc"])
    cc = ChainConsumer().add_marker(loc, "m", **kw)
    p.op()
    p.equal(loc, case["loc"], "location modified")
    c = cc.get_chain("m")
    p.equal(c.data_columns, list(loc), "marker columns")
    mp = c.get_max_posterior_point()
    p.equal(dict(mp.coordinate), case["loc"], "marker location")
    p.equal((c.plot_contour, c.plot_point, c.plot_cloud), (False, True, False), "marker kind")
    p.equal((c.marker_size, c.marker_style, c.marker_alpha), (case["size"] or 20.0, case["style"] or ".", case["alpha"] or 1.0), "marker style")
    p.obs(mp.coordinate, c.color)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("accepted", gen_valid, run_valid, bound=3 if q else 4, note="column kinds, names, weight/posterior naming and position, stray conventional columns, labels, shifting, walkers, grid, cloud, later mutation"),
        Space("rejected", gen_bad, run_bad, bound=2 if q else 4, note="each defect at each place in every surrounding configuration up to the bound"),
        Space("settings", gen_settings, run_settings, note="every setting's boundary values x multimodal x shift x posterior"),
        Space("markers", gen_marker, run_marker, note="marker location and style"),
    ]
