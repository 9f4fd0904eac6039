"""C29: figures are saved, sized and styled as requested, and side effects end there."""
import functools
import itertools
import os
import shutil
import sys
import tempfile
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth
from chainconsumer.plotter import FigSize
from PIL import Image

from mc import env
from mc.data import quantile_sample, scramble
from mc.engine import Space
from mc.scene import figure_key, panels

ASSUMPTIONS = ["LaTeX is not installed, so usetex is only tried in plots that do not have to be rendered", "pixel sizes are compared to within three pixels"]
N = 60
PLOTS = ("plot", "plot_walks", "plot_distributions", "plot_summary")

# ------------------------------------------------------------------------------ files opened for writing
WRITTEN = []
_recording = [False]


def _audit(event, args):
    if _recording[0] and event == "open":
        path, mode, flags = args
        if isinstance(path, (str, bytes)) and (any(c in (mode or "") for c in "wax+") or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
            WRITTEN.append(os.fsdecode(path))


sys.addaudithook(_audit)


class writes:
    """Paths opened for writing inside the block (matplotlib's own caches aside)."""

    def __enter__(self):
        WRITTEN.clear()
        _recording[0] = True
        return WRITTEN

    def __exit__(self, *a):
        _recording[0] = False
        WRITTEN[:] = sorted({os.path.realpath(w) for w in WRITTEN if not w.startswith((os.path.join(env.SCRATCH, "mpl"), "/dev/", "/proc/"))})


@functools.lru_cache(None)
def frame(k, cols):
    df = pd.DataFrame({c: quantile_sample("gauss", N)[scramble(N, 7 * k + j)] + 4.0 * j for j, c in enumerate(cols)})
    df["weight"] = 1.0 + np.arange(N) % 2
    df["log_posterior"] = -np.arange(N) / 9.0
    return df


def consumer(cols="ab", chains=1, config=None, coloured=False):
    cc = ChainConsumer()
    for k in range(chains):
        kw = dict(plot_cloud=True, plot_contour=False, color_param="weight") if coloured and k == 0 else {}
        cc.add_chain(Chain(samples=frame(k, cols), name=f"chain {k}", smooth=1, bins=7, **kw))
    cc.add_truth(Truth(location={"a": 0.3}))
    cc.set_plot_config(PlotConfig(**(config or {})))
    return cc


@functools.lru_cache(None)
def ambient():
    """The settings this process started from."""
    return dict(matplotlib.rcParams)


def rc_diff(base):
    now = dict(matplotlib.rcParams)
    return {k: now[k] for k in now if str(now[k]) != str(base[k])}


def all_texts(fig):
    """Every visible text of a figure that is not a tick label."""
    out = list(fig.texts)
    for ax in fig.axes:
        out += [*ax.texts, ax.title]
        if ax.axison:
            out += [ax.xaxis.label, ax.yaxis.label]
    return [t for t in out if t.get_visible() and t.get_text().strip()]


# -------------------------------------------------------------------------------- files
FORMS = {
    "none": None, "png": "png", "pdf": "pdf", "svg": "svg", "jpg": "jpg", "path": "path:png", "list": ["png", "pdf"], "mixed list": ["path:svg", "png", "png"], "one in a list": ["path:png"], "one stem": ["stem.png", "stem.pdf", "sub/stem.png"], "empty list": [], "odd name": "name with  spaces.and.dots.png", "directory": "sub/file.png", "capital": "PNG", "existing": "existing.png", "eps": "eps",
}
MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml", "jpg": b"\xff\xd8", "eps": b"%!PS"}


def gen_files(ch):
    return dict(plot=ch.pick("plot", PLOTS, free=True), form=ch.pick("file", list(FORMS), free=True), dpi=ch.pick("dpi", (300, 72, 100), free=True), size=ch.pick("figsize", (None, "small")), relative=ch.flag("relative path"), watermark=ch.flag("watermark"), chains=ch.pick("chains", (1, 2)), twice=ch.flag("two plots"))


def run_files(case, p):
    home = tempfile.mkdtemp(prefix="files-", dir=env.SCRATCH)
    before, rc = os.getcwd(), dict(matplotlib.rcParams)
    os.chdir(home)
    try:
        files(case, p, os.path.realpath(home))
    finally:
        os.chdir(before)
        matplotlib.rcParams.update({k: v for k, v in rc.items() if k != "backend"})
        assert home.startswith(env.SCRATCH + os.sep)
        shutil.rmtree(home)


def files(case, p, home):
    form = FORMS[case["form"]]
    cc = consumer("a" if case["plot"] == "plot_summary" else "ab", case["chains"], dict(dpi=case["dpi"], watermark="draft" if case["watermark"] else None))
    call = getattr(cc.plotter, case["plot"])
    kw = {}
    if case["size"]:
        kw["figsize"] = 0.7 if case["plot"] != "plot_walks" else 3.0
    os.mkdir("sub")
    Path("existing.png").write_bytes(b"old" * 200000)
    names = []
    for i, f in enumerate(form if isinstance(form, list) else [] if form is None else [form]):
        as_path = f.startswith("path:")
        f = f.removeprefix("path:")
        name = f if "." in f else f"out{i}.{f}"
        if not case["relative"]:
            name = os.path.join(home, name)
        names.append(Path(name) if as_path else name)
    arg = None if form is None else names if isinstance(form, list) else names[0]
    given = list(names)
    with writes() as w:
        plain = call(**kw)
        p.op()
    p.equal(w, [], "writes without a filename", case)
    with writes() as w:
        fig = call(filename=arg, **kw)
        p.op()
    p.equal(names, given, "the list of filenames changes", case)
    wanted = sorted({os.path.realpath(os.path.join(home, n)) for n in names})
    p.equal(w, wanted, "files written", case)
    here = sorted(os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs)
    p.equal(here, sorted({*wanted, os.path.join(home, "existing.png")}), "files present afterwards", case)
    p.equal(figure_key(fig), figure_key(plain), "saving changes the figure", case)
    p.equal(fig.dpi, plain.dpi, "saving changes the figure's resolution", case)
    p.equal(fig.number in plt.get_fignums(), plain.number in plt.get_fignums(), "saving closes the figure", case)
    p.obs(here, figure_key(fig))
    for name in names:
        ext = str(name).rsplit(".", 1)[1].lower()
        data = Path(name).read_bytes()
        if not p.expect(data.startswith(MAGIC[ext]), "format of the file", lambda: (case, name, data[:10])):
            continue
        if ext == "svg":
            p.expect(b"<svg" in data and b"</svg>" in data[-20:], "format of the file", (case, name))
        if ext in ("png", "jpg"):
            with Image.open(name) as im:
                im.load()
                size, dpi, extremes = im.size, im.info.get("dpi"), im.convert("L").getextrema()
            box = fig.get_tightbbox(fig.canvas.get_renderer())
            p.close(size, np.array([box.width + 0.1, box.height + 0.1]) * case["dpi"], 3 + 0.02 * case["dpi"], "resolution of the file", (case, name), rel=0.02)
            if dpi is not None:
                p.close(dpi, (case["dpi"],) * 2, 0.5, "resolution recorded in the file", (case, name))
            p.expect(extremes[0] != extremes[1], "the picture is blank", (case, name))
        elif ext == "pdf":
            p.expect(len(data) > 3000 and b"/MediaBox" in data, "the picture is blank", (case, name, len(data)))
    # the figure is still usable: drawing and saving it again gives the same picture
    pngs = [n for n in names if str(n).lower().endswith(".png")]
    if pngs:
        fig.savefig("again.png", bbox_inches="tight", dpi=case["dpi"], transparent=True, pad_inches=0.05)
        a, b = np.asarray(Image.open("again.png").convert("RGBA")), np.asarray(Image.open(pngs[0]).convert("RGBA"))
        p.expect(a.shape == b.shape and np.all(a == b), "saving the returned figure again differs", lambda: (case, a.shape, b.shape))
        p.expect(all(Path(n).read_bytes() == Path(pngs[0]).read_bytes() for n in pngs), "files of one call differ", case)
    if case["twice"] and names:
        first = {str(n): Path(n).read_bytes() for n in names}
        call(filename=arg, **kw)
        p.op()
        p.expect(all(Path(n).read_bytes() == first[str(n)] for n in names if str(n).lower().endswith(("png", "jpg"))), "saving twice differs", case)
    fig.canvas.draw()
    plt.close("all")


# -------------------------------------------------------------------------------- sizes
SIZES = {
    "plot": {"none": None, "grow": FigSize.GROW, "page": FigSize.PAGE, "column": FigSize.COLUMN, "factor": 1.5, "one": 1.0, "tiny": 0.25, "inches": 6, "two": 2, "pair": (7.0, 4.0), "ints": (9, 3)},
    "plot_walks": {"none": None, "factor": 4.5, "int": 6, "pair": (7.0, 4.0), "ints": (3, 9)},
    "plot_distributions": {"none": None, "factor": 1.5, "one": 1.0, "int": 2, "tiny": 0.5, "pair": (7.0, 4.0), "ints": (9, 3)},
    "plot_summary": {"none": None, "factor": 1.5, "two": 2.0, "half": 0.5, "int": 3},
}


def gen_sizes(ch):
    plot = ch.pick("plot", PLOTS, free=True)
    return dict(plot=plot, size=ch.pick("figsize", list(SIZES[plot]), free=True), cols=ch.pick("columns", ("ab", "a", "abcd"), free=True), chains=ch.pick("chains", (1, 2), free=True), coloured=ch.flag("colour bar"), hists=ch.pick("plot_hists", (True, False)), flip=ch.flag("flip"), wrap=ch.pick("col_wrap", (4, 2, 1)), weights=ch.pick("plot_weights", (True, False)), posterior=ch.pick("plot_posterior", (True, False)), dpi=ch.pick("dpi", (300, 50)), subset=ch.flag("one column asked for"))


def run_sizes(case, p):
    plot, size, n = case["plot"], SIZES[case["plot"]][case["size"]], len(case["cols"])
    if case["coloured"] and n == 1 or not case["hists"] and (n == 1 or case["subset"]):
        return
    cc = consumer(case["cols"], case["chains"], dict(plot_hists=case["hists"], flip=case["flip"], dpi=case["dpi"]), case["coloured"])
    kw = {} if size is None else dict(figsize=size)
    if case["subset"]:
        if case["coloured"]:
            return
        kw["columns"], n = ["a"], 1
    if plot == "plot_distributions":
        kw["col_wrap"] = case["wrap"]
    if plot == "plot_walks":
        kw |= dict(plot_weights=case["weights"], plot_posterior=case["posterior"])
    if plot in ("plot_distributions", "plot_summary") and case["coloured"]:
        return
    fig = getattr(cc.plotter, plot)(**kw)
    p.op()
    got = tuple(map(float, fig.get_size_inches()))
    p.obs(got)
    if isinstance(size, tuple):
        want = size
    elif plot == "plot":
        bar = 1 if case["coloured"] else 0
        f = size if isinstance(size, float) else 1.0
        want = {FigSize.PAGE: (10, 10), FigSize.COLUMN: (5 + bar, 5)}.get(size) or ((size, size) if isinstance(size, int) else (3 + 2 * f * n + bar, 3 + 2 * f * n))
    elif plot == "plot_walks":
        want = (8, 0.75 + n + case["weights"] + case["posterior"]) if size is None else (size, size)
    elif plot == "plot_distributions":
        c, r = min(n, case["wrap"]), -(-n // case["wrap"])
        f = 1.0 if size is None else size
        want = (2.5 * c * f, 2.5 * r * f)
    else:
        base = cc.plotter.plot_summary(**{k: v for k, v in kw.items() if k != "figsize"})
        p.op()
        want = np.asarray(base.get_size_inches()) * (size or 1.0)
    p.close(got, want, 1e-9, "size of the figure", case)
    plt.close("all")


# -------------------------------------------------------------------------------- text style, ticks, watermark
MARK = {"none": None, "short": "draft", "long": "Very preliminary, not for circulation", "letter": "W"}


def gen_style(ch):
    plot = ch.pick("plot", PLOTS, free=True)
    return dict(plot=plot, cols=ch.pick("columns", ("ab", "abc", "a"), free=True), chains=ch.pick("chains", (1, 2), free=True), flip=ch.flag("flip", free=True),
                mark=ch.pick("watermark", list(MARK)), kwargs=ch.pick("watermark_text_kwargs", ({}, dict(color="#0000ff", alpha=0.2), dict(weight="light"))), serif=ch.pick("serif", (False, True, None)), usetex=ch.pick("usetex", (False, None)),
                tick=ch.pick("tick_font_size", (10, 6, 15)), rotate=ch.pick("diagonal_tick_labels", (True, False)), ticks=ch.pick("max_ticks", (5, 2, 3, 8, 12, 1)), label=ch.pick("label_font_size", (12, 7)), summary=ch.pick("summary_font_size", (12, 6)), log=ch.pick("log_scales", ((), ("b",), ("a", "b"))), spacing=ch.pick("spacing", (None, 0.0, 1.0, 4.0)), blind=ch.pick("blind", (False, ["b"])), hists=ch.pick("plot_hists", (True, False)),
                ambient=ch.pick("ambient family", (None, "monospace")), scale=ch.pick("extents", (None, "tiny", "huge", "offset")))


RANGES = {"tiny": (1.0e-8, 9.0e-8), "huge": (1e8, 9e8), "offset": (1e6 + 0.1, 1e6 + 0.9)}


def run_style(case, p):
    rc = dict(matplotlib.rcParams)
    try:
        style(case, p)
    finally:
        matplotlib.rcParams.update({k: v for k, v in rc.items() if k != "backend"})
        plt.close("all")


def style(case, p):
    if case["ambient"]:
        plt.rc("font", family=case["ambient"])
    cols, plot = case["cols"], case["plot"]
    if case["log"] and case["scale"] or not case["hists"] and len(cols) == 1:
        return
    config = dict(watermark=MARK[case["mark"]], watermark_text_kwargs=case["kwargs"], serif=case["serif"], usetex=case["usetex"], tick_font_size=case["tick"], diagonal_tick_labels=case["rotate"], max_ticks=case["ticks"], label_font_size=case["label"], summary_font_size=case["summary"], log_scales=[c for c in case["log"] if c in cols], spacing=case["spacing"], blind=case["blind"] if "b" in cols else False, flip=case["flip"], plot_hists=case["hists"])
    if case["log"]:
        config["extents"] = {c: (1e-2, 1e4) for c in case["log"]}
    if case["scale"]:
        config["extents"] = {"a": RANGES[case["scale"]]}
    before = dict(matplotlib.rcParams)
    family = list(before["font.family"])
    cc = consumer(cols, case["chains"], config)
    p.equal(rc_diff(before), {}, "building a consumer changes matplotlib's settings", case)
    fig = getattr(cc.plotter, plot)()
    p.op()
    family = {None: family, True: ["serif"], False: ["sans-serif"]}[case["serif"]]
    changes = rc_diff(before)
    p.equal(changes, {} if family == list(before["font.family"]) else {"font.family": family}, "matplotlib settings after a plot", case)
    ps = panels(fig)
    p.obs(figure_key(fig))
    texts = all_texts(fig)
    p.expect(all(list(t.get_fontfamily()) == family for t in texts), "font family of the texts", lambda: (case, {tuple(t.get_fontfamily()) for t in texts}))
    p.expect(not any(t.get_usetex() for t in texts), "usetex of the texts", case)
    # the watermark
    mark = MARK[case["mark"]]
    found = [t for t in texts if t.get_text() in [m for m in MARK.values() if m]]
    p.equal([t.get_text() for t in found], [mark] if mark else [], "watermark", case)
    if mark and found:
        t = found[0]
        p.equal((matplotlib.colors.to_hex(t.get_color()), t.get_alpha(), t.get_fontweight()), (case["kwargs"].get("color", "#333333"), case["kwargs"].get("alpha", 0.7), case["kwargs"].get("weight", "bold")), "style of the watermark", case)
        fig.canvas.draw()
        box = t.get_window_extent()
        inside = fig.axes[2].get_window_extent() if plot == "plot" and case["flip"] and len(cols) == 2 and case["hists"] else fig.bbox
        mid = ((box.x0 + box.x1) / 2, (box.y0 + box.y1) / 2)
        p.close(mid, ((inside.x0 + inside.x1) / 2, (inside.y0 + inside.y1) / 2), 6.0, "watermark is not centred", case, rel=0.02)
        p.expect(t.get_fontsize() >= 1 and box.width > 2, "watermark cannot be seen", case)
    # font sizes of labels and summaries
    for q in ps:
        for lab in (q.ax.xaxis.label, q.ax.yaxis.label):
            if plot in ("plot", "plot_distributions") and lab.get_text().strip():
                p.equal(lab.get_fontsize(), float(case["label"]), "label font size", case)
        if q.title:
            p.equal(q.ax.title.get_fontsize(), float(case["summary"] if plot in ("plot", "plot_distributions") else case["label"]), "title font size", case)
        if plot == "plot_summary" and q.texts and q.texts[0].startswith("chain"):
            p.equal(q.ax.texts[0].get_fontsize(), float(case["label"]), "name font size", case)
    # ticks
    if plot in ("plot", "plot_distributions"):
        for q in ps:
            for t, log in ((q.xt, q.xscale == "log"), (q.yt, q.yscale == "log")):
                if t is None or not t.major:
                    continue
                p.expect(max(case["ticks"] / 2.5 - 2, 0) <= len(t.major) <= max(2, case["ticks"] + (1 if log else 0)), "number of ticks", lambda: (case, t.major))
                p.expect(set(t.rotations) <= {45.0 if case["rotate"] else 0.0}, "tick rotation", lambda: (case, t.rotations))
                p.expect(not log or len(t.rotations) > 0, "no tick labels", case)
                big = [s for s, loc in zip(t.sizes, t.locs)]
                p.expect(set(big) <= {float(case["tick"])}, "tick font size", lambda: (case, big))
    if plot == "plot_walks":
        for q in ps:
            if q.yt is not None:
                p.expect(len(q.yt.major) <= max(2, case["ticks"] + (1 if q.yscale == "log" else 0)), "number of ticks", lambda: (case, q.yt.major))
    # spacing
    if plot == "plot" and len(cols) - (not case["hists"]) >= 2 and not (case["flip"] and len(cols) == 2):
        n = len(cols) - (not case["hists"])
        pos = [[ps[i * n + j].ax.get_position() for j in range(n)] for i in range(n)]
        s = 1.0 if case["spacing"] is None else case["spacing"]
        for i in range(n - 1):
            p.close((pos[0][i + 1].x0 - pos[0][i].x1, pos[i][0].y0 - pos[i + 1][0].y1), (0.05 * s * pos[0][0].width, 0.05 * s * pos[0][0].height), 1e-6, "gap between panels", case)
    plt.close("all")


# -------------------------------------------------------------------------------- matplotlib settings
EVENTS = ("serif", "sans", "leave", "tex", "restore", "analysis", "mono", "tex on", "new")


def gen_settings(ch):
    n = ch.pick("events", (1, 2, 3, 4), free=True)
    return [ch.pick(f"event {i}", EVENTS, free=i < gen_settings.depth) for i in range(n)]


def run_settings(events, p):
    rc = dict(matplotlib.rcParams)
    try:
        settings(events, p)
    finally:
        matplotlib.rcParams.update({k: v for k, v in rc.items() if k != "backend"})
        plt.close("all")


def settings(events, p):
    base = dict(matplotlib.rcParams)
    family, tex = list(base["font.family"]), base["text.usetex"]
    cc = consumer("a", 1)
    found = (list(family), tex)
    for k, e in enumerate(events):
        where = (events, k)
        if e in ("serif", "sans", "leave", "tex"):
            serif = {"serif": True, "sans": False}.get(e)
            cc.set_plot_config(PlotConfig(serif=serif, usetex={"tex": True, "leave": None}.get(e, False)))
            if serif is not None:
                family = ["serif"] if serif else ["sans-serif"]
            if e != "leave":
                tex = e == "tex"
            fig = cc.plotter.plot_distributions()
            texts = all_texts(fig)
            p.expect(texts and all(list(t.get_fontfamily()) == family and t.get_usetex() == tex for t in texts), "style of the texts", lambda: (where, [(t.get_fontfamily(), t.get_usetex()) for t in texts]))
            plt.close(fig)
        elif e == "restore":
            cc.plotter.restore_rc_params()
            family, tex = list(found[0]), found[1]
        elif e == "analysis":
            cc.analysis.get_summary()
            cc.analysis.get_latex_table()
            cc.comparison.bic()
        elif e == "mono":
            plt.rc("font", family="monospace")
            family = ["monospace"]
        elif e == "tex on":
            plt.rc("text", usetex=True)
            tex = True
        else:
            cc = consumer("a", 1)
            found = (list(family), tex)
        p.op()
        want = {}
        if family != list(base["font.family"]):
            want["font.family"] = family
        if tex != base["text.usetex"]:
            want["text.usetex"] = tex
        if not p.equal(rc_diff(base), want, "matplotlib settings", where):
            return
    p.obs(family, tex)


gen_settings.depth = 4


def spaces(tier):
    q = tier == "quick"
    gen_settings.depth = 3 if q else 4
    return [
        Space("files", gen_files, run_files, bound=0 if q else 2, note="every plot type x file form x resolution; sizes, paths, watermark and repetition"),
        Space("sizes", gen_sizes, run_sizes, bound=1 if q else 3, note="every plot type x size form x parameters x chains"),
        Space("style", gen_style, run_style, bound=1 if q else 2, note="every plot type with text, tick, spacing and watermark settings"),
        Space("settings", gen_settings, run_settings, bound=0 if q else None, note="every history of plots, restores, consumers and outside changes to matplotlib's settings"),
    ]
