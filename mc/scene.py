"""Reads what a figure shows: the observable side of every plot property."""
from __future__ import annotations

import numpy as np
from matplotlib.collections import LineCollection, PathCollection, PolyCollection
from matplotlib.colors import to_hex, to_rgba
from matplotlib.contour import ContourSet
from matplotlib.patches import Polygon, Rectangle
from matplotlib.path import Path

from .engine import canon


def hexes(c):
    """Colour(s) without alpha as hex strings."""
    c = np.atleast_2d(np.asarray(c, float)) if not isinstance(c, str) else np.atleast_2d(to_rgba(c))
    return [to_hex(v[:3]) for v in c]


def hexof(c):
    return to_hex(c, keep_alpha=False)


class Line:
    def __init__(self, a):
        self.artist = a
        self.x = np.asarray(a.get_xdata(orig=False), float)
        self.y = np.asarray(a.get_ydata(orig=False), float)
        self.color, self.ls, self.lw, self.alpha = hexof(a.get_color()), a.get_linestyle(), a.get_linewidth(), a.get_alpha()
        self.zorder, self.marker = a.get_zorder(), a.get_marker()
        self.span = a.get_transform() != a.axes.transData  # axvline / axhline

    @property
    def vertical(self):
        return self.span and len(self.x) == 2 and self.x[0] == self.x[1] and list(self.y) == [0, 1]

    @property
    def horizontal(self):
        return self.span and len(self.y) == 2 and self.y[0] == self.y[1] and list(self.x) == [0, 1]

    def key(self):
        return ("line", self.x, self.y, self.color, self.ls, self.lw, self.alpha, self.zorder, str(self.marker), self.span)


class Scatter:
    def __init__(self, a):
        self.artist = a
        self.xy = np.asarray(a.get_offsets(), float)
        self.array = None if a.get_array() is None else np.asarray(a.get_array(), float)
        self.color = None if self.array is not None else hexes(a.get_facecolors())[0] if len(a.get_facecolors()) else hexes(a.get_edgecolors())[0]
        self.edge = hexes(a.get_edgecolors())[0] if len(a.get_edgecolors()) else None
        self.alpha, self.sizes, self.zorder = a.get_alpha(), np.asarray(a.get_sizes()), a.get_zorder()
        self.lw = float(np.atleast_1d(a.get_linewidths())[0]) if len(np.atleast_1d(a.get_linewidths())) else None
        self.cmap = a.get_cmap().name if self.array is not None else None
        p = a.get_paths()
        self.marker = np.round(p[0].vertices, 6) if p else None

    def key(self):
        return ("scatter", self.xy, self.array, self.color, self.edge, self.alpha, self.sizes, self.zorder, self.cmap, self.marker, self.lw)


class Contours:
    def __init__(self, a):
        self.artist = a
        self.filled = bool(a.filled)
        self.levels = np.asarray(a.levels, float)
        self.paths = a.get_paths()
        self.alpha, self.zorder = a.get_alpha(), a.get_zorder()
        self.colors = hexes(a.get_facecolor() if self.filled else a.get_edgecolor())
        self.lw = [float(v) for v in np.atleast_1d(a.get_linewidths())]
        self.ls = [str(v) for v in (a.get_linestyles() or [])]
        self.hatched = None

    def polygons(self, i):
        """The polygons (n, 2) of the i-th level (or band)."""
        if i >= len(self.paths) or not len(self.paths[i].vertices):
            return []
        v, codes = self.paths[i].vertices, self.paths[i].codes
        if codes is None:
            return [np.asarray(v)]
        # not Path.to_polygons: it simplifies, by distances in data units
        starts = np.nonzero(codes == Path.MOVETO)[0]
        return [q[c != Path.CLOSEPOLY] for q, c in zip(np.split(v, starts[1:]), np.split(codes, starts[1:]))]

    def key(self):
        return ("contour", self.filled, self.levels, [p.vertices for p in self.paths], self.alpha, self.zorder, self.colors, self.lw, self.ls)


class Fill:
    def __init__(self, a):
        self.artist = a
        self.polys = [np.asarray(p.vertices) for p in a.get_paths()]
        self.color = hexes(a.get_facecolors())[0] if len(a.get_facecolors()) else None
        self.alpha, self.zorder = a.get_alpha(), a.get_zorder()

    def key(self):
        return ("fill", self.polys, self.color, self.alpha, self.zorder)


def linestyle(v):
    """Dash patterns as names."""
    if isinstance(v, str):
        return v
    return {None: "-", (3.7, 1.6): "--", (1.0, 1.65): ":", (6.4, 1.6, 1.0, 1.6): "-."}.get(v[1] and tuple(float(d) for d in v[1]), str(v))


class Step:
    """A step histogram polygon."""

    def __init__(self, a):
        self.artist = a
        self.xy = np.asarray(a.get_xy(), float)
        self.color, self.lw, self.ls, self.zorder = hexof(a.get_edgecolor()), a.get_linewidth(), linestyle(a.get_linestyle()), a.get_zorder()

    def key(self):
        return ("step", self.xy, self.color, self.lw, self.ls, self.zorder)


class Ticks:
    """Ticks whose position is in view, with their label text (empty when hidden)."""

    def __init__(self, axis):
        lo, hi = sorted(axis.get_view_interval())
        pad = 1e-9 * (hi - lo)
        self.labels, self.locs, self.sizes, self.rotations, self.major = [], [], [], [], []
        if not axis.get_visible():
            return
        for minor in (False, True):
            labs = axis.get_minorticklabels() if minor else axis.get_majorticklabels()
            ticks = axis.get_minor_ticks(len(labs)) if minor else axis.get_major_ticks(len(labs))
            for t in ticks[: len(labs)]:
                if lo - pad <= t.get_loc() <= hi + pad:
                    txt = t.label1.get_text() if t.label1.get_visible() else t.label2.get_text() if t.label2.get_visible() else ""
                    if not minor:
                        self.major.append(t.get_loc())
                    self.locs.append(t.get_loc())
                    if txt:
                        self.labels.append(txt)
                        self.sizes.append(t.label1.get_fontsize())
                        self.rotations.append(t.label1.get_rotation())

    def key(self):
        return (self.locs, self.labels)


class Panel:
    def __init__(self, ax):
        self.ax = ax
        self.lines = [Line(a) for a in ax.lines]
        self.scatters, self.contours, self.fills, self.others = [], [], [], []
        for c in ax.collections:
            if isinstance(c, ContourSet):
                self.contours.append(Contours(c))
            elif isinstance(c, PathCollection):
                self.scatters.append(Scatter(c))
            elif isinstance(c, PolyCollection):
                self.fills.append(Fill(c))
            elif isinstance(c, LineCollection):
                self.others.append(c)
            else:
                self.others.append(c)
        self.steps = [Step(a) for a in ax.patches if isinstance(a, Polygon) and not isinstance(a, Rectangle)]
        self.texts = [t.get_text() for t in ax.texts if t.get_visible() and t.get_text()]
        self.title = ax.get_title()
        self.xlabel, self.ylabel = ax.get_xlabel(), ax.get_ylabel()
        self.xlim, self.ylim = tuple(map(float, ax.get_xlim())), tuple(map(float, ax.get_ylim()))
        self.xscale, self.yscale = ax.get_xscale(), ax.get_yscale()
        self.shown = ax.get_visible() and ax.axison
        self.xt, self.yt = (Ticks(ax.xaxis), Ticks(ax.yaxis)) if self.shown else (None, None)

    @property
    def filled(self):
        return [c for c in self.contours if c.filled]

    @property
    def outlined(self):
        return [c for c in self.contours if not c.filled]

    @property
    def curves(self):
        """Curves that are not truth lines."""
        return [ln for ln in self.lines if not ln.span]

    @property
    def spans(self):
        return [ln for ln in self.lines if ln.span]

    @property
    def empty(self):
        return not (self.lines or self.scatters or self.contours or self.fills or self.steps or self.texts or self.title)

    @property
    def xticks(self):
        return self.xt.labels if self.xt else []

    @property
    def yticks(self):
        return self.yt.labels if self.yt else []

    def key(self):
        """Everything drawn, in a canonical nested form."""
        return (
            [a.key() for g in (self.lines, self.scatters, self.contours, self.fills, self.steps) for a in g],
            [o.__class__.__name__ for o in self.others],
            self.texts, self.title, self.xlabel, self.ylabel, self.xlim, self.ylim, self.xscale, self.yscale, self.shown,
            self.xt.key() if self.xt else None, self.yt.key() if self.yt else None, legend_key(self.ax),
        )


def legend_key(ax):
    leg = ax.get_legend()
    if leg is None:
        return None
    return [(t.get_text(), hexof(t.get_color()), legend_handle(h)) for t, h in zip(leg.get_texts(), leg.legend_handles)]


def legend_handle(h):
    return (hexof(h.get_color()), h.get_linestyle(), float(h.get_linewidth()), str(h.get_marker()), round(float(h.get_markersize()), 6))


def panels(fig):
    return [Panel(ax) for ax in fig.axes]


def figure_key(fig):
    ps = panels(fig)
    return canon(dict(size=tuple(fig.get_size_inches()), texts=[(t.get_text(), t.get_position(), round(t.get_fontsize(), 4)) for t in fig.texts],
                      axes=[p.key() for p in ps], pos=[tuple(np.round(p.ax.get_position().bounds, 6)) for p in ps]))


def triangle(fig, n):
    """The n x n panels of a corner plot in row-major order, plus any further axes (colour bars)."""
    axs = fig.axes
    return [[Panel(axs[i * n + j]) for j in range(n)] for i in range(n)], axs[n * n:]
