"""Figures as data: in place of a rendered file, ``savefig`` writes what the axes hold."""
import json
import os
import sys
import types

import numpy as np


def num(a):
    a = np.ma.filled(np.ma.asarray(a, dtype=np.float64), np.nan)
    return a.tolist()


def describe(fig):
    import matplotlib.collections as mc
    import matplotlib.patches as mp
    axes = []
    for ax in fig.axes:
        d = {"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "xlim": num(ax.get_xlim()), "ylim": num(ax.get_ylim()),
             "xticks": num(ax.get_xticks()), "lines": [], "points": [], "areas": [], "segments": [], "bars": [], "steps": [], "images": [],
             "heat": getattr(ax, "_sim_heat", [])}
        for l in ax.lines:
            d["lines"].append({"x": num(np.asarray(l.get_xdata(orig=False), dtype=float)), "y": num(np.asarray(l.get_ydata(orig=False), dtype=float)),
                               "label": str(l.get_label()), "color": str(l.get_color()), "style": str(l.get_linestyle())})
        for c in ax.collections:
            if isinstance(c, mc.PathCollection):
                arr = c.get_array()
                d["points"].append({"xy": num(c.get_offsets()), "c": None if arr is None else num(arr), "face": num(c.get_facecolor())[:2000], "label": str(c.get_label())})
            elif isinstance(c, mc.LineCollection):
                d["segments"].append([num(s) for s in c.get_segments()])
            elif isinstance(c, mc.PolyCollection):
                d["areas"].append([num(p.vertices) for p in c.get_paths()])
        for p in ax.patches:
            if isinstance(p, mp.StepPatch):
                v, e, _ = p.get_data()
                d["steps"].append([num(v), num(e)])
            elif isinstance(p, mp.Rectangle):
                d["bars"].append([float(p.get_x()), float(p.get_width()), float(p.get_height())])
        for im in ax.images:
            d["images"].append({"data": num(im.get_array()), "extent": num(im.get_extent()), "origin": im.origin})
        axes.append(d)
    sup = fig._suptitle.get_text() if getattr(fig, "_suptitle", None) is not None else None
    return {"axes": axes, "suptitle": sup}


def install(sim):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from bmi.plot_utils.subplots_from_axsize import subplots_from_axsize as own

    def savefig(fig, path, *a, **k):
        text = json.dumps(describe(fig))
        with open(os.fspath(path), "w") as f:
            f.write(text)
    matplotlib.figure.Figure.savefig = savefig

    def external(nrows=1, ncols=1, axsize=(2, 2), left=0.5, right=0.5, top=0.5, bottom=0.5, wspace=0.5, hspace=0.5, **kw):
        """The package of PyPI (rows, columns, size of an axis, ...)."""
        return plt.subplots(nrows, ncols, **{k: v for k, v in kw.items() if k in ("dpi", "squeeze", "sharex", "sharey")})
    m = types.ModuleType("subplots_from_axsize")
    m.subplots_from_axsize = external
    sys.modules["subplots_from_axsize"] = m
    s = types.ModuleType("seaborn")

    def heatmap(data, *a, ax=None, **k):
        ax = ax or plt.gca()
        ax._sim_heat = getattr(ax, "_sim_heat", []) + [num(data)]

    class PairGrid:
        def __init__(self, data):
            self.data = data
            self.figure = self.fig = plt.figure()

        def map_lower(self, *a, **k):
            return self
        map_upper = map_diag = map = map_offdiag = map_lower

        def savefig(self, path, *a, **k):
            text = json.dumps({"pairs": {str(c): num(self.data[c]) for c in self.data.columns}, "suptitle": describe(self.figure)["suptitle"]})
            with open(os.fspath(path), "w") as f:
                f.write(text)
    s.heatmap, s.PairGrid, s.pairplot = heatmap, PairGrid, lambda data, *a, **k: PairGrid(data)
    s.kdeplot = s.scatterplot = s.histplot = lambda *a, **k: None
    s.calls = []
    sys.modules["seaborn"] = s
    return own
