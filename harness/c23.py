"""C23: plot layouts give every plot its own cell."""
import re

import matplotlib.pyplot

from symex.case import case
from harness.common import quiet

ASSUMPTIONS = [
    "at least one plot per row is requested; matplotlib is replaced by a "
    "recorder that hands out grids the way pyplot.subplots() does (a single "
    "axes, a row or column, or a matrix)",
]


class Axes(object):
    """A grid as pyplot.subplots() returns it, for any size."""

    def __init__(self, ctx, rows, cols):
        self.ctx, self.rows, self.cols = ctx, rows, cols

    def __getitem__(self, at):
        ctx = self.ctx
        if isinstance(at, tuple):
            y, x = at
            ctx.check(ctx.all(self.rows > 1, self.cols > 1), "matrix")
        elif self.cols > 1:
            y, x = 0, at
            ctx.check(ctx.eq(self.rows, 1), "row")
        else:
            y, x = at, 0
            ctx.check(self.rows > 1, "column")
        ctx.check(ctx.all(ctx.le(0, y), ctx.lt(y, self.rows), ctx.le(0, x),
                          ctx.lt(x, self.cols)), "inside the grid")
        return (y, x)


class Figure(object):
    def __init__(self):
        self.removed, self.title = [], None

    def delaxes(self, cell):
        self.removed.append(cell)

    def suptitle(self, text, **kwargs):
        self.title = text


class Pyplot(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def subplots(self, rows, cols, figsize=None, **kwargs):
        self.rows, self.cols, self.figure = rows, cols, Figure()
        self.figsize = figsize
        ctx = self.ctx
        if ctx.all(ctx.eq(rows, 1), ctx.eq(cols, 1)):
            return self.figure, (0, 0)
        return self.figure, Axes(ctx, rows, cols)


class pyplot(object):
    """The layout draws on the stand-in, wherever it imports pyplot."""

    def __init__(self, module, fake):
        self.module, self.fake = module, fake

    def __enter__(self):
        self.here = getattr(self.module, "plt", None)
        self.real = matplotlib.pyplot
        matplotlib.pyplot = self.fake
        if self.here is not None:
            self.module.plt = self.fake

    def __exit__(self, *exc):
        matplotlib.pyplot = self.real
        if self.here is not None:
            self.module.plt = self.here
        return False


def layout(ctx, cols, plots, **kwargs):
    from trappy.plotter import PlotLayout as module
    quiet()
    kwargs.setdefault("title", None)
    fake = Pyplot(ctx)
    with pyplot(module, fake):
        return module.PlotLayout(cols, plots, **kwargs), fake


@case("cells", bounds="1-n plots and 1-c per row, all symbolic; any two "
      "plots, any cell", quick=[dict(n=12, c=5), dict(n=30, c=4)],
      thorough=[dict(n=60, c=9), dict(n=400, c=6)])
def cells(ctx, n, c):
    plots = ctx.int("plots", 1, n)
    per_line = ctx.int("per_line", 1, c)
    i = ctx.int("i", 0, n - 1)
    j = ctx.int("j", 0, n - 1)
    ctx.assume(ctx.all(ctx.lt(i, plots), ctx.lt(j, plots)))
    lay, plt = layout(ctx, per_line, plots)
    rows, cols = plt.rows, plt.cols
    ctx.check(ctx.all(ctx.le(cols, per_line), ctx.le(cols, plots)),
              "plots per row")
    ctx.check(ctx.eq(cols, ctx.ite(per_line < plots, per_line, plots)),
              "as many per row as asked for")
    ctx.check(ctx.all(ctx.le(plots, rows * cols),
                      ctx.lt((rows - 1) * cols, plots)),
              "room for all, no empty row")
    a, b = lay.get_axis(i), lay.get_axis(j)
    ctx.check(ctx.all(ctx.eq(a[0] * cols + a[1], i), ctx.lt(a[1], cols),
                      ctx.le(0, a[1])), "row by row")
    ctx.check(ctx.eq(a[0] == b[0] and a[1] == b[1], i == j),
              "a cell of its own")
    ctx.check(lay.get_fig() is plt.figure, "figure")
    ctx.observe("grid", [rows, cols])


@case("unused cells", bounds="1-n plots and 1-c per row, all symbolic: the "
      "cells removed at the end are the ones after the last plot",
      quick=[dict(n=12, c=4)], thorough=[dict(n=40, c=6)])
def unused_cells(ctx, n, c):
    plots = ctx.int("plots", 1, n)
    per_line = ctx.int("per_line", 1, c)
    lay, plt = layout(ctx, per_line, plots)
    lay.finish(plots)
    rows, cols = plt.rows, plt.cols
    gone = plt.figure.removed
    ctx.check(ctx.eq(len(gone), rows * cols - plots), "number of cells")
    for k, (y, x) in enumerate(gone):
        ctx.check(ctx.eq(y * cols + x, plots + k), "after the last plot")


@case("no plots", bounds="no plots and 1-6 per row: refused", quick=[{}])
def no_plots(ctx):
    refused = 0
    try:
        layout(ctx, ctx.int("per_line", 1, 6), 0)
    except RuntimeError:
        refused += 1
    try:
        browser(ctx, ctx.int("per_line2", 1, 6), 0)
    except RuntimeError:
        refused += 1
    ctx.check(refused == 2, "refused")


@case("size and title", bounds="1-12 plots, 1-4 per row, symbolic sizes: "
      "the figure grows with the grid, the title is shown", quick=[{}])
def size_and_title(ctx):
    plots = ctx.int("plots", 1, 12)
    per_line = ctx.int("per_line", 1, 4)
    w, h = ctx.int("w", 1, 20), ctx.int("h", 1, 20)
    title = ctx.choice("title", [None, "some title"])
    lay, plt = layout(ctx, per_line, plots, width=w, length=h, title=title)
    ctx.check(plt.figure.title == title, "title")
    ctx.check(ctx.all(ctx.le(w * plt.cols, plt.figsize[0]),
                      ctx.le(h * plt.rows, plt.figsize[1])), "size")


def browser(ctx, per_line, plots, **kwargs):
    from trappy.plotter.ILinePlotGen import ILinePlotGen
    quiet()
    attr = dict(per_line=per_line, title=None, fill=False, scatter=False,
                point_size=2, step_plot=False, max_datapoints=75000)
    attr.update(kwargs)
    return ILinePlotGen(plots, **attr)


@case("browser", bounds="1-n plots in the browser, 1-c per row: one cell "
      "each, row by row, with the data and title of that plot and its legend "
      "below", quick=[dict(n=7, c=4)], thorough=[dict(n=14, c=6)])
def browser_cells(ctx, n, c):
    import json
    import pandas as pd
    plots = ctx.choice("plots", range(1, n + 1))
    per_line = ctx.choice("per_line", range(1, c + 1))
    gen = browser(ctx, per_line, plots)
    for i in range(plots):
        gen.add_plot(i, pd.DataFrame({"v": [i]}, index=[1.5]), "plot %d" % i)
    html = gen.html()
    table = html[html.index("<table"):html.index("</table>")]
    rows = [re.findall(r'id="(\w+)"', r) for r in table.split("<tr>")[1:]]
    figures, legends = rows[0::2], rows[1::2]
    per = min(per_line, plots)
    ctx.check(all(len(r) == per for r in rows), "cells per row")
    ctx.check((len(figures) - 1) * per < plots <= len(figures) * per,
              "room for all, no empty row")
    ids = sum(figures, [])
    ctx.check(len(set(ids)) == len(ids), "different cells")
    ctx.check(sum(legends, []) == [x + "_legend" for x in ids], "legends")
    data = dict(re.findall(r"var (\w+)_data = (.*);", html))
    ctx.check(sorted(data) == sorted(ids[:plots]), "cells used")
    for i, x in enumerate(ids[:plots]):
        d = json.loads(data[x])
        ctx.check(d["name"] == x and d["title"] == "plot %d" % i and
                  d["data"] == {"data": [[1.5, i]], "labels":
                                ["index", "v"]}, "data of the plot")
        ctx.check(html.count("ILinePlot.generate(%s_data" % x) == 1,
                  "drawn once")


@case("defaults", bounds="1-n plots and 1-c per row, any of the size and "
      "title left out", quick=[dict(n=4, c=3)])
def defaults(ctx, n, c):
    from trappy.plotter import PlotLayout as module
    quiet()
    plots = ctx.int("plots", 1, n)
    per_line = ctx.int("per_line", 1, c)
    kw = {}
    for name, value in (("width", 3), ("length", 4), ("title", "All")):
        if ctx.bool(name):
            kw[name] = value
    fake = Pyplot(ctx)
    with pyplot(module, fake):
        module.PlotLayout(per_line, plots, **kw)
    ctx.check(fake.figure.title == kw.get("title"), "title")
    w, l = fake.figsize
    ctx.check(ctx.all(ctx.lt(0, w), ctx.lt(0, l)), "size")
