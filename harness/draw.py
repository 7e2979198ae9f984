"""Stand-ins for the drawing layer that record what is drawn.

matplotlib.pyplot and the plotting backend of pandas are replaced; what is
drawn on an axis ends up in its list of lines, histograms and settings."""
import importlib
import sys
import types

import matplotlib
import numpy as np
import pandas as pd


MODULES = ["trappy.plot_utils", "trappy.plotter.StaticPlot",
           "trappy.plotter.PlotLayout", "trappy.plotter.LinePlot",
           "trappy.plotter.BarPlot"]


class Line(object):
    def __init__(self, axis, xs, ys, label, kw):
        self.axis, self.xs, self.ys = axis, list(xs), list(ys)
        self.label, self.kw = label, kw

    def get_drawstyle(self):
        return self.kw.get("drawstyle", "default")

    def get_data(self, orig=True):
        return self.xs, self.ys

    def get_label(self):
        return self.label


class Bar(object):
    """One rectangle"""
    def __init__(self, axis, x, height, bottom, width, kw):
        self.axis, self.x, self.height = axis, x, height
        self.bottom, self.width, self.kw = bottom, width, kw


def spread(value, n):
    try:
        return [value[i] for i in range(n)]
    except (TypeError, IndexError):
        return [value] * n


class Axis(object):
    def __init__(self, figure=None, place=None):
        self.figure, self.place = figure, place
        self.lines, self.hists, self.bars, self.fills = [], [], [], []
        self.title = self.xlabel = self.ylabel = None
        self.xlim, self.ylim = (0, 1), (0, 1)
        self.set_limits = []
        self.legends = 0
        self.kinds = []

    # -- drawing
    def plot(self, xs, ys, *args, **kw):
        label = kw.pop("label", None)
        line = Line(self, xs, ys, label, kw)
        self.lines.append(line)
        return [line]

    def bar(self, xs, heights, width=0.8, bottom=None, **kw):
        xs, heights = list(xs), list(heights)
        n = len(xs)
        bars = [Bar(self, xs[i], heights[i], b, w, kw) for i, b, w in
                zip(range(n), spread(0 if bottom is None else bottom, n),
                    spread(width, n))]
        self.bars.append(bars)
        return bars

    def hist(self, values, bins=None, **kw):
        self.hists.append((list(values), bins, kw))

    def fill_between(self, xs, y1, y2=0, **kw):
        self.fills.append((list(xs), y1, list(y2), kw))

    # -- settings
    def set_title(self, text, **kw):
        self.title = text

    def set_xlabel(self, text, **kw):
        self.xlabel = text

    def set_ylabel(self, text, **kw):
        self.ylabel = text

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def set_xlim(self, low, high=None, **kw):
        if high is None:
            low, high = low
        self.xlim = (low, high)
        self.set_limits.append("x")

    def set_ylim(self, low, high=None, **kw):
        if high is None:
            low, high = low
        self.ylim = (low, high)
        self.set_limits.append("y")

    def legend(self, *args, **kw):
        self.legends += 1

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class Anything(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class Figure(object):
    def __init__(self, rows, cols, size):
        self.rows, self.cols, self.size = rows, cols, size
        self.axes = [[Axis(self, (r, c)) for c in range(cols)]
                     for r in range(rows)]
        self.removed, self.title, self.legends = [], None, []
        self.saved = []

    def grid(self):
        """In the form pyplot.subplots() returns it"""
        if self.rows == 1 and self.cols == 1:
            return self.axes[0][0]
        out = np.empty((self.rows, self.cols), dtype=object)
        for r in range(self.rows):
            for c in range(self.cols):
                out[r, c] = self.axes[r][c]
        return out.reshape(-1) if 1 in (self.rows, self.cols) else out

    def flat(self):
        return [a for row in self.axes for a in row]

    def delaxes(self, axis):
        self.removed.append(axis)

    def suptitle(self, text, **kw):
        self.title = text

    def legend(self, handles, labels, **kw):
        self.legends.append((list(handles), list(labels), kw))
        return Anything()

    def savefig(self, *args, **kw):
        self.saved.append((args, kw))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class Pyplot(object):
    """Stands in for matplotlib.pyplot"""
    def __init__(self):
        self.figures = []
        self.legends = 0

    def subplots(self, nrows=1, ncols=1, figsize=None, **kw):
        self.figures.append(Figure(nrows, ncols, figsize))
        return self.figures[-1], self.figures[-1].grid()

    def rc_context(self, *args, **kw):
        return nothing()

    def gca(self):
        if not self.figures:
            self.subplots()
        return self.figures[-1].axes[-1][-1]

    def gcf(self):
        return self.figures[-1]

    def axis(self, *args):
        axis = self.gca()
        return tuple(axis.get_xlim()) + tuple(axis.get_ylim())

    def legend(self, *args, **kw):
        self.legends += 1
        if self.figures:
            self.gca().legend()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()

    # -- the backend of pandas
    def series(self, data, kind="line", ax=None, label=None, title=None,
               **kw):
        if isinstance(data, pd.DataFrame) and not len(data.columns):
            raise TypeError("no numeric data to plot")
        if ax is None:
            ax = self.subplots()[1]
        if title is not None:
            ax.set_title(title)
        kw.pop("x", None), kw.pop("y", None)
        ax.kinds.append(kind)
        if isinstance(data, pd.DataFrame):
            for name in data.columns:
                ax.plot(data.index.tolist(), data[name].tolist(),
                        label=name, **kw)
        else:
            ax.plot(data.index.tolist(), data.tolist(),
                    label=data.name if label is None else label, **kw)
        return ax

    def histogram(self, data, ax=None, bins=10, **kw):
        if ax is None:
            ax = self.subplots()[1]
        ax.hist(data.tolist(), bins=bins, **kw)
        return ax


class replaced(object):
    """Names of modules stand for something else for a while; a name that a
    module does not have is left out."""

    def __init__(self, *what):
        self.what = what

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n, _ in self.what
                      if hasattr(m, n)]
        for m, n, value in self.what:
            if hasattr(m, n):
                setattr(m, n, value)
        return self

    def __exit__(self, *exc):
        for m, n, value in self.saved:
            setattr(m, n, value)
        return False


def pages_go_to(pages, *modules):
    """What would be displayed is appended to pages instead."""
    import IPython.display
    return replaced(*[(m, n, v) for m in (IPython.display,) + modules
                      for n, v in (("display", pages.append),
                                   ("HTML", lambda text: text))])


class drawing(object):
    """Everything drawn inside goes to the recorder."""

    def __enter__(self):
        from pandas.plotting import _core
        for name in MODULES:
            importlib.import_module(name)
        self.plt = Pyplot()
        backend = types.ModuleType("recorder")
        backend.plot = self.plt.series
        backend.hist_series = self.plt.histogram
        self.core = _core
        self.backend = pd.options.plotting.backend
        _core._backends["recorder"] = backend
        pd.set_option("plotting.backend", "recorder")
        self.real = matplotlib.pyplot
        self.places = []
        for module in list(sys.modules.values()):
            if getattr(module, "__name__", "").startswith("trappy") and \
                    getattr(module, "plt", None) is not None:
                self.places.append((module, module.plt))
                module.plt = self.plt
        matplotlib.pyplot = self.plt
        return self.plt

    def __exit__(self, *exc):
        matplotlib.pyplot = self.real
        for module, plt in self.places:
            module.plt = plt
        pd.set_option("plotting.backend", self.backend)
        del self.core._backends["recorder"]
        return False


def frame(times, **columns):
    """A table that may hold symbolic values."""
    out = pd.DataFrame({k: pd.Series(list(v), dtype=object)
                        for k, v in columns.items()})
    out.index = pd.Index(list(times), name="Time")
    return out


def check_line(ctx, line, xs, ys, what):
    ctx.check(ctx.eq(list(line.xs), list(xs)), what + ": times")
    ctx.check(ctx.eq(list(line.ys), list(ys)), what + ": values")
