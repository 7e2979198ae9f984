"""C33: interactive line plots hand all selected points to the browser."""
import importlib
import json

import pandas as pd

from symex.case import case
from harness.common import quiet
from harness.draw import frame, pages_go_to
from harness.c32 import COLUMNS, EVERY, SIGNALS, open_traces

ASSUMPTIONS = [
    "what IPython would display is kept instead; times of a table are "
    "different and in order; lines of one plot have different labels",
    "pandas' interpolation of symbolic values is modelled as its "
    "documentation says (linear in the index or in the position, the last "
    "value is repeated); it runs itself on the replayed counterexamples",
]
NAN = float("nan")


def isnan(v):
    return type(v) is float and v != v


def filled(frame, method):
    """What DataFrame.interpolate() does, column by column"""
    if method not in ("index", "values", "linear"):
        raise NotImplementedError(method)
    out = frame.copy()
    xs = frame.index.tolist() if method != "linear" else \
        list(range(len(frame)))
    for name in frame.columns:
        ys = frame[name].tolist()
        known = [i for i, y in enumerate(ys) if not isnan(y)]
        for i in range(len(ys)):
            below = [j for j in known if j < i]
            above = [j for j in known if j > i]
            if i in known or not below:
                continue
            a = below[-1]
            if not above:
                ys[i] = ys[a]
            else:
                b = above[0]
                ys[i] = ys[a] + (ys[b] - ys[a]) * ((xs[i] - xs[a]) /
                                                   (xs[b] - xs[a]))
        out[name] = pd.Series(ys, index=frame.index, dtype=object)
    return out


class browser(object):
    """Keeps the pages that would be displayed."""
    def __enter__(self):
        gen = importlib.import_module("trappy.plotter.ILinePlotGen")
        self.pages = []
        self.shown = pages_go_to(self.pages, gen)
        self.shown.__enter__()
        self.interpolate = native = pd.DataFrame.interpolate

        def interpolate(data, method="linear", **kw):
            if kw or not any(d == object for d in data.dtypes):
                return native(data, method=method, **kw)
            return filled(data, method)
        pd.DataFrame.interpolate = interpolate
        return self

    def __exit__(self, *exc):
        self.shown.__exit__(*exc)
        pd.DataFrame.interpolate = self.interpolate
        return False


class Figure(object):
    def __init__(self, row, data, colors):
        self.row, self.data, self.colors = row, data, colors


def read_page(ctx, page):
    """The figures of a page in reading order, and its caption"""
    data, drawn = {}, {}
    for name, body in ctx.scan(r"var (\w+)_data = (\{.*?\});\n?</script>",
                               page):
        ctx.check(name not in data, "data once")
        data[name] = json.loads(body)
    for name, colors in ctx.scan(
            r"ILinePlot\.generate\((\w+?)_data(?:, (\[.*?\]))?\)", page):
        ctx.check(name not in drawn, "drawn once")
        drawn[name] = None if colors is None else \
            [tuple(int(x) for x in c[4:-1].split(","))
             for c in json.loads(colors)]
    ctx.check(set(drawn) == set(data), "what is drawn has data")
    figures, row, empty = [], 0, 0
    for kind, name in ctx.scan(
            r'<(tr|div class="ilineplot" id="(\w+)")>', page):
        if kind == "tr":
            row += 1
        elif name in data:
            ctx.check(not empty, "no gaps")
            ctx.check(data[name]["name"] == name, "place of the plot")
            figures.append(Figure(row, data[name], drawn[name]))
        else:
            empty += 1
    legends = [name for name, in ctx.scan(r'id="(\w+)_legend"', page)]
    ctx.check(set(data) <= set(legends), "place for the legend")
    ctx.check(len(figures) == len(data), "all drawn")
    ready = set()
    for made, used in ctx.scan(r"var (\w+)_data = |generate\((\w+?)_data",
                               page):
        if made:
            ready.add(made)
        else:
            ctx.check(used in ready, "data before it is used")
    caption = [t for t, in ctx.scan(r"<caption[^>]*>(.*?)</caption>", page)]
    return figures, caption


def near(ctx, a, b):
    d = a - b
    return ctx.all(ctx.lt(d, 1e-6), ctx.lt(-1e-6, d))


def check_data(ctx, data, lines, style):
    """lines: [(label, [(time, value)])]"""
    ctx.check(ctx.eq(data["labels"], ["index"] + [l for l, _ in lines]),
              "labels")
    times = sorted({t for _, pts in lines for t, _ in pts})
    rows = data["data"]
    ctx.check(ctx.eq([r[0] for r in rows], times), "times")
    ctx.check(all(len(r) == 1 + len(lines) for r in rows), "columns")
    for j, (_, pts) in enumerate(lines):
        at = dict(pts)
        for i, t in enumerate(times):
            got = rows[i][j + 1]
            below = [u for u in times[:i] if u in at]
            above = [u for u in times[i:] if u in at]
            if t in at:
                ctx.check(ctx.eq(got, at[t]), "point")
            elif style == "steps-pre":
                ctx.check(ctx.eq(got, at[above[0]]) if above else isnan(got),
                          "value after")
            elif not below:
                ctx.check(isnan(got), "nothing before the first point")
            elif style or not above:
                ctx.check(ctx.eq(got, at[below[-1]]), "value before")
            else:
                a, b = below[-1], above[0]
                ctx.check(near(ctx, got, at[a] + (at[b] - at[a]) *
                               ((t - a) / (b - a))), "between neighbours")


def numbers(table):
    return table.infer_objects()


def ilineplot(traces, limit=None, **kw):
    from trappy.plotter.ILinePlot import ILinePlot
    quiet()
    with browser() as b:
        plot = ILinePlot(traces, **kw)
        if limit is None:
            plot.view(test=True)
        else:
            plot.view(max_datapoints=limit, test=True)
    return b.pages


TIMES = [[1.5, 2.5, 4.5], [2.0, 2.5, 6.0]]


def table(ctx, i, k, pivots):
    cpus = [ctx.choice("p%d%d" % (i, j), pivots) for j in range(k)]
    cols = {c: [ctx.int("%s%d%d" % (c, i, j), -99, 99) for j in range(k)]
            for c in COLUMNS}
    times = TIMES[i][:k]
    return numbers(frame(times, cpu=cpus, **cols)), \
        [(t, c) + tuple(cols[x][j] for x in COLUMNS)
         for j, (t, c) in enumerate(zip(times, cpus))]


def points(rows, column, pivot):
    return [(r[0], r[2 + COLUMNS.index(column)]) for r in rows
            if pivot is EVERY or r[1] == pivot]


@case("lines", bounds="one or two tables of k rows with symbolic values and "
      "any of two pivot values, one or two columns, 1-3 plots per row, all "
      "draw styles", quick=[dict(mode=m, k=2, pivoted=p)
                            for m in ("plain", "concat", "permute")
                            for p in (False, True)] +
      [dict(mode="plain", k=3, pivoted=False)],
      thorough=[dict(mode=m, k=3, pivoted=True) for m in
                ("plain", "concat", "permute")])
def lines(ctx, mode, k, pivoted):
    n = ctx.choice("tables", [1, 2])
    tables, rows = zip(*[table(ctx, i, k, [0, 1] if pivoted else [0])
                         for i in range(n)])
    columns = COLUMNS if ctx.bool("both columns") else [COLUMNS[1]]
    style = ctx.choice("style", [None, "steps-post", "steps-pre"])
    per_line = 1 if k > 2 else ctx.choice("per line", [1, 2, 3])
    kw = dict(column=columns, per_line=per_line)
    if style:
        kw["drawstyle"] = style
    pivots, shown = [EVERY], str
    if pivoted:
        kw["pivot"] = "cpu"
        pivots = sorted({r[1] for row in rows for r in row})
        if style is None and ctx.bool("mapped"):
            kw["map_label"] = {1: "one"}
            shown = lambda p: "one" if p == 1 else str(p)
    name = lambda i, c: "DataFrame %d:%s" % (i, c)
    label = lambda p: "cpu: " + shown(p)
    longest = max(n, len(columns))
    sets = [(i if n > 1 else 0, columns[i if len(columns) > 1 else 0])
            for i in range(longest)]
    if mode == "permute":
        kw["permute"] = True
        want = [("DataFrame %d" % i, [(c, points(rows[i], c, p))
                                      for c in columns])
                for i in range(n) for p in pivots]
    elif mode == "concat":
        kw["concat"] = True
        want = [(name(i, c), [(c if p is EVERY else label(p),
                               points(rows[i], c, p)) for p in pivots])
                for i, c in sets]
    else:
        want = [("" if p is EVERY else label(p),
                 [(name(i, c), points(rows[i], c, p)) for i, c in sets])
                for p in pivots]
    pages = ilineplot(list(tables), **kw)
    ctx.check(len(pages) == 1, "displayed once")
    figures, caption = read_page(ctx, pages[0])
    ctx.check(caption == [], "no caption")
    ctx.check(len(figures) == len(want), "a plot for each")
    across = min(per_line, len(want))
    for i, (fig, (title, series)) in enumerate(zip(figures, want)):
        ctx.check(fig.data["title"] == title, "title")
        ctx.check(fig.data["per_line"] == across, "plots per row")
        ctx.check(fig.row == figures[i - i % across].row and
                  (i < across or fig.row > figures[i - across].row),
                  "rows of plots")
        ctx.check(fig.data["step_plot"] == bool(style), "steps")
        check_data(ctx, fig.data["data"], [s for s in series if s[1]], style)


LOOKS = {"scatter": dict(scatter=True),
         "sized": dict(scatter=True, point_size=5),
         "fill": dict(fill=True),
         "alpha": dict(fill_alpha=0.25),
         "steps": dict(step_plot=True),
         "group": dict(group="mine", sync_zoom=True),
         "sync": dict(sync_zoom=True),
         "all": dict(scatter=True, point_size=9, fill_alpha=0.5, title="First",
                     step_plot=True, sync_zoom=True, xlim=(2, 3),
                     ylim=(1, 2), limit=99)}


@case("options", bounds="symbolic limits, with and without title, scatter, "
      "point size, fill, transparency, group and synchronised zoom, the plot "
      "alone or after another one",
      quick=[dict(after=False), dict(after=True)])
def options(ctx, after):
    t, rows = table(ctx, 0, 3, [0])
    kw, lim = {}, {}
    if after:
        first = ctx.choice("first", ["line", "scatter", "sized", "alpha",
                                     "steps", "group", "all"])
        ilineplot(t, column=COLUMNS, **LOOKS.get(first, {}))
    # the table has times 1.5, 2.5 and 4.5
    if ctx.bool("xlim"):
        lim["xlim"] = ctx.choice("x", [(2.0, 3.0), (1.5, 2.5), (0, 9),
                                       (3, 4)])
    if ctx.bool("ylim"):
        lim["ylim"] = (ctx.int("lo", -99, 99), ctx.int("hi", -99, 99))
    kw.update(lim)
    if ctx.bool("titled"):
        kw["title"] = "All" + ctx.chars("t", 1, "ab -")
    look = ctx.choice("look", ["line", "scatter", "sized", "fill", "alpha",
                               "steps", "group", "sync"])
    kw.update(LOOKS.get(look, {}))
    pages = ilineplot(t, column=COLUMNS, **kw)
    (fig,), caption = read_page(ctx, pages[0])
    ctx.check(ctx.eq(caption, [kw["title"]] if "title" in kw else []),
              "title of the page")
    d = fig.data
    for which, key in (("xlim", "dateWindow"), ("ylim", "valueRange")):
        if which in lim:
            ctx.check(ctx.eq(list(d[key]), list(lim[which])), which)
        else:
            ctx.check(d.get(key) is None, "no " + which)
    ctx.check(d["drawPoints"] == (look in ("scatter", "sized")), "points")
    ctx.check((d["strokeWidth"] == 0) == (look in ("scatter", "sized")),
              "lines")
    if look == "sized":
        ctx.check(d["pointSize"] == 5, "size of points")
    ctx.check(d["fill_graph"] == (look in ("fill", "alpha")), "filled")
    ctx.check(d.get("fill_alpha") == (0.25 if look == "alpha" else None),
              "transparency")
    ctx.check(d["step_plot"] == (look == "steps"), "steps")
    ctx.check(d["syncZoom"] == (look in ("group", "sync")), "zoom")
    if look == "group":
        ctx.check(d["syncGroup"] == "mine", "group")
    ctx.check(fig.colors is None, "default colours")
    lo, hi = lim.get("xlim", (0, 9))
    got = [r[0] for r in d["data"]["data"]]
    inside = [r for r in rows if lo <= r[0] <= hi]
    ctx.check(set(got) >= {r[0] for r in inside}, "all in the window")
    check_data(ctx, d["data"], [(n, [(r[0], r[2 + j]) for r in rows if r[0] in got])
                        for j, n in enumerate(["DataFrame 0:u",
                                               "DataFrame 0:v"])], None)


@case("limit", bounds="a table of two columns, three rows and a pivot with "
      "any symbolic limit of points per plot", quick=[{}])
def limit(ctx):
    k = 3
    t, rows = table(ctx, 0, k, [0, 1])
    most = ctx.int("limit", 0, 9)
    counts = [2 * len(points(rows, "u", p)) for p in {r[1] for r in rows}]
    try:
        pages = ilineplot(t, limit=most, column=COLUMNS, pivot="cpu")
    except ValueError as e:
        ctx.check(ctx.any(*[ctx.lt(most, c) for c in counts]),
                  "too many points")
        return
    ctx.check(ctx.all(*[ctx.le(c, most) for c in counts]), "few enough")
    figures, _ = read_page(ctx, pages[0])
    for fig, p in zip(figures, sorted({r[1] for r in rows})):
        check_data(ctx, fig.data["data"], [("DataFrame 0:" + c, points(rows, c, p))
                                   for c in COLUMNS], None)


@case("signals", bounds="one or two named or unnamed traces, up to k signals "
      "with and without colours, plain, concatenated and permuted",
      quick=[dict(k=2)], thorough=[dict(k=3)])
def signals(ctx, k):
    n = ctx.choice("traces", [1, 2])
    named = ctx.bool("named")
    traces, data = open_traces(ctx, n, named)
    sigs = SIGNALS[:ctx.choice("signals", list(range(1, k + 1)))]
    colors = [ctx.choice("color%d" % i, [None, "255,0x0,51", "0,102,0"][
        :3 if i < 2 else 2]) for i in range(len(sigs))]
    mode = ctx.choice("mode", ["plain", "concat", "permute"])
    text = [":".join((e, c)) + (":" + color if color else "")
            for (e, c), color in zip(sigs, colors)]
    kw = dict(signals=text[0] if len(text) == 1 else text)
    name = lambda i: "run%d" % i if named else "Trace %d" % i
    label = lambda i, s: name(i) + ":" + ":".join(s)
    if mode == "permute":
        kw["permute"] = True
        want = [(name(i), [(":".join(s), [data[i][s]], j)
                           for j, s in enumerate(sigs)]) for i in range(n)]
    else:
        kw["concat"] = mode == "concat"
        if n > 1 and 1 < len(sigs) != n:
            return
        pairs = [(i if n > 1 else 0, sigs[i if len(sigs) > 1 else 0], i)
                 for i in range(max(n, len(sigs)))]
        if mode == "concat":
            want = [(label(i, s), [(s[1], [data[i][s]], None)])
                    for i, s, _ in pairs]
        else:
            want = [("", [(label(i, s), [data[i][s]],
                           j if len(sigs) > 1 else 0)
                          for i, s, j in pairs])]
    check_signals(ctx, traces, want, colors, kw)


def rgb(text):
    return tuple(int(x, 16) if x.startswith("0x") else int(x)
                 for x in text.split(","))


def check_signals(ctx, traces, want, colors, kw):
    pages = ilineplot(traces, **kw)
    figures, _ = read_page(ctx, pages[0])
    ctx.check(len(figures) == len(want), "plots")
    for fig, (title, series) in zip(figures, want):
        ctx.check(fig.data["title"] == title, "title")
        labels = ["index"] + [s[0] for s in series]
        ctx.check(fig.data["data"]["labels"] == labels, "labels")
        for r in fig.data["data"]["data"]:
            for j, (_, pts, _) in enumerate(series):
                if r[0] in dict(pts):
                    ctx.check(ctx.eq(r[j + 1], dict(pts)[r[0]]), "point")
        ctx.check(ctx.eq([r[0] for r in fig.data["data"]["data"]],
                         sorted({p[0] for s in series for p in s[1]})),
                  "times")
        if not any(colors):
            ctx.check(fig.colors is None, "default colours")
            continue
        for j, (_, _, c) in enumerate(series):
            if c is not None and colors[c]:
                shown = fig.colors[j % len(fig.colors)]
                ctx.check(shown == rgb(colors[c]), "colour of the signal")


@case("colours of some", bounds="one trace of three signals with colours, "
      "each for any of two cpus, in a plot per cpu", quick=[{}])
def colours_of_some(ctx):
    from harness.common import ftrace
    events = ["alpha", "beta", "gamma"]
    colors = ["255,0,0", "0,255,0", "0,0,255"]
    cpus = [[c for c in (0, 1) if ctx.bool("%s%d" % (e, c))] for e in events]
    digits = [ctx.digits(e, 1) for e in events]
    text = [" a-1 [000] %d.500000: %s: cpu=%d u=1%s" % (i + 1, e, c, d)
            for i, (e, cs, d) in enumerate(zip(events, cpus, digits))
            for c in cs]
    if not text:
        return
    quiet()
    trace = ftrace(ctx.write(text), events=events, scope="custom",
                   normalize_time=False, name="run")
    mode = ctx.choice("mode", ["plain", "permute"])
    label = "run:%s:u" if mode == "plain" else "%s:u"
    want = []
    for cpu in sorted({c for cs in cpus for c in cs}):
        want.append(("cpu: %d" % cpu if mode == "plain" else "run", [
            (label % e, [(i + 1.5, int("1" + d))], i)
            for i, (e, cs, d) in enumerate(zip(events, cpus, digits))
            if cpu in cs]))
    check_signals(ctx, trace, want, colors, dict(
        pivot="cpu", permute=mode == "permute",
        signals=[e + ":u:" + c for e, c in zip(events, colors)]))
