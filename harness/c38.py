"""C38: interactive line plots in the page show their data, in step."""
from symex.case import case
from symex.js import run_js
from harness.common import quiet
from harness.c33 import browser
from harness.c37 import js, near, scripts_of
from harness.draw import frame

ASSUMPTIONS = [
    "the script of the page (ILinePlot.js) runs in an interpreter of "
    "JavaScript on symbolic reals; dygraphs and its synchronizer, jQuery "
    "and the page are the small stand-ins in harness/js, written after "
    "their documentation, and the same files run in node for replays",
    "what users do to a plot with the mouse is left to dygraphs",
]
SCRIPTS = [js("page.js"), js("dygraph.js"), "trappy/plotter/js/ILinePlot.js",
           js("ilineplot_driver.js")]


def plot(name, rows, labels=("index", "a"), group=None, sync=False,
         colors=None, area=400, **more):
    data = {"name": name, "title": "t " + name, "rangesel": False,
            "data": {"data": rows, "labels": list(labels)},
            "logscale": False, "step_plot": True, "fill_graph": False,
            "per_line": 1, "height": 200, "drawPoints": False,
            "strokeWidth": 1.5, "pointSize": 3, "syncZoom": sync}
    if group is not None:
        data["syncGroup"] = group
    data.update(more)
    return {"data": data, "colors": colors, "area": area}


def drive(ctx, plots, steps):
    return run_js(ctx, SCRIPTS, "drive", [plots, steps])


def same(ctx, a, b):
    """Tables with empty cells"""
    return len(a) == len(b) and ctx.all(*[
        x is y if x is None or y is None else x == y
        for r, s in zip(a, b) for x, y in zip(r, s)]) and \
        all(len(r) == len(s) for r, s in zip(a, b))


def the_graph(ctx, state, i):
    ctx.check(len(state["plots"][i]) == 1, "drawn once in its place")
    return state["plots"][i][0]


def has_data(row):
    return any(v is not None for v in row[1:])


def check_options(ctx, graph, p):
    got, want = graph["options"], p["data"]
    for mine, theirs in [("title", "title"), ("stepPlot", "step_plot"),
                         ("logscale", "logscale"),
                         ("fillGraph", "fill_graph"),
                         ("drawPoints", "drawPoints"),
                         ("strokeWidth", "strokeWidth"),
                         ("pointSize", "pointSize"),
                         ("showRangeSelector", "rangesel")]:
        ctx.check(mine in got and ctx.eq(got[mine], want[theirs]),
                  "option " + mine)
    ctx.check(got["labels"] == want["data"]["labels"], "labels")
    ctx.check(got["labelsDiv"] == want["name"] + "_legend", "legend")
    ctx.check(got["connectSeparatedPoints"] is True, "lines go on")
    ctx.check("fillAlpha" in got if "fill_alpha" in want
              else "fillAlpha" not in got, "shade if asked for")
    if "fill_alpha" in want:
        ctx.check(ctx.eq(got["fillAlpha"], want["fill_alpha"]), "shade")
    ctx.check(got.get("colors") == p["colors"], "colours")


def check_size(ctx, graph, area, p):
    width, height = graph["size"]
    share = area / p["data"]["per_line"]
    ctx.check(ctx.le(width, share) and ctx.le(share - 4, width),
              "share of the page")
    ctx.check(ctx.eq(height, p["data"]["height"]), "height")


@case("drawn", bounds="n rows of two lines with symbolic times and values, "
      "some of them empty, every option on or off, one or more plots in a "
      "line", quick=[dict(n=1), dict(n=2), dict(n=3)],
      thorough=[dict(n=4)])
def drawn(ctx, n):
    rows, t = [], ctx.real("t", -5, 5)
    for i in range(n):
        rows.append([t] + [None if ctx.choice("%s%d" % (k, i), [0, 1])
                           and n == 2 else ctx.real("v%s%d" % (k, i), -9, 9)
                           for k in "ab"])
        t = t + ctx.real("d%d" % i, 0, 4)
    few = ctx.choice("options", range(4)) if n == 1 else 2
    more = {"drawPoints": few == 1, "strokeWidth": ctx.real("w", 0, 4),
            "pointSize": ctx.int("p", 1, 9), "step_plot": few != 2,
            "fill_graph": few == 3, "per_line": ctx.choice("line", [1, 3]) if n == 1 else 2,
            "height": ctx.int("height", 10, 900)}
    if few > 1:
        more["fill_alpha"] = ctx.real("alpha", 0, 1)
    colors = ctx.choice("colors", [None, ["rgb(1, 2, 3)", "rgb(0, 0, 0)"]]) \
        if n == 1 else None
    area = ctx.real("area", 30, 4000)
    wider = ctx.real("wider", 30, 4000)
    p = plot("one", rows, ["index", "a", "b"], colors=colors, area=area,
             **more)
    xlim = ylim = None
    if n > 1:
        ylim = [ctx.real("y0", -9, 0), ctx.real("y1", 1, 9)]
        p["data"].update(valueRange=ylim)
    elif ctx.bool("limits"):
        xlim = [ctx.real("x0", -9, 0), ctx.real("x1", 1, 9)]
        ylim = [ctx.real("y0", -9, 0), ctx.real("y1", 1, 9)]
        p["data"].update(dateWindow=xlim, valueRange=ylim)
    states = drive(ctx, [p], [{"kind": "draw", "plot": 0},
                              {"kind": "resize", "area": wider}])
    for state, wide in zip(states, [area, wider]):
        graph = the_graph(ctx, state, 0)
        ctx.check(same(ctx, graph["rows"], rows), "all the data")
        check_options(ctx, graph, p)
        check_size(ctx, graph, wide, p)
        ctx.check(ctx.eq(graph["window"],
                         xlim or [rows[0][0], rows[-1][0]]), "times shown")
        if ylim:
            ctx.check(ctx.eq(graph["values"], ylim), "values shown")
        ctx.check(state["synced"] == [], "on its own")
    ctx.observe("graph", [graph["rows"], graph["size"]])


class Shown(object):
    """What a plot shows"""

    def __init__(self, xs, ys):
        self.xs, self.ys = list(xs), list(ys)

    def join(self, ctx, other):
        for mine, its in ((self.xs, other.xs), (self.ys, other.ys)):
            mine[0] = ctx.ite(its[0] < mine[0], its[0], mine[0])
            mine[1] = ctx.ite(its[1] > mine[1], its[1], mine[1])


def follow(ctx, plots, shown, steps, states):
    """Check the states against what the plots of a group have to show"""
    live, checked = [], []
    tied = {}                          # group: plots zoomed together
    for step, state in zip(steps, states):
        i = step.get("plot")
        if step["kind"] == "remove":
            live.remove(i)
            continue
        live.append(i)
        group = plots[i]["data"].get("syncGroup")
        mine = [j for j in live if group is not None and
                plots[j]["data"].get("syncGroup") == group]
        if len(mine) > 1:
            both = Shown(shown[mine[0]].xs, shown[mine[0]].ys)
            for j in mine[1:]:
                both.join(ctx, shown[j])
            for j in mine:
                shown[j] = both
                checked.append(j)
            if all(plots[j]["data"]["syncZoom"] for j in mine):
                tied[group] = mine
        for j in live:
            graph = the_graph(ctx, state, j)
            p = plots[j]
            xs, ys = shown[j].xs, shown[j].ys
            ctx.check(ctx.all(ctx.eq(graph["window"][0], xs[0]),
                              ctx.eq(graph["window"][1], xs[1])),
                      "times shown")
            ctx.check(ctx.all(ctx.eq(graph["values"][0], ys[0]),
                              ctx.eq(graph["values"][1], ys[1])),
                      "values shown")
            rows = graph["rows"]
            kept = [r for r in rows if has_data(r)]
            ctx.check(same(ctx, kept, p["data"]["data"]["data"]),
                      "all the data")
            ctx.check(all(len(r) == len(kept[0]) for r in rows), "columns")
            if "dateWindow" not in p["data"]:
                if j in checked:
                    # one can zoom out to all of it
                    ctx.check(ctx.all(ctx.eq(rows[0][0], xs[0]),
                                      ctx.eq(rows[-1][0], xs[1])),
                              "times that can be shown")
                else:
                    ctx.check(len(rows) == len(kept), "nothing added")
                for a, b in zip(rows, rows[1:]):
                    ctx.check(ctx.le(a[0], b[0]), "in order")
        names = {g: sorted(plots[j]["data"]["name"] for j in js_)
                 for g, js_ in tied.items()}
        got = [sorted(s["names"]) for s in state["synced"]]
        for g, together in names.items():
            ctx.check(got.count(together) == 1, "zoomed together")
        ctx.check(len(got) == len(names), "and nothing else is")
        ctx.check(all(s["zoom"] for s in state["synced"]), "times too")


def member(ctx, i, wide="both", **kw):
    """A plot with symbolic ranges"""
    a = ctx.real("a%d" % i, -8, 8) if wide else \
        2 * i + 1 if wide is None else ctx.choice("a%d" % i, [2, 5])
    b = a + (ctx.real("b%d" % i, 0, 8) if wide else 3)
    lo = ctx.real("lo%d" % i, -8, 8) if wide == "both" else i
    hi = lo + (ctx.real("hi%d" % i, 0, 8) if wide == "both" else 2)
    p = plot("plot%d" % i, [[a, lo], [b, hi]], **kw)
    return p, Shown([a, b], [lo, hi])


@case("groups", bounds="k plots with symbolic times and values in one or two "
      "groups or in none, with and without zooming together",
      quick=[dict(k=2), dict(k=3, free=1, wide="times")],
      thorough=[dict(k=3, free=1), dict(k=3, free=2, wide="times")])
def groups(ctx, k, free=2, wide="both"):
    plots, shown = [], []
    for i in range(k):
        group = ctx.choice("group%d" % i, ["g", "h", None])
        p, s = member(ctx, i, wide if i < free else None, group=group,
                      sync=True if ctx.bool("sync%d" % i) else False)
        plots.append(p)
        shown.append(s)
    steps = [{"kind": "draw", "plot": i} for i in range(k)]
    follow(ctx, plots, shown, steps, drive(ctx, plots, steps))


@case("names of groups", bounds="two plots in a group with a name or a "
      "number of any kind, drawn in one of two orders", quick=[{}])
def names(ctx):
    group = ctx.choice("group", ["-123456789", "my group", "map", "length",
                                 "constructor", "0", 0, "a'b\"c",
                                 "__proto__", "sort", "toString"])
    other = ctx.choice("other", ["x", "keys", "1"])
    plots, shown = [], []
    for i, g in enumerate([group, other, group]):
        p, s = member(ctx, i, i == 2, group=g, sync=True)
        plots.append(p)
        shown.append(s)
    steps = [{"kind": "draw", "plot": i} for i in range(3)]
    follow(ctx, plots, shown, steps, drive(ctx, plots, steps))


@case("limits", bounds="two plots of a group, each with or without limits "
      "of the times and the values", quick=[{}])
def limits(ctx):
    plots, shown = [], []
    for i in range(2):
        p, s = member(ctx, i, group="g", sync=bool(i))
        if ctx.bool("xlim%d" % i):
            s.xs = [ctx.real("x0_%d" % i, -4, 0), ctx.real("x1_%d" % i, 1, 9)]
            p["data"]["dateWindow"] = list(s.xs)
        if ctx.bool("ylim%d" % i):
            s.ys = [ctx.real("y0_%d" % i, -4, 0), ctx.real("y1_%d" % i, 1, 9)]
            p["data"]["valueRange"] = list(s.ys)
        plots.append(p)
        shown.append(s)
    steps = [{"kind": "draw", "plot": i} for i in range(2)]
    follow(ctx, plots, shown, steps, drive(ctx, plots, steps))


@case("removed", bounds="k plots of a group of which some are gone from the "
      "page before the next ones are drawn", quick=[dict(k=3), dict(k=4)])
def removed(ctx, k):
    plots, shown, steps, live = [], [], [], []
    for i in range(k):
        p, s = member(ctx, i, i == k - 1, group="g", sync=True)
        plots.append(p)
        shown.append(s)
        steps.append({"kind": "draw", "plot": i})
        live.append(i)
        if i < k - 1 and ctx.bool("gone%d" % i):
            gone = ctx.choice("who%d" % i, range(len(live)))
            steps.append({"kind": "remove", "plot": live.pop(gone)})
    # a group that had been zoomed together before is not looked at
    states = drive(ctx, plots, steps)
    last = states[-1]
    if len(live) > 1:
        got = [s["names"] for s in last["synced"]]
        ctx.check(len(got) == 1 and sorted(got[0]) ==
                  ["plot%d" % j for j in live], "zoomed together")
    alive, shows = [], list(shown)
    for step, state in zip(steps, states):
        i = step["plot"]
        if step["kind"] == "remove":
            alive.remove(i)
            continue
        alive.append(i)
        if len(alive) > 1:
            both = Shown(shows[alive[0]].xs, shows[alive[0]].ys)
            for j in alive[1:]:
                both.join(ctx, shows[j])
            for j in alive:
                shows[j] = both
    for j in alive:
        graph = the_graph(ctx, last, j)
        for got, want in zip(graph["window"] + graph["values"],
                             shows[j].xs + shows[j].ys):
            ctx.check(ctx.eq(got, want), "ranges")
        ctx.check(same(ctx, [r for r in graph["rows"] if has_data(r)],
                       plots[j]["data"]["data"]["data"]), "all the data")
    ctx.observe("shown", [last["plots"][j][0]["window"] for j in alive])


@case("the page itself", bounds="the scripts of the page made in Python, "
      "with one or two plots, colours, limits, titles with marks in them",
      quick=[{}])
def the_page(ctx):
    from trappy.plotter.ILinePlotGen import ILinePlotGen
    quiet()
    k = ctx.choice("plots", [1, 2])
    title = ctx.choice("title", ["plain", "it's \"5%\" \\ <b>"])
    kw = {}
    if ctx.bool("limits"):
        kw.update(xlim=[0, 3], ylim=[-1, 9])
    if ctx.bool("group"):
        kw.update(group="g", sync_zoom=True)
    colours = ctx.choice("colours", [None, [(1, 2, 3), (0, 0, 255)]])
    with browser() as b:
        gen = ILinePlotGen(k, title=title, per_line=2, step_plot=True,
                           fill=False, scatter=False, point_size=2,
                           max_datapoints=100, **kw)
        for i in range(k):
            table = frame([0.5, 2.5 + i],
                          **{"x": [1, 2], "y\"": [3, 4 + i]})
            gen.add_plot(i, table, title, colors=colours)
        gen.finish()
    page, = b.pages
    names = [n for n, in ctx.scan(r'class="ilineplot" id="(\w+)"', page)]
    ctx.check(len(names) == k, "places")
    state = run_js(ctx, SCRIPTS + [scripts_of(ctx, page)], "runPage",
                   [names, 600])
    for i in range(k):
        graph = the_graph(ctx, state, i)
        rows = [r for r in graph["rows"] if has_data(r)]
        ctx.check(rows == [[0.5, 1, 3], [2.5 + i, 2, 4 + i]], "the data")
        ctx.check(graph["options"]["labels"] == ["index", "x", "y\""],
                  "labels")
        ctx.check(graph["options"]["title"] == title, "title")
        want = None if not colours else ["rgb(1, 2, 3)", "rgb(0, 0, 255)"]
        ctx.check(graph["options"].get("colors") == want, "colours")
        if "xlim" in kw:
            ctx.check(graph["window"] == [0, 3] and
                      graph["values"] == [-1, 9], "limits")
        elif k == 2 and "group" in kw:
            ctx.check(graph["window"] == [0.5, 3.5], "times of the group")
        ctx.check(abs(graph["size"][0] - 600.0 / k) < 4, "share of the page")
    ctx.check(len(state["synced"]) == (1 if k == 2 and "group" in kw else 0),
              "zoomed together if asked for")
    ctx.observe("page", [g[0]["rows"] for g in state["plots"]])
