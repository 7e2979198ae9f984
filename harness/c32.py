"""C32: static line and bar plots show every selected point."""
from symex.case import case
from harness.common import quiet, ftrace
from harness.draw import drawing, frame, check_line

ASSUMPTIONS = [
    "pyplot is replaced by a recorder that keeps what is drawn on which axis; "
    "tables are given as data frames with times in order; without a pivot the "
    "legend entry of concatenated plots is not examined",
]
EVERY = object()
COLUMNS = ["u", "v"]


def table(ctx, i, k, pivots):
    """k rows: a pivot value of some, two columns of symbolic numbers."""
    cpus = [ctx.choice("p%d%d" % (i, j), pivots) for j in range(k)]
    cols = {c: [ctx.int("%s%d%d" % (c, i, j), -99, 99) for j in range(k)]
            for c in COLUMNS}
    times = [i * 0.25 + j + 1.5 for j in range(k)]
    return frame(times, cpu=cpus, **cols), \
        [(t, c) + tuple(cols[x][j] for x in COLUMNS)
         for j, (t, c) in enumerate(zip(times, cpus))]


def points(rows, column, pivot):
    return [(r[0], r[2 + COLUMNS.index(column)]) for r in rows
            if pivot is EVERY or r[1] == pivot]


class Series(object):
    """A line or group of bars that should be drawn"""
    def __init__(self, name, pts, entry):
        self.name, self.pts, self.entry = name, pts, entry


def expected(rows, sets, columns, pivots, mode, shown=str):
    """[(title, [Series])] of every axis; sets is a list of (set of rows,
    column) for each constraint, pivots the ones in the data, in order."""
    def cname(i, c):
        return "DataFrame %d:%s" % (i, c)
    pname = (lambda p: "") if pivots == [EVERY] else \
        (lambda p: "cpu: " + shown(p))
    axes = []
    if mode == "concat":
        for i, c in sets:
            series = [Series(None if p is EVERY else pname(p),
                             points(rows[i], c, p), p)
                      for p in pivots]
            axes.append((cname(i, c), series))
    elif mode == "permute":
        for i in range(len(rows)):
            for p in pivots:
                axes.append(("DataFrame %d" % i,
                             [Series(c, points(rows[i], c, p), c)
                              for c in columns]))
    else:
        for p in pivots:
            axes.append((pname(p), [Series(cname(i, c), points(rows[i], c, p),
                                           (i, c)) for i, c in sets]))
    return [(title, [s for s in series if s.pts]) for title, series in axes]


def cells(plt, n, per_line):
    """The axes of a figure in reading order; the rest must be gone."""
    assert len(plt.figures) == 1
    fig = plt.figures[0]
    flat = fig.flat()
    return fig, flat[:n], flat[n:], min(per_line, n)


def check_figure(ctx, plt, want, per_line):
    ctx.check(len(plt.figures) == 1, "one figure")
    fig, used, rest, cols = cells(plt, len(want), per_line)
    ctx.check(fig.cols == cols, "plots per row")
    ctx.check(len(used) == len(want), "enough cells")
    ctx.check(len(fig.removed) == len(rest) and
              all(any(r is x for x in fig.removed) for r in rest),
              "no empty cells")
    return fig, used


def check_legend(ctx, fig, want, owner, color):
    """owner: for each thing drawn, the Series it stands for."""
    ctx.check(len(fig.legends) == 1, "one legend")
    handles, labels, _ = fig.legends[0]
    entries = {s.entry for _, series in want for s in series}
    ctx.check(len(handles) == len(labels) == len(entries),
              "an entry for each kind of line")
    looks = {}
    for handle, label in zip(handles, labels):
        series = owner.get(id(handle))
        ctx.check(series is not None, "legend shows what is drawn")
        if series.name is not None:
            ctx.check(label == series.name, "legend names its line")
        ctx.check(series.entry not in looks, "one entry each")
        looks[series.entry] = color(handle)
    ctx.check(set(looks) == entries, "all in the legend")
    ctx.check(len(set(looks.values())) == len(looks), "colours differ")
    return looks


def draw(ctx, cls, traces, columns, **kw):
    import trappy
    quiet()
    with drawing() as plt:
        getattr(trappy, cls)(traces, column=columns, **kw).view()
    return plt


def check_lines(ctx, plt, want, per_line):
    fig, used = check_figure(ctx, plt, want, per_line)
    owner = {}
    for ax, (title, series) in zip(used, want):
        ctx.check(len(ax.lines) == len(series), "lines")
        if series:
            ctx.check(ax.title == title, "title")
        left = list(ax.lines)
        for s, line in zip(series, left):
            check_line(ctx, line, [p[0] for p in s.pts],
                       [p[1] for p in s.pts], "line")
            owner[id(line)] = s
    looks = check_legend(ctx, fig, want, owner,
                         lambda line: tuple(line.kw["color"]))
    for ax in used:
        for line in ax.lines:
            ctx.check(tuple(line.kw["color"]) == looks[owner[id(line)].entry],
                      "colour as in the legend")
    return fig, used


def request(ctx, n, k, pivoted, mode, pivots=(0, 1)):
    tables, rows = zip(*[table(ctx, i, k, list(pivots) if pivoted else [0])
                         for i in range(n)])
    both = ctx.bool("both columns")
    columns = COLUMNS if both else [COLUMNS[1]]
    kw = {}
    if mode == "permute":
        kw["permute"] = True
        sets = [(i, c) for i in range(n) for c in columns]
    else:
        kw["concat"] = mode == "concat"
        longest = max(n, len(columns))
        sets = [(i if n > 1 else 0, columns[i if both else 0])
                for i in range(longest)]
    seen = [EVERY]
    if pivoted:
        kw["pivot"] = "cpu"
        seen = sorted({r[1] for i, _ in sets for r in rows[i]})
    return list(tables), rows, sets, columns, seen, kw


@case("lines", bounds="one or two tables of k rows with symbolic values and "
      "any of two pivot values, one or two columns, 1-3 plots per row",
      quick=[dict(mode=m, k=k, pivoted=p) for m in
             ("plain", "concat", "permute") for k, p in
             ((2, True), (2, False))],
      thorough=[dict(mode=m, k=3, pivoted=True) for m in
                ("plain", "concat", "permute")])
def lines(ctx, mode, k, pivoted):
    n = ctx.choice("tables", [1, 2])
    tables, rows, sets, columns, pivots, kw = request(ctx, n, k, pivoted,
                                                      mode)
    if ctx.bool("mapped") and pivoted:
        kw["map_label"] = {1: "one"}
    shown = lambda p: "one" if p == 1 and "map_label" in kw else str(p)
    per_line = ctx.choice("per line", [1, 2, 3])
    one = len(tables) == 1 and ctx.bool("bare")
    plt = draw(ctx, "LinePlot", tables[0] if one else tables,
               columns[0] if len(columns) == 1 else columns,
               per_line=per_line, **kw)
    want = expected(rows, sets, columns, pivots, mode, shown)
    check_lines(ctx, plt, want, per_line)


@case("filtered", bounds="one table of k rows with symbolic values, any of "
      "three values of a filtered column and the pivot, any filter on both",
      quick=[dict(k=2)], thorough=[dict(k=3)])
def filtered(ctx, k):
    t, rows = table(ctx, 0, k, [0, 1])
    pids = [ctx.choice("pid%d" % j, [7, 8]) for j in range(k)]
    t["pid"] = pids
    filters = {}
    if ctx.bool("by pid"):
        filters["pid"] = [[7], [8, 9]][ctx.choice("f", [0, 1])]
    if ctx.bool("by cpu"):
        filters["cpu"] = [1]
    rows = [r for r, pid in zip(rows, pids)
            if pid in filters.get("pid", [pid]) and
            r[1] in filters.get("cpu", [r[1]])]
    try:
        plt = draw(ctx, "LinePlot", t, "u", pivot="cpu", filters=filters)
    except RuntimeError:
        ctx.check(not rows, "nothing to draw")
        return
    ctx.check(bool(rows), "refused to draw nothing")
    pivots = sorted({r[1] for r in rows})
    check_lines(ctx, plt, expected([rows], [(0, "u")], ["u"], pivots,
                                   "plain"), 2)


LOOKS = {"scatter": dict(scatter=True),
         "sized": dict(scatter=True, point_size=5),
         "fill": dict(fill=True),
         "steps-post": dict(drawstyle="steps-post"),
         "steps fill": dict(drawstyle="steps-post", fill=True),
         "marker": dict(marker="x", linewidth=3),
         "all": dict(scatter=True, point_size=9, title="First", xlim=(1, 3),
                     ylim=(2, 4), style=True, fill=True, linewidth=7)}


@case("options", bounds="symbolic limits, with and without title, scatter, "
      "point size, fill and draw style, the plot alone or after another plot "
      "of a line or bars", quick=[dict(after=False), dict(after=True)])
def options(ctx, after):
    t, rows = table(ctx, 0, 2, [0])
    kw, lim = {}, {}
    if after:
        first = ctx.choice("first", ["line", "scatter", "sized", "fill",
                                     "marker", "all"])
        cls = ctx.choice("first class", ["LinePlot", "BarPlot"])
        opts = dict(LOOKS.get(first, {}))
        if cls == "BarPlot":
            opts.pop("linewidth", None)
            opts.pop("marker", None)
        draw(ctx, cls, t, "u", **opts)
    for which in ("xlim", "ylim"):
        if ctx.bool(which) if not after or which == "xlim" else "xlim" in lim:
            lim[which] = (ctx.int("lo" + which, -99, 99),
                          ctx.int("hi" + which, -99, 99))
    kw.update(lim)
    if ctx.bool("titled"):
        kw["title"] = "All" + ctx.chars("t", 1, "ab -")
    look = ctx.choice("look", ["line", "scatter", "sized", "fill",
                               "steps-post", "steps fill", "marker"])
    kw.update(LOOKS.get(look, {}))
    kw["style"] = not after and ctx.bool("style")
    try:
        plt = draw(ctx, "LinePlot", t, "u", **kw)
    except UserWarning:
        ctx.check(look == "steps fill", "only filled steps are refused")
        return
    ctx.check(look != "steps fill", "filled steps are refused")
    fig, used = check_lines(ctx, plt, expected([rows], [(0, "u")], ["u"],
                                               [EVERY], "plain"), 2)
    ax, = used
    ctx.check(ctx.eq(fig.title, kw.get("title")) if "title" in kw else
              fig.title is None, "title of the figure")
    for which in ("xlim", "ylim"):
        if which in lim:
            ctx.check(ctx.eq(list(getattr(ax, which)), list(lim[which])),
                      which)
        else:
            ctx.check(which[0] not in ax.set_limits, which + " left alone")
    got = dict(ax.lines[0].kw)
    got.pop("color")
    ctx.check(got == {"scatter": dict(linestyle="", marker="o"),
                      "sized": dict(linestyle="", marker="o", markersize=5),
                      "steps-post": dict(drawstyle="steps-post"),
                      "marker": dict(marker="x", linewidth=3)}.get(look, {}),
              "look of the line")
    ctx.check(len(ax.fills) == (look == "fill"), "filled")
    for xs, low, ys, _ in ax.fills:
        ctx.check(ctx.eq(xs, [r[0] for r in rows]) and
                  ctx.eq(ys, [r[2] for r in rows]), "area under the line")


def open_traces(ctx, n, named):
    out, data = [], []
    for i in range(n):
        digits = [ctx.digits("x%d%d" % (i, j), 1) for j in range(4)]
        text = ["  a-1 [000] 1.500000: alpha: u=%s%s v=%s%s" % (
                    1, digits[0], 1, digits[1]),
                "  a-1 [000] 2.500000: beta: u=%s%s v=%s%s" % (
                    1, digits[2], 1, digits[3])]
        trace = ftrace(ctx.write(text, "t%d.txt" % i),
                       events=["alpha", "beta"], scope="custom",
                       normalize_time=False)
        trace.name = "run%d" % i if named else ""
        ints = [int("1" + d) for d in digits]
        out.append(trace)
        data.append({("alpha", "u"): (1.5, ints[0]),
                     ("alpha", "v"): (1.5, ints[1]),
                     ("beta", "u"): (2.5, ints[2]),
                     ("beta", "v"): (2.5, ints[3])})
    return out, data


SIGNALS = [("alpha", "u"), ("beta", "v"), ("beta", "u"), ("alpha", "v")]


@case("signals", bounds="one or two named or unnamed traces, up to k signals "
      "with and without colours, plain, concatenated and permuted",
      quick=[dict(k=2)], thorough=[dict(k=3)])
def signals(ctx, k):
    n = ctx.choice("traces", [1, 2])
    named = ctx.bool("named")
    traces, data = open_traces(ctx, n, named)
    sigs = SIGNALS[:ctx.choice("signals", list(range(1, k + 1)))]
    colors = [ctx.choice("color%d" % i, [None, "255,0x0,51", "0,102,0"][
        :3 if i < 2 else 2]) for i in range(len(sigs))]
    mode = ctx.choice("mode", ["plain", "concat", "permute"])
    text = [":".join((e, c)) + (":" + color if color else "")
            for (e, c), color in zip(sigs, colors)]
    kw = dict(signals=text[0] if len(text) == 1 else text)
    name = lambda i: "run%d" % i if named else "Trace %d" % i
    label = lambda i, s: name(i) + ":" + ":".join(s)
    if mode == "permute":
        kw["permute"] = True
        want = [(name(i), [Series(":".join(s), [data[i][s]], j)
                           for j, s in enumerate(sigs)]) for i in range(n)]
    else:
        kw["concat"] = mode == "concat"
        if n > 1 and 1 < len(sigs) != n:
            return
        pairs = [(i if n > 1 else 0, sigs[i if len(sigs) > 1 else 0], i)
                 for i in range(max(n, len(sigs)))]
        if mode == "concat":
            want = [(label(i, s), [Series(None, [data[i][s]], 0)])
                    for i, s, _ in pairs]
        else:
            want = [("", [Series(label(i, s), [data[i][s]], j)
                          for i, s, j in pairs])]
    import trappy
    quiet()
    single = n == 1 and ctx.bool("bare")
    with drawing() as plt:
        trappy.LinePlot(traces[0] if single else traces, **kw).view()
    ctx.check(len(plt.figures) == 1, "one figure")
    fig = plt.figures[0]
    used = fig.flat()[:len(want)]
    owner = {}
    for ax, (title, series) in zip(used, want):
        ctx.check(ax.title == title and len(ax.lines) == len(series), "axis")
        for line, s in zip(ax.lines, series):
            check_line(ctx, line, [s.pts[0][0]], [s.pts[0][1]], "point")
            owner[id(line)] = s
            asked = colors[s.entry] if s.entry < len(colors) else None
            if mode != "concat" and asked and len(sigs) > 1:
                rgb = [int(x, 16) if x.startswith("0x") else int(x)
                       for x in asked.split(",")]
                got = line.kw["color"]
                ctx.check([round(255 * x) for x in got[:3]] == rgb,
                          "colour of the signal")
    handles, labels, _ = fig.legends[0]
    for handle, text in zip(handles, labels):
        if owner[id(handle)].name is not None:
            ctx.check(text == owner[id(handle)].name, "legend")
    ctx.check(len(handles) == len({s.entry for s in owner.values()}),
              "entries")


@case("events", bounds="one or two traces, two events with one or two columns, "
      "plain and permuted", quick=[{}])
def events(ctx):
    import trappy
    n = ctx.choice("traces", [1, 2])
    traces, data = open_traces(ctx, n, True)
    both = ctx.bool("both columns")
    columns = ["u", "v"] if both else ["v"]
    sigs = list(zip(["alpha", "beta"], columns * 2))
    templates = [getattr(traces[0], e).__class__ for e in ("alpha", "beta")]
    permute = ctx.bool("permute")
    quiet()
    with drawing() as plt:
        trappy.LinePlot(traces, templates, column=columns if both else
                        columns[0], permute=permute).view()
    if permute:
        want = [("run%d" % i, [Series(":".join(s), [data[i][s]], j)
                               for j, s in enumerate(sigs)])
                for i in range(n)]
    else:
        want = [("", [Series("run%d:" % (j % n) + ":".join(s),
                             [data[j % n][s]], j)
                      for j, s in enumerate(sigs)])]
    check_lines(ctx, plt, want, 2)


def check_bars(ctx, plt, want, per_line, stacked, spacing):
    fig, used = check_figure(ctx, plt, want, per_line)
    owner = {}
    for ax, (title, series) in zip(used, want):
        ctx.check(len(ax.bars) == len(series), "groups of bars")
        if series:
            ctx.check(ax.title == title, "title")
        places = {}
        tops = {}
        for s, bars in zip(series, ax.bars):
            ctx.check(ctx.eq([b.height for b in bars], [p[1] for p in s.pts]),
                      "heights")
            owner[id(bars[0])] = s
            for j, b in enumerate(bars):
                if stacked:
                    ctx.check(ctx.eq(b.bottom, tops.get(j, 0)), "stacked")
                    tops[j] = tops.get(j, 0) + s.pts[j][1]
                else:
                    ctx.check(ctx.eq(b.bottom, 0), "from zero")
                places.setdefault(j, []).append((b.x, b.width))
        for j, spans in places.items():
            width = spans[0][1]
            ctx.check(all(w == width for _, w in spans), "same width")
            ctx.check(width > 0, "visible")
            left = min(x for x, _ in spans)
            right = max(x + w for x, w in spans)
            if stacked:
                ctx.check(all(x == spans[0][0] for x, _ in spans),
                          "one above the other")
            else:
                xs = sorted(x for x, _ in spans)
                ctx.check(all(b - a > width - 1e-9
                              for a, b in zip(xs, xs[1:])),
                          "next to each other")
            ctx.check(j - 1e-9 < left and right < j + 1 - spacing + 1e-9,
                      "position in the list")
    looks = check_legend(ctx, fig, want, owner,
                         lambda bar: tuple(bar.kw["color"]))
    for ax in used:
        for bars in ax.bars:
            ctx.check(tuple(bars[0].kw["color"]) ==
                      looks[owner[id(bars[0])].entry],
                      "colour as in the legend")


@case("bars", bounds="one or two tables of k rows with symbolic values and "
      "any of two pivot values, one or two columns, grouped or stacked, "
      "three spacings", quick=[dict(mode=m, k=2, pivoted=p) for m in
                               ("plain", "concat", "permute")
                               for p in (True, False)],
      thorough=[dict(mode=m, k=3, pivoted=True) for m in
                ("plain", "concat", "permute")])
def bars(ctx, mode, k, pivoted):
    n = ctx.choice("tables", [1, 2])
    tables, rows, sets, columns, pivots, kw = request(ctx, n, k, pivoted,
                                                      mode)
    stacked = ctx.bool("stacked")
    spacing = ctx.choice("spacing", [None, 0, 0.5])
    if spacing is not None:
        kw["spacing"] = spacing
    plt = draw(ctx, "BarPlot", tables, columns, stacked=stacked, **kw)
    want = expected(rows, sets, columns, pivots, mode)
    check_bars(ctx, plt, want, 2, stacked, 0.2 if spacing is None
               else spacing)


@case("saved", bounds="a plot saved once or twice, shown before or not",
      quick=[{}])
def saved(ctx):
    import trappy
    quiet()
    t, rows = table(ctx, 0, 2, [0])
    shown, again = ctx.bool("shown"), ctx.bool("again")
    cls = ctx.choice("class", ["LinePlot", "BarPlot"])
    with drawing() as plt:
        plot = getattr(trappy, cls)(t, column="u")
        if shown:
            plot.view()
        plot.savefig("a.png")
        if again:
            plot.savefig("b.png", dpi=7)
    ctx.check(len(plt.figures) == 1, "one figure")
    fig = plt.figures[0]
    ctx.check([s[0] for s in fig.saved] ==
              [("a.png",)] + [("b.png",)] * again, "saved")
    ax, = fig.flat()
    ctx.check(len(ax.lines if cls == "LinePlot" else ax.bars) == 1,
              "drawn once")


ARGS = ["zorder", "gid", "linestyle"]


@case("forwarding", bounds="n registrations and cancellations of three "
      "arguments in any order, then a line or bar plot with all of them",
      quick=[dict(n=2, cls="LinePlot"), dict(n=3, cls="LinePlot"),
             dict(n=2, cls="BarPlot")],
      thorough=[dict(n=4, cls="LinePlot")])
def forwarding(ctx, n, cls):
    from trappy import plotter
    from trappy.plotter import AttrConf
    before = list(AttrConf.ARGS_TO_FORWARD)
    try:
        known = set(before)
        for i in range(n):
            arg = ARGS[ctx.choice("a%d" % i, range(3))]
            if ctx.bool("r%d" % i):
                plotter.register_forwarding_arg(arg)
                known.add(arg)
            else:
                plotter.unregister_forwarding_arg(arg)
                known.discard(arg)
        t, rows = table(ctx, 0, 2, [0])
        plt = draw(ctx, cls, t, "u", zorder=5, gid="x", linestyle="-.",
                   alpha=0.5)
        ax = plt.figures[0].axes[0][0]
        got = dict(ax.lines[0].kw if cls == "LinePlot"
                   else ax.bars[0][0].kw)
        ctx.check({k: v for k, v in got.items() if k in ARGS} ==
                  {k: v for k, v in (("zorder", 5), ("gid", "x"),
                                     ("linestyle", "-.")) if k in known},
                  "exactly the registered arguments are forwarded")
        ctx.check(("alpha" in got) == ("alpha" in before), "others as before")
    finally:
        AttrConf.ARGS_TO_FORWARD[:] = before
