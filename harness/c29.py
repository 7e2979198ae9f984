"""C29: signal definitions and colours are parsed faithfully."""
from symex.case import case
from harness.common import quiet, ftrace

ASSUMPTIONS = [
    "event names are up to three and column names up to three characters of a small alphabet; "
    "colour values have up to three decimal or two hexadecimal digits",
]
EVENTS = ["ab", "abe", "ea"]
COLS = "a_0, "


def open_trace(ctx, events=EVENTS, name="trace.txt"):
    quiet()
    return ftrace(ctx.write(["  a-1 [000] %d.500000: %s: a=1 b=2" % (i + 1, e)
                             for i, e in enumerate(events)], name),
                  events=events, scope="custom", normalize_time=False)


def plot(trace, how="LinePlot", **kw):
    import trappy
    quiet()
    return getattr(trappy, how)(trace, **kw)


def refused(trace, **kw):
    try:
        plot(trace, **kw)
    except ValueError:
        return True
    return False


@case("one signal per trace", bounds="n traces with an event of their own and "
      "one each, a symbolic event name for one of them: refused if no trace "
      "has the event, else each line is of its trace and event",
      quick=[dict(n=2), dict(n=3)])
def zipped(ctx, n):
    names = ["ab", "be", "ea"][:n]
    traces = [open_trace(ctx, [name], name + ".txt") for name in names]
    which = ctx.choice("which", list(range(n)))
    event = ctx.chars("event", 2, "abe")
    signals = [name + ":a" for name in names]
    signals[which] = event + ":b"
    try:
        p = plot(traces, signals=signals)
    except ValueError:
        ctx.check(not any(event == name for name in names),
                  "unknown events refused")
        return
    except AttributeError:
        # an event of one of the other traces
        ctx.check(any(event == name for name in names) and
                  not event == names[which], "event of the trace refused")
        return
    ctx.check(event == names[which], "event the trace does not have")
    ctx.check(p.templates == [t.class_definitions[name]
                              for t, name in zip(traces, names)], "events")
    ctx.check(ctx.eq(p._attr["column"],
                     ["b" if i == which else "a" for i in range(n)]),
              "columns")


def colour_of(ctx, j, kinds=("decimal", "hex")):
    """text and value of one colour value"""
    if ctx.choice("base%d" % j, kinds) == "hex":
        text = ctx.chars("h%d" % j, ctx.choice("hn%d" % j, [1, 2]),
                         "0123456789abcdef")
        return "0x" + text, int(text, 16)
    text = ctx.digits("c%d" % j, ctx.choice("cn%d" % j, [1, 2, 3]))
    return text, int(text)


@case("event and column", bounds="an event of three and a symbolic column of "
      "1-3 characters, as line and interactive plot", quick=[{}])
def event_and_column(ctx):
    trace = open_trace(ctx)
    how = ctx.choice("plot", ["LinePlot", "BarPlot", "ILinePlot"])
    event = ctx.choice("event", EVENTS if how == "LinePlot" else EVENTS[1:2])
    column = ctx.chars("column", ctx.choice("n", [1, 2, 3] if how ==
                                            "LinePlot" else [1, 2]), COLS)
    p = plot(trace, how, signals=event + ":" + column)
    ctx.check(p.templates == [trace.class_definitions[event]], "event")
    ctx.check(ctx.eq(p._attr["column"], [column]), "column")
    ctx.check("colors" not in p._attr, "no colour")


@case("which event", bounds="a symbolic event name of 1-3 characters and a "
      "fixed column: refused unless it is an event of the two traces",
      quick=[{}])
def which_event(ctx):
    traces = [open_trace(ctx, EVENTS, "one.txt"),
              open_trace(ctx, EVENTS[::-1], "two.txt")]
    event = ctx.chars("event", ctx.choice("n", [1, 2, 3]), "abe")
    try:
        p = plot(traces, signals=event + ":a")
    except ValueError:
        p = None
    known = [e for e in EVENTS if event == e]
    ctx.check((p is None) == (not known), "unknown events refused")
    if known:
        ctx.check(p.templates[0] in [t.class_definitions.get(known[0])
                                     for t in traces], "event")
        ctx.check(ctx.eq(p._attr["column"], ["a"]), "column")


@case("colours", bounds="a signal with three symbolic colour values, decimal "
      "or hexadecimal; values above 255 refused", quick=[{}])
def colours(ctx):
    trace = open_trace(ctx, ["ab"])
    parts = [colour_of(ctx, j) if j < 2 else
             (lambda t: (t, int(t)))(ctx.digits("last", 3))
             for j in range(3)]
    ok = ctx.all(*[ctx.le(v, 255) for _, v in parts])
    text = "ab:a:" + parts[0][0] + "," + parts[1][0] + "," + parts[2][0]
    try:
        p = plot(trace, signals=[text])
    except ValueError:
        p = None
    ctx.check((p is not None) == ok, "values from 0 to 255")
    if p is not None:
        ctx.check(ctx.eq(p._attr["colors"], [[v for _, v in parts]]),
                  "colour")
        ctx.check(ctx.eq(p._attr["column"], ["a"]), "column")


@case("malformed signals", bounds="missing parts and separators, and colours "
      "of the wrong size or with symbolic other characters", quick=[{}])
def malformed(ctx):
    trace = open_trace(ctx, ["ab"])
    text = ctx.choice("text", [
        "", "ab", ":", "ab:", ":a", "::", "ab::", "ab::1,2,3", "ab:a:",
        ":a:1,2,3", "ab:a:1", "ab:a:1,2", "ab:a:1,2,3,4", "ab:a:,,",
        "ab:a:1,,3", "ab:a:1,2,3:4", "ab:a:-1,2,3", "ab:a:0x,1,2",
        "ab:a:256,0,0", "ab:a:0,0x100,0", "ab:a:1.5,2,3", "?"])
    if text == "?":
        c = ctx.chars("c", 1, "acegxyz:;.%")
        text = "ab:a:1," + c + ",3"
    ctx.check(refused(trace, signals=text), "refused")


@case("several signals", bounds="two signals with or without colours of "
      "symbolic values: those given are kept, the others are valid",
      quick=[dict(digits=1)], thorough=[dict(digits=2)])
def several(ctx, digits):
    trace = open_trace(ctx, ["ab", "ea"])
    signals, want = [], []
    for i, (e, c) in enumerate([("ea", "a"), ("ab", "b")]):
        text = e + ":" + c
        if ctx.bool("coloured%d" % i):
            v = [ctx.digits("v%d_%d" % (i, j), digits) for j in range(3)]
            text = text + ":" + v[0] + "," + v[1] + "," + v[2]
            want.append([int(x) for x in v])
        else:
            want.append(None)
        signals.append(text)
    p = plot(trace, ctx.choice("plot", ["LinePlot", "ILinePlot"]),
             signals=signals)
    ctx.check(p.templates == [trace.class_definitions[e]
                              for e in ("ea", "ab")], "events")
    ctx.check(ctx.eq(p._attr["column"], ["a", "b"]), "columns")
    ctx.check(("colors" in p._attr) == any(w is not None for w in want),
              "colours if asked for")
    for got, w in zip(p._attr.get("colors", []), want):
        if w is not None:
            ctx.check(ctx.eq(got, w), "colour as asked for")
        else:
            ctx.check(len(got) == 3 and all(type(x) is int and 0 <= x <= 255
                                            for x in got), "valid colour")


@case("data", bounds="combinations of traces and data frames with signals, "
      "columns and events: exactly the complete ones are accepted",
      quick=[{}])
def data(ctx):
    trace = open_trace(ctx, ["ab"])
    frame = trace.ab.data_frame
    what = ctx.choice("data", ["trace", "traces", "frame", "frames", "mixed",
                               "none"])
    given = {"trace": trace, "traces": [trace, trace], "frame": frame,
             "frames": [frame, frame], "mixed": [frame, trace],
             "none": []}[what]
    kw = {}
    signals = ctx.bool("signals")
    if signals:
        kw["signals"] = "ab:a"
    column = ctx.bool("column")
    if column:
        kw["column"] = "a"
    template = ctx.bool("template")
    if template:
        kw["templates"] = trace.class_definitions["ab"]
    elif what != "frame":
        kw["templates"] = None
    if what in ("none", "mixed") and signals or \
            what in ("frame", "frames") and (signals or template):
        return                       # not documented
    if what == "mixed" and template:
        return
    ok = {"trace": signals or (column and template),
          "traces": signals or (column and template),
          "frame": column, "frames": column, "mixed": False,
          "none": False}[what]
    if signals and (column or template):
        ok = False
    kw.setdefault("templates", None)
    try:
        plot(given, **kw)
        accepted = True
    except (ValueError, RuntimeError):
        accepted = False
    ctx.check(accepted == ok, "accepted exactly if complete")


@case("colour maps", bounds="lists of n colours of which the asked-for one "
      "has symbolic values, any index", quick=[dict(n=n) for n in
                                               (1, 2, 3, 7, 22)],
      thorough=[dict(n=n) for n in (23, 26, 47, 49, 55, 64)])
def colour_maps(ctx, n):
    from trappy.plotter.ColorMap import ColorMap, to_dygraph_colors
    given = [[i, 255 - i, (37 * i) % 256] for i in range(n)]
    i = ctx.choice("i", range(n))
    got = ColorMap.rgb_cmap(given).cmap(i)
    ctx.check([int(round(255 * float(x))) for x in got] == given[i] + [255],
              "colour of the index")
    got = ColorMap.rgb_cmap(given).cmap_inv(n - i)
    ctx.check([int(round(255 * float(x))) for x in got] == given[i] + [255],
              "colour of the index from the end")
    d = [ctx.int("d%d" % j, 0, 255) for j in range(3)]
    text = to_dygraph_colors([d] + given[:i % 3])
    want = '["rgb(' + str(d[0]) + ", " + str(d[1]) + ", " + str(d[2]) + ')"'
    for c in given[:i % 3]:
        want = want + ', "rgb(%d, %d, %d)"' % tuple(c)
    ctx.check(ctx.eq(text, want + "]"), "colours for the browser")


@case("default colours", bounds="the colours of any two of n lines differ",
      quick=[dict(n=n) for n in (2, 5, 16)], thorough=[dict(n=40)])
def default_colours(ctx, n):
    from trappy.plotter.ColorMap import ColorMap
    i = ctx.choice("i", range(n))
    m = ColorMap(n)
    a = tuple(float(x) for x in m.cmap(i))
    ctx.check(all(0 <= x <= 1 for x in a) and a[3] == 1, "a colour")
    for j in range(n):
        if j != i:
            b = tuple(float(x) for x in m.cmap(j))
            ctx.check(sum(abs(x - y) for x, y in zip(a, b)) > 0.01,
                      "different colours")
