"""C37: the event plot on the page shows what it was given."""
import os
from symex.case import case
from symex.js import run_js, tokens, plain
from harness.common import quiet
from harness.c35 import notebook

ASSUMPTIONS = [
    "the script of the page (EventPlot.js) runs in an interpreter of "
    "JavaScript on symbolic reals; d3 3.5, jQuery and the page are the small "
    "stand-ins in harness/js, written after the documentation of d3 3.5, "
    "and the same files run in node for replays",
    "within a lane the intervals of a process are in order and do not "
    "overlap; a window dragged in the summary is no narrower than 1/4096 of "
    "the plot, the limit of the zoom",
    "a mark is at its place if within 1e-6 of a pixel across and 1.5 pixels "
    "down; intervals narrower than 0.011 pixels may be left out and those "
    "narrower than a pixel may be widened to one",
]
HERE = os.path.dirname(os.path.abspath(__file__))


def js(name):
    return os.path.join(HERE, "js", name)


SCRIPTS = [js("page.js"), js("d3.js"), "trappy/plotter/js/EventPlot.js",
           js("eventplot_driver.js")]
EDGE = 85                 # margins left and right of the plot


class Spec(object):
    """A plot: what it is given"""

    def __init__(self, name="plot", width=149, lanes=("L0", "L1"), start=0,
                 span=16, keys=(), data=None, colours=None, summary=True):
        self.name = name
        self.width = width
        self.lanes = list(lanes)
        self.lo, self.hi = start, start + span
        self.keys = list(keys)
        self.data = data or {}
        self.colours = colours
        self.summary = summary

    def chart(self):
        return {"lanes": [{"id": i, "label": l}
                          for i, l in enumerate(self.lanes)],
                "xDomain": [self.lo, self.hi], "keys": self.keys,
                "showSummary": self.summary, "stride": False,
                "colorMap": self.colours, "data": self.data}


def drive(ctx, specs, steps):
    """[state of each plot after each step]"""
    plots = [{"name": s.name, "base": "/base/", "width": s.width,
              "chart": s.chart()} for s in specs]
    return run_js(ctx, SCRIPTS, "drive", [plots, steps])


def near(ctx, a, b, eps=1e-6):
    return ctx.all(ctx.le(a - b, eps), ctx.le(b - a, eps))


def number(v):
    """A coordinate: a number or its text"""
    if v is None:
        return None
    t = tokens(v) if isinstance(v, str) else [v]
    return t[0] if len(t) == 1 else None


def segments(ctx, d):
    """[(x0, x1, y)] of the data of an SVG path of horizontal lines"""
    out, t, i = [], tokens(d), 0
    x = y = None
    cmd = None
    while i < len(t):
        if isinstance(t[i], str):
            cmd = t[i]
            i += 1
        ctx.check(cmd in ("M", "H", "L", "h", "l", "m"), "path: " + str(cmd))
        if cmd == "M":
            x, y = t[i:i + 2]
            i += 2
            cmd = "L"
            continue
        ctx.check(x is not None, "path starts with a move")
        if cmd in "Hh":
            x1 = t[i] if cmd == "H" else x + t[i]
            i += 1
        elif cmd in "Ll":
            x1 = t[i] if cmd == "L" else x + t[i]
            y1 = t[i + 1] if cmd == "L" else y + t[i + 1]
            i += 2
            ctx.check(near(ctx, y, y1), "level lines")
        else:
            x, y = x + t[i], y + t[i + 1]
            i += 2
            cmd = "l"
            continue
        out.append((x, x1, y))
        x = x1
    return out


def axis_of(ctx, chart):
    """The axis of a chart: (from, to, pixel of from, pixels across)"""
    ctx.check(len(chart["axes"]) == 1, "one axis")
    axis, = chart["axes"]
    r = axis["range"]
    return axis["domain"][0], axis["domain"][1], axis["at"][0] + r[0], \
        r[1] - r[0]


def charts(ctx, spec, plot):
    main = [c for c in plot if c["main"]]
    rest = [c for c in plot if not c["main"] and c["axes"]]
    ctx.check(len(main) == 1, "one main chart")
    ctx.check(len(rest) == (1 if spec.summary else 0), "summary if wanted")
    return main[0], rest[0] if rest else None


def lane_places(ctx, spec, chart):
    """The middle of each lane, by its label"""
    out = {}
    for i, label in enumerate(spec.lanes):
        mine = [t for t in chart["texts"] if t["words"] == label]
        ctx.check(len(mine) == 1, "label of a lane")
        out[i] = number(mine[0]["y"]) + mine[0]["at"][1]
    lanes = [out[i] for i in range(len(spec.lanes))]
    for a, b in zip(lanes, lanes[1:]):
        ctx.check(b - a > 4, "a lane below the other")
    return out


def check_chart(ctx, spec, chart, lo, hi, width, main=True):
    """The marks of a chart that shows the time from lo to hi"""
    a0, a1, left, across = axis_of(ctx, chart)
    ctx.check(near(ctx, a0, lo) and near(ctx, a1, hi), "axis of the window")
    ctx.check(near(ctx, across, width), "axis across the plot")
    lanes = lane_places(ctx, spec, chart)

    def pixel(t):
        return left + (t - lo) * across / (hi - lo)

    drawn = {}
    colours = {}
    for p in chart["paths"]:
        if main:
            tip = plain(p["tip"])
            names = [k for k in spec.data if tip and ">%s<" % k in tip]
            ctx.check(len(names) == 1, "name of the mark")
            name = names[0]
            height = number(p["stroke-width"])
            ctx.check(height is not None and 0 < height <= 50, "height")
        else:
            names = [k for k in spec.data if spec.shades.get(k) == p["stroke"]]
            ctx.check(len(names) == 1, "colour of the summary")
            name = names[0]
        colours.setdefault(name, set()).add(p["stroke"])
        drawn.setdefault(name, []).extend(
            (x0 + p["at"][0], x1 + p["at"][0], y + p["at"][1])
            for x0, x1, y in segments(ctx, p["d"]))
    for name, mine in colours.items():
        ctx.check(len(mine) == 1, "one colour for a process")
    if main:
        shades = dict((k, list(v)[0]) for k, v in colours.items())
        for k, v in shades.items():
            ctx.check(isinstance(v, str) and v != "", "a colour")
            if spec.colours and k in spec.colours:
                ctx.check(v == spec.colours[k], "the colour asked for")
            if not spec.colours:
                ctx.check([n for n in shades if shades[n] == v] == [k],
                          "a colour of its own")
            known = spec.shades.setdefault(k, v)
            ctx.check(known == v, "the same colour all along")
    for name in spec.data:
        got = drawn.get(name, [])
        marks = []
        for lane, ranges in spec.data[name].items():
            for s, e in ranges:
                cs = ctx.ite(s < lo, lo, s)
                ce = ctx.ite(e > hi, hi, e)
                wide = (ce - cs) * across / (hi - lo)
                x0 = pixel(cs)
                marks.append((cs < ce, wide, x0, x0 + wide,
                              lanes[int(lane)]))

        def fits(mark, seg):
            there, wide, x0, x1, y = mark
            return ctx.all(
                there, near(ctx, seg[0], x0), ctx.le(x1 - 1e-6, seg[1]),
                ctx.any(near(ctx, seg[1], x1),
                        ctx.all(wide < 1, ctx.le(seg[1], x0 + 1 + 1e-6))),
                near(ctx, seg[2], y, 1.5))

        for mark in marks if name in spec.keys else []:
            ctx.check(ctx.any(ctx.neg(mark[0]), mark[1] < 0.011,
                              *[fits(mark, seg) for seg in got]),
                      "an interval is drawn at its time in its lane")
        for seg in got:
            ctx.check(ctx.any(*[fits(mark, seg) for mark in marks]),
                      "nothing else is drawn")
    return drawn


def check_plot(ctx, spec, plot, lo=None, hi=None, width=None):
    """The whole plot, zoomed to the time from lo to hi"""
    lo = spec.lo if lo is None else lo
    hi = spec.hi if hi is None else hi
    width = (spec.width if width is None else width) - EDGE
    if not hasattr(spec, "shades"):
        spec.shades = {}
    main, mini = charts(ctx, spec, plot)
    drawn = check_chart(ctx, spec, main, lo, hi, width)
    if mini is not None:
        if len(spec.shades) < len(spec.keys):
            # a process out of the window: its colour is unknown
            known = spec.shades
            spec.shades = dict(known)
            rest = [p["stroke"] for p in mini["paths"]
                    if p["stroke"] not in known.values()]
            left = [k for k in spec.keys if k not in known]
            if len(left) == 1 and len(set(rest)) == 1:
                spec.shades[left[0]] = rest[0]
            else:
                for k in left:
                    spec.shades.setdefault(k, None)
        check_chart(ctx, spec, mini, spec.lo, spec.hi, width, False)
        brush, = [r for r in mini["rects"]
                  if r["class"] and "extent" in r["class"]]
        _, _, left, across = axis_of(ctx, mini)
        at = number(brush["x"]) + brush["at"][0]
        unit = across / (spec.hi - spec.lo)
        ctx.check(near(ctx, at, left + (lo - spec.lo) * unit) and
                  near(ctx, number(brush["width"]), (hi - lo) * unit),
                  "window shown in the summary")
    return drawn


def ordered(ctx, name, n, lo=0, hi=16, den=8):
    """n intervals in order, apart from each other"""
    out, last = [], None
    for j in range(n):
        s = ctx.real("%ss%d" % (name, j), lo, hi, den)
        e = ctx.real("%se%d" % (name, j), lo, hi, den)
        if last is not None:
            ctx.assume(last <= s)
        ctx.assume(s <= e)
        out.append([s, e])
        last = e
    return out


def flat(drawn):
    return [[k, [list(s) for s in v]] for k, v in sorted(drawn.items())]


@case("drawn", bounds="one process with n intervals in a lane, more in "
      "another lane and another process, symbolic times, some out of the "
      "time span; with and without the summary",
      quick=[dict(n=2, more=0), dict(n=1, more=1), dict(n=3, more=0)],
      thorough=[dict(n=2, more=1), dict(n=4, more=0)])
def drawn(ctx, n, more):
    data = {"a": {"0": ordered(ctx, "a", n, -2, 18)}}
    if more:
        data["a"]["1"] = ordered(ctx, "b", more)
        data["c"] = {"0": ordered(ctx, "c", more)}
    spec = Spec(keys=sorted(data), data=data, summary=n != 2)
    state, = drive(ctx, [spec], [])
    got = check_plot(ctx, spec, state[0])
    ctx.observe("drawn", flat(got))


@case("narrow and wide", bounds="an interval down to 1/65536 of the time "
      "span, which has a symbolic start and length, on 3 lanes",
      quick=[{}])
def narrow(ctx):
    lo = ctx.real("from", -4, 4)
    span = ctx.choice("span", [1, 8, 1024])
    s = ctx.real("s", -1, 2, den=1 << 16)
    w = ctx.real("w", 0, 1, den=1 << 16)
    lane = ctx.choice("lane", [0, 1, 2])
    data = {"a": {str(lane): [[lo + s * span, lo + s * span + w * span]]}}
    spec = Spec(lanes=["x", "y", "z"], start=lo, span=span, keys=["a"],
                data=data, width=EDGE + 512)
    state, = drive(ctx, [spec], [])
    ctx.observe("drawn", flat(check_plot(ctx, spec, state[0])))


@case("any span", bounds="an interval in time spans from a microsecond to "
      "a day", quick=[{}])
def any_span(ctx):
    span = ctx.choice("span", [1e-6, 0.375, 59.5, 86400])
    s = ctx.real("s", -1, 2, den=64)
    w = ctx.real("w", 0, 1, den=64)
    spec = Spec(span=span, keys=["a"],
                data={"a": {"1": [[s * span, s * span + w * span]]}})
    state, = drive(ctx, [spec], [])
    ctx.observe("drawn", flat(check_plot(ctx, spec, state[0])))


def zoomed(ctx, spec, k, tx, width=None):
    """The window after zooming by k and moving by tx pixels"""
    span = spec.hi - spec.lo
    width = (width or spec.width) - EDGE
    wide = span / k
    lo = spec.lo - tx * span / (k * width)
    lo = ctx.ite(lo < spec.lo, spec.lo, lo)
    lo = ctx.ite(lo > spec.hi - wide, spec.hi - wide, lo)
    return lo, lo + wide


@case("zoomed", bounds="n intervals in each of two lanes, zoomed k times to "
      "a symbolic place, dragged beyond the ends too, and back again",
      quick=[dict(n=1, k=[4]), dict(n=0, k=[8, 2]), dict(n=0, k=[4, 1])],
      thorough=[dict(n=2, k=[4]), dict(n=1, k=[4, 1]),
                dict(n=0, k=[2, 4, 2])])
def zoomed_in(ctx, n, k):
    data = {"a": {"1": ordered(ctx, "a", n) if n else [[6, 7]]},
            "c": {"0": [[1, 5], [9, 14]]}}
    spec = Spec(keys=["c", "a"], data=data, summary=len(k) == 1)
    steps, windows = [], []
    for j, x in enumerate(k):
        tx = ctx.real("tx%d" % j, -64 * x, 16, den=4) \
            if n or j == len(k) - 1 else ctx.choice("tx%d" % j,
                                                    [-300, -40.5, 12])
        steps.append({"kind": "zoom", "plot": 0, "k": x, "tx": tx,
                      "end": j == len(k) - 1 or ctx.bool("end%d" % j)})
        windows.append(zoomed(ctx, spec, x, tx))
    states = drive(ctx, [spec], steps)
    check_plot(ctx, spec, states[0][0])
    for state, (lo, hi) in zip(states[1:], windows):
        got = check_plot(ctx, spec, state[0], lo, hi)
    ctx.observe("drawn", flat(got))


@case("window dragged", bounds="an interval, a window of a symbolic place "
      "and 1/2 to 1/16 of the plot dragged in the summary, zoomed before or "
      "after",
      quick=[dict(zoom=None), dict(zoom="before"), dict(zoom="after")],
      thorough=[dict(zoom="before", free=True),
                dict(zoom="after", free=True)])
def dragged(ctx, zoom, free=False):
    data = {"a": {"0": [[2, 3]],
                  "1": [[6, 8]] if zoom else ordered(ctx, "a", 1)}}
    spec = Spec(keys=["a"], data=data)
    wide = ctx.choice("wide", [1, 4, 8])
    if zoom == "after" and not free:
        lo = ctx.choice("lo", [0, 1.75, 16])
    else:
        lo = ctx.real("lo", 0, 16)
    ctx.assume(lo + wide <= 16)
    steps = [{"kind": "brush", "plot": 0, "a": lo, "b": lo + wide}]
    want = (lo, lo + wide)
    if zoom:
        if zoom == "before" and not free:
            tx = ctx.choice("tx", [0, -21.5, -64])
        else:
            tx = ctx.real("tx", -64, 0, den=4)
        z = {"kind": "zoom", "plot": 0, "k": 2, "tx": tx}
        if zoom == "before":
            steps.insert(0, z)
        else:
            steps.append(z)
            want = zoomed(ctx, spec, 2, tx)
    states = drive(ctx, [spec], steps)
    got = check_plot(ctx, spec, states[-1][0], *want)
    ctx.observe("drawn", flat(got))


@case("resized", bounds="one or two plots with and without a summary, the "
      "window of the browser gets wider or narrower before or after a zoom "
      "or a window is dragged in the summary, then again",
      quick=[dict(n=1, act="zoom"), dict(n=1, act="brush"),
             dict(n=2, act="brush"), dict(n=2, act="zoom"),
             dict(n=1, act=None)])
def resized(ctx, n, act):
    specs = []
    for i in range(n):
        s = ctx.real("s%d" % i, 0, 8) if n == 1 or i == 0 else 3
        specs.append(Spec(
            name="plot%d" % i, width=EDGE + [64, 128][i], keys=["a"],
            summary=act == "brush" or (
                ctx.bool("summary%d" % i) if n == 1 else not i),
            data={"a": {"1": [[s, s + 4]]}}))
    widths = ctx.choice("widths", [[EDGE + 128, EDGE + 64],
                                   [EDGE + 32, EDGE + 256]])
    resize = {"kind": "resize", "widths": widths[:n]}
    which = ctx.choice("which", range(n))
    steps = [dict(resize)]
    windows = [(s.lo, s.hi) for s in specs]
    if act == "zoom":
        tx = ctx.real("tx", -64, 0, den=4) if n == 1 else \
            ctx.choice("tx", [0, -21.5, -64])
        step = {"kind": "zoom", "plot": which, "k": 2, "tx": tx}
    elif act == "brush":
        lo = ctx.real("lo", 0, 12)
        step = {"kind": "brush", "plot": which, "a": lo, "b": lo + 4}
    after = False
    if act:
        after = ctx.bool("after")
        steps.insert(1 if after else 0, step)
        spec = specs[which]
        windows[which] = (lo, lo + 4) if act == "brush" else zoomed(
            ctx, spec, 2, tx, widths[which] if after else None)
    states = drive(ctx, specs, steps)
    for i, spec in enumerate(specs):
        got = check_plot(ctx, spec, states[-1][i], windows[i][0],
                         windows[i][1], widths[i])
        ctx.check(all(number(c["width"]) == widths[i]
                      for c in states[-1][i]), "as wide as the page")
        ctx.observe("drawn%d" % i, flat(got))


@case("colours", bounds="n processes, each with or without a colour asked "
      "for, or no colours at all; the most used ones come first",
      quick=[dict(n=3), dict(n=20)])
def colours(ctx, n):
    names = ["p%dx" % i for i in range(n)]
    asked = None
    if n < 20 and ctx.bool("asked"):
        asked = {k: "#%06d" % i for i, k in enumerate(names)
                 if ctx.bool("has" + k)}
    data = {k: {"0": [[i * 0.5, i * 0.5 + 0.5]]}
            for i, k in enumerate(names)}
    if n < 20:
        # one that is not in the time span
        out = ctx.choice("out", [None] + names)
        if out:
            data[out] = {"0": [[17, 18]]}
    spec = Spec(keys=names, data=data, colours=asked, width=EDGE + 1024)
    state, = drive(ctx, [spec], [])
    ctx.observe("drawn", flat(check_plot(ctx, spec, state[0])))


def texts(plot):
    return [t for c in plot for t in c["texts"]]


def readings(ctx, plot, prefix):
    """The numbers of the texts that start so"""
    out = []
    for t in texts(plot):
        if plain(t["words"]).startswith(prefix):
            words = tokens(t["words"])
            out.append([w for w in words if not isinstance(w, str)])
    return out


def check_marker(ctx, spec, plot, letter, at, lo, hi):
    """A marker at the time `at` (None: there is none)"""
    main, _ = charts(ctx, spec, plot)
    _, _, left, across = axis_of(ctx, main)
    flags = [t for t in main["texts"] if t["words"] == letter]
    if at is None:
        ctx.check(not flags, "no marker")
        return
    inside = ctx.all(lo <= at, at <= hi)
    ctx.check(ctx.any(inside, not flags), "no marker out of the window")
    ctx.check(ctx.any(ctx.neg(inside), len(flags) == 1), "one marker")
    for f in flags:
        x = number(f["x"]) + f["at"][0]
        ctx.check(near(ctx, x, left + (at - lo) * across / (hi - lo)),
                  "marker at its time")
        lines = [l for l in main["lines"]
                 if number(l["x2"]) is not None and l["stroke"] == f["fill"]]
        ctx.check(len(lines) == 1 and
                  near(ctx, number(lines[0]["x1"]) + lines[0]["at"][0], x) and
                  near(ctx, number(lines[0]["x2"]) + lines[0]["at"][0], x),
                  "line of the marker")
    got = [r for r in readings(ctx, plot, letter + " = ") if r]
    ctx.check(len(got) == 1 and len(got[0]) == 1 and
              near(ctx, got[0][0], at, 1e-6), "time of the marker")


@case("markers", bounds="n right clicks at symbolic places, each with or "
      "without Ctrl, then a zoom or a window dragged in the summary to a "
      "symbolic place and back",
      quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=1, brush=True)],
      thorough=[dict(n=2, brush=True)])
def markers(ctx, n, brush=False):
    spec = Spec(keys=["a"], data={"a": {"0": [[2, 9]]}}, summary=brush or n != 2)
    steps, placed = [], {}
    for j in range(n):
        x = ctx.real("x%d" % j, 0, 64, den=4)
        ctrl = ctx.bool("ctrl%d" % j)
        steps.append({"kind": "click", "plot": 0, "x": x + 70, "y": 30,
                      "ctrl": True if ctrl else False})
        placed["B" if ctrl else "A"] = x / 4
    there = spec.lo, spec.hi
    if brush:
        lo = ctx.real("lo", 0, 8)
        there = lo, lo + 8
        steps.append({"kind": "brush", "plot": 0, "a": lo, "b": lo + 8})
        steps.append({"kind": "brush", "plot": 0, "a": 0, "b": 16})
    elif n < 3:
        tx = ctx.real("tx", -64, 0, den=4)
        there = zoomed(ctx, spec, 2, tx)
        steps.append({"kind": "zoom", "plot": 0, "k": 2, "tx": tx})
        steps.append({"kind": "zoom", "plot": 0, "k": 1, "tx": 0})
    states = drive(ctx, [spec], steps)
    windows = {n: (spec.lo, spec.hi), n + 2: (spec.lo, spec.hi),
               n + 1: there}
    for at, (lo, hi) in windows.items():
        if at >= len(states):
            continue
        plot = states[at][0]
        check_plot(ctx, spec, plot, lo, hi)
        for letter in "AB":
            check_marker(ctx, spec, plot, letter, placed.get(letter), lo, hi)
        if len(placed) == 2:
            d = placed["A"] - placed["B"]
            got = [r for r in readings(ctx, plot, "A - B") if r]
            ctx.check(len(got) == 1 and len(got[0]) == 1 and ctx.any(
                near(ctx, got[0][0], d, 1e-6),
                near(ctx, got[0][0], -d, 1e-6)), "time between the markers")
    ctx.observe("texts", [tokens(t["words"]) for t in texts(states[-1][0])])


@case("pointed at", bounds="two processes with n intervals in two lanes, "
      "clicked with Ctrl and Alt at a symbolic place, zoomed or not; then "
      "zoomed out again",
      quick=[dict(n=1, k=1), dict(n=0, k=2)],
      thorough=[dict(n=2, k=1), dict(n=1, k=2)])
def pointed(ctx, n, k):
    data = {"a": {"0": [[4, 8]], "1": ordered(ctx, "a", n) or
                  [[1, 3], [3, 6], [10, 14]]},
            "c": {"0": ordered(ctx, "c", n) or [[2, 4], [8, 9]]}}
    # one process at a time in a lane
    for s, e in data["c"]["0"]:
        ctx.assume(ctx.any(e <= 4, 8 <= s))
    spec = Spec(keys=["a", "c"], data=data)
    lo, hi = spec.lo, spec.hi
    steps = []
    if k > 1:
        tx = ctx.real("tx", -64, 0, den=4)
        steps.append({"kind": "zoom", "plot": 0, "k": k, "tx": tx})
        lo, hi = zoomed(ctx, spec, k, tx)
    x = ctx.real("x", 0, 64, den=4)
    lane = ctx.choice("lane", [0, 1])
    steps.append({"kind": "click", "plot": 0, "x": x + 70,
                  "y": 15 + [10, 50][lane], "ctrl": True, "alt": True})
    if k > 1:
        steps.append({"kind": "zoom", "plot": 0, "k": 1, "tx": 0})
    states = drive(ctx, [spec], steps)
    at = lo + x * (hi - lo) / 64
    before = {plain(t["words"]) for t in texts(states[len(steps) - 1][0])} \
        if k == 1 else set()
    plot = states[2 if k > 1 else 1][0]
    named = [t["words"] for t in texts(plot) if t["words"] in ("a", "c")]
    times = [tokens(t["words"]) for t in texts(plot)
             if " to " in plain(t["words"])]
    candidates = []
    for name in sorted(data):
        for s, e in data[name].get(str(lane), []):
            candidates.append((name, s, e, ctx.all(s <= at, at <= e)))
    strictly = [ctx.all(s < at, at < e) for _, s, e, _ in candidates]
    if named:
        ctx.check(len(named) == 1 and len(times) == 1, "one answer")
        words = [w for w in times[0] if not isinstance(w, str)]
        ctx.check(len(words) == 3, "start, end and length")
        ctx.check(ctx.any(*[
            ctx.all(here, name == named[0], near(ctx, words[0], s),
                    near(ctx, words[1], e), near(ctx, words[2], e - s))
            for name, s, e, here in candidates]),
            "what is under the pointer")
    else:
        ctx.check(not times, "no times of nothing")
        ctx.check(ctx.neg(ctx.any(*strictly)),
                  "the interval under the pointer is found")
    for i, state in enumerate(states[1 if k == 1 else 2:]):
        a, b = (lo, hi) if i == 0 else (spec.lo, spec.hi)
        main, _ = charts(ctx, spec, state[0])
        _, _, left, across = axis_of(ctx, main)
        box = [r for r in main["rects"]
               if r["class"] and "contextRect" in r["class"]]
        if not named:
            ctx.check(not box, "nothing is framed")
            continue
        cs = ctx.ite(words[0] < a, a, words[0])
        ce = ctx.ite(words[1] > b, b, words[1])
        ctx.check(ctx.any(ctx.le(ce, cs + 1e-5), len(box) == 1), "frame")
        for r in box:
            ctx.check(near(ctx, number(r["x"]) + r["at"][0],
                           left + (cs - a) * across / (b - a), 1e-3) and
                      near(ctx, number(r["width"]),
                           (ce - cs) * across / (b - a), 1e-3),
                      "frame of the interval")
            top = number(r["y"]) + r["at"][1]
            y = lane_places(ctx, spec, main)[lane]
            ctx.check(top <= y and y <= top + number(r["height"]),
                      "frame in its lane")
    ctx.observe("answer", [named, [tokens(t) for t in named]])


@case("from Python", bounds="the data of a Python event plot with two "
      "processes and symbolic intervals on named lanes drawn by the page",
      quick=[{}])
def from_python(ctx):
    import json
    from trappy.plotter.EventPlot import EventPlot
    quiet()
    lanes = ["big", "little"]
    s = ctx.real("s", 0, 12)
    w = ctx.real("w", 0, 3)
    first = ctx.choice("lane", lanes)
    given = {"t-1": [[s, s + w, first]],
             "t-2": [[1, 2, "little"], [4, 9, "big"], [10, 12, "little"]]}
    order = ctx.choice("order", [lanes, lanes[::-1]])
    plot = EventPlot(given, list(given), (0, 16), lanes=order,
                     summary=ctx.bool("summary"))
    graph = json.loads(plot._data)
    data = {}
    for name, mine in given.items():
        data[name] = {}
        for a, b, lane in mine:
            data[name].setdefault(str(order.index(lane)), []).append([a, b])
    spec = Spec(lanes=order, keys=["t-2"] + (["t-1"] if w > 0 else []),
                data=data, summary=graph["showSummary"])
    state, = run_js(ctx, SCRIPTS, "drive", [
        [{"name": "plot", "base": "/", "width": spec.width,
          "chart": graph}], []])
    ctx.observe("drawn", flat(check_plot(ctx, spec, state[0])))


def scripts_of(ctx, page, folder="page.js"):
    """The scripts of a page as a function, in a file"""
    texts = [t for t, in ctx.scan(r"(?s)<script>(.*?)</script>", page)]
    return os.path.abspath(ctx.write(
        ["function pageScripts() {"] + texts + ["}"], folder))


@case("the page itself", bounds="the scripts of the page made in Python, "
      "names of processes and lanes with marks in them, colours or none",
      quick=[{}])
def the_page(ctx):
    from trappy.plotter.EventPlot import EventPlot
    quiet()
    lanes = ctx.choice("lanes", [["a", "b"], ["CPU :0", "it's \"1\""]])
    name = ctx.choice("name", ["sh-12", "a'b \"c\" \\"])
    colours = {name: "#123456"} if ctx.bool("colours") else None
    given = {name: [[1, 3, lanes[0]], [4, 6.5, lanes[1]]],
             "other-1": [[3, 4, lanes[0]]]}
    with notebook() as n:
        EventPlot(given, list(given), (0, 16), lanes=lanes,
                  color_map=colours, summary=ctx.bool("summary")).view()
    page, = n.pages
    places = [x for x, in ctx.scan(r'<div id="(\w+)" class="eventplot">',
                                   page)]
    ctx.check(len(places) == 1, "place")
    # the two processes of the names are told apart by their order
    spec = Spec(lanes=lanes, colours=colours, summary="true" in
                [x for x, in ctx.scan(r'"showSummary": (\w+)', page)],
                data={name: {"0": [[1, 3]], "1": [[4, 6.5]]},
                      "other-1": {"0": [[3, 4]]}})
    plot = run_js(ctx, SCRIPTS + [scripts_of(ctx, page)], "runPage",
                  [places[0], spec.width])
    ctx.observe("drawn", flat(check_plot(ctx, spec, plot)))


@case("help", bounds="the help button and what it shows", quick=[{}])
def help_dialog(ctx):
    base = ctx.choice("base", ["/nbextensions/", "/static/"])
    call, dialogs = run_js(ctx, SCRIPTS, "help", [base])
    inner = call[call.index("(") + 1:call.rindex(")")].strip()
    ctx.check(call.startswith("EventPlot.create_help_dialog("), "button")
    ctx.check(inner.strip("'\"") == base or
              inner in ("&quot;%s&quot;" % base, "&#39;%s&#39;" % base),
              "folder of the page")
    ctx.check(len(dialogs) == 1 and
              base + "plotter_scripts/EventPlot/EventPlot_help.jpg"
              in dialogs[0], "picture")
    for word in ("Right-Click", "Ctrl", "Alt"):
        ctx.check(word in dialogs[0], "keys")
