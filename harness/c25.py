"""C25: event plots carry every interval of every lane."""
import copy
import json
from symex.case import case
from harness.common import quiet

ASSUMPTIONS = [
    "intervals are lists of start, end and lane as documented, ending no "
    "earlier than they start, and belong to one process each",
]


def intervals_of(ctx, n, k, lanes, fixed=None):
    """{name: [[start, end, lane]]} with up to k intervals each."""
    data = {}
    for i in range(n):
        many = fixed[i] if fixed else ctx.choice("n%d" % i, range(k + 1))
        mine = []
        for j in range(many):
            a = ctx.real("s%d_%d" % (i, j), 0, 50, den=2)
            d = ctx.real("d%d_%d" % (i, j), 0, 9, den=1 << 24)
            mine.append([a, a + d, ctx.choice("l%d_%d" % (i, j), lanes)])
        data["task-%d" % (n - i)] = mine
    return data


def plot(data, **kw):
    from trappy.plotter.EventPlot import EventPlot
    quiet()
    kw.setdefault("domain", (0, 60))
    return EventPlot(data, list(data), **kw)


def shown(ctx, p, page=False):
    if page:
        html = p.html()
        call = "EventPlot.generate('" + p._fig_name + "', '"
        ctx.check(html.count(call) == 1, "drawn once")
        ctx.check(html.count(p._data) == 1 and
                  html.index(call) < html.index(p._data), "data in the page")
        ctx.check('<div id="%s" class="eventplot">' % p._fig_name in html,
                  "place of the plot")
    return json.loads(p._data)


def check_graph(ctx, graph, data, place):
    """place: lane given -> lane of the plot"""
    ctx.check(sorted(graph["data"]) == sorted(data), "processes")
    for name, mine in data.items():
        want = {}
        for a, b, lane in mine:
            want.setdefault(str(place[lane]), []).append([a, b])
        got = graph["data"][name]
        ctx.check(sorted(got) == sorted(want), "lanes of a process")
        for lane, ranges in want.items():
            ctx.check(ctx.eq(got[lane], ranges), "intervals")
    keys = graph["keys"]
    ctx.check(len(set(keys)) == len(keys) and set(keys) <= set(data),
              "shown once")
    for name, mine in data.items():
        total = sum([b - a for a, b, _ in mine])
        ctx.check(ctx.lt(0, total) if name in keys else ctx.eq(total, 0),
                  "processes that run")
    for x, y in zip(keys, keys[1:]):
        tx = sum([b - a for a, b, _ in data[x]])
        ty = sum([b - a for a, b, _ in data[y]])
        ctx.check(ctx.le(ty * (len(data[x]) + 1), tx * (len(data[y]) + 1)),
                  "longest first")


@case("numbered lanes", bounds="n processes with up to k intervals, symbolic "
      "times, on three numbered lanes, prefix and time span chosen",
      quick=[dict(n=2, k=1), dict(n=1, k=2), dict(n=2, fixed=[2, 1])],
      thorough=[dict(n=2, k=2), dict(n=3, fixed=[1, 1, 1])])
def numbered_lanes(ctx, n, k=0, fixed=None):
    data = intervals_of(ctx, n, k, [0, 1, 2], fixed)
    before = copy.deepcopy(data)
    prefix = ctx.choice("prefix", [None, "CPU :"])
    span = (ctx.real("from", 0, 50, den=2), ctx.real("to", 0, 50, den=2))
    kw = dict(num_lanes=3, domain=span)
    if prefix:
        kw["lane_prefix"] = prefix
    graph = shown(ctx, plot(data, **kw))
    check_graph(ctx, graph, before, {0: 0, 1: 1, 2: 2})
    ctx.check(graph["lanes"] == [
        {"id": i, "label": "%s%d" % (prefix or "Lane: ", i)}
        for i in range(3)], "lanes")
    ctx.check(ctx.eq(list(graph["xDomain"]), list(span)), "time span")
    ctx.check(ctx.eq([x for v in data.values() for x in v],
                     [x for v in before.values() for x in v]),
              "data unaltered")
    ctx.observe("keys", graph["keys"])


@case("named lanes", bounds="n processes with up to k intervals on lanes "
      "named by texts or numbers, requested in every order, or missing",
      quick=[dict(n=2, k=1), dict(n=1, k=2)], thorough=[dict(n=2, k=2)])
def named_lanes(ctx, n, k):
    names = ctx.choice("names", [["b", "a", "c"], [4, 2, 0]])
    order = ctx.choice("order", [(0, 1, 2), (2, 0, 1), (1, 0), (2, 1, 0)])
    lanes = [names[i] for i in order]
    data = intervals_of(ctx, n, k, names)
    before = copy.deepcopy(data)
    valid = all(x[2] in lanes for v in before.values() for x in v)
    try:
        p = plot(data, lanes=lanes)
    except RuntimeError:
        p = None
    ctx.check((p is not None) == valid, "unknown lanes rejected")
    ctx.check(ctx.eq([x for v in data.values() for x in v],
                     [x for v in before.values() for x in v]),
              "data unaltered")
    if not valid:
        return
    graph = shown(ctx, p)
    check_graph(ctx, graph, before,
                dict((x, i) for i, x in enumerate(lanes)))
    ctx.check(graph["lanes"] == [{"id": i, "label": x}
                                 for i, x in enumerate(lanes)],
              "lanes in order")


@case("options", bounds="colours, summary; neither lanes nor their number",
      quick=[{}])
def options(ctx):
    data = {"x": [[1.5, 2.5, 0]], "y": []}
    colours = ctx.choice("colours", [None, {"x": "red", "y": "#00ff00"}])
    summary = ctx.bool("summary")
    graph = shown(ctx, plot(data, num_lanes=1, color_map=colours,
                            summary=summary), True)
    ctx.check(graph["colorMap"] == colours and
              graph["showSummary"] == summary and graph["keys"] == ["x"],
              "options")
    refused = False
    try:
        plot(data, lanes=ctx.choice("lanes", [None, []]))
    except RuntimeError:
        refused = True
    ctx.check(refused, "lanes are needed")
