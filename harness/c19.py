"""C19: triggers and aggregation count each event exactly once."""
from symex.case import case
from harness.common import quiet, ftrace, index
from harness.c16 import frozen

ASSUMPTIONS = [
    "values are numbers of one digit; the triggers of one aggregator match "
    "different events; nodes are CPU numbers 0-3; aggregation functions are "
    "none, the sum and the running sum",
]


class Row(object):
    def __init__(self, j, kind, cpu, v, w):
        self.t, self.kind = j + 1.5, kind
        self.cpu, self.v, self.w = int(cpu), int(v), int(w)
        self.text = "  a-1 [000] %d.500000: " % (j + 1) + \
            {"a": "alpha", "b": "beta"}[kind] + ": cpu=" + cpu + " v=" + v + \
            " w=" + w


def rows_of(ctx, kinds, cpus="012", wide="0123456789", choice=False):
    out = []
    for j, kind in enumerate(kinds):
        cpu = ctx.choice("c%d" % j, cpus) if choice else \
            ctx.chars("c%d" % j, 1, cpus)
        out.append(Row(j, kind, cpu, ctx.chars("v%d" % j, 1, wide),
                       ctx.chars("w%d" % j, 1, "123")))
    return out


def open_trace(ctx, rows):
    quiet()
    return ftrace(ctx.write(["  a-1 [000] 0.000001: start: x=1"] +
                            [r.text for r in rows]),
                  events=["alpha", "beta"], scope="custom",
                  normalize_time=False)


def at_least(x):
    return lambda v: v >= x


FILTERS = {"none": ({}, lambda r, ctx: True),
           "value": ({"w": 2}, lambda r, ctx: r.w == 2),
           "list": ({"w": [1, 3]}, lambda r, ctx: ctx.any(r.w == 1,
                                                          r.w == 3)),
           "func": ({"v": at_least(5)}, lambda r, ctx: r.v >= 5),
           "two": ({"v": at_least(3), "w": [2, 3]},
                   lambda r, ctx: ctx.all(r.v >= 3,
                                          ctx.any(r.w == 2, r.w == 3))),
           "after": ({"w": [2, 3], "v": at_least(3)},
                     lambda r, ctx: ctx.all(r.v >= 3,
                                            ctx.any(r.w == 2, r.w == 3))),
           "both": ({"w": at_least(2), "v": at_least(4)},
                    lambda r, ctx: ctx.all(r.v >= 4, r.w >= 2)),
           "other": ({"nosuch": 5, "w": 1}, lambda r, ctx: r.w == 1)}


@case("trigger", bounds="k rows of two events with symbolic pivots 0-2 and "
      "values, filters by value, list, function, several or unknown columns; "
      "constant or column value; every pivot value 0-3",
      quick=[dict(k=2, f=f) for f in sorted(FILTERS)] +
      [dict(k=3, f="none"), dict(k=3, f="value")],
      thorough=[dict(k=3, f=f) for f in sorted(FILTERS)])
def trigger(ctx, k, f):
    import trappy
    from trappy.stats.Trigger import Trigger
    kinds = [ctx.choice("k%d" % j, "ab") for j in range(k)]
    rows = rows_of(ctx, kinds)
    trace = open_trace(ctx, rows)
    before = [frozen(getattr(trace, x).data_frame) for x in
              ("alpha", "beta")]
    value = ctx.choice("value", [7, "v", -2.5])
    filters, keep = FILTERS[f]
    t = Trigger(trace, trace.alpha, filters, value, "cpu")
    pivot = ctx.int("pivot", 0, 3)
    want = [r for r in rows if r.kind == "a" and r.cpu == pivot and
            keep(r, ctx)]
    for again in (0, 1):
        got = t.generate(pivot)
        ctx.check(ctx.eq(got.index.tolist(), [r.t for r in want]), "times")
        ctx.check(ctx.eq(got.tolist(), [r.v if value == "v" else value
                                        for r in want]), "values")
    ctx.observe("got", got.tolist())
    ctx.check(ctx.eq([frozen(getattr(trace, x).data_frame) for x in
                      ("alpha", "beta")], before), "trace unaltered")


TOPOLOGIES = [[[0], [1]], [[0, 1], [2]], [[0, 2], [1, 3]], [[3, 1, 0]],
              [[2], [0, 1]]]


def total(series):
    return series.sum()


def running(series):
    return series.cumsum()


def scaled(series, factor=1):
    return series * factor


def node_series(ctx, rows, node, values, times):
    out = []
    for t in times:
        here = 0
        for r in rows:
            if r.t == t and r.kind in values:
                here = values[r.kind](r) if r.cpu == node else 0
        out.append(here)
    return out


def apply(func, series):
    if func is total:
        return sum(series)
    if func is running:
        return [sum(series[:i + 1]) for i in range(len(series))]
    if func is scaled:
        return [3 * x for x in series]
    return series


def add(a, b):
    return [x + y for x, y in zip(a, b)] if type(a) is list else a + b


FUNCS = {"none": None, "sum": total, "running": running, "scaled": scaled}


@case("aggregate", bounds="k rows of two events with symbolic pivots 0-2 "
      "(nodes without events included) and values, two triggers (constant "
      "and column value), topologies of up to 4 nodes, two levels asked for "
      "one after the other",
      quick=[dict(k=2, func=f, n=2, seq=1) for f in sorted(FUNCS)] +
      [dict(k=3, func="none", n=3, seq=0)],
      thorough=[dict(k=3, func=f, n=3, seq=1) for f in sorted(FUNCS)] +
      [dict(k=4, func="none", n=2, seq=1)])
def aggregate(ctx, k, func, n, seq):
    from trappy.stats.Trigger import Trigger
    from trappy.stats.Topology import Topology
    from trappy.stats.Aggregator import MultiTriggerAggregator
    rows = rows_of(ctx, "aba"[:k] if k < 4 else "abab", cpus="012"[:n + 1])
    trace = open_trace(ctx, rows)
    clusters = ctx.choice("topology", TOPOLOGIES)
    topology = Topology(clusters=[list(c) for c in clusters])
    triggers = [Trigger(trace, trace.alpha, {}, "v", "cpu"),
                Trigger(trace, trace.beta, {"w": [1, 2]}, 4, "cpu")]
    values = {"a": lambda r: r.v,
              "b": lambda r: ctx.ite(ctx.any(r.w == 1, r.w == 2), 4, 0)}
    kw = {"factor": 3} if func == "scaled" else {}
    agg = MultiTriggerAggregator(triggers, topology, aggfunc=FUNCS[func])
    times = [r.t for r in rows]
    nodes = sorted(set(sum(clusters, [])))
    groups = {"cluster": clusters, "cpu": [[c] for c in nodes],
              "all": [nodes]}
    per_node = {c: apply(FUNCS[func], node_series(ctx, rows, c, values,
                                                  times)) for c in nodes}
    orders = [("all", "cluster", "cpu", "all"),
              ("cluster", "cpu", "cluster", "all")]
    for level in (orders[ctx.choice("order", [0, 1])] if seq else ("cluster",
                                                                   "all")):
        out = agg.aggregate(level=level, **kw)
        ctx.check(len(out) == len(groups[level]), level + ": groups")
        for got, group in zip(out, groups[level]):
            want = per_node[group[0]]
            for c in group[1:]:
                want = add(want, per_node[c])
            if func == "sum":
                ctx.check(ctx.eq(got, want), level + ": sum")
            else:
                ctx.check(ctx.eq(got.index.tolist(), times),
                          level + ": times")
                ctx.check(ctx.eq(got.tolist(), want), level + ": values")
    ctx.observe("all", out[0] if func == "sum" else out[0].tolist())


@case("many nodes", bounds="topologies of 12 nodes in 1, 3 or 12 clusters, "
      "one event on each node, two of them symbolic", quick=[{}])
def many_nodes(ctx):
    from trappy.stats.Trigger import Trigger
    from trappy.stats.Topology import Topology
    from trappy.stats.Aggregator import MultiTriggerAggregator
    quiet()
    n = 12
    vals = [str(i % 7 + 1) for i in range(n)]
    vals[3], vals[10] = ctx.chars("x", 1, "123"), ctx.chars("y", 1, "123")
    trace = ftrace(ctx.write(
        ["  a-1 [000] 0.000001: start: x=1"] +
        ["  a-1 [000] %d.500000: alpha: cpu=%d v=" % (i + 1, i) + vals[i]
         for i in range(n)]), events=["alpha"], scope="custom",
        normalize_time=False)
    clusters = ctx.choice("clusters", [
        [list(range(n))], [[c] for c in range(n)],
        [[0, 11, 3], [10, 1, 2, 4, 5, 6], [9, 8, 7]]])
    agg = MultiTriggerAggregator(
        [Trigger(trace, trace.alpha, {}, "v", "cpu")],
        Topology(clusters=[list(c) for c in clusters]), aggfunc=None)
    times = [i + 1.5 for i in range(n)]
    for level, groups in (("cluster", clusters), ("all", [list(range(n))]),
                          ("cpu", [[c] for c in range(n)])):
        out = agg.aggregate(level=level)
        ctx.check(len(out) == len(groups), level + ": groups")
        for got, group in zip(out, groups):
            ctx.check(ctx.eq(got.index.tolist(), times), level + ": times")
            ctx.check(ctx.eq(got.tolist(), [int(vals[c]) if c in group else 0
                                            for c in range(n)]),
                      level + ": values")


@case("one trigger", bounds="a single trigger given without a list, a trace "
      "with or without rows of its event", quick=[dict(k=2)],
      thorough=[dict(k=3)])
def one_trigger(ctx, k):
    from trappy.stats.Trigger import Trigger
    from trappy.stats.Topology import Topology
    from trappy.stats.Aggregator import MultiTriggerAggregator
    kinds = [ctx.choice("k%d" % j, "ab") for j in range(k)]
    rows = rows_of(ctx, kinds)
    trace = open_trace(ctx, rows)
    agg = MultiTriggerAggregator(Trigger(trace, trace.alpha, {}, 1, "cpu"),
                                 Topology(clusters=[[0, 1], [2]]),
                                 aggfunc=total)
    mine = [r for r in rows if r.kind == "a"]
    for level, groups in (("cluster", [[0, 1], [2]]), ("all", [[0, 1, 2]])):
        got = agg.aggregate(level=level)
        want = [sum([ctx.ite(ctx.any(*[r.cpu == c for c in g]), 1, 0)
                     for r in mine]) for g in groups]
        ctx.check(ctx.eq(got, want), level)


@case("topology", bounds="n groups of nodes 0-3 added to one or two levels "
      "in one or several calls", quick=[dict(n=2), dict(n=3)],
      thorough=[dict(n=4)])
def topology(ctx, n):
    from trappy.stats.Topology import Topology
    groups = [ctx.choice("g%d" % i, [[0], [1, 2], [3, 0], [2]])
              for i in range(n)]
    split = ctx.choice("split", range(n + 1))
    how = ctx.choice("how", ["init", "add", "levels"])
    given = [list(g) for g in groups]
    if how == "init":
        ctx.assume(split > 0)
        t = Topology(clusters=given[:split])
        if split < n:
            t.add_to_level("cluster", given[split:])
        levels = {"cluster": groups}
    else:
        t = Topology()
        one, two = ctx.choice("names", [("one", "two"), ("cpu", "cluster"),
                                        ("little", "big")])
        names = [one, two if how == "levels" else one]
        t.add_to_level(names[0], given[:split])
        t.add_to_level(names[1], given[split:])
        levels = {one: groups} if how == "add" else \
            {one: groups[:split], two: groups[split:]}
    nodes = sorted(set(sum(groups, [])))
    ctx.check(sorted(t.flatten()) == nodes, "nodes")
    ctx.check([sorted(g) for g in t.get_level("all")] == [nodes], "all")
    if how == "init":
        first = sorted(set(sum(groups[:split], [])))
        ctx.check(sorted(t.get_level("cpu")) == [[c] for c in first], "cpu")
    ctx.check(t.level_span("all") == 1 and t.has_level("all"), "level all")
    ctx.check(not t.has_level("nosuch"), "unknown level")
    for name, want in levels.items():
        ctx.check(t.get_level(name) == want, name + ": groups in order")
        ctx.check(t.level_span(name) == len(want), name + ": span")
        ctx.check(t.has_level(name) and name in list(t), name + ": present")
        for i, g in enumerate(want):
            ctx.check(t.get_node(name, i) == g, name + ": by index")
            ctx.check(t.get_node(name, t.get_index(name, g)) == g,
                      name + ": index of a group")
    ctx.check(given == groups, "arguments unaltered")


@case("separate topologies", bounds="two topologies do not share nodes or "
      "levels", quick=[{}])
def separate(ctx):
    from trappy.stats.Topology import Topology
    first = ctx.choice("first", [[[0, 1]], [[0], [1]], [[2, 0], [1]]])
    a, b = Topology(), Topology(clusters=[list(g) for g in first])
    c = Topology(clusters=[[5]])
    ctx.check(a.flatten() == [] and list(a) == [], "empty")
    ctx.check(c.get_level("cluster") == [[5]] and c.flatten() == [5],
              "own groups")
    ctx.check(b.get_level("cluster") == first, "first")
    a.add_to_level("cluster", [[7]])
    ctx.check(a.get_level("cluster") == [[7]] and a.get_level("all") ==
              [[7]] and b.get_level("cluster") == first, "later")
