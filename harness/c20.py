"""C20: series are put on a common time base without inventing data."""
from symex.case import case
from harness.common import quiet, ftrace

ASSUMPTIONS = [
    "values are numbers of one digit; times are multiples of the sample "
    "distance, 10 us after the first one (so that no event lies on a sample "
    "by rounding); the two traces have the same groups and at least one "
    "event that triggers each",
]
STEP = 0.000025


def nan(x):
    return type(x) is float and x != x


def stamp(slot):
    """Stamps 25 us apart, those after the first 10 us late."""
    return "1.%06d" % (25 * slot + (10 if slot else 0))


def open_trace(ctx, rows):
    """rows: (slot, cpu, value digit)"""
    quiet()
    lines = ["  a-1 [000] %s: alpha: cpu=%d v=%s" % (stamp(s), c, v)
             for s, c, v in rows]
    return ftrace(ctx.write(["  a-1 [000] 0.500000: start: x=1"] + lines),
                  events=["alpha"], scope="custom", normalize_time=False)


def aggregator(trace, clusters, value="v", aggfunc=None):
    from trappy.stats.Trigger import Trigger
    from trappy.stats.Topology import Topology
    from trappy.stats.Aggregator import MultiTriggerAggregator
    return MultiTriggerAggregator(
        [Trigger(trace, trace.alpha, {}, value, "cpu")],
        Topology(clusters=clusters), aggfunc=aggfunc)


@case("unify", bounds="2-3 indexers of 1-n symbolic increasing times "
      "(multiples of 1/2), symbolic spacing of the uniform index",
      quick=[dict(n=2, m=2), dict(n=1, m=3), dict(n=3, m=1)],
      thorough=[dict(n=2, m=3), dict(n=3, m=2)])
def unify(ctx, n, m):
    import pandas as pd
    from trappy.stats.Indexer import Indexer, get_unified_indexer
    ctx.exact_floats()
    sets = []
    for i in range(m):
        k = ctx.choice("k%d" % i, range(1, n + 1))
        times = [ctx.real("t%d_%d" % (i, j), 0, 4, den=2) for j in range(k)]
        for a, b in zip(times, times[1:]):
            ctx.assume(ctx.lt(a, b))
        sets.append(times)
    given = [pd.Index(list(s)) for s in sets]
    out = get_unified_indexer([Indexer(g) for g in given])
    want = []
    for t in sum(sets, []):
        at = 0
        while at < len(want) and want[at] < t:
            at += 1
        if at == len(want) or want[at] != t:
            want.insert(at, t)
    ctx.check(ctx.eq(out.index.tolist(), want), "sorted union of the times")
    empty = out.series()
    ctx.check(ctx.eq(empty.index.tolist(), want) and
              empty.tolist() == [0] * len(want), "empty series")
    ctx.check(ctx.eq([g.tolist() for g in given], sets),
              "arguments unaltered")
    ctx.observe("union", out.index.tolist())


@case("uniform", bounds="an index of 1-3 times with a symbolic start, span "
      "and spacing (multiples of 1/8)", quick=[{}])
def uniform(ctx):
    import pandas as pd
    from trappy.stats.Indexer import Indexer
    ctx.exact_floats()
    start = ctx.real("start", -1, 1)
    span = ctx.real("span", 0, 1)
    delta = ctx.real("delta", 0, 1)
    ctx.assume(ctx.lt(0, delta))
    times = [start] if ctx.bool("one") else [start, start + span]
    got = list(Indexer(pd.Index(times)).get_uniform(delta))
    n = len(got)
    for i, x in enumerate(got):
        ctx.check(ctx.eq(x, start + i * delta), "spacing")
    if n:
        ctx.check(ctx.lt(got[-1], times[-1]), "inside")
    ctx.check(ctx.le(times[-1], start + n * delta), "complete")


@case("trigger indexes", bounds="k rows at different times of two events, "
      "one or two triggers on one or two traces",
      quick=[dict(k=3)], thorough=[dict(k=4)])
def trigger_indexes(ctx, k):
    from trappy.stats.Trigger import Trigger
    from trappy.stats.Indexer import MultiTriggerIndexer
    quiet()
    kinds = [ctx.choice("k%d" % j, "abo") for j in range(k)]
    vals = [ctx.digits("v%d" % j, 1) for j in range(k)]
    lines = ["  a-1 [000] %d.500000: %s: cpu=0 v=%s" %
             (j + 1, {"a": "alpha", "b": "beta", "o": "other"}[x], "%s")
             for j, x in enumerate(kinds)]
    trace = ftrace(ctx.write([l.replace("%s", v)
                              for l, v in zip(lines, vals)]),
                   events=["alpha", "beta"], scope="custom",
                   normalize_time=False)
    other = ftrace(ctx.write(["  a-1 [000] 0.250000: alpha: cpu=0 v=3",
                              "  a-1 [000] 2.500000: alpha: cpu=1 v=3",
                              "  a-1 [000] 9.500000: beta: cpu=1 v=3"]),
                   events=["alpha", "beta"], scope="custom",
                   normalize_time=False)
    ctx.assume("a" in kinds)
    how = ctx.choice("how", ["a", "ab", "aa", "a+"])
    make = lambda t, e: Trigger(t, getattr(t, e), {}, 1, "cpu")
    triggers = {"a": make(trace, "alpha"),
                "ab": [make(trace, "alpha"), make(trace, "beta")],
                "aa": [make(trace, "alpha"), make(trace, "alpha")],
                "a+": [make(trace, "alpha"), make(other, "alpha")]}[how]
    want = [j + 1.5 for j in range(k) if kinds[j] == "a" or
            kinds[j] == "b" and how == "ab"]
    if how == "a+":
        want = sorted(set(want + [0.25, 2.5]))
    indexer = MultiTriggerIndexer(triggers)
    ctx.check([float(x) for x in indexer.index.tolist()] == want,
              "times of all triggers")
    ctx.check(indexer.series().tolist() == [0] * len(want), "empty series")


def shifted(x, y, shift):
    """y later by shift samples if it is positive, else x by -shift."""
    later = lambda s, n: [None] * min(n, len(s)) + s[:max(0, len(s) - n)]
    if shift > 0:
        return x, later(y, shift)
    return later(x, -shift), y


def same_samples(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + ": length")
    for a, b in zip(got, want):
        ctx.check(nan(a) or a is None if b is None else ctx.eq(a, b),
                  what + ": samples")


@case("align", bounds="two series of n symbolic samples, any of them zero, "
      "aligned at the front or at the back",
      quick=[dict(n=3)], thorough=[dict(n=4)])
def align(ctx, n):
    import pandas as pd
    from trappy.stats.Correlator import align as align_, shift_series
    x = [ctx.int("x%d" % i, 0, 9) for i in range(n)]
    y = [ctx.int("y%d" % i, 0, 9) for i in range(n)]
    mode = ctx.choice("mode", ["front", "back"])
    sx = pd.Series(x, index=[0.5 * i for i in range(n)], dtype=object)
    sy = pd.Series(y, index=[0.5 * i for i in range(n)], dtype=object)
    gx, gy, shift = align_(sx, sy, mode)
    nx = [i for i in range(n) if x[i] != 0]
    ny = [i for i in range(n) if y[i] != 0]
    want = 0
    if nx and ny:
        want = nx[0] - ny[0] if mode == "front" else nx[-1] - ny[-1]
    ctx.check(shift == want, "shift")
    wx, wy = shifted(x, y, want)
    same_samples(ctx, gx.tolist(), wx, "first")
    same_samples(ctx, gy.tolist(), wy, "second")
    ctx.check(ctx.eq(sx.tolist(), x) and ctx.eq(sy.tolist(), y), "unaltered")
    if nx and ny:
        at = max(nx[0], ny[0]) if mode == "front" else max(nx[-1], ny[-1])
        ctx.check(gx.tolist()[at] != 0 and gy.tolist()[at] != 0,
                  "non-zero samples coincide")


def distance(x, y):
    """Minus the sum of distances of the samples both have."""
    out = 0
    for a, b in zip(x.tolist(), y.tolist()):
        if a is not None and b is not None and not nan(a) and not nan(b):
            out = out - abs(a - b)
    return out


def oracle_distance(x, y):
    return -sum([abs(a - b) for a, b in zip(x, y)
                 if a is not None and b is not None])


def samples(first, second, group):
    """Both traces on the samples of their union: the value of the trace's
    latest event (zero if it is not of the group, none before the first)."""
    slots = [s for s, _, _ in first + second]
    # sample i is 10 us before the event of slot i (but for slot 0)
    out = []
    for rows in (first, second):
        series = []
        for i in range(min(slots), max(slots) + 1):
            off = 1 if min(slots) == 0 else 0   # samples start at an event
            last = [r for r in rows if r[0] <= i - off or r[0] == min(slots)]
            if not last:
                series.append(None)
            else:
                _, c, v = last[-1]
                series.append(v if c in group else 0)
        out.append(series)
    return out


SLOTS = [((0, 2), (0, 2)), ((0, 1, 3), (0, 2, 4)), ((0, 2), (1, 3)),
         ((1, 3, 4), (0, 1, 2)), ((0, 4), (0, 1, 4)), ((2, 3), (0, 1))]


@case("correlate", bounds="two traces of 2-3 events at six patterns of "
      "times, CPUs chosen, symbolic values; three topologies; a distance as "
      "correlation function",
      quick=[dict(p=0), dict(p=2), dict(p=5)],
      thorough=[dict(p=1), dict(p=3), dict(p=4)])
def correlate(ctx, p):
    from trappy.stats.Correlator import Correlator
    rows = []
    for w, slots in zip("ab", SLOTS[p]):
        rows.append([(s, ctx.choice("%sc%d" % (w, s), (0, 1)),
                      ctx.chars("%sv%d" % (w, s), 1, "01234"))
                     for s in slots])
    clusters = ctx.choice("clusters", [[[0], [1]], [[0, 1]]])
    aggs = [aggregator(open_trace(ctx, r), [list(c) for c in clusters])
            for r in rows]
    first, second = [[(s, c, int(v)) for s, c, v in r] for r in rows]
    nodes = sorted(set(sum(clusters, [])))
    x, y = samples(first, second, nodes)
    ctx.assume(ctx.any(*[a != 0 for a in x if a is not None]))
    ctx.assume(ctx.any(*[a != 0 for a in y if a is not None]))
    nx = [i for i in range(len(x)) if x[i] is not None and x[i] != 0]
    ny = [i for i in range(len(y)) if y[i] is not None and y[i] != 0]
    front, back = nx[0] - ny[0], nx[-1] - ny[-1]
    c = Correlator(aggs[0], aggs[1], corrfunc=distance)
    if front == back or oracle_distance(*shifted(x, y, front)) >= \
            oracle_distance(*shifted(x, y, back)):
        shift = front
    else:
        shift = back
    out, total = c.correlate("cluster")
    ctx.check(len(out) == len(clusters), "a value for each group")
    want = []
    for group in clusters:
        gx, gy = samples(first, second, group)
        want.append(oracle_distance(*shifted(gx, gy, shift)))
    ctx.check(ctx.eq(out, want), "aligned samples of each group")
    ctx.check(ctx.le(min(want), total) and ctx.le(total, max(want)),
              "total between the values of the groups")
    again, _ = c.correlate("cluster")
    ctx.check(ctx.eq(again, want), "the same again")
    ctx.observe("out", out)


@case("copies", bounds="a trace and its copy, possibly d samples later, "
      "symbolic non-zero values: perfect agreement",
      quick=[dict(d=0), dict(d=1), dict(d=3)], thorough=[dict(d=2)])
def copies(ctx, d):
    from trappy.stats.Correlator import Correlator
    vals = [ctx.chars("v%d" % i, 1, "123") for i in range(3)]
    base = [(1, 0, vals[0]), (2, 1, vals[1]), (4, 0, vals[2])]
    start, end = [(0, 3, "0")], [(9, 3, "0")]
    one = start + base + end
    two = start + [(s + d, c, v) for s, c, v in base] + end
    swap = ctx.bool("swap")
    if swap:
        one, two = two, one
    clusters = ctx.choice("clusters", [[[0], [1]], [[0, 1]]])
    aggs = [aggregator(open_trace(ctx, r), [list(c) for c in clusters])
            for r in (one, two)]
    c = Correlator(aggs[0], aggs[1], corrfunc=distance)
    out, total = c.correlate("cluster")
    ctx.check(ctx.eq(out, [0] * len(clusters)), "perfect agreement")
    ctx.check(ctx.eq(total, 0), "total")
    ctx.observe("out", out)


@case("default", bounds="the default correlation of two traces with a few "
      "chosen values: that of the shared samples, 1 for copies",
      quick=[{}])
def default(ctx):
    from trappy.stats.Correlator import Correlator
    first = [(0, 0, "0"), (2, 0, ctx.choice("a", "14")),
             (4, 0, ctx.choice("b", "27")), (6, 0, "0"), (8, 0, "5"),
             (9, 0, "0")]
    same = ctx.bool("same")
    second = first if same else [(0, 0, "0"), (3, 0, ctx.choice("c", "39")),
                                 (5, 0, "1"), (6, 0, "0"), (9, 0, "0")]
    aggs = [aggregator(open_trace(ctx, r), [[0], [1]])
            for r in (first, second)]
    c = Correlator(aggs[0], aggs[1])
    out, total = c.correlate("cluster")
    ctx.check(len(out) == 2 and nan(float(out[1])), "one value per group")
    if same:
        ctx.check(abs(out[0] - 1) < 1e-9 and abs(total - 1) < 1e-9,
                  "identical")
        return
    num = [[(s, k, int(v)) for s, k, v in r] for r in (first, second)]
    x, y = samples(num[0], num[1], [0])
    nx, ny = ([i for i, v in enumerate(s) if v] for s in (x, y))
    tries = [pearson(*shifted(x, y, k)) for k in (nx[0] - ny[0],
                                                  nx[-1] - ny[-1])]
    ctx.check(abs(out[0] - max(tries)) < 1e-9, "the better alignment")
    ctx.check(abs(total - out[0]) < 1e-9, "total")


def pearson(x, y):
    pairs = [(a, b) for a, b in zip(x, y) if a is not None and b is not None]
    mx = sum(a for a, _ in pairs) / len(pairs)
    my = sum(b for _, b in pairs) / len(pairs)
    up = sum((a - mx) * (b - my) for a, b in pairs)
    return up / (sum((a - mx) ** 2 for a, _ in pairs) *
                 sum((b - my) ** 2 for _, b in pairs)) ** 0.5
