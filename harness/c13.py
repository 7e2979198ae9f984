"""C13: de-duplicating a time index keeps rows, order and bounds."""
from symex.case import case

ASSUMPTIONS = [
    "sorted indexes of multiples of 1/8 s and steps of at least 1/64 of the "
    "allowed maximum, so that floats have room between the times",
]


def make(ctx, kind, times, vals):
    import pandas
    idx = pandas.Index(times, name="Time")
    if kind == "series":
        return pandas.Series(vals, index=idx)
    data = {"v": vals}
    if kind == "lines":
        data["__line"] = list(range(len(vals)))
    return pandas.DataFrame(data, index=idx)


def spread(ctx, kind, times, vals, maxd):
    from trappy.utils import handle_duplicate_index
    n = len(times)
    times = list(times)
    data = make(ctx, kind, times, vals)
    if maxd is None:
        maxd, out = 0.000001, handle_duplicate_index(data)
    else:
        out = handle_duplicate_index(data, maxd)
    got = out.index.tolist()
    rows = (out if kind == "series" else out["v"]).tolist()
    ctx.check(ctx.eq(data.index.tolist(), times), "argument unchanged")
    ctx.check(out.index.name == "Time", "index name")
    ctx.check(len(got) == n and rows == vals, "same rows in the same order")
    # the group each position belongs to
    first = list(range(n))
    for i in range(1, n):
        if times[i] == times[i - 1]:
            first[i] = first[i - 1]
    for i in range(1, n):
        ctx.check(ctx.lt(got[i - 1], got[i]), "strictly increasing")
    for i in range(n):
        if first[i] == i:
            ctx.check(ctx.eq(got[i], times[i]), "first of a group stays")
            continue
        step = i - first[i]
        ctx.check(ctx.le(got[i], times[i] + step * maxd),
                  "moved by at most the maximum per step")
        nxt = [j for j in range(i, n) if first[j] == j]
        if nxt:
            ctx.check(ctx.lt(got[i], times[nxt[0]]),
                      "stays before the next time")
    if all(first[i] == i for i in range(n)):
        ctx.check(ctx.eq(got, times), "no repetition: unchanged")
    if kind != "series":
        ctx.check(list(out.columns) ==
                  (["v", "__line"] if kind == "lines" else ["v"]), "columns")
    ctx.observe("index", got)


@case("spread", bounds="n sorted times with any repetitions, symbolic "
      "maximum step",
      quick=[dict(n=2, kind="series"), dict(n=3, kind="series"),
             dict(n=4, kind="frame"), dict(n=5, kind="lines"),
             dict(n=6, kind="series")],
      thorough=[dict(n=7, kind="frame"), dict(n=8, kind="series")])
def spread_case(ctx, n, kind):
    times = []
    for i in range(n):
        t = ctx.real("t%d" % i, 0, 16, den=8)
        if times:
            ctx.assume(ctx.le(times[-1], t))
        times.append(t)
    maxd = ctx.real("max", 0, 2, den=64)
    ctx.assume(ctx.lt(0, maxd))
    spread(ctx, kind, times, ["r%d" % i for i in range(n)], maxd)


@case("integers", bounds="n sorted integer times", quick=[dict(n=4)])
def integers(ctx, n):
    times = [0]
    for i in range(n - 1):
        times.append(times[-1] + ctx.choice("gap%d" % i, [0, 1, 5]))
    maxd = ctx.real("max", 0, 2, den=64)
    ctx.assume(ctx.lt(0, maxd))
    spread(ctx, ctx.choice("kind", ["series", "frame"]), times,
           ["r%d" % i for i in range(n)], maxd)


@case("default step", bounds="n sorted times, the default maximum",
      quick=[dict(n=4), dict(n=5)], thorough=[dict(n=7)])
def default_step(ctx, n):
    times = []
    for i in range(n):
        t = ctx.real("t%d" % i, 0, 4, den=2)
        if times:
            ctx.assume(ctx.le(times[-1], t))
        times.append(t)
    spread(ctx, ctx.choice("kind", ["series", "frame", "lines"]), times,
           ["r%d" % i for i in range(n)], None)


@case("unsorted lines", bounds="a frame with line numbers in any order is "
      "sorted by time and line first", quick=[dict(n=3)],
      thorough=[dict(n=4)])
def unsorted_lines(ctx, n):
    import pandas
    from trappy.utils import handle_duplicate_index
    times = [ctx.real("t%d" % i, 0, 3, den=1) for i in range(n)]
    order = ctx.perm("o", range(n))
    df = pandas.DataFrame({"v": ["r%d" % i for i in range(n)],
                           "__line": order},
                          index=pandas.Index(times, name="Time"))
    out = handle_duplicate_index(df, ctx.real_const(0.5))
    want = list(range(n))
    for i in range(n):           # insertion sort by (time, line)
        j = i
        while j > 0:
            a, b = want[j - 1], want[j]
            if times[b] < times[a] or (times[b] == times[a] and
                                       order[b] < order[a]):
                want[j - 1], want[j] = b, a
                j -= 1
            else:
                break
    ctx.check(out["v"].tolist() == ["r%d" % i for i in want],
              "rows in order of time and line")
    got = out.index.tolist()
    for x, y in zip(got, got[1:]):
        ctx.check(ctx.lt(x, y), "strictly increasing")


@case("many rows", bounds="61 rows in three groups of equal times, the line "
      "numbers in five orders", quick=[{}])
def many_rows(ctx):
    import pandas
    from trappy.utils import handle_duplicate_index
    n = 61
    k = ctx.choice("k", [1, 2, 17, 35, 60])
    cut = ctx.choice("cut", [1, 20, 40])
    order = [i * k % n for i in range(n)]
    base = ctx.choice("base", [0.0, 3.5])
    times = [base if i < cut else base + 1 if i < 45 else base + 7
             for i in order]
    if ctx.bool("sorted"):
        times = sorted(times)
    df = pandas.DataFrame({"v": ["r%d" % i for i in range(n)],
                           "__line": order},
                          index=pandas.Index(times, name="Time"))
    out = handle_duplicate_index(df)
    want = sorted(range(n), key=lambda i: (times[i], order[i]))
    ctx.check(out["v"].tolist() == ["r%d" % i for i in want],
              "rows in order of time and line")
    got = out.index.tolist()
    for x, y in zip(got, got[1:]):
        ctx.check(x < y, "strictly increasing")
    ctx.check(df["v"].tolist() == ["r%d" % i for i in range(n)] and
              df.index.tolist() == times, "argument unchanged")
