"""C03: event times are unique, ordered and as close as possible."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "the next representable time after t is modelled as t+u with an "
    "arbitrary 0 < u <= 2**-30 (the contract of nextafter)",
]
STEP = 2.0 ** -29


@case("order", bounds="k events with arbitrary stamps of 3 digits in seconds "
      "or nanoseconds, each of one of two requested or one unrequested event",
      quick=[dict(k=3, fmt="s", ev=3), dict(k=4, fmt="s", ev=2),
             dict(k=3, fmt="n", ev=2), dict(k=5, fmt="s", ev=1)],
      thorough=[dict(k=5, fmt="s", ev=2), dict(k=4, fmt="s", ev=3),
                dict(k=6, fmt="s", ev=1), dict(k=4, fmt="n", ev=2)])
def order(ctx, k, fmt, ev):
    ctx.exact_floats()
    vals, lines, kinds = [], [], []
    for i in range(k):
        d = ctx.digits("t%d" % i, 3)
        if fmt == "s":
            text = d[0:2] + "." + d[2] + "00000"
            vals.append(int(d) / 10)
        else:
            text = d + "000000"
            vals.append(int(d) / 1000)
        kind = ctx.choice("e%d" % i, ["alpha", "beta", "other"][:ev]) \
            if i or ev == 3 else "alpha"
        kinds.append(kind)
        lines.append("  a-1 [000] " + text + ": " + kind + ": v=" + str(i))
    norm = ctx.choice("norm", [True, False]) if fmt == "n" else False
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom", normalize_time=norm)
    seen = {}
    for name in ("alpha", "beta"):
        df = getattr(trace, name).data_frame
        mine = [i for i in range(k) if kinds[i] == name]
        ctx.check(len(df) == len(mine), name + ": number of events")
        if not mine:
            continue
        ctx.check(col(df, "v") == mine, name + ": file order kept")
        for i, t in zip(mine, df.index.tolist()):
            seen[i] = t + trace.basetime if norm else t
    # the time every line has to get (prev: lower and upper bound of it)
    known = None          # time of the last recorded line
    prev = 0              # greatest stamp so far
    gap = 0               # lines bumped since
    for i in range(k):
        later = vals[i] > prev
        if later:
            prev, gap = vals[i], 0
        else:
            gap += 1
        if i not in seen:
            continue
        t = seen[i]
        if gap == 0:
            ctx.check(ctx.eq(t, prev), "a later stamp is kept exactly")
        elif ctx.symbolic or not norm:
            ctx.check(ctx.lt(prev, t), "a repeated stamp moves later")
        ctx.check(t <= prev + gap * STEP + 1e-12, "by a negligible step only")
        if known is not None and (ctx.symbolic or not norm):
            ctx.check(ctx.lt(known, t), "strictly increasing in file order")
        known = t
    ctx.observe("times", [seen[i] for i in sorted(seen)])


@case("merge", bounds="joining two events back by time restores the file "
      "order, 4 events with stamps among 3 values",
      quick=[{}])
def merge(ctx):
    ctx.exact_floats()
    lines, kinds = [], []
    for i in range(4):
        ts = ctx.choice("t%d" % i, ["1.000000", "1.000001", "2.500000"])
        kind = ctx.choice("e%d" % i, ["alpha", "beta"])
        kinds.append(kind)
        lines.append("  a-1 [000] " + ts + ": " + kind + ": v=" + str(i))
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom")
    rows = []
    for name in ("alpha", "beta"):
        df = getattr(trace, name).data_frame
        if len(df):
            rows += list(zip(df.index.tolist(), col(df, "v")))
    rows.sort(key=lambda r: r[0])
    ctx.check(len(rows) == 4, "all events are there")
    ctx.check([r[1] for r in rows] == [0, 1, 2, 3], "file order restored")
    for a, b in zip(rows, rows[1:]):
        ctx.check(a[0] < b[0], "no two events share a time")


@case("far stamps", bounds="2 to 4 lines of one or two events sharing a stamp "
      "among five up to 1e8 s, then a line one microsecond later",
      quick=[{}])
def far_stamps(ctx):
    # no exact_floats here: these are the machine's own numbers
    ts = ctx.choice("t", ["0.000001", "1.000000", "4194304.000001",
                          "16777216.500000", "99999999.999998"])
    n = ctx.choice("n", [2, 3, 4])
    later = ts[:-1] + str(int(ts[-1]) + 1)
    lines, kinds = [], []
    for i in range(n + 1):
        kind = ctx.choice("e%d" % i, ["alpha", "beta"])
        kinds.append(kind)
        lines.append("  a-1 [000] " + (ts if i < n else later) + ": " + kind +
                     ": v=" + str(i))
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom", normalize_time=False)
    rows = []
    for name in ("alpha", "beta"):
        df = getattr(trace, name).data_frame
        if len(df):
            rows += list(zip(df.index.tolist(), col(df, "v")))
    rows.sort(key=lambda r: r[1])
    ctx.check([r[1] for r in rows] == list(range(n + 1)), "all events")
    for a, b in zip(rows, rows[1:]):
        ctx.check(a[0] < b[0], "strictly increasing in file order")
    ctx.check(rows[0][0] == float(ts), "the first keeps its stamp")
    ctx.check(rows[-1][0] == float(later), "a later stamp is kept exactly")
    for t, _ in rows[:-1]:
        ctx.check(t - float(ts) < 1e-6, "by a negligible step only")


@case("near stamps", bounds="2 or 3 lines of one or two events sharing a "
      "stamp among five up to 1e6 s, then a line one nanosecond later, in "
      "seconds or nanoseconds", quick=[{}])
def near_stamps(ctx):
    ns = ctx.choice("t", [1, 999999999, 1000000000, 123456789012,
                          1000000000000001])
    n = ctx.choice("n", [2, 3])
    seconds = ctx.bool("seconds")

    def text(x):
        return "%d.%09d" % (x // 10 ** 9, x % 10 ** 9) if seconds else str(x)

    def value(x):
        return float(text(x)) if seconds else x / 1e9
    lines = []
    for i in range(n + 1):
        kind = ctx.choice("e%d" % i, ["alpha", "beta"])
        lines.append("  a-1 [000] " + text(ns + (i == n)) + ": " + kind +
                     ": v=" + str(i))
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom", normalize_time=False)
    rows = []
    for name in ("alpha", "beta"):
        df = getattr(trace, name).data_frame
        if len(df):
            rows += list(zip(df.index.tolist(), col(df, "v")))
    rows.sort(key=lambda r: r[1])
    ctx.check([r[1] for r in rows] == list(range(n + 1)), "all events")
    for a, b in zip(rows, rows[1:]):
        ctx.check(a[0] < b[0], "strictly increasing in file order")
    ctx.check(rows[0][0] == value(ns), "the first keeps its stamp")
    ctx.check(rows[-1][0] == value(ns + 1), "a later stamp is kept exactly")
