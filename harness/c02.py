"""C02: event times are seconds for both trace clock formats."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "stamps of at most 5+9 digits (seconds format) or 14 digits (nanosecond "
    "format), positive",
]


def stamp(ctx, name, fmt):
    """(text, value in seconds)"""
    if fmt[0] == "s":
        whole = ctx.digits(name + "s", fmt[1])
        frac = ctx.digits(name + "f", fmt[2])
        return whole + "." + frac, (int(whole) +
                                    int(frac) / (10 ** fmt[2]))
    ns = ctx.digits(name + "n", fmt[1])
    return ns, int(ns) / 1000000000


def event(ts, name, v, comm="task"):
    return "   " + comm + "-12 [001] " + ts + ": " + name + ": v=" + str(v)


FORMATS = [("s", 1, 6), ("s", 5, 6), ("s", 3, 9), ("s", 2, 1), ("s", 2, 3),
           ("n", 1), ("n", 6), ("n", 9), ("n", 10), ("n", 14)]


@case("single", bounds="one event, stamps of each listed digit layout",
      quick=[dict(f=i) for i in range(len(FORMATS))])
def single(ctx, f):
    text, val = stamp(ctx, "t", FORMATS[f])
    ctx.assume(ctx.lt(0, val))
    norm = ctx.choice("norm", [True, False])
    trace = ftrace(ctx.write([event(text, "alpha", 5)]), events=["alpha"],
                   scope="custom", normalize_time=norm)
    df = trace.alpha.data_frame
    ctx.check(ctx.eq(col(df, "v"), [5]), "payload")
    ctx.check(ctx.eq(df.index.tolist()[0], 0.0 if norm else val), "time")
    ctx.check(ctx.eq(trace.basetime, val), "start of the trace")
    ctx.check(ctx.eq(trace.endtime, val), "end of the trace")
    ctx.check(df.index.name == "Time", "index name")
    ctx.observe("t", [df.index.tolist(), trace.basetime, trace.endtime])


@case("mixed", bounds="three increasing stamps, each of either format, "
      "requested or not, with or without normalisation",
      quick=[dict(a=a, b=b, c=c) for a, b, c in
             [(0, 6, 8), (8, 9, 9), (2, 1, 1), (5, 7, 0)]])
def mixed(ctx, a, b, c):
    marks = [stamp(ctx, n, FORMATS[f]) for n, f in
             (("a", a), ("b", b), ("c", c))]
    ctx.assume(ctx.lt(0, marks[0][1]))
    ctx.assume(ctx.lt(marks[0][1], marks[1][1]))
    ctx.assume(ctx.lt(marks[1][1], marks[2][1]))
    names = [ctx.choice("n%d" % i, ["alpha", "other"]) for i in range(3)]
    norm = ctx.choice("norm", [True, False])
    trace = ftrace(ctx.write([event(t, n, i) for i, ((t, _), n) in
                              enumerate(zip(marks, names))]),
                   events=["alpha"], scope="custom", normalize_time=norm)
    df = trace.alpha.data_frame
    base = marks[0][1] if norm else 0
    want = [v - base for (_, v), n in zip(marks, names) if n == "alpha"]
    got = df.index.tolist()
    ctx.check(len(got) == len(want), "number of events")
    for g, w in zip(got, want):
        ctx.check(ctx.eq(g, w), "time of each event")
    ctx.check(ctx.eq(trace.basetime, marks[0][1]), "start of the trace")
    ctx.check(ctx.eq(trace.endtime, marks[2][1]), "end of the trace")
    ctx.observe("t", [got, trace.basetime, trace.endtime])


@case("long stamps", bounds="two lines with stamps of up to 25 characters, "
      "each of ten, as the machine reads them", quick=[{}])
def long_stamps(ctx):
    texts = ["0.1", "7.000000001", "99937.172691", "1234567.123456789",
             "1234567890.123456", "1234567890.123456789012", "00012.500000",
             "1234567890123456789", "99937172691000", "000000000000000000001"]
    a, b = ctx.choice("a", texts), ctx.choice("b", texts)
    trace = ftrace(ctx.write([event(a, "alpha", 5), event(b, "alpha", 6)]),
                   events=["alpha"], scope="custom", normalize_time=False)
    got = trace.alpha.data_frame.index.tolist()
    want = [float(t) if "." in t else int(t) / 1e9 for t in (a, b)]
    ctx.check(got[0] == want[0] and trace.basetime == want[0], "first")
    if want[1] > want[0]:
        ctx.check(got[1] == want[1], "second")
    ctx.observe("times", got)
