"""C08: normalised time is a pure shift by the first event."""
from symex.case import case
from harness.common import ftrace, col
from harness.c07 import stamps, bounds, NAMES

ASSUMPTIONS = [
    "stamps and bounds are multiples of 1/2 s below 100 s; frames added by "
    "hand have an index named Time that is sorted",
]


STEP = 2.0 ** -29


def line(ts, kind, i):
    return "  a-1 [000] " + ts + ": " + kind + ": v=%d w=q%d" % (i, i)


def frames(trace, names=("alpha", "beta")):
    out = {}
    for n in names:
        df = getattr(trace, n).data_frame
        out[n] = (df.index.tolist(), [[str(c)] + col(df, c)
                                      for c in sorted(df.columns)])
    return out


@case("shift", bounds="k events at symbolic times (events of the kinds "
      "given), windows of the given kinds",
      quick=[dict(kinds="ab", w="none"), dict(kinds="oab", w="none"),
             dict(kinds="aba", w="both"), dict(kinds="oaa", w="end"),
             dict(kinds="aab", w="none", a="both"),
             dict(kinds="bao", w="none", zero=True), dict(kinds="oo",
                                                          w="none")],
      thorough=[dict(kinds="abab", w="both"), dict(kinds="oabo", w="end"),
                dict(kinds="abba", w="none", a="both")])
def shift(ctx, kinds, w, a="none", zero=False):
    ctx.exact_floats()
    k = len(kinds)
    marks = stamps(ctx, k, zero)
    times = [v for _, v in marks]
    window = bounds(ctx, "w", w, -2, 12)
    abs_window = bounds(ctx, "a", a, 8, 22)
    path = ctx.write([line(marks[i][0], NAMES[kinds[i]], i)
                      for i in range(k)])
    kw = dict(events=["alpha", "beta"], scope="custom", window=window,
              abs_window=abs_window)
    norm = ftrace(path, normalize_time=True, **kw)
    raw = ftrace(path, normalize_time=False, **kw)
    base = times[0]
    if zero:
        base = raw.basetime
        ctx.check(ctx.le(0, base) and ctx.le(base, STEP), "start at zero")
        times = [base] + times[1:]
    one, two = frames(norm), frames(raw)
    held = []
    for n in ("alpha", "beta"):
        ctx.check(len(one[n][0]) == len(two[n][0]), "same rows")
        ctx.check(ctx.eq([t + times[0] for t in one[n][0]], two[n][0]),
                  "shifted by the first event line")
        ctx.check(ctx.eq(one[n][1], two[n][1]), "columns identical")
        for t in two[n][0]:
            ctx.check(ctx.any(*[ctx.eq(t, x) for x in times]),
                      "times of the trace")
        held += two[n][0]
    for t in (norm, raw):
        ctx.check(ctx.eq(t.basetime, times[0]), "start of the trace")
        ctx.check(ctx.eq(t.endtime, times[-1]), "end of the trace")
        want = 0
        if held:
            lo = hi = held[0]
            for x in held:
                lo = ctx.ite(ctx.lt(x, lo), x, lo)
                hi = ctx.ite(ctx.lt(hi, x), x, hi)
            want = hi - lo
        ctx.check(ctx.eq(t.get_duration(), want), "duration")
    ctx.check(norm.normalized_time is True, "says it is normalised")
    ctx.check(raw.normalized_time is False, "says it is not")
    ctx.observe("t", [one["alpha"][0], one["beta"][0], norm.basetime])


@case("again", bounds="explicit normalisation of a parsed trace by a "
      "symbolic amount", quick=[dict(norm=False), dict(norm=True)])
def again(ctx, norm):
    ctx.exact_floats()
    marks = stamps(ctx, 3)
    times = [v for _, v in marks]
    kinds = ctx.choice("kinds", ["aba", "aab", "aao"])
    path = ctx.write([line(marks[i][0], NAMES[kinds[i]], i)
                      for i in range(3)])
    trace = ftrace(path, events=["alpha", "beta"], scope="custom",
                   normalize_time=norm)
    before = frames(trace)
    amount = ctx.real("amount", -3, 9, den=2)
    trace._normalize_time(amount)
    after = frames(trace)
    for n in ("alpha", "beta"):
        ctx.check(ctx.eq(after[n][0], [t - amount for t in before[n][0]]),
                  "every event shifted alike")
        ctx.check(ctx.eq(after[n][1], before[n][1]), "columns identical")
    ctx.check(ctx.eq(trace.basetime, amount), "new base")
    ctx.check(trace.normalized_time is True, "says it is normalised")


@case("bare", bounds="a bare trace of 2 added events (0-3 rows) at symbolic "
      "times, normalised", quick=[dict(a=2, b=3), dict(a=0, b=2),
                                  dict(a=0, b=0), dict(a=1, b=1)])
def bare(ctx, a, b):
    import pandas
    import trappy
    trace = trappy.BareTrace("bare")
    ctx.check(trace.get_duration() == 0, "no events")
    times = {}
    for name, n in (("one", a), ("two", b)):
        ts = [ctx.real("%s%d" % (name, i), 0, 20, den=2) for i in range(n)]
        for x, y in zip(ts, ts[1:]):
            ctx.assume(ctx.lt(x, y))
        times[name] = ts
        vals = ["%s%d" % (name, i) for i in range(n)]
        trace.add_parsed_event(name, pandas.DataFrame(
            {"v": vals}, index=pandas.Index(ts, name="Time",
                                            dtype=None if n else float)))
    both = times["one"] + times["two"]
    span = 0
    if both:
        lo = hi = both[0]
        for x in both:
            lo = ctx.ite(ctx.lt(x, lo), x, lo)
            hi = ctx.ite(ctx.lt(hi, x), x, hi)
        span = hi - lo
    ctx.check(ctx.eq(trace.get_duration(), span), "duration")
    base = ctx.real("base", 0, 9, den=2)
    trace._normalize_time(base)
    for name in ("one", "two"):
        df = getattr(trace, name).data_frame
        ctx.check(ctx.eq(df.index.tolist(), [t - base for t in times[name]]),
                  "shifted")
        ctx.check(col(df, "v") == ["%s%d" % (name, i)
                                   for i in range(len(times[name]))], "rows")
    ctx.check(ctx.eq(trace.get_duration(), span), "duration unchanged")
