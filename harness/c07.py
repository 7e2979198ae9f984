"""C07: time windows keep exactly the events inside, ends included."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "stamps and window bounds are multiples of 1/2 s below 100 s (so that "
    "the real floats agree with the exact reals); the start of a window is a "
    "number, only its end can be None; no window ends at exactly 0 when the "
    "first stamp is 0 (that event is put at the smallest positive time)",
]


def stamp(ctx, name, lo=0):
    """A stamp text (symbolic) and its exact value."""
    whole = ctx.digits(name, 1)
    half = ctx.text(name + "h", 1, "05")
    text = "1" + whole + "." + half + "00000"
    return text, 10 + int(whole) + int(half) / 10


def stamps(ctx, k, zero=False):
    """k strictly increasing stamps."""
    out = []
    for i in range(k):
        if zero and i == 0:
            out.append(("0.000000", ctx.real_const(0)))
            continue
        out.append(stamp(ctx, "t%d" % i))
    for a, b in zip(out, out[1:]):
        ctx.assume(ctx.lt(a[1], b[1]))
    return out


def bounds(ctx, name, kind, lo, hi):
    """A window of the given kind: default, end None, both, both=0."""
    if kind == "none":
        return (0, None)
    start = ctx.real(name + "0", lo, hi, den=2)
    if kind == "open":
        return (start, None)
    if kind == "end":
        return (0, ctx.real(name + "1", lo, hi, den=2))
    if kind == "zero":
        return (start, 0)
    return (start, ctx.real(name + "1", lo, hi, den=2))


def inside(ctx, t, base, window, abs_window):
    conds = [ctx.le(window[0], t - base), ctx.le(abs_window[0], t)]
    if window[1] is not None:
        conds.append(ctx.le(t - base, window[1]))
    if abs_window[1] is not None:
        conds.append(ctx.le(t, abs_window[1]))
    return ctx.all(*conds)


def compare(ctx, trace, name, times, kinds, base, window, abs_window, norm):
    df = getattr(trace, name).data_frame
    want = [i for i in range(len(times)) if kinds[i] == name and
            inside(ctx, times[i], base, window, abs_window)]
    got = col(df, "v") if len(df.columns) else []
    ctx.check(len(got) == len(want), name + ": number of events inside")
    ctx.check([int(v) for v in got] == want, name + ": events inside")
    if want:
        ctx.check(ctx.eq(df.index.tolist(),
                         [times[i] - (base if norm else 0) for i in want]),
                  name + ": times")
        ctx.check(ctx.eq(col(df, "w"), ["q%d" % i for i in want]),
                  name + ": values")
    ctx.observe(name, got)


def line(ts, kind, i):
    return "  a-1 [000] %s: %s: v=%d w=q%d" % ("%s", kind, i, i)


def run(ctx, k, kinds, wk, ak, zero=False, norm=None):
    ctx.exact_floats()
    marks = stamps(ctx, k, zero)
    times = [v for _, v in marks]
    window = bounds(ctx, "w", wk, -2, 12)
    abs_window = bounds(ctx, "a", ak, -2 if ak == "zero" else 8, 22)
    if norm is None:
        norm = ctx.bool("norm")
    lines = [line(None, kinds[i], i).replace("%s", marks[i][0])
             for i in range(k)]
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom", normalize_time=norm, window=window,
                   abs_window=abs_window)
    if zero:            # the first time is the smallest positive number
        ctx.check(ctx.le(0, trace.basetime) and
                  ctx.le(trace.basetime, 2.0 ** -29), "start at zero")
        times[0] = trace.basetime
    for name in ("alpha", "beta"):
        compare(ctx, trace, name, times, kinds, times[0], window, abs_window,
                norm)
    return trace


NAMES = {"a": "alpha", "b": "beta", "o": "other"}
WK = ["none", "open", "end", "both", "zero"]


@case("one window", bounds="3 events at symbolic times, one window of each "
      "kind with symbolic bounds",
      quick=[dict(w=w, a="none") for w in WK[1:]] +
      [dict(w="none", a=a) for a in WK[1:]] +
      [dict(w="both", a="none", kinds="oab"),
       dict(w="none", a="both", kinds="oaa"),
       dict(w="end", a="none", kinds="aoa", zero=True),
       dict(w="none", a="open", kinds="aba", zero=True)],
      thorough=[dict(w="both", a="none", kinds="abao"),
                dict(w="none", a="both", kinds="oaba"),
                dict(w="both", a="none", kinds="aaaaa")])
def one_window(ctx, w, a, kinds="aba", zero=False):
    run(ctx, len(kinds), [NAMES[c] for c in kinds], w, a, zero)


@case("both windows", bounds="k events at symbolic times, a relative and "
      "an absolute window together",
      quick=[dict(w=w, a=a, k=2) for w, a in
             [("both", "both"), ("end", "end"), ("open", "both"),
              ("both", "open"), ("end", "open"), ("open", "end")]],
      thorough=[dict(w="both", a="both", k=3), dict(w="end", a="end", k=4)])
def both_windows(ctx, w, a, k):
    run(ctx, k, ["alpha", "alpha", "beta", "alpha"][:k], w, a, norm=True)
