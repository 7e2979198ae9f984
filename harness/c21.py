"""C21: a plotted signal is exactly the filtered, pivoted column."""
from symex.case import case
from harness.common import quiet, ftrace
from harness.c16 import frozen

ASSUMPTIONS = [
    "values, pivots and filtered columns are numbers of one digit; filters "
    "are lists of values, as documented; times are unique and increasing; "
    "windows have an end not before their start",
]
NONE = "__TRAPPY_PIVOT_DEFAULT"
ALL = "__TRAPPY_DEFAULT_PIVOT_VAL"


class Row(object):
    def __init__(self, j, cpu, v, w):
        self.t = j + 1.5
        self.cpu, self.v, self.w = int(cpu), int(v), int(w)
        self.text = "  a-1 [000] %d.500000: alpha: cpu=" % (j + 1) + cpu + \
            " v=" + v + " w=" + w


def rows_of(ctx, k, cpus="012", choose=False):
    out = []
    for j in range(k):
        cpu = ctx.choice("c%d" % j, cpus) if choose else \
            ctx.chars("c%d" % j, 1, cpus)
        out.append(Row(j, cpu, ctx.digits("v%d" % j, 1),
                       ctx.chars("w%d" % j, 1, "123")))
    return out


def source(ctx, rows, how):
    """The rows as a trace or as a bare data frame, with its template."""
    quiet()
    trace = ftrace(ctx.write(["  a-1 [000] 0.500000: start: x=1"] +
                             [r.text for r in rows]),
                   events=["alpha"], scope="custom", normalize_time=False)
    if how == "trace":
        return trace, trace.class_definitions["alpha"]
    return trace.alpha.data_frame, None


def constraint(data, template, pivot, filters, window=None, column="v"):
    from trappy.plotter.Constraint import Constraint
    return Constraint(data, pivot, column, template, 0, filters, window)


def member(ctx, x, values):
    return ctx.any(*[x == v for v in values])


def check_result(ctx, result, rows, pivot, keep, column="v"):
    want = {}
    for r in rows:
        if not keep(r):
            continue
        key = ALL
        if pivot != NONE:
            key = next((k for k in want if k == r.cpu), r.cpu)
        want.setdefault(key, []).append(r)
    got = dict(result)
    ctx.check(len(got) == len(want), "pivot values that occur")
    for key, mine in want.items():
        series = [s for k, s in got.items() if k == key]
        ctx.check(len(series) == 1, "pivot value")
        ctx.check(ctx.eq(series[0].index.tolist(), [r.t for r in mine]),
                  "times")
        ctx.check(ctx.eq(series[0].tolist(), [getattr(r, column)
                                              for r in mine]), "values")
    ctx.observe("result", [s.tolist() for s in got.values()])


FILTERS = {"none": {}, "one": {"w": [2]}, "list": {"w": [1, 3]},
           "pivot": {"cpu": [1, 2]}, "both": {"cpu": [0, 2], "w": [2, 3]},
           "other": {"nosuch": [4], "w": [1]}, "value": {"v": [0, 5, 7]},
           "empty": {"w": []}}


@case("rows", bounds="k rows with symbolic values, pivots 0-2 and filtered "
      "column, eight filters, with and without a pivot, trace or data frame",
      quick=[dict(k=2, f=f) for f in sorted(FILTERS)] +
      [dict(k=3, f="none"), dict(k=3, f="one")],
      thorough=[dict(k=3, f=f) for f in ("list", "pivot", "both", "value")])
def rows(ctx, k, f):
    data = rows_of(ctx, k)
    how = ctx.choice("how", ["trace", "frame"])
    pivot = ctx.choice("pivot", [NONE, "cpu"])
    src, template = source(ctx, data, how)
    frame = src if how == "frame" else src.alpha.data_frame
    before = frozen(frame)
    flt = {a: list(b) for a, b in FILTERS[f].items()}
    c = constraint(src, template, pivot, flt)
    known = [x for x in FILTERS[f] if x in ("cpu", "v", "w")]

    def keep(r):
        return ctx.all(*[member(ctx, getattr(r, x), FILTERS[f][x])
                         for x in known])
    check_result(ctx, c.result, data, pivot, keep)
    ctx.check(ctx.eq(frozen(frame), before) and flt == FILTERS[f],
              "data unaltered")
    ctx.check(str(c) == ("Trace 0:alpha:v" if how == "trace"
                         else "DataFrame 0:v"), "label")


@case("windows", bounds="k rows at times 1.5, 2.5, ...; window with symbolic "
      "bounds (multiples of 1/2, before, inside and after the data): the "
      "rows inside, the last up to its start and the first from its end on",
      quick=[dict(k=1), dict(k=3)], thorough=[dict(k=5)])
def windows(ctx, k):
    ctx.exact_floats()
    data = rows_of(ctx, k, "01", choose=True)
    how = ctx.choice("how", ["trace", "frame"]) if k < 3 else "trace"
    pivot = ctx.choice("pivot", [NONE, "cpu"])
    lo = ctx.real("lo", 0, k + 2, den=2)
    hi = ctx.real("hi", 0, k + 2, den=2)
    ctx.assume(ctx.le(lo, hi))
    src, template = source(ctx, data, how)
    c = constraint(src, template, pivot, {}, (lo, hi))
    first = [r.t for r in data if r.t <= lo]
    last = [r.t for r in data if r.t >= hi]
    a = first[-1] if first else -1
    b = last[0] if last else k + 9
    check_result(ctx, c.result, data, pivot,
                 lambda r: a <= r.t and r.t <= b)


@case("absent", bounds="columns and pivots the event does not have, events "
      "without rows", quick=[dict(k=0), dict(k=2)])
def absent(ctx, k):
    data = rows_of(ctx, k)
    how = ctx.choice("how", ["trace", "frame"])
    src, template = source(ctx, data, how)
    column = ctx.choice("column", ["v", "nosuch"])
    pivot = ctx.choice("pivot", [NONE, "cpu", "nosuch"])
    c = constraint(src, template, pivot, {}, None, column)
    if column == "nosuch" or pivot == "nosuch":
        ctx.check(len(c.result) == 0, "nothing to plot")
    else:
        check_result(ctx, c.result, data, pivot, lambda r: True)


@case("empty cells", bounds="a data frame of k rows of symbolic values of "
      "which any are empty, also in the filtered and the pivot column",
      quick=[dict(k=3)], thorough=[dict(k=4)])
def empty_cells(ctx, k):
    import pandas as pd
    quiet()
    nan = float("nan")
    v = [nan if ctx.bool("no v%d" % j) else int(ctx.digits("v%d" % j, 1))
         for j in range(k)]
    w = [nan if ctx.bool("no w%d" % j) else 2 for j in range(k)]
    frame = pd.DataFrame({"v": v, "w": w, "cpu": [0, 1, 0, 1][:k]},
                         index=[j + 1.5 for j in range(k)])
    flt = ctx.choice("filter", [{}, {"w": [2, 3]}])
    pivot = ctx.choice("pivot", [NONE, "cpu"])
    result = constraint(frame, None, pivot, flt).result
    want = {}
    for j in range(k):
        if flt and w[j] != 2:
            continue
        want.setdefault(ALL if pivot == NONE else j % 2, []).append(j)
    ctx.check(sorted(result, key=str) == sorted(want, key=str), "pivots")
    for p, mine in want.items():
        ctx.check(result[p].index.tolist() == [j + 1.5 for j in mine],
                  "times")
        ctx.check(ctx.eq(result[p].tolist(), [v[j] for j in mine]), "values")


@case("texts", bounds="k rows with a symbolic one-letter text as pivot, "
      "filtered by text", quick=[dict(k=2), dict(k=3)],
      thorough=[dict(k=4)])
def texts(ctx, k):
    quiet()
    names = [ctx.choice("n%d" % j, ["b", "ab", "bc"]) for j in range(k)]
    tags = [ctx.chars("t%d" % j, 1, "xyz") for j in range(k)]
    vals = [ctx.digits("v%d" % j, 1) for j in range(k)]
    trace = ftrace(ctx.write(["  a-1 [000] %d.500000: alpha: n=%s t=" %
                              (j + 1, names[j]) + tags[j] + " v=" + vals[j]
                              for j in range(k)]),
                   events=["alpha"], scope="custom", normalize_time=False)
    which = ctx.choice("filter", [{"t": ["x", "z"]}, {"n": ["b", "bc"]},
                                  {"n": ["ab"], "t": ["y"]}])
    c = constraint(trace, trace.class_definitions["alpha"], "n",
                   {a: list(b) for a, b in which.items()})
    want = {}
    for j in range(k):
        if "t" in which and not member(ctx, tags[j], which["t"]):
            continue
        if "n" in which and names[j] not in which["n"]:
            continue
        want.setdefault(names[j], []).append(j)
    ctx.check(sorted(c.result) == sorted(want), "pivot values")
    for name, mine in want.items():
        ctx.check(ctx.eq(c.result[name].index.tolist(),
                         [j + 1.5 for j in mine]), "times")
        ctx.check(ctx.eq(c.result[name].tolist(),
                         [int(vals[j]) for j in mine]), "values")
