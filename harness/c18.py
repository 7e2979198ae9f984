"""C18: joining events in expressions is exact in time and per pivot."""
from symex.case import case
from harness.common import quiet, ftrace, col, index
from harness.c16 import frozen

ASSUMPTIONS = [
    "values are numbers of one or two digits; pivots and filtered columns "
    "one digit; the join is the default one (latest value, no limit, fill); "
    "expressions combine events without pivot with each other or events with "
    "pivots with each other; every used event has a row left",
]
NAN = float("nan")
NAMES = {"a": "alpha", "b": "beta", "f": "cpu_frequency", "i": "cpu_idle",
         "o": "other"}
VALUE = {"a": "v", "b": "v", "f": "frequency", "i": "state", "o": "v"}
TEXT = {"a": "alpha: v=%s w=%s", "b": "beta: w=%s v=%s",
        "f": "cpu_frequency: state=%s cpu_id=%s",
        "i": "cpu_idle: state=%s cpu_id=%s", "o": "other: v=%s w=%s"}


class Row(object):
    def __init__(self, t, kind, first, second):
        self.t, self.kind = t, kind
        if kind == "b":
            first, second = second, first
        self.v, self.w = int(first), int(second)
        self.text = "  a-1 [000] %d.500000: " % t + \
            TEXT[kind] % ((first, second) if kind != "b"
                          else (second, first))
        self.t += 0.5

    def get(self, column):
        return self.v if column in ("v", "frequency", "state") else self.w


def rows_of(ctx, kinds, digits=2, pivots=None, second="0123456789"):
    rows = []
    for j, kind in enumerate(kinds):
        first = ctx.digits("v%d" % j, digits)
        ctx.assume(first[0] != "0")
        if kind in "fi" and pivots:
            snd = ctx.choice("p%d" % j, pivots)
        else:
            snd = ctx.chars("w%d" % j, 1, second)
        rows.append(Row(j + 1, kind, first, snd))
    return rows


def open_trace(ctx, rows, kinds="ab", **kw):
    lines = ["  a-1 [000] 0.000001: start: x=1"] + [r.text for r in rows]
    kw.setdefault("normalize_time", False)
    return ftrace(ctx.write(lines), events=[NAMES[k] for k in kinds],
                  scope="custom", **kw)


def parser(trace, pvars=None, **kw):
    from trappy.stats.grammar import Parser
    quiet()
    return Parser(trace, pvars=pvars, **kw)


def times_of(rows, kinds):
    return [r.t for r in rows if r.kind in kinds]


def latest(rows, kind, column, times, pivot=None):
    """The event's value at each time: the last one up to it."""
    out = []
    for t in times:
        last = NAN
        for r in rows:
            if r.kind == kind and r.t <= t and (pivot is None or
                                                r.w == pivot):
                last = r.get(column)
        out.append(last)
    return out


def nan(x):
    return type(x) is float and x != x


def combine(fn, x, y, compare=False):
    out = []
    for a, b in zip(x, y):
        if nan(a) or nan(b):
            out.append(False if compare else NAN)
        else:
            out.append(fn(a, b))
    return out


@case("two events", bounds="k lines of two events (and one unused) in every "
      "interleaving, symbolic values; sums, differences, comparisons, same "
      "or different column names",
      quick=[dict(k=3), dict(k=4, other=False)], thorough=[dict(k=5)])
def two(ctx, k, other=True):
    kinds = [ctx.choice("k%d" % j, "abo" if other else "ab")
             for j in range(k)]
    ctx.assume("a" in kinds and "b" in kinds)
    rows = rows_of(ctx, kinds, digits=1)
    trace = open_trace(ctx, rows, "abo")
    before = [frozen(getattr(trace, NAMES[x]).data_frame) for x in "ab"]
    expr, c1, c2, fn, cmp_ = ctx.choice("e", [
        ("alpha:v + beta:v", "v", "v", lambda x, y: x + y, False),
        ("alpha:v - 2 * beta:w", "v", "w", lambda x, y: x - 2 * y, False),
        ("beta:v - alpha:v", "v", "v", lambda x, y: y - x, False),
        ("alpha:v < beta:w", "v", "w", lambda x, y: x < y, True)])
    out = parser(trace).solve(expr)
    times = times_of(rows, "ab")
    ctx.check(out.columns.tolist() == ["NO_PIVOT"], "columns")
    ctx.check(ctx.eq(index(out), times), "times")
    want = combine(fn, latest(rows, "a", c1, times),
                   latest(rows, "b", c2, times), cmp_)
    ctx.check(ctx.eq(col(out, "NO_PIVOT"), want), expr)
    ctx.check(ctx.eq([frozen(getattr(trace, NAMES[x]).data_frame)
                      for x in "ab"], before), "trace unaltered")
    ctx.observe("got", col(out, "NO_PIVOT"))


@case("pivots", bounds="k lines of two events with pivots 0-2, every "
      "interleaving and pivot of each line, symbolic values",
      quick=[dict(k=3), dict(k=4, pivots="01")], thorough=[dict(k=4),
      dict(k=5, pivots="01")])
def pivots(ctx, k, pivots="012"):
    kinds = ["f"] + [ctx.choice("k%d" % j, "fi") for j in range(1, k)]
    ctx.assume("i" in kinds)
    rows = rows_of(ctx, kinds, digits=1, pivots=list(pivots))
    trace = open_trace(ctx, rows, "fi")
    expr, fn = ctx.choice("e", [
        ("cpu_frequency:frequency + cpu_idle:state", lambda x, y: x + y),
        ("cpu_idle:state * 2 - cpu_frequency:frequency",
         lambda x, y: 2 * y - x)])
    out = parser(trace).solve(expr)
    times = times_of(rows, "fi")
    ctx.check(ctx.eq(index(out), times), "times")
    seen = {x: sorted(set(int(r.w) for r in rows if r.kind == x))
            for x in "fi"}
    ctx.check(sorted(out.columns) == sorted(set(seen["f"] + seen["i"])),
              "pivots")
    for p in seen["f"] + seen["i"]:
        if p in seen["f"] and p in seen["i"]:
            want = combine(fn, latest(rows, "f", "frequency", times, p),
                           latest(rows, "i", "state", times, p))
        else:
            want = [NAN] * len(times)
        ctx.check(ctx.eq(col(out, p), want), "pivot %d" % p)
    ctx.observe("got", [col(out, p) for p in sorted(out.columns)])


@case("names as pivots", bounds="k lines of an event and one of another "
      "whose pivots are each one of a number and two names, symbolic values",
      quick=[dict(k=2)], thorough=[dict(k=3)])
def names_as_pivots(ctx, k):
    quiet()
    who = ["7", "sh", "init"]
    a = [(ctx.choice("p%d" % j, who), ctx.digits("v%d" % j, 1))
         for j in range(k)]
    b = (ctx.choice("q", who), ctx.digits("w", 1))
    lines = ["  a-1 [000] 0.000001: start: x=1"]
    for j, (p, v) in enumerate(a):
        lines.append("  a-1 [000] %d.500000: alpha: who=" % (j + 1) + p +
                     " v=" + v)
    lines.append("  a-1 [000] %d.500000: beta: who=" % (k + 1) + b[0] +
                 " v=" + b[1])
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom", normalize_time=False)
    for cls in (type(trace.alpha), type(trace.beta)):
        cls.pivot = "who"

    def key(p):
        return int(p) if p.isdigit() else p
    mine = []
    for p, _ in a:
        if key(p) not in mine:
            mine.append(key(p))
    info = parser(trace).inspect("alpha:v")
    ctx.check(info["pivot"] == "who" and
              len(info["pivot_values"]) == len(mine) and
              all(p in info["pivot_values"] for p in mine), "pivot values")
    out = parser(trace).solve("alpha:v")
    ctx.check(len(out.columns) == len(mine) and
              all(p in list(out.columns) for p in mine), "pivots")
    for p in mine:
        want, last = [], NAN
        for q, v in a:
            last = int(v) if key(q) == p else last
            want.append(last)
        ctx.check(ctx.eq(col(out, p), want), "values of the pivot")
    out = parser(trace).solve("alpha:v + beta:v")
    for p in mine:
        want = [NAN] * (k + 1)
        if p == key(b[0]):
            last = [int(v) for q, v in a if key(q) == p][-1]
            want[k] = last + int(b[1])
        ctx.check(ctx.eq(col(out, p), want), "joined")


@case("many pivots", bounds="two events with 20 pivots each, two values of "
      "them symbolic", quick=[{}])
def many_pivots(ctx):
    n = 20
    lines = ["  a-1 [000] 0.000001: start: x=1"]
    f = [str(i % 7 + 1) for i in range(n)]
    s = [str(i % 5 + 1) for i in range(n)]
    f[2], s[18] = ctx.digits("f", 1), ctx.digits("s", 1)
    for i in range(n):
        lines.append("  a-1 [000] %d.500000: " % (i + 1) +
                     TEXT["f"] % (f[i], str(i)))
        lines.append("  a-1 [000] %d.500000: " % (i + 31) +
                     TEXT["i"] % (s[i], str(i)))
    lines[1:] = lines[1::2] + lines[2::2]
    trace = ftrace(ctx.write(lines), events=[NAMES["f"], NAMES["i"]],
                   scope="custom", normalize_time=False)
    out = parser(trace).solve("cpu_frequency:frequency + cpu_idle:state")
    times = [i + 1.5 for i in range(n)] + [i + 31.5 for i in range(n)]
    ctx.check(index(out) == times, "times")
    ctx.check(sorted(out.columns) == list(range(n)), "pivots")
    for c in range(n):
        ctx.check(ctx.eq(col(out, c),
                         [NAN] * (n + c) + [int(f[c]) + int(s[c])] *
                         (n - c)), "pivot %d" % c)


@case("one pivot", bounds="an event of k lines with pivots 0-2 and one "
      "column reference; times without a row of a pivot repeat its latest "
      "value", quick=[dict(k=3)], thorough=[dict(k=5)])
def one_pivot(ctx, k):
    rows = rows_of(ctx, ["f"] * k, digits=2, pivots=list("012"))
    trace = open_trace(ctx, rows, "f")
    out = parser(trace).solve("cpu_frequency:frequency")
    times = times_of(rows, "f")
    ctx.check(ctx.eq(index(out), times), "times")
    have = sorted(set(int(r.w) for r in rows))
    ctx.check(sorted(out.columns) == have, "pivots")
    for p in have:
        ctx.check(ctx.eq(col(out, p), latest(rows, "f", "frequency", times,
                                             p)), "pivot %d" % p)


@case("windows", bounds="k events at times 1.5, 2.5, ...; windows with "
      "symbolic (multiples of 1/2) or open bounds",
      quick=[dict(k=3, kind=x) for x in ("open", "both", "end")],
      thorough=[dict(k=5, kind=x) for x in ("open", "both", "end")])
def windows(ctx, k, kind):
    ctx.exact_floats()
    kinds = [ctx.choice("k%d" % j, "ab") for j in range(k)]
    rows = rows_of(ctx, kinds, digits=1)
    trace = open_trace(ctx, rows, "ab")
    lo = ctx.real("lo", 0, k + 2, den=2) if kind != "end" else 0
    hi = ctx.real("hi", 0, k + 2, den=2) if kind != "open" else None
    left = []
    for r in rows:
        if ctx.le(lo, r.t) and (hi is None or ctx.le(r.t, hi)):
            left.append(r)
    p = parser(trace, window=(lo, hi))
    used = [x for x in "ab" if x in kinds]
    gone = [x for x in used if not [r for r in left if r.kind == x]]
    expr = "alpha:v + beta:w" if len(used) == 2 else \
        NAMES[used[0]] + ":v * 2"
    if gone:
        refused = False
        try:
            p.solve(expr)
        except ValueError:
            refused = True
        ctx.check(refused, "events without rows are refused")
        return
    out = p.solve(expr)
    times = [r.t for r in left]
    ctx.check(ctx.eq(index(out), times), "times")
    if len(used) == 2:
        want = combine(lambda x, y: x + y, latest(left, "a", "v", times),
                       latest(left, "b", "w", times))
    else:
        want = [r.v * 2 for r in left]
    ctx.check(ctx.eq(col(out, "NO_PIVOT"), want), expr)
    ctx.observe("got", col(out, "NO_PIVOT"))


@case("filters", bounds="k rows of two events, symbolic values of the "
      "filtered column, a value or a list of values, filters of columns an "
      "event does not have",
      quick=[dict(k=3, kind=x) for x in ("one", "list", "cpu")] +
      [dict(k=2, kind="two"), dict(k=2, kind="swapped")],
      thorough=[dict(k=4, kind=x) for x in ("one", "list", "cpu", "two",
                                            "swapped")])
def filters(ctx, k, kind):
    kinds = ["a"] + [ctx.choice("k%d" % j, "af") for j in range(1, k)]
    ctx.assume("f" in kinds or kind not in ("cpu", "two"))
    rows = []
    for j, x in enumerate(kinds):
        first = ctx.digits("v%d" % j, 1)
        ctx.assume(first[0] != "0")
        rows.append(Row(j + 1, x, first, ctx.chars("w%d" % j, 1, "123")))
    trace = open_trace(ctx, rows, "af")
    flt = {"one": {"w": 2}, "list": {"w": [1, 3]}, "cpu": {"cpu": [2]},
           "two": {"w": [1, 2], "cpu": [1, 3], "nosuch": 5},
           "swapped": {"nosuch": 5, "cpu": [1, 3], "w": [1, 2]}}[kind]

    def keep(r):
        wanted = flt.get("w" if r.kind == "a" else "cpu")
        if wanted is None:
            return True
        wanted = list(wanted) if type(wanted) in (list, tuple) else [wanted]
        return ctx.any(*[r.w == x for x in wanted])
    left = [r for r in rows if keep(r)]
    p = parser(trace, filters=flt)
    if not [r for r in left if r.kind == "a"]:
        refused = False
        try:
            p.solve("alpha:v")
        except ValueError:
            refused = True
        ctx.check(refused, "events without rows are refused")
        return
    out = p.solve("alpha:v + alpha:w")
    ctx.check(ctx.eq(index(out), times_of(left, "a")), "times")
    ctx.check(ctx.eq(col(out, "NO_PIVOT"),
                     [r.v + r.w for r in left if r.kind == "a"]), "values")
    if [r for r in left if r.kind == "f"]:
        out = parser(trace, filters=flt).solve("cpu_frequency:frequency")
        times = times_of(left, "f")
        ctx.check(ctx.eq(index(out), times), "times of the pivoted event")
        have = []
        for c in (1, 2, 3):
            if ctx.any(*[r.w == c for r in left if r.kind == "f"]):
                have.append(c)
        ctx.check(ctx.eq(sorted(out.columns), have), "pivots")
        for c in have:
            ctx.check(ctx.eq(col(out, c), latest(left, "f", "frequency",
                                                 times, c)), "pivot")


EXPRS = [("alpha:v * 2", "a"), ("beta:v + 1", "b"), ("alpha:w", "a"),
         ("alpha:v + beta:w", "ab"), ("beta:v - alpha:v", "ab")]


def expected(rows, expr, times):
    a = lambda c: latest(rows, "a", c, times)
    b = lambda c: latest(rows, "b", c, times)
    one = [1] * len(times)
    return {"alpha:v * 2": lambda: combine(lambda x, y: 2 * x, a("v"), one),
            "beta:v + 1": lambda: combine(lambda x, y: x + y, b("v"), one),
            "alpha:w": lambda: a("w"),
            "alpha:v + beta:w": lambda: combine(lambda x, y: x + y, a("v"),
                                                b("w")),
            "beta:v - alpha:v": lambda: combine(lambda x, y: x - y, b("v"),
                                                a("v"))}[expr]()


@case("histories", bounds="n expressions of 5 kinds one after the other on "
      "one parser, k lines of two events",
      quick=[dict(n=2, k=3)], thorough=[dict(n=3, k=4)])
def histories(ctx, n, k):
    kinds = ctx.choice("kinds", ["aba", "baa", "bab", "abb"]
                       if k == 3 else ["abba", "baab", "abab"])
    rows = rows_of(ctx, list(kinds), digits=1)
    trace = open_trace(ctx, rows, "ab")
    before = [frozen(getattr(trace, NAMES[x]).data_frame) for x in "ab"]
    p = parser(trace)
    used = ""
    for i in range(n):
        expr, kk = ctx.choice("e%d" % i, EXPRS)
        used += kk
        out = p.solve(expr)
        times = times_of(rows, used)
        ctx.check(ctx.eq(index(out), times), "times")
        ctx.check(ctx.eq(col(out, "NO_PIVOT"), expected(rows, expr, times)),
                  "evaluation %d: " % i + expr)
        again = p.solve(expr)
        ctx.check(ctx.eq(col(again, "NO_PIVOT"), col(out, "NO_PIVOT")),
                  "the same again")
    ctx.check(ctx.eq([frozen(getattr(trace, NAMES[x]).data_frame)
                      for x in "ab"], before), "trace unaltered")


@case("references", bounds="k lines of two events, ref() of a comparison "
      "mask, inspect() of columns", quick=[dict(k=3)], thorough=[dict(k=4)])
def references(ctx, k):
    kinds = [ctx.choice("k%d" % j, "ab") for j in range(k)]
    ctx.assume("a" in kinds and "b" in kinds)
    rows = rows_of(ctx, kinds, digits=1)
    trace = open_trace(ctx, rows, "ab")
    p = parser(trace)
    mask = p.solve("alpha:v > beta:w")
    out = p.ref(mask["NO_PIVOT"])
    times = times_of(rows, "ab")
    a, b = latest(rows, "a", "v", times), latest(rows, "b", "w", times)
    hit = [i for i in range(k) if not nan(a[i]) and not nan(b[i]) and
           a[i] > b[i]]
    ctx.check(ctx.eq(index(out), [times[i] for i in hit]), "times")
    ctx.check(ctx.eq(out[("v", "NO_PIVOT")].tolist(), [a[i] for i in hit]),
              "alpha")
    ctx.check(ctx.eq(out[("w", "NO_PIVOT")].tolist(), [b[i] for i in hit]),
              "beta")
    info = p.inspect("alpha:v")
    ctx.check(info["length"] == len(times_of(rows, "a")) and
              info["column_present"] and info["column"] == "v" and
              info["pivot"] is None and info["class"].name == "alpha",
              "inspect")
    ctx.check(not p.inspect("beta:nosuch")["column_present"], "no column")
