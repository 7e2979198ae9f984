"""C11: callbacks see every event once, in trace order."""
from symex.case import case
from harness.common import ftrace, col, index

ASSUMPTIONS = [
    "at most 5 events of 3 kinds; column names of letters, digits, '_', '.' "
    "and '-'",
]
NAMES = ["alpha", "beta", "gamma"]


def record(trace, events):
    log = []

    def maker(name):
        return lambda row: log.append((name, dict(row)))
    trace.apply_callbacks({e: maker(e) for e in events})
    return log


def expected(trace, events):
    rows = []
    for e in events:
        df = getattr(trace, e).data_frame
        if not len(df):
            continue
        cols = [(c, col(df, c)) for c in df.columns]
        for i, t in enumerate(index(df)):
            row = {"Index": t}
            for c, vals in cols:
                row[c] = vals[i]
            rows.append((e, row))
    rows.sort(key=lambda r: r[1]["__line"])
    return rows


def check_log(ctx, log, want):
    ctx.check(len(log) == len(want), "one call per row")
    for (e, row), (f, exp) in zip(log, want):
        ctx.check(e == f, "callback of the right event, in order")
        ctx.check(set(row) == set(exp), "every column under its own name")
        for k in exp:
            ctx.check(ctx.eq(row[k], exp[k]), "value of every column")


@case("interleaving", bounds="k lines of 4 kinds (one not asked for) with "
      "symbolic stamps and values, callbacks for 1 to 3 events",
      quick=[dict(k=3, n=2), dict(k=3, n=3), dict(k=4, n=2), dict(k=2, n=1),
             dict(k=0, n=2)],
      thorough=[dict(k=4, n=3), dict(k=5, n=2)])
def interleaving(ctx, k, n):
    kinds = [ctx.choice("k%d" % i, NAMES[:n] + ["other"]) for i in range(k)]
    lines = ["version = 6"]
    vals = []
    for i in range(k):
        s = ctx.digits("s%d" % i, 1)
        v = ctx.digits("v%d" % i, 1)
        vals.append(int(v))
        lines.append("  t%d-%d [00%d] 1.%s00000: %s: v=%s w%d=q" %
                     (i, i + 5, i, "%s", kinds[i], "%s", i))
        lines[-1] = lines[-1].replace("%s", s, 1).replace("%s", v, 1)
    if not k:
        lines.append("  a-1 [000] 1.000000: other: v=1")
    ctx.exact_floats()
    trace = ftrace(ctx.write(lines), events=NAMES[:n] + ["other"],
                   scope="custom")
    asked = NAMES[:n]
    if n == 3:
        asked = ctx.choice("asked", [NAMES, NAMES[::-1]])
    before = {e: (index(getattr(trace, e).data_frame),
                  [col(getattr(trace, e).data_frame, c) for c in
                   getattr(trace, e).data_frame.columns]) for e in asked}
    log = record(trace, asked)
    check_log(ctx, log, expected(trace, asked))
    # independent of the tables: order and values are those of the lines
    mine = [i for i in range(k) if kinds[i] in asked]
    ctx.check([e for e, _ in log] == [kinds[i] for i in mine],
              "order of the lines")
    for (e, row), i in zip(log, mine):
        ctx.check(row["__line"] == i and row["__pid"] == i + 5 and
                  row["__comm"] == "t%d" % i and row["__cpu"] == i, "line")
        ctx.check(ctx.eq(row["v"], vals[i]), "value")
        ctx.check(row["w%d" % i] == "q", "own column")
    after = {e: (index(getattr(trace, e).data_frame),
                 [col(getattr(trace, e).data_frame, c) for c in
                  getattr(trace, e).data_frame.columns]) for e in asked}
    ctx.check(ctx.eq(before, after), "tables unchanged")
    ctx.observe("log", [[e, row["v"]] for e, row in log])


@case("column names", bounds="odd column names with symbolic values",
      quick=[{}], thorough=[dict(n=3)])
def column_names(ctx, n=2):
    names = []
    for i in range(n):
        names.append(ctx.choice("n%d" % i, [
            "class", "_x", "a.b", "1a", "__y", "def", "Index2", "a-b", "_1",
            "count", "index"]))
    ctx.assume(len(set(names)) == len(names))
    vals = [ctx.digits("v%d" % i, 1) for i in range(n)]
    more = ctx.bool("more")
    lines = ["  a-1 [000] 1.000000: alpha: " + " ".join(
        c + "=" + v for c, v in zip(names, vals)),
        "  a-1 [000] 2.000000: beta: " + names[0] + "=7"]
    if more:
        lines.append("  a-1 [000] 3.000000: alpha: " + names[0] + "=x")
    trace = ftrace(ctx.write(lines), events=["alpha", "beta"],
                   scope="custom")
    log = record(trace, ["beta", "alpha"])
    ctx.check([e for e, _ in log] == ["alpha", "beta"] + ["alpha"] * more,
              "order")
    ctx.check(set(log[0][1]) == set(names) |
              {"Index", "__comm", "__pid", "__cpu", "__line"}, "columns")
    for c, v in zip(names, vals):
        got = log[0][1][c]
        ctx.check(ctx.eq(got, int(v)), "value under its own name")
    ctx.check(log[1][1][names[0]] == 7, "other event")
    ctx.check(ctx.eq([r["Index"] for _, r in log],
                     [0.0, 1.0, 2.0][:len(log)]), "times")
    if more:
        ctx.check(log[2][1][names[0]] == "x", "later row")


@case("windowed", bounds="callbacks on a trace with symbolic window",
      quick=[{}])
def windowed(ctx):
    ctx.exact_floats()
    lo = ctx.real("lo", -1, 4, den=2)
    hi = ctx.real("hi", -1, 4, den=2)
    kinds = ["alpha", "beta", "alpha", "beta"]
    trace = ftrace(ctx.write(["  a-1 [000] %d.000000: %s: v=%d" %
                              (10 + i, kinds[i], i) for i in range(4)]),
                   events=["alpha", "beta"], scope="custom",
                   window=(lo, hi))
    log = record(trace, ["beta", "alpha"])
    want = [i for i in range(4) if lo <= i and i <= hi]
    ctx.check([r["v"] for _, r in log] == want, "rows of the window")
    ctx.check([e for e, _ in log] == [kinds[i] for i in want], "events")


@case("shared callback", bounds="three kinds of events of which any may share "
      "one callback", quick=[dict(k=3)], thorough=[dict(k=4)])
def shared_callback(ctx, k):
    kinds = [ctx.choice("k%d" % i, NAMES) for i in range(k)]
    vals = [ctx.digits("v%d" % i, 1) for i in range(k)]
    trace = ftrace(ctx.write(["  a-1 [000] " + str(10 + i) +
                              ".000000: " + kinds[i] + ": v=" + vals[i]
                              for i in range(k)]),
                   events=NAMES, scope="custom")
    log = []
    fns = [lambda row: log.append((0, row["v"])),
           lambda row: log.append((1, row["v"]))]
    use = {n: ctx.choice("f" + n, [0, 1, None]) for n in NAMES}
    trace.apply_callbacks({n: fns[f] for n, f in use.items()
                           if f is not None})
    want = [(use[kind], int(v)) for kind, v in zip(kinds, vals)
            if use[kind] is not None]
    ctx.check(len(log) == len(want), "one call per row")
    for got, exp in zip(log, want):
        ctx.check(got[0] == exp[0], "callback given for the event")
        ctx.check(ctx.eq(got[1], exp[1]), "rows in trace order")
