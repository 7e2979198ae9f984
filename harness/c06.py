"""C06: every line goes to the one right event, fallback last."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "no line carries the markers of two requested specific events; free text "
    "has no blanks at its ends and no 'word: ' tags (those belong to the "
    "line header)",
]
HEAD = "  a-1 [000] %d.000000: "
KINDS = {                       # kind -> (line body, claimed by, fields)
    "alpha": ("alpha: v=%s", "alpha"),
    "beta": ("beta: v=%s", "beta"),
    "free": ("tracing_mark_write: v=%s", "tracing_mark_write"),
    "tagged": ("tracing_mark_write: alpha: v=%s", "alpha"),
    "other": ("gamma: v=%s", None),
}


def claim(kind, events):
    if kind == "tagged":
        if "alpha" in events:
            return "alpha"
        return "tracing_mark_write" if "tracing_mark_write" in events \
            else None
    who = KINDS[kind][1]
    return who if who in events else None


def rows_of(ctx, trace, name):
    df = getattr(trace, name).data_frame
    if not len(df):
        return []
    c = "string" if name == "tracing_mark_write" else "v"
    return list(zip(col(df, "__line"), col(df, c)))


@case("dispatch", bounds="k lines of 5 symbolic kinds with a symbolic value, "
      "requested events in every order and subset",
      quick=[dict(k=2, ev=3), dict(k=3, ev=2), dict(k=3, ev=3)],
      thorough=[dict(k=4, ev=2), dict(k=4, ev=3)])
def dispatch(ctx, k, ev):
    pool = ["tracing_mark_write", "alpha", "beta"]
    if ev == 3:
        events = ctx.perm("order", pool) if k < 3 else \
            ctx.choice("order", [pool, pool[::-1], ["alpha"] + pool[::2]])
    else:
        events = ctx.choice("events", [pool[:2], pool[1::-1], pool[1:]])
    kinds = [ctx.choice("k%d" % i, sorted(KINDS)) for i in range(k)]
    vals = [ctx.digits("v%d" % i, 1) for i in range(k)]
    lines = [HEAD % (i + 1) + KINDS[kinds[i]][0].replace("%s", vals[i])
             for i in range(k)]
    trace = ftrace(ctx.write(lines), events=events, scope="custom")
    for name in events:
        want = []
        for i in range(k):
            if claim(kinds[i], events) == name:
                want.append((i, "v=" + vals[i] if name[0] == "t"
                             else int(vals[i])))
        got = rows_of(ctx, trace, name)
        ctx.check(len(got) == len(want), name + ": number of rows")
        ctx.check(ctx.eq(got, want), name + ": rows")
        ctx.observe(name, got)


@case("free text", bounds="one marker line with n symbolic characters of "
      "text, one specific event beside it",
      quick=[dict(n=1), dict(n=4), dict(n=6)], thorough=[dict(n=8)])
def free_text(ctx, n):
    text = ctx.text("text", n, "aZ =:{}1|")
    ctx.assume(text[0] != " " and text[-1] != " ")
    ctx.assume(": " not in text)
    alsospecific = ctx.bool("specific")
    trace = ftrace(
        ctx.write([HEAD % 1 + "alpha: v=3",
                   HEAD % 2 + "tracing_mark_write: " + text]),
        events=["tracing_mark_write"] + (["alpha"] if alsospecific else []),
        scope="custom")
    df = trace.tracing_mark_write.data_frame
    ctx.check(len(df) == 1, "one row")
    ctx.check(ctx.eq(col(df, "string")[0], text), "text untouched")
    ctx.check(sorted(df.columns) == ["__comm", "__cpu", "__line", "__pid",
                                     "string"], "columns")
    if alsospecific:
        ctx.check(col(trace.alpha.data_frame, "v") == [3], "other event")
    ctx.observe("text", col(df, "string")[0])


@case("two texts", bounds="two marker lines of free text with array "
      "lookalikes", quick=[{}])
def two_texts(ctx):
    a = ctx.text("a", 2, "x1{}")
    b = ctx.text("b", 1, " 2}")
    one = "q={" + a + "} z"
    two = "q={9 8" + b + "7} w"
    df = ftrace(ctx.write([HEAD % 1 + "tracing_mark_write: " + one,
                           HEAD % 2 + "tracing_mark_write: " + two]),
                events=["tracing_mark_write"],
                scope="custom").tracing_mark_write.data_frame
    ctx.check(ctx.eq(col(df, "string"), [one, two]), "texts untouched")


@case("more events", bounds="the same trace with more events requested; "
      "3 lines of 5 kinds", quick=[dict(scope="custom"), dict(scope="all")])
def more_events(ctx, scope):
    kinds = [ctx.choice("k%d" % i, sorted(KINDS)) for i in range(3)]
    vals = [ctx.digits("v%d" % i, 2) for i in range(3)]
    lines = [HEAD % (i + 1) + KINDS[kinds[i]][0].replace("%s", "q" + vals[i])
             for i in range(3)]
    path = ctx.write(lines)
    few = ftrace(path, events=["alpha"], scope="custom")
    more = ftrace(path, events=["beta", "alpha", "gamma",
                                "tracing_mark_write"], scope=scope)
    ctx.check(ctx.eq(rows_of(ctx, few, "alpha"), rows_of(ctx, more, "alpha")),
              "rows of alpha")
    ctx.check(ctx.eq(rows_of(ctx, few, "alpha"),
                     [(i, "q" + vals[i]) for i in range(3)
                      if kinds[i] in ("alpha", "tagged")]), "rows of alpha")
    ctx.check(ctx.eq(rows_of(ctx, more, "tracing_mark_write"),
                     [(i, "v=q" + vals[i]) for i in range(3)
                      if kinds[i] == "free"]), "free text")


@case("registration order", bounds="three registered parsers in every order, "
      "one of them a fallback with its own marker",
      quick=[{}])
def registration_order(ctx):
    import trappy
    from trappy.base import Base

    class Notes(Base):
        unique_word = "note:"
        name = "notes"

        def __init__(self):
            super(Notes, self).__init__(fallback=True)

    order = ctx.perm("o", ["notes", "one", "two"])
    made = []
    for name in order:
        if name == "notes":
            trappy.register_ftrace_parser(Notes)
            made.append(Notes)
        else:
            made.append(trappy.register_dynamic_ftrace(
                name.capitalize(), "tag_" + name))
    vals = [ctx.digits("v%d" % i, 1) for i in range(4)]
    bodies = ["note: v=", "note: tag_one: v=", "other: tag_two: v=",
              "note: tag_two: v="]
    kinds = [ctx.choice("k%d" % i, [0, 1, 2, 3]) for i in range(2)]
    lines = [HEAD % (i + 1) + bodies[kinds[i]] + vals[i] for i in range(2)]
    trace = ftrace(ctx.write(lines))
    for name, mine in (("notes", [0]), ("one", [1]), ("two", [2, 3])):
        want = [(i, int(vals[i])) for i in range(2) if kinds[i] in mine]
        got = rows_of(ctx, trace, name)
        ctx.check(ctx.eq(got, want), name + ": rows")
    for c in made:
        trappy.unregister_ftrace_parser(c)
