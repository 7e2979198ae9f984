"""C14: systrace files yield exactly the embedded trace."""
from symex.case import case
from harness.common import quiet, col

ASSUMPTIONS = [
    "marker text has no blanks at its ends and no 'word: ' tags (those belong "
    "to the line header); the trace section has at least one event line",
]
BEGIN = {"comment": "<!-- BEGIN TRACE -->",
         "title": "<title>Android System Trace</title>"}
SCRIPT = {"tag": '  <script class="trace-data" type="application/text">',
          "var": '  var linuxPerfData = "\\',
          "plain": '  <script class="trace-data">'}


def ev(i, body):
    return "  app-7 [001] ...1 %d.500000: %s" % (i, body)


def systrace(path, **kw):
    import trappy
    from trappy.ftrace import GenericFTrace
    quiet()
    old = GenericFTrace.disable_cache
    GenericFTrace.disable_cache = True
    try:
        return trappy.SysTrace(path, **kw)
    finally:
        GenericFTrace.disable_cache = old


def rows(trace, name="alpha"):
    df = getattr(trace, name).data_frame
    return col(df, "v") if len(df) else []


@case("section", bounds="both layouts, 2 kinds of lines of 5 before the page "
      "marker, between the markers, at the start of the section and after "
      "its end, symbolic values",
      quick=[dict(where="before"), dict(where="between"), dict(where="head"),
             dict(where="after"), dict(where="near")])
def section(ctx, where):
    begin = BEGIN[ctx.choice("begin", sorted(BEGIN))]
    script = SCRIPT[ctx.choice("script", sorted(SCRIPT))]
    v = [ctx.digits("v%d" % i, 1) for i in range(6)]
    noise = {
        "event": ev(1, "alpha: v=" + v[0]),
        "text": "<p>alpha: v=4 [000] 3.0: </p>",
        "hash": "#           TASK-PID   CPU#    TIMESTAMP  FUNCTION",
        "close": "</script>",
        "script": SCRIPT["tag"],
        "begin": BEGIN["comment"],
        "blank": ""}
    near = {
        "indented begin": " <!-- BEGIN TRACE -->",
        "late begin": "x<title>Android System Trace</title>",
        "other title": "<title>Android System</title>",
        "other script": '<script class="trace-data">',
        "no data": '  <script class="other">',
        "var": "  var linuxPerf = 3"}
    use = {"before": ["event", "text", "script", "close", "hash"],
           "between": ["event", "text", "begin", "close", "blank"],
           "head": ["hash", "text", "blank", "begin", "script"],
           "after": ["event", "begin", "script", "close", "hash"],
           "near": sorted(near)}[where]
    pool = near if where == "near" else noise
    mine = [pool[ctx.choice("n%d" % i, use)] for i in range(2)]
    e1, e2 = ev(2, "alpha: v=" + v[1]), ev(3, "alpha: v=" + v[2])
    other = ev(4, "beta: v=" + v[3])
    close = ctx.choice("close", ["</script>", "  </script>", '"\\</script>'])
    if where == "before":
        lines = mine + [noise["event"], begin, script, e1, e2, other, close]
    elif where == "between":
        lines = [begin] + mine + [noise["event"], script, e1, e2, other,
                                  close]
    elif where == "head":
        lines = [begin, script] + mine + [e1, mine[0], e2, other, close]
    elif where == "after":
        lines = [begin, script, e1, e2, other, close] + mine + \
            [noise["event"]]
    else:
        # lookalikes of the markers, each followed by an event line
        lines = [mine[0], SCRIPT["tag"], noise["event"], begin, mine[1],
                 noise["event"], script, e1, e2, other, close]
    trace = systrace(ctx.write(lines), events=["alpha", "beta"],
                     scope="custom")
    ctx.check(ctx.eq(rows(trace), [int(v[1]), int(v[2])]), "rows of alpha")
    ctx.check(ctx.eq(rows(trace, "beta"), [int(v[3])]), "rows of beta")
    n = 5 if where == "head" else 3
    lines = col(trace.alpha.data_frame, "__line") + \
        col(trace.beta.data_frame, "__line")
    ctx.check(lines == ([0, 2, 3] if where == "head" else [0, 1, 2]),
              "positions in the trace")
    ctx.check(ctx.eq(trace.basetime, 2.5), "start")
    ctx.check(ctx.eq(trace.endtime, 4.5), "end")
    ctx.observe("v", rows(trace))


@case("end of section", bounds="a section whose closing line has n symbolic "
      "characters before the tag", quick=[dict(n=1), dict(n=3)],
      thorough=[dict(n=6)])
def end_of_section(ctx, n):
    text = ctx.text("text", n, "a <>/\"\\")
    v = [ctx.digits("v%d" % i, 2) for i in range(2)]
    lines = [BEGIN["comment"], SCRIPT["var"], ev(1, "alpha: v=q" + v[0]),
             text + "</script>", ev(2, "alpha: v=q" + v[1]), "</script>"]
    trace = systrace(ctx.write(lines), events=["alpha"], scope="custom")
    ctx.check(ctx.eq(rows(trace), ["q" + v[0]]), "rows of alpha")
    ctx.check(ctx.eq(trace.endtime, 1.5), "end")


@case("not the end", bounds="a line inside the section with the closing tag "
      "followed by n symbolic characters", quick=[dict(n=1), dict(n=3)])
def not_the_end(ctx, n):
    text = ctx.text("text", n, "a <>/\"\\")
    ctx.assume(not text.endswith("</script>"))
    v = [ctx.digits("v%d" % i, 2) for i in range(2)]
    lines = [BEGIN["title"], SCRIPT["tag"], ev(1, "alpha: v=q" + v[0]),
             "x</script>" + text, ev(2, "alpha: v=q" + v[1]), "</script>"]
    trace = systrace(ctx.write(lines), events=["alpha"], scope="custom")
    ctx.check(ctx.eq(rows(trace), ["q" + v[0], "q" + v[1]]), "rows of alpha")
    ctx.check(ctx.eq(trace.endtime, 2.5), "end")


CAPS = "ABZ"
DIGITS = "0123456789"


def decode(text):
    """(letter, pid, name, data) or None for free text."""
    parts = text.split("|", 3)
    if len(parts[0]) != 1 or parts[0] not in CAPS:
        return None
    if len(parts) > 1:
        if not parts[1]:
            return None
        for c in parts[1]:
            if c not in DIGITS:
                return None
    pid = int(parts[1]) if len(parts) > 1 else None
    name = parts[2] if len(parts) > 2 else None
    data = parts[3] if len(parts) > 3 else None
    return (parts[0], pid, name, data)


def missing(x):
    return x is None or (type(x) is float and x != x)


def check_marker(ctx, row, want):
    for key, value in zip(("event", "pid", "func", "data"), want):
        if value is None:
            ctx.check(missing(row[key]), key + " empty")
        else:
            ctx.check(ctx.eq(row[key], value), key)


def page(ctx, bodies, **kw):
    lines = [BEGIN["comment"], SCRIPT["tag"]]
    lines += [ev(i + 1, b) for i, b in enumerate(bodies)]
    return systrace(ctx.write(lines + ["  </script>"]), **kw)


@case("marker text", bounds="one marker of n symbolic characters",
      quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)],
      thorough=[dict(n=6), dict(n=7), dict(n=8)])
def marker_text(ctx, n):
    text = ctx.text("text", n, "AZ|17x :=")
    ctx.assume(text[0] != " " and text[-1] != " ")
    ctx.assume(": " not in text)
    trace = page(ctx, ["tracing_mark_write: " + text],
                 events=["tracing_mark_write"], scope="custom")
    df = trace.tracing_mark_write.data_frame
    ctx.check(len(df) == 1, "one row")
    row = {c: col(df, c)[0] for c in df.columns}
    want = decode(text)
    if want is None:
        ctx.check("event" not in row, "not a marker")
        ctx.check(ctx.eq(row["string"], text), "text untouched")
    else:
        ctx.check("string" not in row, "not free text")
        check_marker(ctx, row, want)
        ctx.check(want[1] is None or ctx.same_type(row["pid"], int),
                  "pid is a number")
    ctx.check(row["__comm"] == "app" and row["__pid"] == 7 and
              row["__cpu"] == 1 and row["__line"] == 0, "line header")
    ctx.observe("row", [row.get(k) for k in ("event", "func", "string")])


@case("marker parts", bounds="a marker with a pid of p digits, a name of n "
      "and data of d symbolic characters",
      quick=[dict(p=3, n=3, d=3), dict(p=5, n=0, d=2), dict(p=1, n=4, d=0),
             dict(p=2, n=2, d=None)], thorough=[dict(p=4, n=5, d=5)])
def marker_parts(ctx, p, n, d):
    pid = ctx.digits("pid", p)
    name = ctx.text("name", n, "aB (=-#.")
    text = "B|" + pid + "|" + name
    data = None
    if d is not None:
        data = ctx.text("data", d, "a|0 {")
        text = text + "|" + data
    ctx.assume(text[-1] != " ")
    trace = page(ctx, ["tracing_mark_write: " + text, "alpha: v=3"],
                 events=["tracing_mark_write", "alpha"], scope="custom")
    df = trace.tracing_mark_write.data_frame
    row = {c: col(df, c)[0] for c in df.columns}
    check_marker(ctx, row, ("B", int(pid), name, data))
    ctx.check(ctx.eq(rows(trace), [3]), "other event")


@case("mixed markers", bounds="k markers of 4 kinds in one trace",
      quick=[dict(k=2), dict(k=3)], thorough=[dict(k=4)])
def mixed_markers(ctx, k):
    bodies, want = [], []
    for i in range(k):
        kind = ctx.choice("k%d" % i, ["E", "B", "C", "free"])
        x = ctx.digits("x%d" % i, 1)
        if kind == "E":
            bodies.append("E")
            want.append(("E", None, None, None))
        elif kind == "B":
            bodies.append("B|1" + x + "|f" + x)
            want.append(("B", 10 + int(x), "f" + x, None))
        elif kind == "C":
            bodies.append("C|" + x + "|cnt|" + x)
            want.append(("C", int(x), "cnt", x))
        else:
            bodies.append("note " + x)
            want.append("note " + x)
    trace = page(ctx, ["tracing_mark_write: " + b for b in bodies],
                 events=["tracing_mark_write"], scope="custom")
    df = trace.tracing_mark_write.data_frame
    ctx.check(len(df) == k, "rows")
    for i in range(k):
        row = {c: col(df, c)[i] for c in df.columns}
        if type(want[i]) is tuple:
            check_marker(ctx, row, want[i])
            ctx.check(missing(row.get("string")), "no free text")
        else:
            ctx.check(ctx.eq(row["string"], want[i]), "free text")
            ctx.check(missing(row.get("event")), "no marker")


SW = "sched_switch: prev_comm=a prev_pid=1 prev_prio=1 prev_state=S ==> " \
    "next_comm=b next_pid=2 next_prio=1"


@case("cpus", bounds="k lines on symbolic CPUs below 1000, scheduler "
      "switches or other events", quick=[dict(k=1), dict(k=2), dict(k=3)],
      thorough=[dict(k=4)])
def cpus(ctx, k):
    lines = [BEGIN["comment"], SCRIPT["tag"]]
    top = -1
    for i in range(k):
        cpu = ctx.digits("c%d" % i, 3 if i == 0 else 2)
        switch = ctx.bool("s%d" % i)
        lines.append("  app-7 [" + cpu + "] ...1 %d.500000: " % i +
                     (SW if switch else "alpha: v=1"))
        if switch:
            n = int(cpu)
            top = ctx.ite(ctx.lt(top, n), n, top)
    trace = systrace(ctx.write(lines + ["  </script>"]),
                     events=["sched_switch", "alpha"], scope="custom")
    if type(top) is int and top == -1:
        ctx.check(getattr(trace, "_cpus", None) is None, "not known")
    else:
        ctx.check(ctx.eq(trace._cpus, top + 1), "number of CPUs")
        ctx.observe("cpus", trace._cpus)


@case("cpus of scope", bounds="traces without scheduler switches open",
      quick=[{}])
def cpus_of_scope(ctx):
    how = ctx.choice("how", ["sched", "custom", "thermal"])
    v = ctx.digits("v", 1)
    trace = page(ctx, ["alpha: v=" + v], events=["alpha"], scope=how)
    ctx.check(ctx.eq(rows(trace), [int(v)]), "rows")
    ctx.check(getattr(trace, "_cpus", None) is None, "not known")
