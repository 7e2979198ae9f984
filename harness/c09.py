"""C09: loading from the cache gives the same trace as parsing."""
import os
from symex.case import case
from harness.common import ftrace, col, quiet

ASSUMPTIONS = [
    "field values of the stated alphabets and lengths; the trace file is not "
    "changed between the loads (see C10)",
]
HEAD = ["version = 6", "cpus=4"]


def cached(path, **kw):
    import trappy
    quiet()
    trappy.FTrace.disable_cache = False
    try:
        return trappy.FTrace(path, **kw)
    finally:
        trappy.FTrace.disable_cache = True


def kind(v):
    if isinstance(v, str):
        return "text"
    if v is None or v != v:
        return "missing"
    return "number"


def same(ctx, a, b, names):
    """Trace b (from the cache) equals trace a (parsed)."""
    for n in names:
        x, y = getattr(a, n).data_frame, getattr(b, n).data_frame
        ctx.check(len(x) == len(y), n + ": number of rows")
        if not len(x):
            continue
        ctx.check(list(x.columns) == list(y.columns), n + ": columns")
        ctx.check(x.index.name == y.index.name, n + ": index name")
        ctx.check(ctx.eq(x.index.tolist(), y.index.tolist()), n + ": times")
        for c in x.columns:
            u, v = col(x, c), col(y, c)
            for p, q in zip(u, v):
                ctx.check(kind(p) == kind(q), n + "." + str(c) +
                          ": kind of value")
                if kind(p) != "missing":
                    ctx.check(ctx.eq(p, q), n + "." + str(c) + ": value")
            if "O" not in (x[c].dtype.kind, y[c].dtype.kind):
                ctx.check(x[c].dtype.kind == y[c].dtype.kind,
                          n + "." + str(c) + ": type of column")
    for attr in ("basetime", "endtime", "normalized_time", "metadata",
                 "_version", "_cpus"):
        ctx.check(ctx.eq(getattr(a, attr), getattr(b, attr)), attr)
    ctx.check(ctx.eq(a.get_duration(), b.get_duration()), "duration")


def read(path):
    with open(path) as f:
        return f.read()


def line(ts, name, data, comm="task"):
    return "  " + comm + "-1 [000] " + ts + ": " + name + ": " + data


TEXTS = [("01.-e", 3), ("naNA/", 3), ("true", 4), ("TRUE", 4), ("FALSE", 5),
         ("null", 4), ("NULL", 4), ("inf+", 3), ('"\\,', 2), ("'#;|", 2),
         ("<NA>", 4), ("0x1f", 4), ("None", 4), ("0", 8), ("{[]:", 3)]


@case("text", bounds="one text field of n symbolic characters over each "
      "alphabet, alone or with a second row of text, number or nothing",
      quick=[dict(i=i, other=o) for i in range(len(TEXTS))
             for o in (["alone"] if i not in (0, 1, 8) else
                       ["alone", "text", "number", "absent"])],
      thorough=[dict(i=i, other=o) for i in range(len(TEXTS))
                for o in ("text", "number", "absent")
                if i not in (0, 1, 8)])
def text(ctx, i, other):
    alphabet, n = TEXTS[i]
    value = ctx.text("v", n, alphabet)
    lines = HEAD + [line("1.500000", "alpha", "k=" + value + " w=7")]
    if other != "alone":
        lines.append(line("2.500000", "alpha", {"text": "k=q w=8",
                                                "number": "k=12 w=8",
                                                "absent": "w=8"}[other]))
    path = ctx.write(lines)
    before = read(path)
    first = cached(path, events=["alpha"], scope="custom")
    second = cached(path, events=["alpha"], scope="custom")
    fresh = ftrace(path, events=["alpha"], scope="custom")
    ctx.check(second.alpha.cached, "the cache was used")
    same(ctx, fresh, first, ["alpha"])
    same(ctx, fresh, second, ["alpha"])
    ctx.check(read(path) == before, "trace file unchanged")
    ctx.observe("k", col(second.alpha.data_frame, "k"))


@case("task name", bounds="task name of n symbolic characters",
      quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)])
def task_name(ctx, n):
    comm = ctx.text("comm", n, "01.na,\" ")
    path = ctx.write(HEAD + [line("1.500000", "alpha", "w=7", comm),
                             line("2.500000", "alpha", "w=8", "12")])
    first = cached(path, events=["alpha"], scope="custom")
    second = cached(path, events=["alpha"], scope="custom")
    ctx.check(second.alpha.cached, "the cache was used")
    ctx.check(ctx.eq(col(first.alpha.data_frame, "__comm"),
                     [comm.lstrip(), "12"]), "task names")
    same(ctx, first, second, ["alpha"])


@case("numbers", bounds="integers of n digits with sign, times of 6+6 digits",
      quick=[dict(n=3), dict(n=10)], thorough=[dict(n=18)])
def numbers(ctx, n):
    ctx.exact_floats()
    v = ctx.digits("v", n)
    ctx.assume(ctx.neg(ctx.eq(v[0], "0")))
    neg = ctx.bool("neg")
    ts = ctx.digits("t", 6)
    frac = ctx.digits("f", 6)
    norm = ctx.bool("norm")
    lines = HEAD + [line("0.000001", "beta", "z=1"),
                    line(ts + "." + frac, "alpha",
                         "k=" + ("-" if neg else "") + v + " w=7"),
                    line("2000000.250000", "alpha", "w=9 h=0x1f")]
    path = ctx.write(lines)
    kw = dict(events=["alpha"], scope="custom", normalize_time=norm)
    first = cached(path, **kw)
    second = cached(path, **kw)
    ctx.check(second.alpha.cached, "the cache was used")
    same(ctx, first, second, ["alpha"])
    ctx.check(ctx.eq(col(second.alpha.data_frame, "k")[0],
                     int(v) * (-1 if neg else 1)), "value")


@case("wide numbers", bounds="one or two numbers of up to 65 bits with any "
      "last digit, next to a row with text or nothing", quick=[{}])
def wide(ctx):
    def number(name):
        return ctx.choice(name, [
            "0xffffff800808123%s", "-0x0ffffff80808123%s",
            "1844674407370955161%s", "9007199254740992", "5"]).replace(
                "%s", ctx.choice(name + " digit", "0159"))
    data = ["k=" + number("one"), ctx.choice("other", ["w=1", "k=text",
                                                       "two"])]
    if data[1] == "two":
        data[1:] = ["k=" + number("two"), "w=1"]
    path = ctx.write(HEAD + [line("%d.500000" % j, "alpha", d)
                             for j, d in enumerate(data)])
    first = cached(path, events=["alpha"], scope="custom")
    second = cached(path, events=["alpha"], scope="custom")
    fresh = ftrace(path, events=["alpha"], scope="custom")
    ctx.check(second.alpha.cached, "the cache was used")
    same(ctx, fresh, first, ["alpha"])
    same(ctx, fresh, second, ["alpha"])


OPTS = [dict(), dict(normalize_time=False), dict(window=(1, 2)),
        dict(abs_window=(2, None), normalize_time=False)]
EVS = [["alpha"], ["beta"], ["alpha", "beta"], ["beta", "alpha", "gamma"]]


@case("loads", bounds="three loads of one trace, each with any of 4 event "
      "sets and of the options; symbolic values and one symbolic time",
      quick=[dict(a=a, b=b) for a in range(4) for b in range(4)],
      thorough=[dict(a=a, b=b, deep=True) for a in range(4)
                for b in range(4)])
def loads(ctx, a, b, deep=False):
    ctx.exact_floats()
    d = ctx.digits("d", 1)
    v = ctx.digits("v", 2)
    path = ctx.write(HEAD + [
        line("1.000000", "beta", "k=a" + v),
        line("2." + d + "00000", "alpha", "k=x" + v + " w=7"),
        line("3.000000", "alpha", "k=009 z=4"),
        line("3.500000", "delta", "k=1")])
    before = read(path)
    opts = range(4) if deep else [0, 2]
    o1 = ctx.choice("o1", opts)
    o2 = ctx.choice("o2", range(4))
    c = ctx.choice("third", range(4))
    cached(path, events=EVS[a], scope="custom", **OPTS[o1])
    second = cached(path, events=EVS[b], scope="custom", **OPTS[o2])
    same(ctx, ftrace(path, events=EVS[b], scope="custom", **OPTS[o2]),
         second, EVS[b])
    third = cached(path, events=EVS[c], scope="custom")
    same(ctx, ftrace(path, events=EVS[c], scope="custom"), third, EVS[c])
    ctx.check(read(path) == before, "trace file unchanged")
    ctx.check(sorted(os.listdir(os.path.dirname(path))) ==
              [".trace.txt.cache", "trace.txt"], "nothing else is written")


@case("known events", bounds="events with their own parser, symbolic mask "
      "and state digits", quick=[{}])
def known_events(ctx):
    mask = ctx.text("m", 2, "01f")
    st = ctx.choice("st", ["4294967295", "2"])
    path = ctx.write(HEAD + [
        line("1.000000", "sched_load_avg_sg", "cpus=" + mask +
             " load=5 utilization=6"),
        line("2.000000", "cpu_idle", "state=" + st + " cpu_id=0"),
        line("3.000000", "cpu_frequency", "state=500 cpu_id=1")])
    kw = dict(events=["sched_load_avg_sg", "cpu_idle", "cpu_frequency"],
              scope="custom")
    first = cached(path, **kw)
    second = cached(path, **kw)
    names = ["sched_load_avg_sched_group", "cpu_idle", "cpu_frequency"]
    names = [n for n in names if hasattr(first, n)] + \
        [n for n in first.class_definitions if n not in names]
    ctx.check(all(getattr(second, n).cached for n in names), "cache used")
    same(ctx, first, second, names)


@case("no metadata", bounds="traces with any part of the header",
      quick=[{}])
def no_metadata(ctx):
    head = [h for h in HEAD if ctx.bool(h[0])]
    cpus = ctx.digits("c", 1)
    path = ctx.write([h.replace("4", cpus) for h in head] + [
        line("1.000000", "alpha", "k=1")])
    first = cached(path, events=["alpha"], scope="custom")
    second = cached(path, events=["alpha"], scope="custom")
    ctx.check(second.alpha.cached, "the cache was used")
    same(ctx, first, second, ["alpha"])
    ctx.check(ctx.eq(second._cpus, cpus if HEAD[1] in head else None), "cpus")


MARKER = "tracing_mark_write"
MARKED = [[MARKER], ["alpha", MARKER], [MARKER, "beta"],
          ["beta", MARKER, "alpha"], ["alpha", "beta"]]


@case("markers", bounds="three loads of one trace, each with any of 5 sets "
      "of events, where the text of a userspace marker may be a line of any "
      "of them (symbolic letter)", quick=[dict(a=a) for a in range(5)])
def markers(ctx, a):
    letter = ctx.chars("letter", 1, "ax")
    v = ctx.digits("v", 1)
    text = ctx.choice("text", [letter + "lpha: k=", "beta: k=a"])
    path = ctx.write(HEAD + [
        line("1.000000", "alpha", "k=q w=7"),
        line("2.000000", MARKER, text + v),
        line("3.000000", "beta", "k=b"),
        line("4.000000", MARKER, "hello" + v)])
    sets = [MARKED[a]] + [ctx.choice("load%d" % i, MARKED)
                          for i in (2, 3)]
    for events in sets:
        got = cached(path, events=events, scope="custom")
        same(ctx, ftrace(path, events=events, scope="custom"), got, events)
    again = cached(path, events=events, scope="custom")
    ctx.check(all(getattr(again, n).cached for n in events), "cache used")
    same(ctx, got, again, events)
