"""C01: each trace line becomes exactly one faithfully attributed event."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "task names of at most 5 characters over letters, digits, blank and "
    "-[]():. ; payloads do not themselves contain a complete line header; "
    "no marker of a requested event occurs in a task name",
]


def text_line(comm, pid, cpu, ts, event, data, flags="", tgid="", lead="   "):
    return (lead + comm + "-" + pid + tgid + " [" + cpu + "] " + flags + ts +
            ": " + event + ": " + data)


@case("attribution", bounds="one event line, comm of n symbolic characters, "
      "2-5 digit pid, 1-3 digit cpu, both optional columns, leading blanks",
      quick=[dict(n=0, pid=3, cpu=3), dict(n=1, pid=2, cpu=3),
             dict(n=2, pid=1, cpu=3), dict(n=3, pid=2, cpu=2),
             dict(n=4, pid=5, cpu=1),
             dict(n=1, pid=7, cpu=4)],
      thorough=[dict(n=5, pid=2, cpu=3), dict(n=6, pid=2, cpu=3)])
def attribution(ctx, n, pid, cpu):
    comm = ctx.text("comm", n, "ab-0 []():.")
    pidt = ctx.digits("pid", pid)
    cput = ctx.digits("cpu", cpu)
    tgid = ctx.choice("tgid", ["", " (-----)", " (  17)"])
    flags = ctx.choice("flags", ["", "d..3 ", "...."]) if n < 3 else ""
    if flags == "....":
        flags = "d.h1   "
    lead = ctx.choice("lead", ["", "      "]) if n < 2 else "   "
    path = ctx.write(["version = 6", "cpus=4",
                      text_line(comm, pidt, cput, "10.500000", "myev",
                                "a=1 b=x", flags, tgid, lead)])
    trace = ftrace(path, events=["myev"], scope="custom")
    df = trace.myev.data_frame
    ctx.check(len(df) == 1, "exactly one row")
    ctx.check(ctx.eq(col(df, "__comm")[0], comm.lstrip()), "task name")
    ctx.check(ctx.eq(col(df, "__pid")[0], int(pidt)), "pid")
    ctx.check(ctx.eq(col(df, "__cpu")[0], int(cput)), "cpu")
    ctx.check(ctx.eq(col(df, "__line")[0], 0), "line")
    ctx.check(ctx.eq(col(df, "a")[0], 1), "payload number")
    ctx.check(ctx.eq(col(df, "b")[0], "x"), "payload text")
    ctx.check(sorted(df.columns) == ["__comm", "__cpu", "__line", "__pid",
                                     "a", "b"], "columns")
    ctx.observe("row", [col(df, c)[0] for c in sorted(df.columns)])


@case("flag column", bounds="four symbolic latency flags",
      quick=[dict(event="myev"), dict(event="other_event")])
def flag_column(ctx, event):
    flags = ctx.text("flags", 4, "d.hHnsN0129b")
    tg = ctx.text("tg", 5, "- 019")
    ident = ctx.bool("tgid")
    path = ctx.write([
        text_line("cat", "7", "002", "3.250000", event, "v=5"),
        text_line("my-task", "12", "001", "3.500000", event, "v=6",
                  flags + " ", " (" + tg + ")" if ident else "")])
    trace = ftrace(path, events=[event], scope="custom")
    df = getattr(trace, event).data_frame
    ctx.check(col(df, "__comm") == ["cat", "my-task"], "task names")
    ctx.check(col(df, "__pid") == [7, 12], "pids")
    ctx.check(col(df, "__cpu") == [2, 1], "cpus")
    ctx.check(col(df, "v") == [5, 6], "payload")
    ctx.check(ctx.eq(df.index.tolist(), [0.0, 0.25]), "times")


NOISE = ["", "# tracer: nop", "CPU 1 is empty", "cpus=4",
         "   x-1 [000] : alpha: v=9", "   x-1 [000] 5.0 alpha: v=9",
         "   x- [000] 5.000000: alpha: v=9", "   x-1 000 5.000000: alpha: v=9",
         "   x-1 [000] 5.000000: alpha:", "alpha: v=7", "[000] 5.0: alpha: v=1",
         "   x-1 [000] 5.000000: v=9"]


@case("mixture", bounds="k lines of symbolic kind (two requested events, one "
      "unrequested, noise), two symbolic field digits each",
      quick=[dict(k=3)], thorough=[dict(k=4), dict(k=5)])
def mixture(ctx, k):
    kinds = [ctx.choice("kind%d" % i, ["alpha", "beta", "gamma", "noise"])
             for i in range(k)]
    lines = ["version = 6", ""]
    want = {"alpha": [], "beta": []}
    pos = -1
    for i, kind in enumerate(kinds):
        v = ctx.digits("v%d" % i, 2)
        if kind == "noise":
            lines.append("## " + v)
            if pos >= 0:
                pos += 1
            continue
        if pos < 0:
            pos = 0
        else:
            pos += 1
        lines.append(text_line("t%d" % i, str(i + 1), "00%d" % (i % 3),
                               "%d.000000" % (i + 1), kind, "w=q" + v))
        if kind in want:
            want[kind].append(["t%d" % i, i + 1, i % 3, pos, "q" + v])
    path = ctx.write(lines)
    trace = ftrace(path, events=["alpha", "beta"], scope="custom")
    for name in ("alpha", "beta"):
        df = getattr(trace, name).data_frame
        ctx.check(len(df) == len(want[name]), name + ": number of rows")
        if want[name]:
            rows = [[col(df, c)[i] for c in
                     ("__comm", "__pid", "__cpu", "__line", "w")]
                    for i in range(len(df))]
            ctx.check(ctx.eq(rows, want[name]), name + ": rows in order")
            ctx.observe(name, rows)


@case("noise lines", bounds="malformed lines of %d shapes and n symbolic "
      "characters between two events" % len(NOISE),
      quick=[dict(n=0), dict(n=4)], thorough=[dict(n=5), dict(n=6)])
def noise_lines(ctx, n):
    if n:
        noise = ctx.text("noise", n, "a-1 [:.")
    else:
        noise = ctx.choice("shape", NOISE)
    where = ctx.int("where", 0, 2)
    ev = [text_line("a b", "3", "000", "1.000000", "alpha", "v=1"),
          text_line("c", "4", "001", "2.000000", "alpha", "v=2")]
    at = int(where)
    lines = ev[:at] + [noise] + ev[at:]
    trace = ftrace(ctx.write(lines), events=["alpha"], scope="custom")
    df = trace.alpha.data_frame
    ctx.check(col(df, "v") == [1, 2], "only the event lines count")
    ctx.check(col(df, "__comm") == ["a b", "c"], "task names")
    ctx.check(col(df, "__pid") == [3, 4], "pids")
    ctx.check(ctx.eq(col(df, "__line"), [0, 2 if at == 1 else 1]),
              "line numbers")
    ctx.check(ctx.eq(df.index.tolist(), [0.0, 1.0]), "times")


@case("trailing blanks and subsystem prefix",
      bounds="0-2 trailing blanks, optional function prefix before the event")
def trailing(ctx):
    tail = ctx.choice("tail", ["", " ", "  ", "\r", "\t"])
    gap = ctx.choice("gap", [" ", "    ", "          "])
    v = ctx.digits("v", 2)
    path = ctx.write(["  a-1 [000] 1.000000: alpha:" + gap + "w=q" + v + tail,
                      "  b-2 [003] 2.000000: alpha:" + gap + "w=r" + v + tail])
    trace = ftrace(path, events=["alpha"], scope="custom")
    df = trace.alpha.data_frame
    ctx.check(ctx.eq(col(df, "w"), ["q" + v, "r" + v]), "payload")
    ctx.check(col(df, "__cpu") == [0, 3], "cpus")
    ctx.check(sorted(df.columns) == ["__comm", "__cpu", "__line", "__pid",
                                     "w"], "columns")
