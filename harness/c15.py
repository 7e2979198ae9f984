"""C15: known kernel events decode to their documented columns."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "event payloads have the documented form; task names contain no '==>' "
    "and no '='; names looked up contain no regular expression operators",
]
HEADER = ["__comm", "__cpu", "__line", "__pid"]


def ev(i, name, body, pid="7", cpu="001"):
    return "  app-" + pid + " [" + cpu + "] %d.500000: " % (i + 1) + name + \
        ": " + body


def parse(ctx, lines, *events, **kw):
    return ftrace(ctx.write(lines), events=list(events), scope="custom", **kw)


def columns(ctx, df, names):
    ctx.check(sorted(df.columns) == sorted(HEADER + list(names)), "columns")


@case("syscall entry", bounds="1-2 entries, numbers of d digits, six "
      "hexadecimal arguments of a digits (first two symbolic, or the last)",
      quick=[dict(d=1, a=1, k=2), dict(d=3, a=3, k=1), dict(d=2, a=8, k=1),
             dict(d=2, a=2, k=1, neg=True)],
      thorough=[dict(d=4, a=16, k=1), dict(d=3, a=4, k=2)])
def syscall_entry(ctx, d, a, k, neg=False):
    lines, want = [], []
    for i in range(k):
        nr = ("-" if neg else "") + ctx.digits("nr%d" % i, d)
        at = ctx.choice("at%d" % i, [0, 2, 5])
        args = ["1", "7764ee9000", "a3", "0", "FF", "ffffffffffffffff"]
        args[at] = ctx.chars("x%d" % i, a, "019afF")
        lines.append(ev(i, "sys_enter", "           NR " + nr + " (" +
                        ", ".join(args) + ")"))
        want.append([int(nr)] + [int(x, 16) for x in args])
    df = parse(ctx, lines, "sys_enter").sys_enter.data_frame
    names = ["nr"] + ["arg%d" % i for i in range(6)]
    columns(ctx, df, names)
    got = [[col(df, n)[i] for n in names] for i in range(k)]
    ctx.check(ctx.eq(got, want), "values")
    ctx.observe("got", [r[0] for r in got])


@case("syscall exit", bounds="1-2 exits, number of d digits, value of r "
      "digits, either sign",
      quick=[dict(d=1, r=2, k=2), dict(d=3, r=6, k=1)],
      thorough=[dict(d=4, r=12, k=2)])
def syscall_exit(ctx, d, r, k):
    lines, want = [], []
    for i in range(k):
        nr = ctx.choice("s%d" % i, ["", "-"]) + ctx.digits("nr%d" % i, d)
        ret = ctx.choice("t%d" % i, ["", "-"]) + ctx.digits("r%d" % i, r)
        lines.append(ev(i, "sys_exit", "            NR " + nr + " = " + ret))
        want.append([int(nr), int(ret)])
    df = parse(ctx, lines, "sys_exit").sys_exit.data_frame
    columns(ctx, df, ["nr", "ret"])
    ctx.check(ctx.eq([[x, y] for x, y in zip(col(df, "nr"), col(df, "ret"))],
                     want), "values")
    ctx.observe("got", col(df, "ret"))


CLOCK = {"clock_enable": "state", "clock_disable": "state",
         "clock_set_rate": "rate"}


@case("clock", bounds="2 lines of each clock event, clock names of n "
      "symbolic characters, states of s digits",
      quick=[dict(n=1, s=2), dict(n=2, s=2), dict(n=4, s=1)],
      thorough=[dict(n=6, s=9)])
def clock(ctx, n, s):
    event = ctx.choice("event", sorted(CLOCK))
    names = [ctx.text("n0", n, "a_9-=:" if n < 3 else "a_-="), "apll"]
    states = [ctx.digits("s%d" % i, s) for i in range(2)]
    cpus = [ctx.digits("c%d" % i, 1) for i in range(2)]
    for x in names:
        ctx.assume(x[-1] != ":")
    ctx.assume(states[0][0] != "0" and states[1][0] != "0")
    df = getattr(parse(ctx, [
        ev(i, event, names[i] + " state=" + states[i] + " cpu_id=" + cpus[i])
        for i in range(2)], event), event).data_frame
    columns(ctx, df, ["clk_name", CLOCK[event], "cpu_id"])
    ctx.check(ctx.eq(col(df, "clk_name"), names), "clock names")
    ctx.check(ctx.eq(col(df, CLOCK[event]), [int(x) for x in states]),
              CLOCK[event])
    ctx.check(ctx.eq(col(df, "cpu_id"), [int(x) for x in cpus]), "cpu_id")
    ctx.observe("got", col(df, "clk_name"))


EXT4 = {"ext4_da_write_begin": ["pos", "len", "flags"],
        "ext4_da_write_end": ["pos", "len", "copied"],
        "ext4_sync_file_enter": ["parent", "datasync"],
        "ext4_sync_file_exit": ["ret"]}


@case("ext4", bounds="each ext4 event, symbolic device, inode and fields of "
      "n characters", quick=[dict(n=2), dict(n=5)], thorough=[dict(n=12)])
def ext4(ctx, n):
    event = ctx.choice("event", sorted(EXT4))
    lines, want = [], []
    for i in range(2):
        dev = ctx.digits("d%d" % i, 3) + "," + ctx.digits("m%d" % i, 1)
        ino = ctx.digits("i%d" % i, n)
        vals = [ctx.digits("%s%d" % (f, i), n) for f in EXT4[event]]
        lines.append(ev(i, event, "dev " + dev + " ino " + ino + "".join(
            " " + f + " " + v for f, v in zip(EXT4[event], vals))))
        want.append([dev, ino] + vals)
    names = ["dev", "inode"] + EXT4[event]
    df = getattr(parse(ctx, lines, event), event).data_frame
    columns(ctx, df, names)
    got = [[col(df, f)[i] for f in names] for i in range(2)]
    ctx.check(ctx.eq(got, want), "values")
    ctx.observe("got", got)


F2FS = {"f2fs_write_begin": ["pos", "len", "flags"],
        "f2fs_write_end": ["pos", "len", "copied"],
        "f2fs_sync_file_enter": ["pino", "i_mode"],
        "f2fs_sync_file_exit": ["checkpoint", "datasync", "ret"]}


@case("f2fs", bounds="each f2fs event, symbolic device, inode and fields of "
      "n characters", quick=[dict(n=2), dict(n=4)], thorough=[dict(n=10)])
def f2fs(ctx, n):
    event = ctx.choice("event", sorted(F2FS))
    lines, want = [], []
    for i in range(2):
        major, minor = ctx.digits("d%d" % i, 3), ctx.digits("m%d" % i, 1)
        ino = ctx.digits("i%d" % i, n)
        ctx.assume(ino[0] != "0")
        body = "dev = (" + major + "," + minor + "), ino = " + ino
        row = ["(" + major + " " + minor + ")", int(ino)]
        for f in F2FS[event]:
            if f == "checkpoint":
                v = ctx.choice("%s%d" % (f, i), ["needed", "not needed"])
                body = body + ", checkpoint is " + v
                row.append(v)
                continue
            v = ctx.digits("%s%d" % (f, i), n)
            ctx.assume(v[0] != "0")
            if f == "i_mode":
                v = "0x" + v
                row.append(int(v, 16))
            elif f == "ret":
                v = "-" + v
                row.append(int(v))
            else:
                row.append(int(v))
            body = body + ", " + f + " = " + v
        lines.append(ev(i, event, body))
        want.append(row)
    names = ["dev", "inode"] + F2FS[event]
    df = getattr(parse(ctx, lines, event), event).data_frame
    columns(ctx, df, names)
    got = [[col(df, f)[i] for f in names] for i in range(2)]
    ctx.check(ctx.eq(got, want), "values")
    ctx.observe("got", [r[1] for r in got])


def number(ctx, name, n):
    v = ctx.digits(name, n)
    ctx.assume(v[0] != "0")
    return v


@case("idle", bounds="2-3 lines, states of up to 10 digits (leaving idle "
      "included), symbolic CPUs", quick=[dict(k=2), dict(k=3)])
def idle(ctx, k):
    states = []
    for i in range(k):
        kind = ctx.choice("k%d" % i, ["leave", "near", "small"])
        states.append({"leave": "4294967295", "near":
                       "42949672" + number(ctx, "n%d" % i, 2)
                       if kind == "near" else None,
                       "small": number(ctx, "s%d" % i, 1)
                       if kind == "small" else None}[kind])
    cpus = [ctx.digits("c%d" % i, 1) for i in range(k)]
    df = parse(ctx, [ev(i, "cpu_idle", "state=" + states[i] + " cpu_id=" +
                        cpus[i]) for i in range(k)],
               "cpu_idle").cpu_idle.data_frame
    columns(ctx, df, ["state", "cpu_id"])
    want = [ctx.ite(ctx.eq(int(s), 2 ** 32 - 1), -1, int(s)) for s in states]
    ctx.check(ctx.eq(col(df, "state"), want), "state")
    ctx.check(ctx.eq(col(df, "cpu_id"), [int(c) for c in cpus]), "cpu")
    ctx.check(col(df, "__pid") == [7] * k, "header untouched")
    ctx.observe("state", col(df, "state"))


@case("frequency and capacity", bounds="k lines of either event, values of n "
      "digits, symbolic CPUs",
      quick=[dict(k=2, n=3), dict(k=3, n=1)], thorough=[dict(k=3, n=7)])
def frequency(ctx, k, n):
    kinds = [ctx.choice("k%d" % i, ["cpu_frequency", "cpu_capacity"])
             for i in range(k)]
    vals = [number(ctx, "v%d" % i, n) for i in range(k)]
    cpus = [ctx.digits("c%d" % i, 1) for i in range(k)]
    lines = [ev(i, kinds[i], ("state=" if i < 2 or
                              kinds[i] == "cpu_frequency" else "state=") +
                vals[i] + " cpu_id=" + cpus[i]) for i in range(k)]
    trace = parse(ctx, lines, "cpu_frequency", "cpu_capacity")
    for event, name in (("cpu_frequency", "frequency"),
                        ("cpu_capacity", "capacity")):
        df = getattr(trace, event).data_frame
        mine = [i for i in range(k) if kinds[i] == event]
        if not mine:
            ctx.check(not len(df), "no rows")
            continue
        columns(ctx, df, ["cpu", name])
        ctx.check(ctx.eq(col(df, name), [int(vals[i]) for i in mine]), name)
        ctx.check(ctx.eq(col(df, "cpu"), [int(cpus[i]) for i in mine]),
                  "cpu")
        ctx.check(getattr(trace, event).pivot == "cpu", "pivot")
        ctx.observe(event, col(df, name))


@case("mask", bounds="k masks of n symbolic hexadecimal digits, in one trace",
      quick=[dict(k=1, n=8), dict(k=2, n=8), dict(k=2, n=3), dict(k=1, n=1),
             dict(k=1, n=9)],
      thorough=[dict(k=3, n=8), dict(k=2, n=5), dict(k=1, n=17)])
def mask(ctx, k, n):
    masks = [ctx.chars("m%d" % i, n, "01bf3") for i in range(k)]
    loads = [number(ctx, "l%d" % i, 2) for i in range(k)]
    trace = parse(ctx, [ev(i, "sched_load_avg_sg", "cpus=" + masks[i] +
                           " load=" + loads[i]) for i in range(k)],
                  "sched_load_avg_sg")
    df = trace.sched_load_avg_sg.data_frame
    columns(ctx, df, ["cpus", "load"])
    ctx.check(ctx.eq(col(df, "cpus"), ["0" * max(0, 8 - n) + m
                                       for m in masks]), "masks")
    ctx.check(ctx.eq(col(df, "load"), [int(x) for x in loads]), "load")
    ctx.observe("mask", col(df, "cpus"))


@case("switch", bounds="1-2 scheduler switches, task names of n symbolic "
      "characters, pids and priorities of 1-3 digits, symbolic states",
      quick=[dict(n=1, k=1), dict(n=3, k=1), dict(n=2, k=2),
             dict(n=1, k=1, chars="a017"), dict(n=3, k=1, chars="01x -")],
      thorough=[dict(n=5, k=1), dict(n=3, k=2),
                dict(n=4, k=1, chars="01x -")])
def switch(ctx, n, k, chars="ab -/:"):
    lines, want = [], []
    for i in range(k):
        a = ctx.text("a%d" % i, n, chars)
        b = ctx.text("b%d" % i, n, chars)
        for name in (a, b):
            ctx.assume(name[0] != " " and name[-1] != " ")
            ctx.assume("  " not in name and "-" not in name[0])
            ctx.assume(": " not in name)
        pids = [number(ctx, "p%d%d" % (i, j), 2) for j in range(2)]
        prios = [number(ctx, "q%d%d" % (i, j), 1) for j in range(2)]
        state = ctx.choice("st%d" % i, ["S", "R+", "D|W", "0x1"])
        lines.append(ev(i, "sched_switch",
                        "prev_comm=" + a + " prev_pid=" + pids[0] +
                        " prev_prio=" + prios[0] + " prev_state=" + state +
                        " ==> next_comm=" + b + " next_pid=" + pids[1] +
                        " next_prio=" + prios[1]))
        want.append([a, int(pids[0]), int(prios[0]),
                     1 if state == "0x1" else state, b, int(pids[1]),
                     int(prios[1])])
    names = ["prev_comm", "prev_pid", "prev_prio", "prev_state", "next_comm",
             "next_pid", "next_prio"]
    df = parse(ctx, lines, "sched_switch").sched_switch.data_frame
    columns(ctx, df, names)
    got = [[col(df, c)[i] for c in names] for i in range(k)]
    ctx.check(ctx.eq(got, want), "fields")
    ctx.observe("got", got)


@case("tasks", bounds="k task events, names of n characters, pids of 1 "
      "digit, a looked-up name of 0-2 symbolic characters",
      quick=[dict(k=2, n=2, m=1), dict(k=3, n=1, m=1), dict(k=2, n=2, m=2),
             dict(k=2, n=1, m=0), dict(k=0, n=1, m=1)],
      thorough=[dict(k=3, n=2, m=1)])
def tasks(ctx, k, n, m):
    names = [ctx.text("n%d" % i, n, "ab7") for i in range(k)]
    for x in names:
        # names that read as numbers are kept as numbers
        ctx.assume(not (n == 1 and x == "0"))
    pids = [ctx.chars("p%d" % i, 1, "12") for i in range(k)]
    key = ctx.text("key", m, "ab7")
    lines = [ev(i, "sched_load_avg_task", "comm=" + names[i] + " pid=" +
                pids[i] + " load=%d" % i) for i in range(k)]
    lines.append(ev(k, "other", "x=1"))
    trace = parse(ctx, lines, "sched_load_avg_task")
    got = trace.sched_load_avg_task.get_pids(key)
    got = [[str(c), p] for c, p in got]
    want = []
    for i in range(k):
        if key in names[i]:
            pair = [names[i], int(pids[i])]
            known = False
            for w in want:
                if w[0] == pair[0] and w[1] == pair[1]:
                    known = True
            if not known:
                want.append(pair)
    ctx.check(len(got) == len(want), "number of tasks")
    ctx.check(ctx.eq(got, want), "tasks")
    ctx.observe("got", got)


@case("migrate and wakeup", bounds="the other scheduler events, values of n "
      "symbolic digits", quick=[dict(n=2)], thorough=[dict(n=6)])
def others(ctx, n):
    event, name, fields = ctx.choice("event", [
        ("sched_migrate_task", "sched_migrate_task",
         ["pid", "prio", "orig_cpu", "dest_cpu"]),
        ("sched_wakeup", "sched_wakeup",
         ["pid", "prio", "success", "target_cpu"]),
        ("sched_wakeup_new", "sched_wakeup_new", ["pid", "target_cpu"]),
        ("sched_load_avg_cpu", "sched_load_avg_cpu",
         ["cpu", "load_avg", "util_avg"]),
        ("sched_contrib_scale_f", "sched_contrib_scale_factor",
         ["cpu", "freq_scale_factor"])])
    vals = [number(ctx, f, n) for f in fields]
    df = getattr(parse(ctx, [ev(0, event, "comm=some task" + "".join(
        " " + f + "=" + v for f, v in zip(fields, vals)))], event),
        name).data_frame
    columns(ctx, df, ["comm"] + fields)
    ctx.check(col(df, "comm") == ["some task"], "comm")
    ctx.check(ctx.eq([col(df, f)[0] for f in fields], [int(v) for v in vals]),
              "values")
    ctx.observe("got", [col(df, f)[0] for f in fields])
