"""C24: task residency intervals reproduce the context switches."""
from symex.case import case
from harness.common import quiet, ftrace

ASSUMPTIONS = [
    "a task that is switched in again without having been switched out "
    "(dropped events) has an interval of unknown end, which is left out, as "
    "documented; a task still running at the end runs up to the last switch; "
    "the idle task and the migration threads have no intervals",
]
NAMES = {0: "swapper/0", 1: "busy", 2: "lazy", 3: "migration/1"}


class Switch(object):
    def __init__(self, t, cpu, prev, next_, comm):
        self.t, self.cpu, self.prev, self.next = t, cpu, prev, next_
        self.comm = comm


class Stub(object):
    pass


def stub_trace(switches):
    import pandas as pd
    frame = pd.DataFrame(
        [[s.cpu, NAMES[s.prev], s.prev, s.comm, s.next] for s in switches],
        columns=["__cpu", "prev_comm", "prev_pid", "next_comm", "next_pid"],
        index=pd.Index([s.t for s in switches]), dtype=object)
    trace = Stub()
    trace.sched_switch = Stub()
    trace.sched_switch.data_frame = frame
    return trace


def expected(switches, execnames=None, pids=None):
    want = {}
    for k, s in enumerate(switches):
        if s.next == 0 or s.comm.startswith("migration"):
            continue
        if execnames is not None and s.comm not in execnames:
            continue
        if pids is not None and s.next not in pids:
            continue
        end = switches[-1].t
        for later in switches[k + 1:]:
            if later.prev == s.next:
                end = later.t
                break
            if later.next == s.next:
                end = None
                break
        if end is not None:
            want.setdefault("%s-%d" % (s.comm, s.next), []).append(
                [s.t, end, s.cpu])
    return want


def check_data(ctx, got, switches, execnames=None, pids=None):
    data, procs, domain = got
    want = expected(switches, execnames, pids)
    ctx.check(sorted(n for n in data if len(data[n])) == sorted(want),
              "tasks")
    ctx.check(set(want) <= set(procs), "names")
    for name, intervals in want.items():
        ctx.check(ctx.eq([list(x) for x in data[name]], intervals),
                  "intervals of a task")
    ctx.check(ctx.eq(list(domain), [switches[0].t, switches[-1].t]),
              "time span")
    ctx.observe("data", [data[n] for n in sorted(want)])


def switch(ctx, j, t, tasks, renamed=False):
    prev = ctx.choice("prev%d" % j, tasks)
    next_ = ctx.choice("next%d" % j, tasks)
    comm = NAMES[next_]
    if renamed and next_ == 1:
        comm = ctx.choice("comm%d" % j, ["busy", "renamed"])
    return Switch(t, ctx.int("cpu%d" % j, 0, 7), prev, next_, comm)


@case("histories", bounds="all histories of m switches between n tasks "
      "(task 0 is idle, 3 a migration thread; task 1 optionally renamed), "
      "symbolic CPUs and times, dropped switches included",
      quick=[dict(m=1, n=4), dict(m=2, n=4), dict(m=3, n=3),
             dict(m=3, n=2, renamed=True)],
      thorough=[dict(m=3, n=4), dict(m=4, n=3), dict(m=5, n=2)])
def histories(ctx, m, n, renamed=False):
    from trappy.plotter.Utils import get_trace_event_data
    quiet()
    switches = [switch(ctx, j, ctx.real("t%d" % j, 0, 100, den=2),
                       list(range(n)), renamed) for j in range(m)]
    check_data(ctx, get_trace_event_data(stub_trace(switches)), switches)


COMMS = ["migration/1", "migration", "migratio", "kmigration/0",
         "Migration/1", "swapper/1", "swapper", "idle", "0", "a b", "a-1",
         "<...>"]


@case("names of tasks", bounds="two tasks with symbolic pids take turns under "
      "any of %d names each: those named like a migration thread and the one "
      "with pid 0 have no intervals, all others do" % len(COMMS),
      quick=[{}])
def task_names(ctx):
    from trappy.plotter.Utils import get_trace_event_data
    quiet()
    comms = [ctx.choice("comm%d" % i, COMMS) for i in range(2)]
    pids = [ctx.choice("pid%d" % i, [0, 1, 2]) for i in range(2)]
    ctx.assume(pids[0] != pids[1])
    times = [ctx.real("t%d" % j, 0, 100, den=2) for j in range(3)]
    ctx.assume(ctx.all(times[0] < times[1], times[1] < times[2]))
    order = [0, 1, 0]
    switches = [Switch(times[j], ctx.int("cpu%d" % j, 0, 7),
                       pids[order[j - 1]] if j else 9, pids[order[j]],
                       comms[order[j]]) for j in range(3)]
    NAMES[9] = "other"
    check_data(ctx, get_trace_event_data(stub_trace(switches)), switches)


@case("filters", bounds="m switches between three tasks and idle, selected "
      "by names or pids, given alone or as a list",
      quick=[dict(m=2)], thorough=[dict(m=3)])
def filters(ctx, m):
    from trappy.plotter.Utils import get_trace_event_data
    quiet()
    names = ctx.choice("names", [None, "busy", ["lazy"], ["busy", "lazy"]])
    pids = ctx.choice("pids", [None, 1, [2], [1, 2]])
    switches = [switch(ctx, j, ctx.real("t%d" % j, 0, 100, den=2), [0, 1, 2],
                       True) for j in range(m)]
    got = get_trace_event_data(stub_trace(switches), names, pids)

    def some(x):
        return x if x is None or isinstance(x, list) else [x]
    check_data(ctx, got, switches, some(names), some(pids))


@case("numbers as names", bounds="a trace of a task that has any of seven "
      "names that look like numbers, selected by name or not", quick=[{}])
def number_names(ctx):
    from trappy.plotter.Utils import get_trace_event_data
    quiet()
    name = ctx.choice("name", ["42", "007", "-7", "0x1f", "1 2", "3 a",
                               "18446744073709551616"])
    d = ctx.digits("d", 1)
    text = "sched_switch: prev_comm=%s prev_pid=%d prev_prio=120 " \
        "prev_state=0 next_comm=%s next_pid=%d next_prio=120"
    lines = ["  x-1 [003] 1.500000: " + text % ("swapper/3", 0, name, 5),
             "  x-1 [003] 2." + d + "00000: " + text % (name, 5, "8", 9),
             "  x-1 [003] 3.500000: " + text % ("8", 9, name, 5)]
    out = float("2." + d + "00000")
    trace = ftrace(ctx.write(lines), events=["sched_switch"], scope="custom",
                   normalize_time=False)
    names = ctx.choice("names", [None, "one", "both"])
    wanted = {None: None, "one": name, "both": ["8", name]}[names]
    switches = [Switch(1.5, 3, 0, 5, name), Switch(out, 3, 5, 9, "8"),
                Switch(3.5, 3, 9, 5, name)]
    NAMES[5], NAMES[9] = name, "8"
    check_data(ctx, get_trace_event_data(trace, wanted), switches,
               None if names is None else
               [wanted] if names == "one" else wanted)


@case("well-formed traces", bounds="traces of m switches on two CPUs between "
      "idle and two tasks that run on one CPU at a time, symbolic increasing "
      "times: every task's time is covered, nothing overlaps on a CPU",
      quick=[dict(m=3)], thorough=[dict(m=4)])
def well_formed(ctx, m):
    from trappy.plotter.Utils import get_trace_event_data
    quiet()
    running = {}
    switches, lines = [], []
    for j in range(m):
        cpu = ctx.choice("cpu%d" % j, [0, 1])
        free = [p for p in (1, 2) if p not in running.values()]
        prev = running[cpu] if cpu in running else \
            ctx.choice("prev%d" % j, [0] + free)
        next_ = ctx.choice("next%d" % j, [0] + [p for p in free
                                                if p != prev])
        if next_ == prev:
            return
        running[cpu] = next_
        d = ctx.digits("d%d" % j, 1)
        text = "%d.%s50000" % (j + 1, "%s")
        lines.append("  x-1 [00%d] %d." % (cpu, j + 1) + d + "50000: "
                     "sched_switch: prev_comm=%s prev_pid=%d prev_prio=120 "
                     "prev_state=0 next_comm=%s next_pid=%d next_prio=120" %
                     (NAMES[prev], prev, NAMES[next_], next_))
        t = float("%d." % (j + 1) + d + "50000")
        switches.append(Switch(t, cpu, prev, next_, NAMES[next_]))
    trace = ftrace(ctx.write(lines), events=["sched_switch"], scope="custom",
                   normalize_time=False)
    got = get_trace_event_data(trace)
    check_data(ctx, got, switches)
    per_cpu = {0: [], 1: []}
    for name, intervals in got[0].items():
        for a, b, cpu in intervals:
            per_cpu[cpu].append((a, b, name))
    for cpu, mine in per_cpu.items():
        ins = [s for s in switches if s.cpu == cpu]
        want = []
        for k, s in enumerate(ins):
            if s.next:
                out = ins[k + 1].t if k + 1 < len(ins) else switches[-1].t
                want.append((s.t, out, "%s-%d" % (s.comm, s.next)))
        mine = [x for s in ins for x in mine if x[0] is s.t or
                ctx.eq(x[0], s.t)]
        ctx.check(ctx.eq([x[:2] for x in mine], [w[:2] for w in want]) and
                  [x[2] for x in mine] == [w[2] for w in want],
                  "from switching in to switching out on the CPU")
