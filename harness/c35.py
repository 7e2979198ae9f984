"""C35: plot_trace() shows when and where the selected tasks ran."""
import importlib
import json
import os

from symex.case import case
from harness.common import quiet
from harness.draw import pages_go_to, replaced
from harness.c14 import BEGIN, SCRIPT
from harness.c24 import NAMES, Switch, expected, stub_trace, switch

ASSUMPTIONS = [
    "what would be displayed is kept instead and no script is installed "
    "(C34); traces have at least one context switch; tasks that only ran "
    "for no time at all are not looked for in the order of the tasks",
]


class notebook(object):
    """Keeps the pages that would be displayed."""
    def __enter__(self):
        quiet()
        plot = importlib.import_module("trappy.plotter.EventPlot")
        conf = importlib.import_module("trappy.plotter.IPythonConf")
        self.pages, self.order = [], []
        self.parts = [pages_go_to(self.pages, plot),
                      replaced((conf, "iplot_install", self.order.append),
                               (plot, "iplot_install", self.order.append))]
        for part in self.parts:
            part.__enter__()
        return self

    def __exit__(self, *exc):
        for part in self.parts:
            part.__exit__(*exc)
        return False


def plot_trace(*args, **kw):
    """The data of the one page that is displayed"""
    import trappy
    with notebook() as n:
        trappy.plotter.plot_trace(*args, **kw)
    page, = n.pages
    return page


def read_page(ctx, page):
    (name, data), = ctx.scan(r"EventPlot\.generate\('(\w+)', '[^']*', "
                             r"(\{.*?\})\);\s", page)
    ctx.check([name] == [n for n, in
                         ctx.scan(r'<div id="(\w+)" class="eventplot">',
                                  page)], "place of the plot")
    return json.loads(data)


def check_page(ctx, page, switches, cpus, execnames=None, pids=None):
    got = read_page(ctx, page)
    ctx.check(ctx.eq(got["lanes"], [{"id": i, "label": "CPU :%d" % i}
                                    for i in range(cpus)]), "lanes")
    ctx.check(ctx.eq(got["xDomain"], [switches[0].t, switches[-1].t]),
              "time span")
    want = expected(switches, execnames, pids)
    data = got["data"]
    shown = {}
    for name in data:
        n = 0
        for lane in data[name]:
            n += len(data[name][lane])
        if n:
            shown[name] = n
    ctx.check(sorted(shown) == sorted(want), "tasks")
    total = {}
    for name, intervals in want.items():
        lanes = {}
        for a, b, cpu in intervals:
            lanes.setdefault(cpu, []).append([a, b])
        ctx.check(ctx.eq({int(lane): [list(x) for x in data[name][lane]]
                          for lane in data[name]}, lanes),
                  "where and when a task ran")
        total[name] = sum(b - a for a, b, _ in intervals)
    keys = got["keys"]
    ctx.check(len(set(keys)) == len(keys), "listed once")
    for name in want:
        # a task that ran for some time is in the list of tasks
        ctx.check(name in keys or ctx.eq(total[name], 0), "listed")
    ctx.check(set(keys) <= set(want), "only selected ones are listed")


def some(x):
    return x if x is None or isinstance(x, list) else [x]


SELECTIONS = [(None, None), ("busy", None), (["lazy"], None),
              (["busy", "lazy"], 2), (None, [1, 2])]


@case("trace objects", bounds="m switches between idle and two tasks on two "
      "CPUs at symbolic times, of a trace that may or may not tell how many "
      "CPUs there are, tasks selected by names or pids",
      quick=[dict(m=2), dict(m=3, few=True)], thorough=[dict(m=3)])
def trace_objects(ctx, m, few=False):
    import trappy
    quiet()
    names, pids = None, None
    if not few:
        names, pids = ctx.choice("selected", SELECTIONS)
    switches = []
    t = 0
    for j in range(m):
        t = t + ctx.real("d%d" % j, 0, 100, den=2)
        s = switch(ctx, j, t, [0, 1, 2] if not few else [0, 1])
        s.cpu = ctx.choice("cpu_%d" % j, [0, 1])
        switches.append(s)
    trace = trappy.BareTrace()
    trace.sched_switch = stub_trace(switches).sched_switch
    used = 1 + max(s.cpu for s in switches)
    cpus = ctx.choice("number", [None, used + 1])
    if cpus is not None:
        trace._cpus = cpus
    page = plot_trace(trace, names, pids)
    check_page(ctx, page, switches, cpus or used, some(names), some(pids))


def text_of(ctx, m, cpus):
    lines, switches = [], []
    for j in range(m):
        cpu = ctx.choice("cpu%d" % j, list(range(cpus)))
        prev = ctx.choice("prev%d" % j, [0, 1, 2])
        next_ = ctx.choice("next%d" % j, [p for p in (0, 1, 2) if p != prev])
        d = ctx.digits("d%d" % j, 1)
        lines.append("  x-1 [00%d] %d." % (cpu, j + 1) + d + "50000: "
                     "sched_switch: prev_comm=%s prev_pid=%d prev_prio=120 "
                     "prev_state=0 next_comm=%s next_pid=%d next_prio=120" %
                     (NAMES[prev], prev, NAMES[next_], next_))
        switches.append(Switch(float("%d." % (j + 1) + d + "50000"), cpu,
                               prev, next_, NAMES[next_]))
    for s in reversed(switches):
        s.t = s.t - switches[0].t
    return lines, switches


def placed(ctx, lines, place):
    where = ctx.tmpdir()
    if "/" in place:
        where = os.path.join(where, place.split("/")[0])
        os.mkdir(where)
    return ctx.write(lines, place.split("/")[-1], where)


@case("trace files", bounds="the path of a text or systrace file, or an "
      "FTrace, of m switches between idle and two tasks on two CPUs with "
      "symbolic times, with and without a header that tells the number of "
      "CPUs", quick=[dict(m=1), dict(m=2)], thorough=[dict(m=3)])
def trace_files(ctx, m):
    import trappy
    quiet()
    kind = ctx.choice("kind", ["text", "object", "systrace"])
    place = "trace.html" if kind == "systrace" else "trace.txt"
    if m == 1 and kind != "object":
        place = ctx.choice("place", {
            "text": ["trace.txt", "html.txt", "html.d/trace.txt",
                     "trace.html.txt", "a.html.log"],
            "systrace": ["trace.html", "txt.html", "a.txt.html",
                         "x.txt/trace.html", "html"]}[kind])
    lines, switches = text_of(ctx, m, 2)
    cpus = 1 + max(s.cpu for s in switches)
    if ctx.bool("header"):
        cpus = 4
        head = "cpus=4"
    else:
        head = "version = 6"
    from trappy.ftrace import GenericFTrace
    old = GenericFTrace.disable_cache
    GenericFTrace.disable_cache = True
    try:
        if kind == "systrace":
            if head == "cpus=4":
                return
            decoy = ["  x-1 [007] 0.000001: sched_switch: prev_comm=d "
                     "prev_pid=77 prev_prio=120 prev_state=0 next_comm=d "
                     "next_pid=78 next_prio=120"]
            page = decoy + [BEGIN["comment"], SCRIPT["tag"],
                            "# tracer: nop"] + \
                lines + ["  </script>"] + decoy + ["</html>"]
            page = plot_trace(placed(ctx, page, place))
        else:
            path = placed(ctx, [head] + lines, place)
            page = plot_trace(trappy.FTrace(path) if kind == "object"
                              else path)
    finally:
        GenericFTrace.disable_cache = old
    check_page(ctx, page, switches, cpus)
