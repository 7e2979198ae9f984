"""C31: thermal and power plots draw exactly the data of the traces."""
import importlib

from symex.case import case
from harness.common import quiet, ftrace
from harness.draw import drawing, frame, check_line

ASSUMPTIONS = [
    "pyplot and the plotting backend of pandas are replaced by recorders "
    "that keep what is drawn on which axis; tables are given as data frames "
    "with times in order",
]
NAN = float("nan")


def utils():
    return importlib.import_module("trappy.plot_utils")


def run(ctx, name="run", **tables):
    """A trace whose events are the given tables"""
    quiet()
    trace = ftrace(ctx.write(["    a-1 [000] 1.500000: nothing: a=1"]),
                   name=name, scope="thermal", normalize_time=False)
    for event, table in tables.items():
        getattr(trace, event).data_frame = table
    return trace


def tenths(ctx, got, want):
    """equal up to the rounding of decimal fractions"""
    d = got - want
    return ctx.all(ctx.lt(d, 1e-6), ctx.lt(-1e-6, d))


# -- limits and figures ------------------------------------------------------

@case("limits", bounds="two symbolic limits from -9 to 99 and the three ways "
      "to ask for them", quick=[{}])
def limits(ctx):
    u = utils()
    lo, hi = ctx.int("lo", -9, 99), ctx.int("hi", -9, 99)
    ctx.assume(lo <= hi)
    with drawing() as plt:
        ax = plt.subplots()[1]
        for which in "xy":
            setattr(ax, which + "lim", (lo, hi))
            a, b = ctx.int("a" + which, -99, 99), ctx.int("b" + which, -99, 99)
            how = ctx.choice("how" + which, ["default", "range", "tuple"])
            getattr(u, "set_%slim" % which)(
                ax, (a, b) if how == "tuple" else how)
            got = getattr(ax, which + "lim")
            if how == "default":
                ctx.check(which not in ax.set_limits, "left alone")
                ctx.check(ctx.eq(list(got), [lo, hi]), "unchanged")
            elif how == "tuple":
                ctx.check(ctx.eq(list(got), [a, b]), "as asked for")
            else:
                ctx.check(ctx.all(ctx.le(got[0], lo), ctx.le(hi, got[1])),
                          "all data visible")
                margin = (hi - lo) / 10
                ctx.check(ctx.all(tenths(ctx, got[0], lo - margin),
                                  tenths(ctx, got[1], hi + margin)),
                          "ten percent margin")


@case("figure", bounds="up to 3x3 axes, symbolic width and height from 1 to "
      "30 or none", quick=[{}])
def figure(ctx):
    u = utils()
    w = ctx.int("w", 1, 30) if ctx.bool("width") else None
    h = ctx.int("h", 1, 30) if ctx.bool("height") else None
    rows, cols = ctx.choice("rows", [1, 2, 3]), ctx.choice("cols", [1, 2, 3])
    with drawing() as plt:
        got = u.pre_plot_setup(w, h, ncols=cols, nrows=rows)
        fig = plt.figures[0]
    ctx.check(len(plt.figures) == 1 and fig.rows == rows and
              fig.cols == cols, "rows and columns")
    if rows == 1 and cols == 1:
        ctx.check(got is fig.axes[0][0], "axis")
    elif rows > 1 and cols > 1:
        ctx.check(all(got[r][c] is fig.axes[r][c] for r in range(rows)
                      for c in range(cols)), "axes")
    else:
        ctx.check(list(got) == fig.flat(), "row or column")
    width, height = fig.size
    if w is not None:
        ctx.check(ctx.eq(width, w), "width")
    if h is not None:
        ctx.check(ctx.eq(height, h * rows), "height of all rows")
    if w is not None and h is None:
        ctx.check(ctx.all(ctx.le(height, w * rows), ctx.le(0, height)),
                  "height")
    if h is not None and w is None:
        ctx.check(ctx.le(h, width), "width from the height")


@case("settings", bounds="titles and labels given or not, one symbolic "
      "limit each", quick=[{}])
def settings(ctx):
    u = utils()
    kw = {k: k + "!" for k in ("title", "xlabel", "ylabel") if ctx.bool(k)}
    a = ctx.int("a", 0, 9)
    if ctx.bool("xlim"):
        kw["xlim"] = (a, 10)
    with drawing() as plt:
        ax = plt.subplots()[1]
        u.post_plot_setup(ax, **kw)
    for k in ("title", "xlabel", "ylabel"):
        ctx.check(getattr(ax, k) == kw.get(k), k)
    ctx.check(ctx.eq(list(ax.xlim), [a, 10] if "xlim" in kw else [0, 1]),
              "horizontal limits")
    ctx.check(ctx.all(ctx.lt(ax.ylim[0], 0), ctx.lt(1, ax.ylim[1])),
              "vertical margin")
    t = ctx.choice("t", ["", "Foo"])
    o = ctx.choice("o", ["", "Bar"])
    ctx.check(u.normalize_title(t, o) == (o + " - " + t if o else t),
              "title of a run")


# -- one event -----------------------------------------------------------------

def thermal_table(ctx, k, p=""):
    ids = [ctx.choice(p + "z%d" % i, [0, 1, 2]) for i in range(k)]
    temps = [ctx.int(p + "t%d" % i, -40000, 120000) for i in range(k)]
    times = [i + 1.5 for i in range(k)]
    return frame(times, id=ids, temp=temps), list(zip(times, ids, temps))


def gov_table(ctx, k, p="g"):
    ids = [ctx.choice(p + "z%d" % i, [0, 1]) for i in range(k)]
    temps = [ctx.int(p + "t%d" % i, 0, 120000) for i in range(k)]
    delta = [ctx.int(p + "d%d" % i, -50000, 50000) for i in range(k)]
    times = [i + 1.75 for i in range(k)]
    return frame(times, thermal_zone_id=ids, current_temperature=temps,
                 delta_temperature=delta), \
        list(zip(times, ids, temps, delta))


def ylim_of(ctx):
    """(arguments, limits to expect): the axis starts from 0 to 1"""
    how = ctx.choice("ylim", [None, "default", "range", "tuple"])
    if how is None:
        return {}, None
    if how == "tuple":
        lim = (ctx.int("low", -99, 99), ctx.int("high", -99, 99))
        return dict(ylim=lim), list(lim)
    return dict(ylim=how), [0, 1] if how == "default" else None


def check_ylim(ctx, ax, want):
    got = list(ax.get_ylim())
    if want is None:
        ctx.check(ctx.all(ctx.le(got[0], 0), ctx.le(1, got[1])),
                  "automatic limits hold all data")
    else:
        ctx.check(ctx.eq(got, want), "limits as asked for")


@case("temperature", bounds="up to three readings of three zones with "
      "symbolic temperatures, one or all zones, with and without target, "
      "any limits of the axis",
      quick=[dict(k=2)], thorough=[dict(k=3)])
def temperature(ctx, k):
    table, rows = thermal_table(ctx, k)
    trace = run(ctx, thermal=table)
    tz = ctx.choice("tz", [None, 0, 1])
    control = None
    if ctx.bool("control"):
        v = [ctx.int("v%d" % i, 0, 100) for i in range(2)]
        control = frame([1.25, 2.25], v=v)["v"]
    shown = [r for r in rows if tz is None or r[1] == tz]
    own = ctx.bool("own axis")
    kw, ylim = ylim_of(ctx) if not (own or control is not None) \
        else ({}, None)
    with drawing() as plt:
        ax = plt.subplots()[1] if own else None
        try:
            trace.thermal.plot_temperature(
                control_temperature=control, ax=ax, title="T", tz_id=tz,
                legend_label="L", **kw)
        except ValueError:
            ctx.check(not shown, "readings of the zone")
            return
    ctx.check(bool(shown), "zone without readings refused")
    ctx.check(len(plt.figures) == 1, "one figure")
    ax = plt.figures[0].axes[0][0]
    ctx.check(len(ax.lines) == 1 + (control is not None), "lines")
    check_line(ctx, ax.lines[0], [r[0] for r in shown],
               [r[2] / 1000 for r in shown], "degrees")
    ctx.check("L" in ax.lines[0].label and "Temp" in ax.lines[0].label,
              "legend")
    if control is not None:
        check_line(ctx, ax.lines[1], [1.25, 2.25], v, "target")
    if not own:
        ctx.check(ax.title == "T - Temperature", "title")
        check_ylim(ctx, ax, ylim)


@case("governor", bounds="k events of two zones with symbolic temperatures "
      "and distances from the target", quick=[dict(k=2)],
      thorough=[dict(k=3)])
def governor(ctx, k):
    table, rows = gov_table(ctx, k)
    trace = run(ctx, thermal_governor=table)
    own = ctx.bool("own axis")
    kw, ylim = ylim_of(ctx)
    with drawing() as plt:
        ax = plt.subplots()[1] if own else None
        trace.thermal_governor.plot_temperature(ax=ax, title="T",
                                                legend_label="L", **kw)
    ctx.check(len(plt.figures) == 1, "one figure")
    ax = plt.figures[0].axes[0][0]
    ctx.check(len(ax.lines) == 2, "lines")
    times = [r[0] for r in rows]
    check_line(ctx, ax.lines[0], times, [r[2] / 1000 for r in rows],
               "degrees")
    check_line(ctx, ax.lines[1], times, [(r[2] + r[3]) / 1000 for r in rows],
               "target")
    if not own:
        check_ylim(ctx, ax, ylim)


@case("powers", bounds="two events of n actors with symbolic powers and "
      "weights among other columns", quick=[dict(n=1), dict(n=3),
                                            dict(n=11)])
def powers(ctx, n):
    # a few symbolic values are enough for many actors
    def p(name, i, j):
        return ctx.int("%s%d_%d" % (name, i, j), 0, 9000)
    req = [[p("r", i, j) for i in range(2)] for j in range(n)]
    grant = [[p("g", i, j) for i in range(2)] for j in range(n)]
    cols = {"thermal_zone_id": [0, 0]}
    cols.update(("req_power%d" % j, req[j]) for j in range(n))
    cols["total_req_power"] = [1, 1]
    cols.update(("granted_power%d" % j, grant[j]) for j in range(n))
    cols["total_granted_power"] = [2, 2]
    times = [1.5, 2.5]
    trace = run(ctx, thermal_governor=frame(times, **cols))
    names = ["A%d" % (n - j) for j in range(n)]
    what = ctx.choice("what", ["input", "output", "weighted"])
    own = ctx.bool("own axis")
    gov = trace.thermal_governor
    before = list(gov.data_frame.columns)
    with drawing() as plt:
        ax = plt.subplots()[1] if own else None
        if what == "weighted":
            weights = [ctx.int("w%d" % j, 0, 4096) for j in range(n)]
            gov.plot_weighted_input_power(list(zip(names, weights)),
                                          title="T", ax=ax)
            want = [[x * w / 1024 for x in r] for r, w in zip(req, weights)]
            title = "Weighted Input Power"
        elif what == "input":
            gov.plot_input_power(names, title="T", ax=ax)
            want, title = req, "Input Power"
        else:
            gov.plot_output_power(names, title="T", ax=ax)
            want, title = grant, "Output Power"
    ctx.check(len(plt.figures) == 1, "one figure")
    ax = plt.figures[0].axes[0][0]
    ctx.check([l.label for l in ax.lines] == names, "actors")
    for line, ys in zip(ax.lines, want):
        check_line(ctx, line, times, ys, "power")
    ctx.check(ax.title == "T - " + title, "title")
    ctx.check(list(gov.data_frame.columns) == before, "events unaltered")


@case("input and output", bounds="two actors with symbolic powers in the "
      "columns of older kernels", quick=[{}])
def inout(ctx):
    v = {c: [ctx.int(c + str(i), 0, 9000) for i in range(2)]
         for c in ("Pgpu_in", "Pgpu_out", "PA7_in", "PA7_out", "Ptot_in",
                   "Ptot_out")}
    trace = run(ctx, thermal_governor=frame([1.5, 2.5], **v))
    with drawing() as plt:
        trace.thermal_governor.plot_inout_power(title="T")
    ctx.check(len(plt.figures) == 2, "a figure per actor")
    for fig, actor in zip(plt.figures, ["gpu", "A7"]):
        ax = fig.axes[0][0]
        ctx.check(ax.title == "T - " + actor, "title")
        ctx.check([l.label for l in ax.lines] ==
                  ["P%s_in" % actor, "P%s_out" % actor], "lines")
        for line in ax.lines:
            check_line(ctx, line, [1.5, 2.5], v[line.label], "power")


@case("controller", bounds="two symbolic events of the PID controller",
      quick=[{}])
def controller(ctx):
    names = ["output", "p", "i", "d"]
    v = {c: [ctx.int(c + str(i), -999, 999) for i in range(2)]
         for c in ["err"] + names[::-1]}
    runs = [run(ctx, "first", pid_controller=frame([1.5, 2.5], **v)),
            run(ctx, "second", pid_controller=frame([3.5, 4.5], **v))]
    runs = runs[:ctx.choice("runs", [1, 2])]
    with drawing() as plt:
        utils().plot_controller(runs)
    ctx.check(len(plt.figures) == 1, "one figure")
    axes = plt.figures[0].flat()
    ctx.check(len(axes) == len(runs), "an axis per run")
    for j, (ax, r) in enumerate(zip(axes, runs)):
        ctx.check(ax.title == r.name + " - PID", "title")
        ctx.check(sorted(l.label for l in ax.lines) == sorted(names),
                  "lines")
        for line in ax.lines:
            check_line(ctx, line, [1.5 + 2 * j, 2.5 + 2 * j], v[line.label],
                       "values")


# -- whole runs ----------------------------------------------------------------

LABELS = {"30": "A15", "0f": "A7"}
CPUS = {"30": 2, "0f": 4}


def padded(sources):
    """{label: [(time, value)]} as lines over all times, gaps filled with
    the value before."""
    times = sorted({t for rows in sources.values() for t, _ in rows})
    out = {}
    for label, rows in sources.items():
        at, last, ys = dict(rows), NAN, []
        for t in times:
            last = at.get(t, last)
            ys.append(last)
        out[label] = ys
    return times, out


def check_lines(ctx, ax, sources, what):
    times, want = padded(sources)
    ctx.check(sorted(l.label for l in ax.lines) == sorted(want),
              what + ": lines")
    for line in ax.lines:
        check_line(ctx, line, times, want[line.label], what)


def cpu_events(ctx, k, p, power=False, both=False):
    """k events of any of the two clusters, or using both of them if asked
    for; returns their table and rows."""
    masks = sorted(CPUS) if both else []
    if both and p[0] == "a" and ctx.bool(p + "m"):
        masks = masks[::-1]
    masks += [ctx.choice(p + "m%d" % i, sorted(CPUS))
              for i in range(len(masks), k)]
    freqs = [ctx.int(p + "f%d" % i, 1, 3000000) for i in range(k)]
    times = [i + 1.5 for i in range(k)]
    cols = dict(cpus=masks, freq=freqs)
    rows = list(zip(times, masks, freqs))
    if power:
        loads = [[ctx.int(p + "l%d_%d" % (i, j), 0, 100) for j in range(2)]
                 for i in range(k)]
        for j in range(2):
            cols["load%d" % j] = [l[j] for l in loads]
        rows = [r + (sum(l),) for r, l in zip(rows, loads)]
    return frame(times, **cols), rows


def gpu_events(ctx, times, p="gpu"):
    freqs = [ctx.int(p + "f%d" % i, 1, 900000000) for i in range(len(times))]
    loads = [ctx.int(p + "l%d" % i, 0, 100) for i in range(len(times))]
    return frame(times, freq=freqs, load=loads), \
        list(zip(times, freqs, loads))


GPU_TIMES = [[], [1.25, 2.25], [2.0], [9.0, 9.5]]


def by_label(rows, value):
    out = {}
    for r in rows:
        out.setdefault(LABELS[r[1]], []).append((r[0], value(r)))
    return out


def highest(ctx, values):
    top = values[0]
    for v in values[1:]:
        top = ctx.ite(ctx.lt(top, v), v, top)
    return top


def load_run(ctx, k, p=""):
    table, rows = cpu_events(ctx, k, p, power=True)
    times = ctx.choice(p + "gpu", GPU_TIMES)
    gtable, grows = gpu_events(ctx, times, p + "gpu")
    tables = dict(cpu_in_power=table)
    if times:
        tables["devfreq_in_power"] = gtable
    return tables, rows, grows


def load_lines(rows, grows):
    want = by_label(rows, lambda r: r[3])
    if grows:
        want["GPU"] = [(t, l) for t, _, l in grows]
    return want


def norm_lines(ctx, rows, grows):
    top = {m: highest(ctx, [r[2] for r in rows if r[1] == m])
           for m in {r[1] for r in rows}}
    want = by_label(rows, lambda r: r[3] * r[2] / (top[r[1]] * CPUS[r[1]]))
    if grows:
        most = highest(ctx, [f for _, f, _ in grows])
        want["GPU"] = [(t, l * f / most) for t, f, l in grows]
    return want


@case("load", bounds="k events of two clusters with symbolic loads and "
      "frequencies, GPU events at other times or none",
      quick=[dict(k=1), dict(k=2)], thorough=[dict(k=3)])
def load(ctx, k):
    tables, rows, grows = load_run(ctx, k)
    trace = run(ctx, **tables)
    own = ctx.bool("own axis")
    normalised = ctx.bool("normalised")
    with drawing() as plt:
        ax = plt.subplots()[1] if own else None
        (trace.plot_normalized_load if normalised else trace.plot_load)(
            LABELS, title="T", ax=ax)
    ctx.check(len(plt.figures) == 1, "one figure")
    ax = plt.figures[0].axes[0][0]
    if normalised:
        check_lines(ctx, ax, norm_lines(ctx, rows, grows), "normalised load")
        ctx.check(ax.title == "T - Normalized Utilization", "title")
    else:
        check_lines(ctx, ax, load_lines(rows, grows), "load")
        ctx.check(ax.title == "T - Utilization", "title")


def freq_tables(ctx, k, p=""):
    t_in, r_in = cpu_events(ctx, k, p + "i", both=True)
    t_out, r_out = cpu_events(ctx, k, p + "o", both=True)
    t_out.index = t_out.index + 0.25
    r_out = [(t + 0.25,) + tuple(rest) for t, *rest in r_out]
    tables = dict(cpu_in_power=t_in, cpu_out_power=t_out)
    g_in = g_out = []
    if ctx.bool(p + "gpu"):
        tables["devfreq_in_power"], g_in = gpu_events(
            ctx, [1.0, 2.25], p + "gi")
        tables["devfreq_out_power"], g_out = gpu_events(
            ctx, [1.25, 9.0], p + "go")
    return tables, r_in, r_out, g_in, g_out


def mhz(rows):
    return by_label(rows, lambda r: r[2] / 1000)


def gpu_mhz(rows):
    return [(t, f / 1000000) for t, f, _ in rows]


def padded_series(rows):
    """what get_all_freqs() gives for each label, at all its times"""
    times, lines = padded(mhz(rows))
    return {l: list(zip(times, ys)) for l, ys in lines.items()}


def allfreq_lines(r_in, r_out, g_in, g_out):
    """{title: {label: points}}"""
    i, o = padded_series(r_in), padded_series(r_out)
    want = {}
    for label in LABELS.values():
        want[label] = {label + "_freq_in": i[label],
                       label + "_freq_out": o[label]}
    if g_in:
        want["GPU"] = {"gpu_freq_in": gpu_mhz(g_in),
                       "gpu_freq_out": gpu_mhz(g_out)}
    return want


def check_allfreqs(ctx, axes, want, name):
    axes = [ax for ax in axes if ax.lines]
    titles = {name + " - allfreqs " + actor: lines
              for actor, lines in want.items()}
    ctx.check(sorted(ax.title for ax in axes) == sorted(titles), "actors")
    for ax in axes:
        # gaps are padded within each series before they meet
        times = sorted({t for rows in titles[ax.title].values()
                        for t, _ in rows})
        check_padded(ctx, ax, titles[ax.title], times)


def check_padded(ctx, ax, sources, times):
    ctx.check(sorted(l.label for l in ax.lines) == sorted(sources), "lines")
    for line in ax.lines:
        at, last, ys = dict(sources[line.label]), NAN, []
        for t in times:
            v = at.get(t, NAN)
            if not (type(v) is float and v != v):
                last = v
            ys.append(last)
        check_line(ctx, line, times, ys, "frequencies")


@case("frequencies", bounds="k input and output events of two clusters and "
      "maybe the GPU with symbolic frequencies, for one or two runs",
      quick=[dict(k=2, n=1), dict(k=2, n=2)], thorough=[dict(k=3, n=1)])
def frequencies(ctx, k, n):
    runs, wants = [], []
    for j in range(n):
        tables, *rows = freq_tables(ctx, k, "ab"[j])
        runs.append(run(ctx, "run%d" % j, **tables))
        wants.append(allfreq_lines(*rows))
    direct = n == 1 and ctx.bool("direct")
    with drawing() as plt:
        if direct:
            runs[0].plot_allfreqs(LABELS)
        else:
            utils().plot_allfreqs(runs, LABELS)
    if direct:
        axes = [[f.axes[0][0] for f in plt.figures]]
        ctx.check(len(plt.figures) == len(wants[0]), "a figure per actor")
    else:
        ctx.check(len(plt.figures) == 1, "one figure")
        fig = plt.figures[0]
        ctx.check(fig.cols == n and fig.rows == max(map(len, wants)),
                  "a column per run")
        axes = [[row[j] for row in fig.axes] for j in range(n)]
    for j in range(n):
        check_allfreqs(ctx, axes[j], wants[j], "run%d" % j)


class hists(object):
    """Records the histograms asked for"""
    def __enter__(self):
        self.calls = []
        self.real = utils().plot_hist

        def plot_hist(data, ax, title, unit, bins, xlabel, xlim, ylim):
            self.calls.append((data.tolist(), ax, title, unit, xlim))
        utils().plot_hist = plot_hist
        return self

    def __exit__(self, *exc):
        utils().plot_hist = self.real
        return False


@case("frequency histograms", bounds="k input and output events of two "
      "clusters and maybe the GPU with symbolic frequencies, for one or two "
      "runs", quick=[dict(k=2, n=1), dict(k=2, n=2)])
def frequency_histograms(ctx, k, n):
    runs, wants = [], []
    for j in range(n):
        tables, r_in, r_out, g_in, g_out = freq_tables(ctx, k, "ab"[j])
        runs.append(run(ctx, "run%d" % j, **tables))
        for what, rows, gpu in (("in", r_in, g_in), ("out", r_out, g_out)):
            sources = padded_series(rows)
            if gpu:
                sources["GPU"] = gpu_mhz(gpu)
            times = sorted({t for s in sources.values() for t, _ in s})
            for label, points in sources.items():
                at, last, ys = dict(points), NAN, []
                for t in times:
                    v = at.get(t, NAN)
                    if not (type(v) is float and v != v):
                        last = v
                    ys.append(last)
                wants.append((j, what, label, ys))
    with drawing() as plt, hists() as drawn:
        utils().plot_freq_hists(runs, LABELS)
    fig = plt.figures[0]
    ctx.check(len(plt.figures) == 1 and fig.cols == n, "a column per run")
    ctx.check(len(drawn.calls) == len(wants), "histograms")
    ctx.check(len({id(c[1]) for c in drawn.calls}) == len(wants),
              "an axis each")
    for j, what, label, ys in wants:
        title = "run%d - freq %s %s" % (j, what, label)
        hits = [c for c in drawn.calls if c[2] == title]
        ctx.check(len(hits) == 1, "named after its data")
        data, ax, _, unit, xlim = hits[0]
        ctx.check(ax.place[1] == j, "column of the run")
        ctx.check(ctx.eq(data, ys), "frequencies")
        ctx.check(unit == "MHz", "unit")
        ctx.check(ctx.all(*[ctx.all(ctx.le(xlim[0], y), ctx.le(y, xlim[1]))
                            for y in ys if not (type(y) is float and
                                                y != y)]),
                  "all data visible")


@case("loads of runs", bounds="one or two runs with one or two symbolic "
      "events", quick=[{}])
def loads_of_runs(ctx):
    n = ctx.choice("runs", [1, 2])
    runs, wants = [], []
    for j in range(n):
        tables, rows, grows = load_run(ctx, 1, "ab"[j])
        runs.append(run(ctx, "run%d" % j, **tables))
        wants.append((rows, grows))
    with drawing() as plt:
        utils().plot_load(runs, LABELS)
    fig = plt.figures[0]
    ctx.check(len(plt.figures) == 1 and fig.rows == 2 and fig.cols == n,
              "a column per run")
    for j, (rows, grows) in enumerate(wants):
        top, bottom = fig.axes[0][j], fig.axes[1][j]
        check_lines(ctx, top, load_lines(rows, grows), "load")
        check_lines(ctx, bottom, norm_lines(ctx, rows, grows), "normalised")
        ctx.check(top.title == "run%d - Utilization" % j and
                  bottom.title == "run%d - Normalized Utilization" % j,
                  "titles")


@case("temperatures of runs", bounds="one or two runs with symbolic readings "
      "and governor events of two zones or none, one or all zones",
      quick=[{}])
def temperatures_of_runs(ctx):
    tz = ctx.choice("tz", [None, 0, 1])
    n = ctx.choice("runs", [1, 2])
    runs, wants, ok = [], [], True
    for j in range(n):
        tables, rows, grows = {}, [], []
        if j == 0 and ctx.bool("a" + "thermal"):
            tables["thermal"], rows = thermal_table(ctx, 1, "a")
        if j == 1:
            tables["thermal"], rows = thermal_table(ctx, 1, "b")
        if ctx.bool("ab"[j] + "governor"):
            tables["thermal_governor"], grows = gov_table(ctx, 2,
                                                          "ab"[j] + "g")
        runs.append(run(ctx, "run%d" % j, **tables))
        rows = [r for r in rows if tz is None or r[1] == tz]
        grows = [r for r in grows if tz is None or r[1] == tz]
        if not rows and not tables.get("thermal_governor") is not None:
            ok = False
        wants.append((rows, grows, "thermal_governor" in tables))
    if not ok:
        return                       # nothing to show for a run
    kw, ylim = ylim_of(ctx) if n == 1 else ({}, None)
    with drawing() as plt:
        utils().plot_temperature(runs, tz_id=tz, **kw)
    ctx.check(len(plt.figures) == 1, "one figure")
    ax = plt.figures[0].axes[0][0]
    ctx.check("Temperature" in ax.title, "title")
    check_ylim(ctx, ax, ylim)
    lines = list(ax.lines)
    for j, (rows, grows, has) in enumerate(wants):
        line = lines.pop(0)
        ctx.check("run%d" % j in line.label, "names the run")
        if rows:
            check_line(ctx, line, [r[0] for r in rows],
                       [r[2] / 1000 for r in rows], "degrees")
        else:
            check_line(ctx, line, [r[0] for r in grows],
                       [r[2] / 1000 for r in grows], "degrees")
        if has:
            line = lines.pop(0)
            check_line(ctx, line, [r[0] for r in grows],
                       [(r[2] + r[3]) / 1000 for r in grows], "target")
    ctx.check(lines == [], "no other lines")


@case("temperature histograms", bounds="up to three runs with symbolic "
      "readings or none", quick=[{}])
def temperature_histograms(ctx):
    runs, wants = [], []
    for j in range(ctx.choice("runs", [1, 2, 3])):
        temps = [ctx.int("t%d_%d" % (j, i), -40000, 120000)
                 for i in range(ctx.choice("n%d" % j, [0, 2, 1][:3 - j]))]
        tables = {}
        if temps:
            tables["thermal"] = frame([i + 1.5 for i in range(len(temps))],
                                      id=[0] * len(temps), temp=temps)
            wants.append((j, [t / 1000 for t in temps]))
        runs.append(run(ctx, "run%d" % j, **tables))
    with drawing() as plt, hists() as drawn:
        utils().plot_temperature_hist(runs)
    if not wants:
        ctx.check(not plt.figures and not drawn.calls, "nothing to show")
        return
    fig = plt.figures[0]
    ctx.check(len(plt.figures) == 1 and len(fig.flat()) == len(wants),
              "an axis per run with readings")
    ctx.check(len(drawn.calls) == len(wants), "histograms")
    for ax, (j, temps), call in zip(fig.flat(), wants, drawn.calls):
        data, where, title, unit, xlim = call
        ctx.check(where is ax, "axis")
        ctx.check(ctx.eq(data, temps), "degrees")
        ctx.check("run%d" % j in title and unit == "C", "title")
        ctx.check(ctx.all(*[ctx.all(ctx.le(xlim[0], t), ctx.le(t, xlim[1]))
                            for t in temps]), "all data visible")


@case("histogram", bounds="up to three numbers of a few, any title and "
      "limits", quick=[{}])
def histogram(ctx):
    import pandas as pd
    data = [ctx.choice("v%d" % i, [0, 2, 7]) for i in
            range(ctx.choice("n", [2, 3]))]
    a = ctx.int("a", 1, 99)
    title = "T" + ctx.chars("t", 1, "ab -")
    bins = ctx.int("bins", 1, 99)
    with drawing() as plt:
        ax = plt.subplots()[1]
        utils().plot_hist(pd.Series(data), ax, title, "C", bins, "Temp",
                          (0, a), "default")
    ctx.check(len(ax.hists) == 1, "one histogram")
    values, n, _ = ax.hists[0]
    ctx.check(ctx.eq(values, data) and ctx.eq(n, bins), "data")
    mean = sum(data) / len(data)
    std = (sum((x - mean) ** 2 for x in data) / (len(data) - 1)) ** 0.5
    ctx.check(ctx.eq(ax.title, title + " (mean = %.2fC, std = %.2f)" %
                     (mean, std)), "title")
    ctx.check(ax.xlabel == "Temp (C)" and ax.ylabel == "count", "labels")
    ctx.check(ctx.eq(list(ax.xlim), [0, a]), "limits")
    ctx.check(ax.set_limits == ["x"], "vertical limits left alone")


@case("weights of runs", bounds="n cooling devices with symbolic weights in "
      "the folder of one or two runs", quick=[dict(n=2), dict(n=12)])
def weights_of_runs(ctx, n):
    import os
    names = ["A%d" % (n - j) for j in range(n)]
    runs, wants = [], []
    for j in range(ctx.choice("runs", [1, 2] if n < 5 else [1])):
        req = [[ctx.int("r%d_%d_%d" % (j, i, a), 0, 9000) for i in range(2)]
               for a in range(n)]
        cols = {"req_power%d" % a: req[a] for a in range(n)}
        trace = run(ctx, "run%d" % j, thermal_governor=frame([1.5, 2.5],
                                                             **cols))
        weights = []
        if ctx.bool("weights%d" % j):
            # where a run keeps them
            where = os.path.join(os.path.dirname(trace.trace_path), "after",
                                 "sys", "devices", "virtual", "thermal",
                                 "thermal_zone0")
            os.makedirs(where)
            for a in range(n):
                w = "1" + ctx.digits("w%d_%d" % (j, a), 1 if a < 3 else 2) \
                    if a < 3 or a == n - 1 else str(1000 + a)
                weights.append(int(w))
                ctx.write([w], "cdev%d_weight" % a, where)
        runs.append(trace)
        wants.append((req, weights))
    with drawing() as plt:
        utils().plot_weighted_input_power(runs, names)
    if not any(w for _, w in wants):
        ctx.check(plt.figures == [], "nothing to show")
        return
    ctx.check(len(plt.figures) == 1, "one figure")
    axes = plt.figures[0].flat()
    ctx.check(len(axes) == len(runs), "an axis per run")
    for j, (ax, (req, weights)) in enumerate(zip(axes, wants)):
        if not weights:
            ctx.check(ax.lines == [], "nothing known")
            continue
        ctx.check([l.label for l in ax.lines] == names, "actors")
        for line, r, w in zip(ax.lines, req, weights):
            check_line(ctx, line, [1.5, 2.5], [x * w / 1024 for x in r],
                       "weighted power")
        ctx.check(ax.title == "run%d - Weighted Input Power" % j, "title")


@case("powers of runs", bounds="one to three runs with symbolic powers of "
      "two actors", quick=[{}])
def powers_of_runs(ctx):
    runs, wants = [], []
    what = ctx.choice("what", ["input", "output"])
    key = {"input": "req_power", "output": "granted_power"}[what]
    for j in range(ctx.choice("runs", [1, 2, 3])):
        v = [[ctx.int("p%d_%d_%d" % (j, a, i), 0, 9000) for i in range(2)]
             for a in range(2)]
        cols = {key + "0": v[0], key + "1": v[1]}
        runs.append(run(ctx, "run%d" % j, thermal_governor=frame(
            [1.5 + j, 2.5 + j], **cols)))
        wants.append(v)
    with drawing() as plt:
        getattr(utils(), "plot_%s_power" % what)(runs, ["G", "C"])
    ctx.check(len(plt.figures) == 1, "one figure")
    axes = plt.figures[0].flat()
    ctx.check(len(axes) == len(runs), "an axis per run")
    for j, (ax, v) in enumerate(zip(axes, wants)):
        ctx.check([l.label for l in ax.lines] == ["G", "C"], "actors")
        for line, ys in zip(ax.lines, v):
            check_line(ctx, line, [1.5 + j, 2.5 + j], ys, "power")
        ctx.check(ax.title == "run%d - %s Power" % (j, what.title()),
                  "title")


# -- the summary of runs --------------------------------------------------------

def summary_trace(ctx, where, j, power):
    """A text trace with all events the summary shows"""
    def value(start, name):
        return start + (ctx.digits(name, 1) if not j else str(j))

    def ev(i, name, data):
        return "    a-1 [000] %d.%d00000: %s: %s" % (j + 1, i, name, data)
    temp, freq = "4%d000" % j, "5%d000" % j
    req, grant = value("1", "r"), value("1", "g")
    lines = [
        ev(1, "thermal_temperature", "thermal_zone=cpu id=0 temp_prev=1000 "
           "temp=%s" % temp),
        ev(2, "thermal_temperature", "thermal_zone=gpu id=1 temp_prev=1000 "
           "temp=90000"),
        ev(3, "thermal_power_allocator", "thermal_zone_id=0 req_power={%s "
           "7} total_req_power=1 granted_power={%s 7} "
           "total_granted_power=1 power_range=1 max_allocatable_power=1 "
           "current_temperature=50000 delta_temperature=1000" % (req, grant)),
        ev(4, "thermal_power_allocator_pid", "thermal_zone_id=0 err=1 "
           "err_integral=1 p=1 i=1 d=1 output=1"),
    ]
    if power:
        for i, cpus in ((5, "00000000,0000000f"), (6, "00000000,000000f0")):
            lines += [
                ev(i, "thermal_power_cpu_get_power", "cpus=%s freq=%s "
                   "load={1 2} dynamic_power=1" % (cpus, freq)),
                ev(i, "thermal_power_cpu_limit", "cpus=%s freq=%s "
                   "cdev_state=1 power=1" % (cpus, freq))]
    ctx.write(lines, "trace.txt", where)
    return int(temp), int(freq), int(req), int(grant)


@case("summary", bounds="the summary of one or two runs read from text traces "
      "with symbolic powers, with and without power events, "
      "title and thermal zone; arguments of the wrong type", quick=[{}],
      thorough=[dict(zones=[0, 1])])
def summary(ctx, zones=(0,)):
    import os
    import trappy
    quiet()
    labels = {"000000f0": "A15", "0000000f": "A7"}
    labels = {"00000000," + k: v for k, v in labels.items()}
    tz = ctx.choice("tz", [None] + list(zones))
    wrong = ctx.choice("wrong", [None, "actors", "labels"])
    n = ctx.choice("runs", [1, 2])
    power = ctx.bool("power")
    base, want = ctx.tmpdir(), []
    for j in range(n):
        os.makedirs(os.path.join(base, "d%d" % j))
        want.append(summary_trace(ctx, os.path.join(base, "d%d" % j), j,
                                  power))
    actors = ["X", "Y"] if wrong != "actors" else "XY"
    if wrong == "labels":
        labels = list(labels)
    kw = {} if tz is None else dict(tz_id=tz)
    cache = trappy.FTrace.disable_cache
    trappy.FTrace.disable_cache = True
    try:
        with drawing() as plt:
            try:
                if n == 1:
                    trappy.summary_plots(actors, labels, title="run0",
                                         path=os.path.join(base, "d0"), **kw)
                else:
                    trappy.compare_runs(
                        actors, labels,
                        [("run%d" % j, os.path.join(base, "d%d" % j))
                         for j in range(n)], **kw)
            except TypeError:
                ctx.check(wrong is not None, "wrong type")
                return
            except ValueError as e:
                ctx.check(not power and "power allocator" in str(e),
                          "no power events")
                return
    finally:
        trappy.FTrace.disable_cache = cache
    ctx.check(wrong is None and power, "refused")
    axes = [[ax for ax in f.flat() if ax.title] for f in plt.figures]
    titles = [[ax.title for ax in a] for a in axes]

    def found(text):
        hits = [a for a, t in zip(axes, titles) if
                t and all(text in x for x in t)]
        ctx.check(len(hits) >= 1, text)
        return hits[0]
    temps = axes[0][0]
    ctx.check("Temperature" in temps.title, "temperatures first")
    for j, (temp, freq, req, grant) in enumerate(want):
        name = "run%d - " % j
        line = temps.lines[2 * j]
        shown = [(1, temp), (2, 90000)]
        shown = [s for z, s in enumerate(shown) if tz in (None, z)]
        starts = j + 1.1               # times count from the first event
        check_line(ctx, line, [j + 1 + i / 10 - starts for i, _ in
                               shown],
                   [t / 1000 for _, t in shown], "temperature")
        for what, value in (("Input Power", req), ("Output Power", grant)):
            ax = found(what)[j]
            ctx.check(ax.title == name + what, "power of the run")
            ctx.check([l.label for l in ax.lines] == ["X", "Y"], "actors")
            check_line(ctx, ax.lines[0], [j + 1.3 - starts], [value], what)
        ctx.check(found("PID")[j].title == name + "PID", "controller")
        use = [ax for a in axes for ax in a if
               ax.title == name + "Utilization"]
        ctx.check(len(use) == 1 and sorted(l.label for l in use[0].lines) ==
                  ["A15", "A7"], "load")
        for actor in ("A15", "A7"):
            hits = [ax for a in axes for ax in a if
                    ax.title == name + "allfreqs " + actor]
            ctx.check(len(hits) == 1, "frequencies")
            line, = [l for l in hits[0].lines if l.label == actor + "_freq_in"]
            ctx.check(ctx.eq(line.ys[-1], freq / 1000), "frequency")
    for text in ("freq", "emp"):
        ctx.check(any(ax.hists and text in (ax.title or "") for a in axes
                      for ax in a), "histograms")
