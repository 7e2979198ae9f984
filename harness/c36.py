"""C36: plots of benchmark results show every score inside the axis."""
import pandas as pd

from symex.case import case
from harness.common import quiet
from harness.draw import drawing
from harness.c27 import BENCHES, Row, expected, read

ASSUMPTIONS = [
    "what is drawn is recorded instead of painted; two workloads, up to two "
    "runs and three iterations, a score may be missing in one of the runs",
]
RUNS = ["pa", "step"]
TITLES = {"antutu": "Antutu", "t-rex": "T-Rex", "a_b_c": "A B C"}


def results(ctx, k, tag="", benches=BENCHES, metrics=("score_1", "score 2")):
    """A table of k scores"""
    rows = []
    for j in range(k):
        r = Row()
        r.bench = ctx.choice("%sbench%d" % (tag, j), benches)
        r.run = ctx.choice("%srun%d" % (tag, j), RUNS)
        r.metric = metrics[j % len(metrics)]
        r.text = ctx.digits("%sv%d" % (tag, j), 2) if j != 2 else "7"
        r.value = int(r.text)
        r.line = "%s_1,%s,1,%s," % (r.run, r.bench, r.metric) + r.text + ",x"
        rows.append(r)
    return read(ctx, rows, None, tag + "results.csv"), expected(rows)


def check_bars(ctx, axis, want, bench):
    """The bars of a workload are drawn on the axis"""
    runs = sorted({r for b, r in want if b == bench})
    numbers = sorted({n for (b, _), mine in want.items() if b == bench
                      for n in mine})
    ctx.check(set(axis.kinds) == {"bar"}, "bars")
    ctx.check(sorted(l.label for l in axis.lines[:len(runs)]) == runs,
              "labels")
    for line in axis.lines[:len(runs)]:
        ctx.check(set(numbers) <= set(line.xs) <=
                  {n for mine in want.values() for n in mine} and
                  len(set(line.xs)) == len(line.xs), "iterations")
        mine = want[bench, line.label]
        for n, v in zip(line.xs, line.ys):
            ctx.check(ctx.eq(v, mine[n] if n in mine else float("nan")),
                      "score")


@case("workloads", bounds="k scores of two workloads, two runs and two "
      "iterations, each workload plotted on an own axis or on that of the "
      "results, or all at once, with and without a title",
      quick=[dict(k=2), dict(k=3)], thorough=[dict(k=4)])
def workloads(ctx, k):
    quiet()
    names = ["antutu", "a_b_c"] if k == 2 else BENCHES
    table, want = results(ctx, k, benches=names)
    benches = sorted({b for b, _ in want})
    with drawing() as plt:
        own = ctx.bool("own figure")
        if own:
            table.init_fig()
            ctx.check(table.ax is plt.figures[0].axes[0][0], "axis")
            if k == 2 and ctx.bool("another figure"):
                plt.subplots()
        figures = len(plt.figures)
        if ctx.bool("all"):
            title = None
            table.plot_results()
            shown = benches
        else:
            title = ctx.choice("title", [None, "", "My title"][:5 - k])
            shown = [ctx.choice("which", benches)]
            if title is None:
                table.plot_results_benchmark(shown[0])
            else:
                table.plot_results_benchmark(shown[0], title=title)
        if own:
            axes = [table.ax]
            ctx.check(len(plt.figures) == figures, "no other figure")
        else:
            axes = [f.axes[0][0] for f in plt.figures]
            ctx.check(len(axes) == len(shown), "a figure each")
        titles = {TITLES[b] if title is None else title: b for b in shown}
        seen = [axis.title for axis in axes]
        ctx.check(set(seen) <= set(titles) and
                  (own or len(set(seen)) == len(shown)), "title")
        for axis in axes:
            # on one axis, the last workload is on top
            bench = titles[axis.title]
            ctx.check(axis.legends > 0, "legend")
            if own:
                mine = {r for b, r in want if b == bench}
                axis.lines = axis.lines[-len(mine):]
            check_bars(ctx, axis, want, bench)
        if own:
            for f in plt.figures:
                ctx.check(f.axes[0][0] is table.ax or
                          not f.axes[0][0].legends, "legend of the plot")


@case("axis", bounds="an axis with symbolic limits and up to k symbolic "
      "scores of two runs, some of them missing: afterwards no score is "
      "outside or at the edge, nothing shown before is lost and it is "
      "unchanged if there was nothing to do",
      quick=[dict(k=2)], thorough=[dict(k=3)])
def axis(ctx, k):
    from trappy.wa import Result
    quiet()
    table, values = {}, []
    for run in RUNS:
        have = ctx.choice("have " + run, list(range(k + 1)))
        mine = [ctx.real("%s%d" % (run, j), -100, 100, den=4)
                for j in range(have)]
        values += mine
        table["bench", run] = mine + [float("nan")] * (k - have)
    if not values:
        return
    frame = Result(pd.DataFrame(table, dtype=object).infer_objects())
    low = ctx.real("low", -100, 99, den=4)
    high = low + ctx.real("size", 1, 50, den=4)
    with drawing() as plt:
        frame.init_fig()
        if ctx.bool("another figure"):
            plt.subplots()[1].set_ylim(-1000, 1000)
        frame.ax.set_ylim(low, high)
        n = len(frame.ax.set_limits)
        frame.enlarge_axis(frame["bench"])
        new = frame.ax.get_ylim()
        for f in plt.figures[1:]:
            ctx.check(f.axes[0][0].get_ylim() == (-1000, 1000),
                      "other figure")
    smallest, largest = values[0], values[0]
    for v in values:
        smallest = ctx.ite(v < smallest, v, smallest)
        largest = ctx.ite(largest < v, v, largest)
    ctx.check(ctx.all(ctx.lt(new[0], smallest), ctx.lt(largest, new[1])),
              "all scores inside")
    ctx.check(ctx.all(ctx.le(new[0], low), ctx.le(high, new[1])),
              "not smaller")
    ctx.check(ctx.any(ctx.le(smallest, low), ctx.eq(new[0], low)),
              "lower end as it was")
    ctx.check(ctx.any(ctx.le(high, largest), ctx.eq(new[1], high)),
              "upper end as it was")
    for inside, end, far in ((smallest, low, smallest - new[0]),
                             (largest, high, new[1] - largest)):
        moved = ctx.neg(ctx.eq(new[0 if end is low else 1], end))
        # a tenth of the range, but at least one
        wide = (largest - smallest) / 10
        ctx.check(ctx.any(ctx.neg(moved), ctx.all(
            ctx.le(1, far), ctx.le(wide, far + 1e-9))), "margin")
    ctx.observe("limits", list(new))
