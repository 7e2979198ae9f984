"""C27: workload-automation results are grouped without loss."""
import os
from symex.case import case
from harness.common import quiet

ASSUMPTIONS = [
    "results files are the comma-separated tables of Workload Automation "
    "(run, workload, iteration, metric, value, ...) with at least one score; "
    "values have up to two symbolic digits before and after the point",
]
BENCHES = ["antutu", "t-rex"]
HEAD = "id,workload,iteration,metric,value,units"


class Row(object):
    pass


def value_of(ctx, j, kinds=("int", "float")):
    kind = ctx.choice("kind%d" % j, kinds)
    if kind == "digit":
        text = ctx.digits("v%d" % j, 1)
        return text, int(text)
    if kind == "int":
        text = ctx.digits("v%d" % j, 2)
        return text, int(text)
    text = ctx.digits("v%d" % j, 1) + "." + ctx.digits("w%d" % j, 1)
    return text, float(text)


def rows_of(ctx, k, metrics, runs=("step_wise", "pa"), benches=BENCHES,
            kinds=("int", "float")):
    out = []
    for j in range(k):
        r = Row()
        r.bench = ctx.choice("bench%d" % j, benches)
        r.run = ctx.choice("run%d" % j, runs)
        r.metric = ctx.choice("metric%d" % j, metrics)
        r.text, r.value = value_of(ctx, j, kinds)
        r.line = r.run + "_%d," % (j + 1) + r.bench + ",%d," % (j + 1) + \
            r.metric + "," + r.text + ",units"
        out.append(r)
    return out


NUMBERS = {"score": 0, "score_1": 1, "score 2": 2, "Overall_Score": 0,
           "Overall_Score_2": 1, "FPS_3": 3, "Memory_score": None,
           "execution_time": None, "Score": None}


def expected(rows, name=None):
    want = {}
    for r in rows:
        n = NUMBERS[r.metric]
        if n is None:
            continue
        mine = want.setdefault((r.bench, name or r.run), {})
        mine.setdefault(n, r.value)
    return want


def cells(frame):
    out = {}
    for i, key in enumerate(frame.columns.tolist()):
        vals = frame.iloc[:, i]
        out.setdefault(tuple(key), []).append(
            dict((n, v) for n, v in zip(vals.index.tolist(), vals.tolist())
                 if not (type(v) is float and v != v)))
    return out


def check_table(ctx, frame, want, what="table"):
    got = cells(frame)
    ctx.check(sorted(got) == sorted(want), what + ": workloads and runs")
    for key, mine in want.items():
        ctx.check(len(got[key]) == 1, what + ": one column each")
        have = got[key][0]
        ctx.check(sorted(have) == sorted(mine), what + ": iterations")
        for n, v in mine.items():
            ctx.check(ctx.eq(have[n], v), what + ": values")


def read(ctx, rows, name=None, file="results.csv", folder=False):
    from trappy.wa import get_results
    quiet()
    path = ctx.write([HEAD] + [r.line for r in rows], file)
    kw = {"name": name} if name else {}
    return get_results(os.path.dirname(path) if folder else path, **kw)


@case("tables", bounds="k rows of two workloads and two runs with a "
      "selection of metrics, symbolic whole or fractional values",
      quick=[dict(k=1, m=9), dict(k=2, m=4), dict(k=3, m=2, few=True)],
      thorough=[dict(k=2, m=9), dict(k=3, m=3), dict(k=4, m=2, few=True)])
def tables(ctx, k, m, few=False):
    rows = rows_of(ctx, k, ["score_1", "score", "Memory_score", "FPS_3",
                            "Overall_Score", "Overall_Score_2", "score 2",
                            "execution_time", "Score"][:m],
                   kinds=("digit",) if few else ("int", "float"))
    want = expected(rows)
    if not want:
        return
    frame = read(ctx, rows)
    check_table(ctx, frame, want)
    import trappy.wa
    ctx.check(isinstance(frame, trappy.wa.Result), "kind of table")
    ctx.observe("cells", [sorted(x[0]) for x in cells(frame).values()])


@case("where and under which name", bounds="two rows read from a folder, a "
      "file of another name, with and without a name for the run",
      quick=[{}])
def where(ctx):
    rows = rows_of(ctx, 2, ["score_1", "score"], kinds=("digit",))
    name = ctx.choice("name", [None, "malkovich"])
    if ctx.bool("folder"):
        frame = read(ctx, rows, name, folder=True)
    else:
        frame = read(ctx, rows, name, ctx.choice("file", ["results.csv",
                                                          "other.txt"]))
    check_table(ctx, frame, expected(rows, name))


@case("metrics", bounds="names of metrics with a symbolic number of 1-2 "
      "digits after every accepted start and separator, and lookalikes with "
      "one symbolic character changed", quick=[{}])
def metrics(ctx):
    from trappy.wa.results import get_run_number
    quiet()
    start = ctx.choice("start", ["score", "FPS", "Overall_Score"])
    how = ctx.choice("how", ["plain", "number", "other"])
    if how == "plain":
        ctx.check(get_run_number(start) == (True, 0), "without number")
    elif how == "number":
        digits = ctx.digits("n", ctx.choice("len", [1, 2]))
        number = int(digits)
        if start == "Overall_Score":
            number = number - 1
        found, got = get_run_number(start + ctx.choice("sep", "_ ") + digits)
        ctx.check(found is True and ctx.eq(got, number), "number")
    else:
        at = ctx.choice("at", range(len(start)))
        c = ctx.chars("c", 1, "xSfo_" + start[at])
        name = start[:at] + c + start[at + 1:]
        found, got = get_run_number(name + "_4")
        if name == start:
            ctx.check(found, "a score")
        else:
            ctx.check(not found and got is None, "not a score")


@case("combinations", bounds="2-3 tables of one or two workloads each with "
      "symbolic values under different run names", quick=[dict(n=2)],
      thorough=[dict(n=3)])
def combinations(ctx, n):
    from trappy.wa import combine_results
    quiet()
    want, frames = {}, []
    for i in range(n):
        rows = []
        for j, b in enumerate(ctx.choice("benches%d" % i,
                                         [["antutu"], ["t-rex"],
                                          ["t-rex", "antutu"]])):
            r = Row()
            r.bench, r.run = b, "any"
            r.metric = ctx.choice("metric%d_%d" % (i, j), ["score",
                                                           "score_1"])
            r.text = ctx.digits("v%d_%d" % (i, j), 2)
            r.value = int(r.text)
            r.line = "any_1," + b + ",1," + r.metric + "," + r.text + ",x"
            rows.append(r)
        name = "run %s" % "cab"[i]
        want.update(expected(rows, name))
        frames.append(read(ctx, rows, name, "r%d.csv" % i))
    before = [cells(f) for f in frames]
    frame = combine_results(frames)
    check_table(ctx, frame, want, "combined")
    runs = ["run c", "run a", "run b"]
    order = [runs.index(r) for b, r in frame.columns.tolist()
             if b == "antutu"]
    ctx.check(order == sorted(order), "runs in order")
    ctx.check(ctx.eq([[sorted(x[0].items()) for x in c.values()]
                      for c in before],
                     [[sorted(x[0].items()) for x in cells(f).values()]
                      for f in frames]), "tables unaltered")


@case("dropped runs", bounds="tables split by dropping a workload or a run "
      "and combined again", quick=[{}])
def dropped(ctx):
    from trappy.wa import combine_results
    rows = rows_of(ctx, 0, [])
    for i, (b, run) in enumerate([("antutu", "pa"), ("antutu", "step_wise"),
                                  ("t-rex", "pa")]):
        r = Row()
        r.bench, r.run, r.metric = b, run, "score_1"
        r.text = ctx.digits("v%d" % i, 2)
        r.value = int(r.text)
        r.line = run + "_1," + b + ",1,score_1," + r.text + ",x"
        rows.append(r)
    one, two = read(ctx, rows), read(ctx, rows)
    if ctx.bool("workload"):
        one = one.drop("t-rex", axis=1, level=0)
        two = two.drop("antutu", axis=1, level=0)
    else:
        one = one.drop("pa", axis=1, level=1)
        two = two.drop("step_wise", axis=1, level=1)
    pair = [one, two] if ctx.bool("order") else [two, one]
    check_table(ctx, combine_results(pair), expected(rows), "combined")
    alone = cells(one)
    check_table(ctx, combine_results([one]),
                dict((b, v[0]) for b, v in alone.items()), "alone")


@case("long values", bounds="one value with 3-5 symbolic digits before and "
      "after the point, negative or not, or in thousands",
      quick=[{}])
def long_values(ctx):
    r = Row()
    r.bench, r.run, r.metric = "antutu", "pa", "score"
    r.text = ctx.digits("v", ctx.choice("before", [1, 5]))
    if ctx.bool("point"):
        r.text = r.text + "." + ctx.digits("w", ctx.choice("after", [3, 5]))
    if ctx.bool("negative"):
        r.text = "-" + r.text
    r.value = float(r.text)
    r.line = "pa_1,antutu,1,score," + r.text + ",x"
    check_table(ctx, read(ctx, [r]), expected([r]))
