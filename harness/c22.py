"""C22: plot requests expand to the right set of lines."""
from symex.case import case
from harness.common import quiet, ftrace
from harness.c16 import frozen

ASSUMPTIONS = [
    "up to three traces or data frames, columns and events; values are one "
    "digit; traces given names have different names; numbers among pivots "
    "come before text",
]
NONE = "__TRAPPY_PIVOT_DEFAULT"
ALL = "__TRAPPY_DEFAULT_PIVOT_VAL"
EVENTS = ["alpha", "beta", "gamma"]
COLUMNS = ["u", "v", "w"]


def values_of(ctx, traces):
    """A digit for each trace, event and column."""
    out = {}
    for i in range(traces):
        for e in EVENTS:
            for c in COLUMNS:
                out[i, e, c] = ctx.digits("x%d%s%s" % (i, e[0], c), 1)
    return out


def open_trace(ctx, i, values, name=""):
    lines = ["  a-1 [000] %d.500000: %s: u=" % (j + 1, e) + values[i, e, "u"]
             + " v=" + values[i, e, "v"] + " w=" + values[i, e, "w"]
             for j, e in enumerate(EVENTS)]
    trace = ftrace(ctx.write(lines, "trace%d.txt" % i), events=EVENTS,
                   scope="custom", normalize_time=False)
    trace.name = name
    return trace


def manager(traces, columns, templates, pivot=NONE, filters=None, **kw):
    from trappy.plotter.Constraint import ConstraintManager
    quiet()
    return ConstraintManager(traces, columns, templates, pivot,
                             filters or {}, **kw)


def shape(ctx, name, items, longest):
    """None (a single value) or the items of a list."""
    n = ctx.choice(name, ["single"] + list(range(1, longest + 1)))
    return (items[0], items[:1]) if n == "single" else \
        (items[:n], items[:n])


def check_lines(ctx, mgr, want, source, columns, templates):
    """want: (trace, column, template, label index) of each line"""
    got = list(mgr)
    ctx.check(len(got) == len(want) and len(mgr) == len(want),
              "number of lines")
    for c, (t, col, tpl, label) in zip(got, want):
        ctx.check(list(c.result) == [ALL], "without pivot")
        ctx.check(ctx.eq(c.result[ALL].tolist(), [source(t, tpl, col)]),
                  "data of the line")
        ctx.check(c.column == columns[col], "column")
        ctx.check(c.trace_index == label, "trace of the line")


@case("expansion", bounds="1-n traces, columns and events of 3, each as a "
      "single value or a list, paired or permuted",
      quick=[dict(n=2), dict(n=3)])
def expansion(ctx, n):
    values = values_of(ctx, n)
    all_traces = [open_trace(ctx, i, values) for i in range(n)]
    classes = all_traces[0].class_definitions
    traces, ts = shape(ctx, "traces", all_traces, n)
    columns, cs = shape(ctx, "columns", COLUMNS, n)
    templates, es = shape(ctx, "events", [classes[e] for e in EVENTS], n)
    permute = ctx.bool("permute")
    lens = [len(ts), len(cs), len(es)]
    longest = max(lens)
    try:
        mgr = manager(traces, columns, templates,
                      zip_constraints=not permute)
    except RuntimeError:
        mgr = None
    if not permute:
        valid = all(k in (1, longest) for k in lens)
        ctx.check((mgr is not None) == valid, "incompatible lengths refused")
        if not valid:
            return
        want = []
        for i in range(longest):
            t = i if len(ts) > 1 else 0
            want.append((t, i if len(cs) > 1 else 0,
                         i if len(es) > 1 else 0,
                         t if len(ts) > 1 or longest > 1 else 0))
    else:
        pairs = max(len(cs), len(es))
        valid = len(cs) in (1, pairs) and len(es) in (1, pairs)
        ctx.check((mgr is not None) == valid,
                  "only incompatible columns and events refused")
        if not valid:
            return
        want = [(t, i if len(cs) > 1 else 0, i if len(es) > 1 else 0, t)
                for t in range(len(ts)) for i in range(pairs)]
    check_lines(ctx, mgr, want,
                lambda t, e, c: int(values[t, EVENTS[e], COLUMNS[c]]),
                COLUMNS, EVENTS)
    labels = ["Trace %d:%s:%s" % (w[3], EVENTS[w[2]], COLUMNS[w[1]])
              for w in want]
    ctx.check(mgr.constraint_labels() == labels, "labels")
    ctx.observe("labels", labels)


@case("frames", bounds="1-2 data frames and 1-2 columns, single or lists, "
      "paired or permuted; empty lists are refused", quick=[{}])
def frames(ctx):
    import pandas as pd
    cells = dict(((i, c), ctx.digits("x%d%s" % (i, c), 1))
                 for i in range(2) for c in COLUMNS[:2])
    both = [pd.DataFrame(dict((c, [int(cells[i, c])]) for c in COLUMNS[:2]),
                         index=[1.5]) for i in range(2)]
    fs, ts = shape(ctx, "frames", both, 2)
    columns, cs = shape(ctx, "columns", COLUMNS[:2], 2)
    permute = ctx.bool("permute")
    before = [frozen(f) for f in both]
    mgr = manager(fs, columns, None, zip_constraints=not permute)
    if permute:
        want = [(t, i, 0, t) for t in range(len(ts)) for i in range(len(cs))]
    else:
        want = [(i if len(ts) > 1 else 0, i if len(cs) > 1 else 0, 0,
                 i if len(ts) > 1 else 0)
                for i in range(max(len(ts), len(cs)))]
    check_lines(ctx, mgr, want, lambda t, e, c: int(cells[t, COLUMNS[c]]),
                COLUMNS, [None])
    ctx.check(mgr.constraint_labels() ==
              ["DataFrame %d:%s" % (w[3], COLUMNS[w[1]]) for w in want],
              "labels")
    ctx.check(all(ctx.eq(frozen(f), b) for f, b in zip(both, before)),
              "data unaltered")


@case("empty requests", bounds="no traces, columns or events next to 1-2 of "
      "the others", quick=[{}])
def empty_requests(ctx):
    values = values_of(ctx, 2)
    ts = [open_trace(ctx, i, values) for i in range(2)]
    es = [ts[0].class_definitions[e] for e in EVENTS[:2]]
    n = [ctx.choice("n%d" % i, [0, 1, 2]) for i in range(3)]
    if 0 not in n:
        return
    if n[0]:
        ts = ts[:n[0]]
    refused = False
    try:
        mgr = manager(ts[:n[0]], COLUMNS[:n[1]], es[:n[2]],
                      zip_constraints=not ctx.bool("permute"))
    except RuntimeError:
        refused = True
    ctx.check(refused or (n == [0, 0, 0] and len(mgr) == 0), "refused")


@case("labels", bounds="two traces with or without names, two signals, "
      "paired or permuted: labels differ", quick=[{}])
def labels(ctx):
    values = values_of(ctx, 2)
    names = ["", ctx.choice("name0", ["", "old", "42", "0"]),
             ctx.choice("name1", ["", "new"])][1:]
    ts = [open_trace(ctx, i, values, names[i]) for i in range(2)]
    es = [ts[0].class_definitions[e] for e in EVENTS[:2]]
    permute = ctx.bool("permute")
    one = ctx.bool("one trace")
    mgr = manager(ts[0] if one else ts, COLUMNS[:2], es,
                  zip_constraints=not permute)
    shown = [n or "Trace %d" % i for i, n in enumerate(names)]
    if permute:
        want = [t + ":" + s for t in (shown[:1] if one else shown)
                for s in ("alpha:u", "beta:v")]
    else:
        want = [shown[0] + ":alpha:u", shown[0 if one else 1] + ":beta:v"]
    got = mgr.constraint_labels()
    ctx.check(got == want and len(set(got)) == len(got), "labels")


def key_of(kind, text):
    return text if kind == "text" else int(text, 16)


@case("pivots", bounds="two traces of k and m rows with symbolic pivots "
      "(four numbers, hexadecimal or letters): the offered pivots are the sorted "
      "union, every line has exactly its own",
      quick=[dict(k=2, m=1, kind=x) for x in ("int", "hex", "text")] +
      [dict(k=0, m=2, kind="int")],
      thorough=[dict(k=2, m=2, kind=x) for x in ("hex", "int")])
def pivots(ctx, k, m, kind):
    alphabet = {"int": "0259", "hex": "09bf", "text": "qrst"}[kind]
    quiet()
    rows, traces = [], []
    for i, n in enumerate((k, m)):
        mine = []
        for j in range(n):
            p = ctx.chars("p%d_%d" % (i, j), 1, alphabet)
            mine.append((p, ctx.digits("v%d_%d" % (i, j), 1)))
        rows.append(mine)
        pad = "" if kind == "int" else \
            ("f" if kind == "hex" else "z")
        rows[-1] = [(pad + p, v) for p, v in mine]
        traces.append(ftrace(ctx.write(
            ["  a-1 [000] 0.500000: start: x=1"] +
            ["  a-1 [000] %d.500000: alpha: cpu=%s" % (j + 1, pad) + p +
             " v=" + v for j, (p, v) in enumerate(mine)], "t%d.txt" % i),
            events=["alpha"], scope="custom", normalize_time=False))
    mgr = manager(traces, "v", traces[0].class_definitions["alpha"], "cpu")

    def num(p):
        return int(p) if kind == "int" else p
    want = []
    for p, _ in rows[0] + rows[1]:
        p = num(p)
        at = 0
        while at < len(want) and want[at] < p:
            at += 1
        if at == len(want) or want[at] != p:
            want.insert(at, p)
    got, n = mgr.generate_pivots()
    got = list(got)
    ctx.check(n == len(want) and ctx.eq(got, want), "sorted union")
    gen, n = mgr.generate_pivots(permute=True)
    gen = list(gen)
    ctx.check(n == 2 * len(want) and
              ctx.eq([p for _, p in gen], want + want) and
              [t for t, _ in gen] == [0] * len(want) + [1] * len(want),
              "pivots of every trace")
    for c, mine in zip(mgr, rows):
        for p in want:
            vals = [int(v) for q, v in mine if num(q) == p]
            have = [s.tolist() for q, s in c.result.items() if q == p]
            ctx.check(ctx.eq(have, [vals] if vals else []),
                      "lines of the pivot")
    ctx.observe("pivots", got)


@case("mixed order", bounds="two traces of two and one rows whose pivots "
      "are each one of two numbers, two names and a word of hexadecimal digits: "
      "offered once each, numbers first and in order, with its own values",
      quick=[{}])
def mixed_order(ctx):
    quiet()
    kinds = ["7", "12", "sh", "init", "fe"]
    rows, traces = [], []
    for i, n in enumerate((2, 1)):
        mine = [(ctx.choice("p%d_%d" % (i, j), kinds),
                 ctx.digits("v%d_%d" % (i, j), 1)) for j in range(n)]
        rows.append([(int(p) if p.isdigit() else p, int(v))
                     for p, v in mine])
        traces.append(ftrace(ctx.write(
            ["  a-1 [000] 0.500000: start: x=1"] +
            ["  a-1 [000] %d.500000: alpha: who=" % (j + 1) + p + " v=" + v
             for j, (p, v) in enumerate(mine)], "t%d.txt" % i),
            events=["alpha"], scope="custom", normalize_time=False))
    mgr = manager(traces, "v", traces[0].class_definitions["alpha"], "who")
    got, n = mgr.generate_pivots()
    got = list(got)
    have = []
    for p, _ in rows[0] + rows[1]:
        if p not in have:
            have.append(p)
    ctx.check(n == len(got) == len(have) and
              all(p in got and type(p) == type(q) for p in have
                  for q in got if q == p), "union")
    numbers = [p for p in have if not isinstance(p, str)]
    if "sh" in have or "init" in have:
        ctx.check(got[:len(numbers)] == sorted(numbers), "numbers first")
        texts = got[len(numbers):]
        ctx.check(texts == sorted(texts), "then text")
    for c, mine in zip(mgr, rows):
        for p in have:
            vals = [v for q, v in mine if q == p]
            ctx.check(ctx.eq([s.tolist() for q, s in c.result.items()
                              if q == p], [vals] if vals else []),
                      "lines of the pivot")
    ctx.observe("pivots", got)


@case("number order", bounds="one trace of two rows whose pivots have one "
      "or two digits of 0, 1, 2, 9 or hexadecimal digits of a, b, f, or are "
      "masks of one or three digits, or of either sign",
      quick=[dict(kind="int"), dict(kind="hex"), dict(kind="mask"), dict(kind="negative")])
def number_order(ctx, kind):
    quiet()
    texts = []
    for j in range(2):
        n = ctx.choice("n%d" % j, [1, 3] if kind == "mask" else [1, 2])
        if kind == "mask":
            t = ctx.chars("p%d" % j, n, "bf")
        elif kind == "int":
            t = ctx.chars("p%d" % j, n, "0129")
            ctx.assume(t[0] != "0")
        elif kind == "negative":
            t = ctx.chars("p%d" % j, n, "129")
            if ctx.bool("minus%d" % j):
                t = "-" + t
        else:
            t = ctx.chars("p%d" % j, n, "abf")
        texts.append(t)
    trace = ftrace(ctx.write(
        ["  a-1 [000] %d.500000: alpha: cpu=" % (j + 1) + t + " v=1"
         for j, t in enumerate(texts)]), events=["alpha"], scope="custom",
        normalize_time=False)
    mgr = manager(trace, "v", trace.class_definitions["alpha"], "cpu")
    got = mgr.generate_pivots()[0]
    base = 10 if kind in ("int", "negative") else 16
    a, b = [int(t, base) for t in texts]
    vals = [x if base == 10 else int(x, 16) for x in got]
    if a == b:
        ctx.check(ctx.eq(vals, [a]), "once")
    elif a < b:
        ctx.check(ctx.eq(vals, [a, b]), "numeric order")
    else:
        ctx.check(ctx.eq(vals, [b, a]), "numeric order")
