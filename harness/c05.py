"""C05: array fields become one column per element, padded with zero."""
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "array names of letters, digits and underscores; elements separated by "
    "single blanks; at most 3 rows, 2 arrays a row, 3-11 elements",
]


def build(ctx, rows):
    """rows: list of lists of (name, value text or list of texts)"""
    lines = []
    for i, fields in enumerate(rows):
        words = []
        for name, v in fields:
            if isinstance(v, list):
                words.append(name + "={" + " ".join(v) + "}")
            else:
                words.append(name + "=" + v)
        lines.append("  a-1 [000] %d.000000: alpha: " % (i + 1) +
                     " ".join(words))
    trace = ftrace(ctx.write(lines), events=["alpha"], scope="custom")
    return trace.alpha.data_frame


def num(v):
    return int(v)


def expect(ctx, df, rows):
    longest = {}
    for fields in rows:
        for name, v in fields:
            if isinstance(v, list):
                longest[name] = max(longest.get(name, 0), len(v))
    want = []
    names = set()
    for fields in rows:
        row = {}
        for name, v in fields:
            if not isinstance(v, list):
                row[name] = v
                continue
            if not v:
                continue
            for i in range(longest[name]):
                row[name + str(i)] = v[i] if i < len(v) else "0"
        want.append(row)
        names.update(row)
    ctx.check(len(df) == len(rows), "one row per line")
    got = sorted(c for c in df.columns if not c.startswith("__"))
    ctx.check(got == sorted(names), "columns are the elements: %s %s" %
              (got, sorted(names)))
    for name in sorted(names):
        vals = col(df, name)
        for i, row in enumerate(want):
            if name in row:
                w = row[name]
                if w == "v":
                    ctx.check(vals[i] == "v", name + ": text")
                else:
                    ctx.check(ctx.eq(vals[i], num(w)), name + ": element")
            else:
                ctx.check(vals[i] != vals[i], name + ": absent is empty")
    ctx.observe("rows", [[n, col(df, n)] for n in got])


def arr(ctx, name, hi):
    n = int(ctx.int(name + "n", 0, hi))
    return [ctx.digits(name + str(i), 1) for i in range(n)]


@case("lengths", bounds="k rows, one array each of 0 to m elements in every "
      "position among two plain fields",
      quick=[dict(k=1, m=3), dict(k=2, m=3), dict(k=3, m=2)],
      thorough=[dict(k=3, m=3), dict(k=4, m=2)])
def lengths(ctx, k, m):
    rows = []
    for r in range(k):
        load = ("load", arr(ctx, "r%d" % r, m))
        at = ctx.choice("at%d" % r, [0, 1, 2])
        fields = [("cpu", "5"), ("st", "v")]
        rows.append(fields[:at] + [load] + fields[at:])
    expect(ctx, build(ctx, rows), rows)


@case("two arrays", bounds="two rows, two arrays of 0-2 elements, optional",
      quick=[dict(order="same"), dict(order="swapped")])
def two_arrays(ctx, order):
    rows = []
    for r in range(2):
        fields = [("n", str(r))]
        one = ("load", arr(ctx, "l%d" % r, 2))
        two = ("power", arr(ctx, "p%d" % r, 2))
        have = ctx.choice("have%d" % r, ["both", "one"])
        if have == "both":
            fields += [one, two] if r == 0 or order == "same" else [two, one]
        else:
            fields += [one]
        rows.append(fields)
    expect(ctx, build(ctx, rows), rows)


@case("different widths", bounds="two arrays, one of 3 elements in one row, "
      "the other of 1-3 and 1-3 elements in two rows", quick=[{}])
def different_widths(ctx):
    wide, a, b = (ctx.choice("w", [1, 2, 3]), ctx.choice("a", [1, 2, 3]),
                  ctx.choice("b", [1, 2, 3]))
    name = ctx.choice("name", ["load", "a_load", "loadx"])

    def some(tag, n):
        return [ctx.digits(tag + str(i), 1) for i in range(n)]
    rows = [[("n", "0"), (name, some("x", wide)), ("power", some("p", a))],
            [("power", some("q", b)), ("n", "1"), (name, some("y", 1))]]
    expect(ctx, build(ctx, rows), rows)


@case("names", bounds="two rows, an array of 0-2 elements at the start, in "
      "the middle or at the end, its name one of eight with digits, capitals "
      "and underscores", quick=[{}])
def names(ctx):
    name = ctx.choice("name", ["l2", "cpu0_load", "L", "aB", "_x", "x_", "7",
                               "0x1"])
    rows = []
    for r in range(2):
        fields = [("t", "v"), ("n", str(r))]
        fields.insert(ctx.choice("at%d" % r, [0, 1, 2]),
                      (name, arr(ctx, "a%d" % r, 2)))
        rows.append(fields)
    expect(ctx, build(ctx, rows), rows)


@case("rows without", bounds="three rows, each with or without the array",
      quick=[{}])
def rows_without(ctx):
    rows = []
    for r in range(3):
        kind = ctx.choice("kind%d" % r, ["none", "empty", "one", "two"])
        fields = [("n", str(r))]
        if kind == "empty":
            fields.append(("load", []))
        elif kind == "one":
            fields.append(("load", [ctx.digits("v%d" % r, 1)]))
        elif kind == "two":
            fields.append(("load", [ctx.digits("v%d" % r, 1), "0x1f"]))
        rows.append(fields)
    if not any(f[0] == "load" and f[1] for r in rows for f in r):
        df = build(ctx, rows)
        ctx.check(sorted(df.columns) == ["__comm", "__cpu", "__line",
                                         "__pid", "n"], "no elements")
        return
    df = build(ctx, rows)
    ctx.check(len(df) == 3, "rows")
    for r, fields in enumerate(rows):
        v = fields[1][1] if len(fields) > 1 else []
        if v:
            ctx.check(ctx.eq(col(df, "load0")[r], int(v[0])), "first")
            if "load1" in df.columns:
                ctx.check(ctx.eq(col(df, "load1")[r],
                                 31 if len(v) > 1 else 0), "second")
        else:
            ctx.check(col(df, "load0")[r] != col(df, "load0")[r], "empty")
    ctx.check(("load1" in df.columns) ==
              any(len(f) > 1 and len(f[1][1]) > 1 for f in rows), "width")
    ctx.check("load" not in df.columns, "no column of the array itself")


@case("long", bounds="11 elements, numeric and text elements, symbolic",
      quick=[{}])
def long(ctx):
    n = int(ctx.int("n", 9, 11))
    vals = [ctx.digits("d%d" % i, 1) for i in range(n)]
    rows = [[("a_1", vals), ("k", "v")],
            [("a_1", ["7"]), ("k", "v")]]
    expect(ctx, build(ctx, rows), rows)


@case("text elements", bounds="elements of symbolic characters",
      quick=[{}])
def text_elements(ctx):
    x = ctx.text("x", 2, "ab-1")
    df = build(ctx, [[("s", [x, "q"])], [("s", ["w"])]])
    want = [x, "w"]
    try:
        want[0] = int(x, 0)
    except ValueError:
        pass
    ctx.check(ctx.eq(col(df, "s0"), want), "first elements")
    ctx.check(ctx.eq(col(df, "s1"), ["q", 0]), "second elements")
