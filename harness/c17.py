"""C17: expressions over trace signals evaluate with usual precedence."""
from symex.case import case
from harness.common import quiet, ftrace, col, index

ASSUMPTIONS = [
    "operands are integers between -5 and 5 given as parameters, or columns "
    "of an event; exponents are the constants 2 and 3; expressions are well "
    "typed (logical operators combine comparisons) and inside the grammar; "
    "their text is concrete (one path per expression)",
]
LEVEL = {"**": 6, "*": 4, "/": 4, "//": 4, "%": 4, "+": 3, "-": 3, ">": 2,
         "<": 2, ">=": 2, "<=": 2, "==": 2, "!=": 2, "&&": 1, "||": 1, "&": 1,
         "|": 1}
ARITH = ["**", "*", "/", "//", "%", "+", "-"]
COMPARE = [">", "<", ">=", "<=", "==", "!="]
LOGIC = ["&&", "||", "&", "|"]
UNARY = 5


def operate(op, a, b):
    if op == "**":
        out = a
        for _ in range(b - 1):
            out = out * a
        return out
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "//":
        return a // b
    if op == "%":
        return a % b
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == ">":
        return b < a
    if op == "<":
        return a < b
    if op == ">=":
        return b <= a
    if op == "<=":
        return a <= b
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op in ("&", "&&"):
        return a & b
    return a | b


def tree(tokens):
    """Precedence climbing over the documented table."""
    pos = [0]

    def peek():
        return tokens[pos[0]] if pos[0] < len(tokens) else None

    def operand():
        t = peek()
        pos[0] += 1
        if t in ("-", "+"):
            inner = climb(operand(), UNARY)
            return ("neg", inner) if t == "-" else inner
        if t == "(":
            inner = climb(operand(), 0)
            assert peek() == ")"
            pos[0] += 1
            return inner
        return t

    def climb(left, above):
        while peek() in LEVEL and LEVEL[peek()] > above:
            op = peek()
            pos[0] += 1
            right = operand()
            while peek() in LEVEL and LEVEL[peek()] > LEVEL[op]:
                right = climb(right, LEVEL[op])
            left = (op, left, right)
        return left
    out = climb(operand(), 0)
    assert pos[0] == len(tokens)
    return out


def kind(t):
    """'n' number, 'b' truth value, None ill typed."""
    if type(t) is str:
        return "n"
    kinds = [kind(x) for x in t[1:]]
    if None in kinds:
        return None
    if t[0] == "neg":
        return "n" if kinds == ["n"] else None
    if t[0] == "**":
        return "n" if kinds == ["n", "n"] and t[2] in ("two", "three") \
            else None
    if t[0] in LOGIC:
        return "b" if kinds == ["b", "b"] else None
    if t[0] in COMPARE:
        return "b" if kinds[1] == "n" else None
    return "n" if kinds == ["n", "n"] else None


def evaluate(t, env):
    if type(t) is str:
        return env[t]
    if t[0] == "neg":
        return 0 - evaluate(t[1], env)
    return operate(t[0], evaluate(t[1], env), evaluate(t[2], env))


def solve(expr, pvars, data=None, **kw):
    import trappy
    from trappy.stats.grammar import Parser
    quiet()
    return Parser(data if data is not None else trappy.BareTrace(),
                  pvars=pvars, **kw).solve(expr)


def compare_both(ctx, tokens, env, data=None):
    """The parser and the oracle agree (division by zero included)."""
    t = tree(tokens)
    ctx.assume(kind(t) is not None)
    expr = " ".join(tokens)
    try:
        want = evaluate(t, env)
    except ZeroDivisionError:
        want = None
    try:
        got = solve(expr, env)
    except ZeroDivisionError:
        got = None
    if want is None or got is None:
        ctx.check(want is None and got is None, expr + ": division by zero")
        return
    ctx.check(ctx.eq(got, want), expr)
    ctx.observe("got", got)


def operand_after(op, name):
    return {"b": "two", "c": "three", "d": "two"}[name] if op == "**" \
        else name


@case("three operands", bounds="a o1 b o2 c with every pair of operators, "
      "every parenthesisation and a sign on any operand",
      quick=[dict(first=o, sign=0) for o in ARITH + ["cmp"]] +
      [dict(first=o, sign=s) for o in ("**", "*", "-") for s in (1, 2, 3)],
      thorough=[dict(first=o, sign=s) for o in ("/", "//", "%", "+", "cmp")
                for s in (1, 2, 3)])
def three(ctx, first, sign):
    o1 = ctx.choice("o1", COMPARE) if first == "cmp" else first
    o2 = ctx.choice("o2", ARITH + COMPARE)
    shape = ctx.choice("shape", ["flat", "left", "right"])
    b, c = operand_after(o1, "b"), operand_after(o2, "c")
    if o1 == "**" and shape == "right":
        b, o1, o2, c = "b", o2, o1, "two"    # a o2 (b ** two)
    parts = [["a"], [b], [c]]
    if sign:
        if parts[sign - 1][0] in ("two", "three"):
            ctx.assume(False)
        parts[sign - 1] = ["-"] + parts[sign - 1]
    x, y, z = parts
    if shape == "flat":
        tokens = x + [o1] + y + [o2] + z
    elif shape == "left":
        tokens = ["("] + x + [o1] + y + [")", o2] + z
    else:
        tokens = x + [o1, "("] + y + [o2] + z + [")"]
    env = {"two": 2, "three": 3}
    for n in "abc":
        env[n] = ctx.int(n, -5, 5)
    compare_both(ctx, tokens, env)


@case("four operands", bounds="a o1 b o2 c o3 d without parentheses, one "
      "operator of each level or more",
      quick=[dict(o=o) for o in ["**", "*", "-", "+"]],
      thorough=[dict(o=o, wide=True) for o in ["/", "//", "%", "**", "-"]])
def four(ctx, o, wide=False):
    ops = ARITH + ["<", "=="] if wide else ["**", "*", "/", "-", ">"]
    o2, o3 = ctx.choice("o2", ops), ctx.choice("o3", ops)
    tokens = ["a", o, operand_after(o, "b"), o2, operand_after(o2, "c"), o3,
              operand_after(o3, "d")]
    env = {"two": 2, "three": 3}
    for n in "abcd":
        env[n] = ctx.int(n, -3, 3)
    compare_both(ctx, tokens, env)


@case("logic", bounds="two or three comparisons of symbolic values combined "
      "by every pair of logical operators",
      quick=[dict(o=o, k=2) for o in COMPARE] + [dict(o="<", k=3)],
      thorough=[dict(o=o, k=3) for o in COMPARE[1:]])
def logic(ctx, o, k):
    env = {"two": 2, "three": 3}
    for n in "abcdef"[:2 * k]:
        env[n] = ctx.int(n, -5, 5)
    ops = [ctx.choice("l%d" % i, LOGIC) for i in range(k - 1)]
    tokens = ["a", o, "b"]
    extra = ctx.choice("extra", ["", "+", "*"])
    if extra:
        tokens += [extra, "two"]
    tokens += [ops[0], "c", ctx.choice("p", [">", "=="]), "d"]
    if k == 3:
        tokens += [ops[1], "e", "!=", "f"]
    group = ctx.choice("group", ["", "right"]) if k == 3 else ""
    if group:
        at = tokens.index(ops[0], 3) + 1
        tokens = tokens[:at] + ["("] + tokens[at:] + [")"]
    compare_both(ctx, tokens, env)


@case("signs", bounds="up to three signs before operands of powers, products "
      "and sums", quick=[dict(k=1), dict(k=2)], thorough=[dict(k=3)])
def signs(ctx, k):
    s = [ctx.choice("s%d" % i, ["-", "+"]) for i in range(k)]
    rest = ctx.choice("rest", [["a"], ["a", "**", "two"],
                               ["a", "**", "two", "**", "three"],
                               ["a", "*", "b"], ["a", "-", "b"],
                               ["(", "a", "-", "b", ")", "**", "three"],
                               ["a", "+", "b", "**", "two"]])
    front = ctx.choice("front", [[], ["b", "*"], ["b", "-"], ["b", "+"]])
    env = {"two": 2, "three": 3, "a": ctx.int("a", -5, 5),
           "b": ctx.int("b", -5, 5)}
    compare_both(ctx, front + s + rest, env)


NUMBERS = ["7", "12", "007", "2.5", "3.", "0.125", "1e3", "25E-2", "1.5e2",
           "4.e1"]


@case("literals", bounds="literal numbers of ten forms, signed or not, in "
      "expressions with a symbolic operand", quick=[{}])
def literals(ctx):
    text = ctx.choice("text", NUMBERS)
    value = {"7": 7, "12": 12, "007": 7, "2.5": 2.5, "3.": 3, "0.125": 0.125,
             "1e3": 1000, "25E-2": 0.25, "1.5e2": 150, "4.e1": 40}[text]
    a = ctx.int("a", -9, 9)
    shape, want = ctx.choice("shape", [
        ("%s + a", value + a), ("a - %s", a - value), ("a * -%s", -value * a),
        ("-%s + a", a - value), ("a-%s", a - value), ("a+%s*2", a + value * 2),
        ("-%s**2 + a", a - value * value), ("%s < a", a > value),
        ("(-%s)**2 - a", value * value - a)])
    got = solve(shape.replace("%s", text), {"a": a})
    ctx.check(ctx.eq(got, want), shape.replace("%s", text))
    ctx.observe("got", got)


@case("fractions", bounds="two signed literals with fractions joined by every "
      "operator, and parenthesised differences under up to two signs, joined "
      "to a symbolic operand", quick=[dict(shape=i) for i in range(3)])
def fractions(ctx, shape):
    nums = ["2.5", "1.5", "3"]
    x, y = ctx.choice("x", nums), ctx.choice("y", nums)
    sx, sy = ctx.choice("sx", ["", "-"]), ctx.choice("sy", ["", "-"])
    a = ctx.int("a", -9, 9)
    vx = float(x) if sx == "" else -float(x)
    vy = float(y) if sy == "" else -float(y)
    op = ctx.choice("op", ["*", "/", "//", "%", "+", "-"])
    if shape == 0:
        expr, value = "%s%s %s %s%s" % (sx, x, op, sy, y), operate(op, vx, vy)
    elif shape == 1:
        expr = "%s(%s %s %s%s)" % (sx, x, op, sy, y)
        value = operate(op, float(x), vy)
        value = -value if sx else value
    else:
        expr = "-(%s(%s - %s)) %s %s%s" % (sx, x, x[::-1], op, sy, y)
        value = float(x) - float(x[::-1])
        value = operate(op, value if sx else -value, vy)
    ctx.check(ctx.eq(solve(expr, {}), value), expr)
    got = solve("a - (" + expr + ")", {"a": a})
    ctx.check(ctx.eq(got, a - value), "a - (" + expr + ")")
    got = solve("(" + expr + ") > a", {"a": a})
    ctx.check(ctx.eq(got, a < value), "(" + expr + ") > a")
    ctx.observe("value", value)


@case("exponents", bounds="signed exponents on literals and parameters",
      quick=[{}])
def exponents(ctx):
    expr, want = ctx.choice("e", [
        ("2**-1", 0.5), ("2 ** - 2", 0.25), ("4**+2", 16), ("2**-n", 0.125),
        ("2**-1**2", 0.25), ("-2**-2", -0.25), ("2**2**3", 64),
        ("4**0.5", 2), ("9**-0.5*3", 1)])
    n = 3
    a = ctx.int("a", -9, 9)
    ctx.check(ctx.eq(solve(expr, {"n": n}), want), expr)
    ctx.check(ctx.eq(solve("a + " + expr, {"n": n, "a": a}), a + want),
              "a + " + expr)


def pair(x, y):
    return 100 * x + y


def nothing():
    return 41


@case("functions", bounds="functions given as parameters or by module path, "
      "of 0 to 4 arguments that are expressions", quick=[{}])
def functions(ctx):
    a, b = ctx.int("a", -5, 5), ctx.int("b", -5, 5)

    class Callable(object):
        def __call__(self, x):
            return 3 * x + 1
    def many(*args):
        out = 7
        for x in args:
            out = 20 * out + x
        return out
    env = {"a": a, "b": b, "pair": pair, "nothing": nothing, "many": many,
           "obj": Callable(), "late": lambda x, y: x - 2 * y}
    for expr, want in (
            ("pair(a, b)", 100 * a + b), ("pair(b,a) - 1", 100 * b + a - 1),
            ("pair(a - b - 1, -b * 2)", 100 * (a - b - 1) - 2 * b),
            ("2 * nothing() + a", 82 + a), ("obj(a + b)", 3 * a + 3 * b + 1),
            ("late(pair(a, 1), (b + 2) * 3)",
             100 * a + 1 - 6 * (b + 2)),
            ("operator.sub(a, b)", a - b), ("operator.neg(a) ** 2", a * a),
            ("many(a, b, 3)", 56000 + 400 * a + 20 * b + 3),
            ("many(1, a - b, nothing(), -b)",
             1120000 + 8000 + 400 * (a - b) + 820 - b),
            ("many() + many(b) - many(a, 2)",
             7 + 140 + b - 2800 - 20 * a - 2),
            ("obj(2)**2 - a", 49 - a), ("-obj(1) + pair(1, b)", 96 + b)):
        got = solve(expr, env)
        ctx.check(ctx.eq(got, want), expr)


def trace_of(ctx, rows, extra=()):
    """Events with columns v, w at times 1.5, 2.5, ... (symbolic digits)."""
    lines = []
    for i, (name, fields) in enumerate(rows):
        lines.append("  a-1 [000] %d.500000: %s: " % (i + 1, name) +
                     " ".join([f + "=" + v for f, v in fields]))
    return ftrace(ctx.write(lines), events=sorted(set(n for n, _ in rows)) +
                  list(extra), scope="custom", normalize_time=False)


VECTOR = [
    ("alpha:v + alpha:w", lambda v, w, a: v + w),
    ("alpha:v - alpha:w - a", lambda v, w, a: v - w - a),
    ("a - alpha:v * 2", lambda v, w, a: a - v * 2),
    ("(a - alpha:v) * alpha:w", lambda v, w, a: (a - v) * w),
    ("-alpha:v**2 + alpha:w", lambda v, w, a: w - v * v),
    ("alpha:v / 4 + a", lambda v, w, a: v / 4 + a),
    ("pair(alpha:v, alpha:w)", lambda v, w, a: 100 * v + w),
    ("alpha:v < alpha:w + a", lambda v, w, a: v < w + a),
    ("alpha:v > 4 & alpha:w <= a", lambda v, w, a: (v > 4) & (w <= a)),
    ("(alpha:v == alpha:w) | (alpha:w != 3)",
     lambda v, w, a: (v == w) | (w != 3)),
    ("alpha:v", lambda v, w, a: v),
    ("alpha:w * alpha:w", lambda v, w, a: w * w),
]


@case("columns", bounds="expressions over two columns of an event with k rows "
      "of symbolic values and a parameter",
      quick=[dict(k=1, i=i) for i in range(len(VECTOR))] +
      [dict(k=2, i=i) for i in (0, 1, 3, 4, 6, 10)],
      thorough=[dict(k=2, i=i) for i in (2, 5, 7, 8, 9, 11)] +
      [dict(k=3, i=i) for i in (1, 3)])
def columns(ctx, k, i):
    v = [ctx.digits("v%d" % j, 1) for j in range(k)]
    w = [ctx.digits("w%d" % j, 1) for j in range(k)]
    a = ctx.int("a", -5, 5)
    trace = trace_of(ctx, [("alpha", [("w", y), ("v", x)])
                           for x, y in zip(v, w)])
    expr, fn = VECTOR[i]
    out = solve(expr, {"a": a, "pair": pair}, trace)
    ctx.check(out.columns.tolist() == ["NO_PIVOT"], "columns")
    ctx.check(index(out) == [j + 1.5 for j in range(k)], "times")
    want = [fn(int(x), int(y), a) for x, y in zip(v, w)]
    ctx.check(ctx.eq(col(out, "NO_PIVOT"), want), expr)
    ctx.observe("got", col(out, "NO_PIVOT"))


@case("naming", bounds="an event reached by its name, a parameter or its "
      "class path; symbolic values", quick=[dict(k=2)])
def naming(ctx, k):
    import trappy
    vals = [ctx.digits("v%d" % j, 2) for j in range(k)]
    for x in vals:
        ctx.assume(x[0] != "0")
    trace = trace_of(ctx, [("cpu_frequency", [("state", x), ("cpu_id", "0")])
                           for x in vals])
    how = ctx.choice("how", ["cpu_frequency", "FREQ",
                             "trappy.sched.SchedCpuFrequency"])
    pvars = {"FREQ": trappy.sched.SchedCpuFrequency, "n": 3}
    out = solve(how + ":frequency + n", pvars, trace)
    ctx.check(out.columns.tolist() == [0], "one column per CPU")
    ctx.check(ctx.eq(col(out, 0), [int(x) + 3 for x in vals]), "values")
    frame = trace.cpu_frequency.data_frame
    ctx.check(ctx.eq(col(frame, "frequency"), [int(x) for x in vals]),
              "trace unaltered")
    refused = False
    try:
        solve("nosuch:frequency", pvars, trace)
    except ValueError:
        refused = True
    ctx.check(refused, "unknown events are refused")


@case("inspecting", bounds="k rows with symbolic CPUs, values and window, "
      "with and without a filter, a column the event has or not",
      quick=[dict(k=2, piv="cpu_frequency"), dict(k=2, piv="cpu_capacity")],
      thorough=[dict(k=3, piv="cpu_frequency")])
def inspecting(ctx, k, piv):
    from trappy.stats.grammar import Parser
    ctx.exact_floats()
    cpus = [ctx.chars("c%d" % j, 1, "012") for j in range(k)]
    body = {"cpu_frequency": "state", "cpu_capacity": "capacity"}[piv]
    path = ctx.write(["  a-1 [000] %d.500000: " % (j + 1) + piv + ": " + body +
                      "=%d cpu_id=" % (j + 10) + cpus[j] for j in range(k)]
                     + ["  a-1 [000] 8.500000: gamma: v=1"])
    trace = ftrace(path, events=["cpu_frequency", "cpu_capacity", "gamma",
                                 "delta"],
                   scope="custom", normalize_time=False)
    lo = ctx.real("lo", 0, k + 1, den=2)
    how = ctx.choice("how", ["start", "both", "filter", "no such value"])
    hi = ctx.real("hi", 0, k + 1, den=2) if how == "both" else None
    only = {"filter": 0, "no such value": 7}.get(how)
    parser = Parser(trace, {"ALIAS": trace.class_definitions[piv]},
                    window=(lo, hi),
                    filters=None if only is None else {"cpu": only})
    left = []
    for j in range(k):
        t = j + 1.5
        if ctx.le(lo, t) and (hi is None or ctx.le(t, hi)) and \
                (only is None or ctx.eq(int(cpus[j]), only)):
            left.append(j)
    name, column = ctx.choice("accessor", [
        (piv, "frequency"), ("ALIAS", "capacity"), ("ALIAS", "cpu"),
        (piv, "nosuch")])
    info = parser.inspect(name + ":" + column)
    ctx.check(info["class"] is trace.class_definitions[piv], "class")
    ctx.check(info["length"] == len(left), "rows in the window and filter")
    ctx.check(info["column"] == column, "column")
    have = ["cpu"] + {"cpu_frequency": ["frequency"],
                      "cpu_capacity": ["capacity"]}[piv]
    ctx.check(info["column_present"] == (column in have), "present or not")
    ctx.check(info["pivot"] == "cpu", "pivot")
    want = sorted(set(int(cpus[j]) for j in left))
    ctx.check(ctx.eq([int(x) for x in info["pivot_values"]], want),
              "pivot values")
    info = parser.inspect("gamma:v")
    ctx.check(info["pivot"] is None and info["pivot_values"] is None,
              "no pivot")
    ctx.check(parser.inspect("delta:v")["length"] == 0, "no rows")
