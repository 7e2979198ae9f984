"""Engine self-test: the engine's strings, numbers and regular expressions
against the real ones, every path validated (not a property)."""
import re
from symex.case import case

VALIDATE_ALL = True
REGEXES = [
    (r"^\s*(?P<comm>.*)-(?P<pid>\d+)(?:\s+\(.*\))?\s+\[(?P<cpu>\d+)\]", "a-1 [](", 7, "match"),
    (r"(\w+:\s+)+(?P<data>.+)", "a: =", 6, "match"),
    (r"[^ ]+={[^}]+}", "a={} ", 6, "search"),
    (r"([^=]+)=", "a= ", 4, "match"),
    (r"[A-Za-z0-9_]+=\{\} ", "a={} ", 6, "sub"),
    (r"\s*=\s*", "a= ", 4, "split"),
    (r"a*?b|c+", "abc", 4, "findall"),
    (r"(?i)Ab?c{1,2}$", "aBbC\n", 4, "search"),
    (r"\bab\b", "ab -", 4, "search"),
    (r"(a)|b(c)?", "abc", 3, "findall"),
    (r"([^\d]+)(\d+)", "a1-", 4, "fullmatch"),
]


@case("regex", quick=[dict(k=k) for k in range(len(REGEXES))])
def regex(ctx, k):
    pat, alpha, n, op = REGEXES[k]
    s = ctx.text("s", n, alpha)
    if op == "sub":
        r = re.sub(pat, "X", s)
    elif op in ("split", "findall"):
        r = getattr(re, op)(pat, s)
    else:
        m = getattr(re, op)(pat, s)
        r = None if m is None else [m.group(0), list(m.groups()), m.start(),
                                    m.end(), list(m.groupdict().items())]
    ctx.observe("r", r)
    ctx.check(True, "")


@case("ints", quick=[dict(base=b, alpha=a, n=n)
                     for b, a, n in [(0, "01x-_ ", 4), (10, "019+-_ .", 4),
                                     (16, "0xaF-", 4), (0, "0b1o", 4)]])
def ints(ctx, base, alpha, n):
    s = ctx.text("s", n, alpha)
    try:
        r = int(s, base)
    except ValueError:
        r = "bad"
    ctx.observe("r", r)
    ctx.check(True, "")


@case("floats", quick=[dict(alpha=a, n=n) for a, n in
                       [("01.-", 4), ("2e+ .", 4), ("1_.", 4), ("naif", 3)]])
def floats(ctx, alpha, n):
    s = ctx.text("s", n, alpha)
    try:
        r = float(s)
    except ValueError:
        r = "bad"
    ctx.observe("r", r)
    ctx.check(True, "")


@case("methods", quick=[dict(op=o) for o in
                        ["split", "split=", "rsplit", "strip", "replace",
                         "partition", "find", "count", "join", "lower",
                         "isdigit", "slice", "startswith", "format", "lines",
                         "cmp", "in", "percent", "zfill"]])
def methods(ctx, op):
    s = ctx.text("s", 4, "a= B0\n" if op == "lines" else "a= B0")
    if op == "split":
        r = s.split()
    elif op == "split=":
        r = [s.split("=", 1), s.split("="), s.split(" ")]
    elif op == "rsplit":
        r = [s.rsplit("=", 1), s.rsplit(None, 1)]
    elif op == "strip":
        r = [s.strip(), s.lstrip("a"), s.rstrip("=B")]
    elif op == "replace":
        r = s.replace("a=", "Z").replace("a", "")
    elif op == "partition":
        r = [s.partition("="), s.rpartition("=")]
    elif op == "find":
        r = [s.find("a="), s.rfind("a"), s.find("a", 1)]
    elif op == "count":
        r = [s.count("a"), s.count("aa")]
    elif op == "join":
        r = [",".join([s, "x"]), s.join(["p", "q"]), ",".join(s)]
    elif op == "lower":
        r = [s.lower(), s.upper()]
    elif op == "isdigit":
        r = [s.isdigit(), s.isalpha(), s.isspace(), s.isalnum()]
    elif op == "slice":
        r = [s[1:3], s[-1], s[::-1], len(s)]
    elif op == "startswith":
        r = [s.startswith("a"), s.endswith(("0", "B"))]
    elif op == "format":
        r = ["<{}>{:>6}".format(s, s), f"{s}!", "%s-%5s" % (s, s)]
    elif op == "lines":
        r = s.splitlines()
    elif op == "cmp":
        r = [s < "a=", s >= "B", s == "aaaa", sorted([s, "a0"])]
    elif op == "in":
        r = ["a" in s, s in "xa= Ba", " " in s]
    elif op == "percent":
        r = "%s" % s
    elif op == "zfill":
        r = [s.zfill(6), s.ljust(5), s.rjust(6, "*")]
    ctx.observe("r", r)
    ctx.check(True, "")


@case("numbers")
def numbers(ctx):
    i = ctx.int("i", -12, 120)
    j = ctx.int("j", 1, 7)
    r = ctx.real("r", -2, 2)
    ctx.observe("r", [str(i), "%d" % i, "{:>5}".format(i), i // j, i % j,
                      -i // j, i / j, int(r), round(r * 3 + 0.1), abs(i), r ** 2,
                      int(str(i)), bin(j), bin(j).count("1"), float(i),
                      "{:04d}".format(i), divmod(i, j), r // 0.5, r % 0.5])
    ctx.check(True, "")
