"""C04: key=value fields are decoded faithfully."""
import warnings
from symex.case import case
from harness.common import ftrace, col

ASSUMPTIONS = [
    "payloads of at most the stated number of symbolic characters; keys not "
    "empty, not starting with two underscores (those name the row's own columns) "
    "and not Time (the name of the index)",
]


def c_int(text):
    """The value of a C / Python integer literal, or None (own decoder)."""
    t = text
    sign = 1
    if t[:1] in ("+", "-") and len(t) > 1:
        if t[0] == "-":
            sign = -1
        t = t[1:]
    base = 10
    if len(t) > 2 and t[0] == "0":
        low = t[1].lower()
        if low == "x":
            base = 16
        elif low == "o":
            base = 8
        elif low == "b":
            base = 2
        if base != 10:
            t = t[2:]
    if not t:
        return None
    val = 0
    for ch in t:
        if ch in "0123456789":
            d = ord(ch) - 48
        elif ch in "abcdef":
            d = ord(ch) - 87
        elif ch in "ABCDEF":
            d = ord(ch) - 55
        else:
            return None
        if d >= base:
            return None
        val = val * base + d
    if base == 10 and len(t) > 1 and t[0] == "0" and val != 0:
        return None                # 0123 is neither decimal nor octal
    return sign * val


def value_of(text):
    v = c_int(text)
    return text if v is None else v


def parse(ctx, data, **kw):
    path = ctx.write(["  a-1 [000] 1.000000: alpha: " + data])
    return ftrace(path, events=["alpha"], scope="custom", **kw)


VALUES = [("019-+x", 1), ("0189-+", 2), ("0xXaFg9", 4), ("-0x1bo", 4),
          ("01b2B", 4), ("0o78O", 4), ("-+19", 3), ("0", 3), ("00017", 4),
          ("a=|,.{", 2), ("a=01", 4), ("0123456789", 10), ("1._e", 3),
          ("1_0", 3), ("0x1_", 4)]


@case("value", bounds="one field, value of n symbolic characters over each "
      "alphabet", quick=[dict(i=i) for i in range(len(VALUES))],
      thorough=[dict(i=1000 + i) for i in range(len(VALUES))])
def value(ctx, i):
    alphabet, n = VALUES[i % 1000]
    if i >= 1000:
        n += 1
    text = ctx.text("v", n, alphabet)
    trace = parse(ctx, "key=" + text + " after=7")
    df = trace.alpha.data_frame
    want = value_of(text)
    got = col(df, "key")[0]
    if isinstance(want, str):
        ctx.check(isinstance(got, str), "text stays text")
    else:
        ctx.check(ctx.same_type(got, int), "integers become integers")
    ctx.check(ctx.eq(got, want), "value")
    ctx.check(ctx.eq(col(df, "after")[0], 7), "next field")
    ctx.observe("v", got)


@case("shape", bounds="payload of n symbolic characters over 'ab= 1'",
      quick=[dict(n=4), dict(n=5)], thorough=[dict(n=6), dict(n=7)])
def shape(ctx, n):
    body = ctx.text("p", n, "ab= 1")
    data = "k=v " + body
    # reference decoder
    want = {"k": "v"}
    last = "k"
    words = []
    word = ""
    for ch in body + " ":
        if ch == " ":
            if word:
                words.append(word)
            word = ""
        else:
            word = word + ch
    for w in words:
        ctx.assume(ctx.neg(ctx.eq(w[0], "=")))      # keys are not empty
        at = -1
        for j in range(len(w)):
            if w[j] == "=":
                at = j
                break
        if at < 0:
            if isinstance(want[last], str):
                want[last] = want[last] + " " + w
        else:
            last = w[:at]
            want[last] = value_of(w[at + 1:])
    trace = parse(ctx, data)
    df = trace.alpha.data_frame
    names = [c for c in df.columns if not (len(c) > 1 and c[:2] == "__")]
    ctx.check(len(names) == len(want), "number of fields")
    for k in want:
        ctx.check(k in names, "field present")
        got = col(df, k)[0]
        ctx.check(isinstance(got, str) == isinstance(want[k], str),
                  "kind of value")
        ctx.check(ctx.eq(got, want[k]), "value of field")
    ctx.observe("row", sorted([c, col(df, c)[0]] for c in names))


@case("leading word", bounds="payload starting with a word without '='",
      quick=[dict(n=2), dict(n=4)])
def leading_word(ctx, n):
    word = ctx.text("w", n, "ab=1")
    ctx.assume(ctx.neg(ctx.eq(word[0], "=")))
    has = "=" in word
    failed = ctx.bool("failed")
    data = ("[FAILED TO PARSE] " if failed else "") + word + " k=5"
    path = ctx.write(["  a-1 [000] 1.000000: alpha: " + data])
    from trappy.exception import TrappyParseError
    raised, trace = None, None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        import trappy
        trappy.FTrace.disable_cache = True
        try:
            trace = trappy.FTrace(path, events=["alpha"], scope="custom")
        except (TrappyParseError, ValueError) as e:
            raised = str(e)
        finally:
            trappy.FTrace.disable_cache = False
    if not failed and not has:
        ctx.check(raised is not None, "parse error for a leading word")
        ctx.check(data in raised, "the error names the line")
        return
    ctx.check(raised is None, "no error")
    df = trace.alpha.data_frame
    ctx.check(ctx.eq(col(df, "k")[0], 5), "the rest is kept")
    if failed:
        ctx.check(any("failed to parse" in str(w.message) for w in caught),
                  "warned about the line")


@case("rows", bounds="two events with different fields; symbolic digits",
      quick=[{}])
def rows(ctx):
    a, b = ctx.digits("a", 2), ctx.digits("b", 1)
    ctx.assume(ctx.neg(ctx.eq(a[0], "0")))
    second = ctx.choice("second", ["x=%s", "y=%s", "x=%s y=w z", "y=p x=%s"])
    path = ctx.write([
        "  a-1 [000] 1.000000: alpha: x=" + a + " name=kworker/0:1 q",
        "  a-1 [000] 2.000000: alpha: " + second.replace("%s", b)])
    df = ftrace(path, events=["alpha"], scope="custom").alpha.data_frame
    ctx.check(len(df) == 2, "two rows")
    ctx.check(ctx.eq(col(df, "x")[0], int(a)), "first row")
    ctx.check(ctx.eq(col(df, "name")[0], "kworker/0:1 q"), "text continued")
    if second[0] == "x" or second[-4:] == "x=%s":
        ctx.check(ctx.eq(col(df, "x")[1], int(b)), "second row")
    else:
        ctx.check(col(df, "x")[1] != col(df, "x")[1], "absent is empty")
        ctx.check(ctx.eq(col(df, "y")[1], int(b)), "second row")
    if "y=w z" in second:
        ctx.check(col(df, "y")[1] == "w z", "text continued")
    ctx.check(col(df, "name")[1] != col(df, "name")[1], "absent is empty")


WIDE = ["9007199254740993", "-9007199254740993", "0xffffff800808123%s",
        "-0x0ffffff80808123%s", "18446744073709551617", "7"]


@case("wide numbers", bounds="numbers of up to 65 bits with any last digit, "
      "next to a row with another number, a text or nothing", quick=[{}])
def wide(ctx):
    first = ctx.choice("wide", WIDE).replace("%s", ctx.choice("digit",
                                                              "0159ef"))
    other = ctx.choice("other", [None, "w=1", "x=5", "x=-1", "x=word",
                                 "x=0x10000000000000001"])
    data = ["x=" + first] + ([other] if other else [])
    if ctx.bool("swapped"):
        data.reverse()
    path = ctx.write(["  a-1 [000] %d.000000: alpha: " % (j + 1) + d
                      for j, d in enumerate(data)])
    df = ftrace(path, events=["alpha"], scope="custom").alpha.data_frame
    for got, d in zip(col(df, "x"), data):
        key, text = d.split("=")
        want = value_of(text)
        if key != "x":
            ctx.check(got != got, "absent is empty")
        elif type(want) is str:
            ctx.check(got == want, "text")
        else:
            ctx.check(type(got) is not str and int(got) == want,
                      "not rounded")
