"""C28: thermal parameters are read as written."""
import os
from symex.case import case
from harness.common import quiet

ASSUMPTIONS = [
    "parameter files hold one line with or without a newline at its end: a "
    "whole number of up to four digits with a sign, a word or words",
]
DOCUMENTED = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy",
              "sustainable_power"]
ZONE = ["after", "sys", "devices", "virtual", "thermal", "thermal_zone0"]


def folder(ctx, depth=len(ZONE)):
    base = ctx.tmpdir()
    path = os.path.join(base, *ZONE[:depth])
    if depth:
        os.makedirs(path)
    return base, path


def content(ctx, j, kinds, digits=4):
    """text of the file and value of the parameter"""
    kind = ctx.choice("kind%d" % j, kinds)
    if kind == "number":
        text = ctx.digits("x%d" % j, ctx.choice("len%d" % j,
                                                range(1, digits + 1)))
        return text, int(text)
    if kind == "negative":
        text = ctx.digits("x%d" % j, 2)
        return "-" + text, -int(text)
    if kind == "word":
        text = ctx.chars("x%d" % j, 3, "ab_z")
        return text, text
    if kind == "spaced":
        text = ctx.chars("x%d" % j, 3, "a _")
        return text, text
    return "", ""


def put(ctx, path, name, text, newline):
    ctx.write([text], name, path, newline)


def parameters(base):
    from trappy.wa import SysfsExtractor
    quiet()
    return SysfsExtractor(base).get_parameters()


def check(ctx, got, want):
    ctx.check(sorted(got) == sorted(want), "parameters present")
    for name, v in want.items():
        ctx.check(ctx.eq(got[name], v), "value")
        ctx.check(isinstance(got[name], str) == isinstance(v, str), "type")
    ctx.observe("values", [got[n] for n in sorted(want)])


@case("one parameter", bounds="every documented parameter with a symbolic "
      "number of up to four digits, negative number, word, words or nothing, with "
      "and without a newline", quick=[{}])
def one_parameter(ctx):
    base, path = folder(ctx)
    name = ctx.choice("name", DOCUMENTED + ["cdev0_weight", "cdev12_weight",
                                            "trip_point_1_temp"])
    text, value = content(ctx, 0, ["number", "negative", "word", "spaced", "empty"])
    put(ctx, path, name, text, ctx.bool("newline"))
    check(ctx, parameters(base), {name: value})


@case("sets of files", bounds="all subsets of k parameter files among other "
      "files and folders, symbolic values",
      quick=[dict(names=["k_d", "k_pu", "policy", "cdev0_weight",
                         "trip_point_0_temp"]),
             dict(names=["cdev0_weight", "cdev1_weight", "cdev10_weight",
                         "trip_point_1_temp", "trip_point_12_temp"])],
      thorough=[dict(names=DOCUMENTED)])
def sets_of_files(ctx, names):
    base, path = folder(ctx)
    want = {}
    for j, name in enumerate(names):
        if ctx.bool("has " + name):
            text, value = content(ctx, j, ["number"], 1)
            put(ctx, path, name, text, j % 2 == 0)
            want[name] = value
    for name in ("type", "mode", "cdev0_trip_point", "trip_point_0_type",
                 "cdev_weight", "trip_point_temp", "temp"):
        put(ctx, path, name, "7", True)
    os.mkdir(os.path.join(path, "cdev7_weight"))       # not a file
    other = os.path.join(base, "before", *ZONE[1:])
    os.makedirs(other)
    put(ctx, other, "k_i", "9", True)
    check(ctx, parameters(base), want)


@case("cooling devices and trip points", bounds="files named with a number "
      "of one or two digits (of 0, 2, 5, 9), and lookalikes", quick=[{}])
def numbered(ctx):
    base, path = folder(ctx)
    n = ctx.choice("len", [1, 2])
    kind = ctx.choice("kind", ["cdev%s_weight", "trip_point_%s_temp",
                               "cdev%s_trip_point", "trip_point_%s_type"])
    name = (kind % "?").replace("?", "".join(ctx.choice(
        "d%d" % i, "0259") for i in range(n)))
    text, value = content(ctx, 0, ["number"], 2)
    put(ctx, path, name, text, True)
    check(ctx, parameters(base), {name: value} if kind in (
        "cdev%s_weight", "trip_point_%s_temp") else {})


@case("missing folders", bounds="every missing part of the path: no "
      "parameters, nothing is shown", quick=[{}])
def missing(ctx):
    import IPython.display
    from trappy.wa import SysfsExtractor
    quiet()
    base, path = folder(ctx, ctx.choice("depth", range(len(ZONE) + 1)))
    if ctx.bool("no run"):
        base = os.path.join(base, "nosuch")
    x = SysfsExtractor(base)
    ctx.check(x.get_parameters() == {}, "no parameters")
    shown = []
    real = IPython.display.display
    IPython.display.display = shown.append
    try:
        x.pretty_print_in_ipython()
    finally:
        IPython.display.display = real
    ctx.check(shown == [], "nothing shown")


@case("shown", bounds="the table of three parameters lists each with its "
      "value, in alphabetical order", quick=[{}])
def shown(ctx):
    import re
    import IPython.display
    from trappy.wa import SysfsExtractor
    quiet()
    base, path = folder(ctx)
    want = []
    for name in ("cdev0_weight", "k_d", "policy"):
        if ctx.bool("has " + name):
            text = ctx.choice("v" + name, ["15", "-3", "word"])
            put(ctx, path, name, text, True)
            want.append((name, text))
    out = []
    real = IPython.display.display
    IPython.display.display = out.append
    try:
        SysfsExtractor(base).pretty_print_in_ipython()
    finally:
        IPython.display.display = real
    ctx.check(len(out) == (1 if want else 0), "one table")
    if want:
        rows = re.findall(r"<th>([^<]*)</th>\s*<td>([^<]*)</td>",
                          out[0].data)
        ctx.check(rows == want, "rows of the table")
