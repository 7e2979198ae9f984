"""C26: exported notebooks keep scripts intact and self-contained."""
import os
import re
from symex.case import case
from harness.common import quiet

ASSUMPTIONS = [
    "the text around markers is up to two characters of the given alphabets; "
    "embedded scripts are those of the repository",
]
START = "/* TRAPPY_PUBLISH_REMOVE_START */"
STOP = "/* TRAPPY_PUBLISH_REMOVE_STOP */"
LINE = "/* TRAPPY_PUBLISH_REMOVE_LINE */"
FILES = ["plotter/js/ILinePlot.js", "plotter/js/EventPlot.js"]
CODE = "ab /*<>\"-="


def imported(name):
    return '/* TRAPPY_PUBLISH_IMPORT = "%s" */' % name


def source(url):
    return '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "%s" -->' % url


def script(url):
    return '<script src="' + url + \
        '" type="text/javascript" charset="utf-8"></script>'


def embedded(name):
    import trappy
    path = os.path.join(os.path.dirname(trappy.__file__), name)
    with open(path) as fin:
        return fin.read().split("\n")[:-1]


def preprocessor():
    from trappy.nbexport.exporter import TrappyPlotterPreprocessor
    quiet()
    return TrappyPlotterPreprocessor()


def expected(lines, state):
    """lines: (kind, text) with kind text, start, stop, line, import, lib"""
    out, removing = [], False
    for kind, text in lines:
        if kind == "start":
            removing = True
        elif kind == "stop":
            removing = False
        elif removing or kind == "line":
            continue
        elif kind == "import":
            if text not in state:
                state.append(text)
                out += embedded(text)
        elif kind == "lib":
            if not any(text == x for x in state):
                state.append(text)
                out.append(script(text))
        else:
            out.append(text)
    return out


def raw(kind, text, around=("", "")):
    mark = {"start": START, "stop": STOP, "line": LINE}.get(kind)
    if kind == "import":
        mark = imported(text)
    elif kind == "lib":
        mark = '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "' + text + '" -->'
    return text if mark is None else around[0] + mark + around[1]


def joined(lines):
    out = lines[0]
    for l in lines[1:]:
        out = out + "\n" + l
    return out


def some_line(ctx, j, kinds, n=2):
    kind = ctx.choice("kind%d" % j, kinds)
    if kind == "text":
        return kind, ctx.chars("x%d" % j, n, CODE)
    if kind == "import":
        return kind, ctx.choice("file%d" % j, FILES)
    if kind == "lib":
        return kind, "https://host/" + ctx.choice("u%d" % j, "ab") + ".js"
    return kind, ""


KINDS = ["text", "start", "stop", "line", "import", "lib"]


@case("lines", bounds="outputs of k lines: text of one or two symbolic characters, "
      "markers, scripts and library references in any order",
      quick=[dict(k=1), dict(k=2), dict(k=3)], thorough=[dict(k=4)])
def lines(ctx, k):
    data = [some_line(ctx, j, KINDS, 2 if k < 3 else 1) for j in range(k)]
    got = preprocessor().filter_output(joined([raw(*d) for d in data]))
    want = expected(data, [])
    ctx.check(ctx.eq(got, joined(want) if want else ""), "filtered output")
    ctx.observe("output", got)


@case("separators", bounds="two lines of text of two symbolic characters "
      "among those that other tools take for the end of a line, around a "
      "marker", quick=[dict(kind=x) for x in KINDS[1:]])
def separators(ctx, kind):
    name = {"import": FILES[0], "lib": "https://host/x.js"}.get(kind, "")
    data = [("text", ctx.chars("a", 2, "a\r\x0b\x0c\x1c\x85\u2028")),
            (kind, name),
            ("text", ctx.chars("b", 2, "b\r\x0c\u2028"))]
    got = preprocessor().filter_output(joined([raw(*d) for d in data]))
    ctx.check(ctx.eq(got, joined(expected(data, []) or [""])),
              "other characters end no line")


@case("around markers", bounds="each marker with two symbolic characters of "
      "text before and after it in the line, between other lines",
      quick=[dict(kind=x) for x in KINDS[1:]])
def around_markers(ctx, kind):
    name = {"import": FILES[0], "lib": "https://host/x.js"}.get(kind, "")
    around = (ctx.chars("a", 2, CODE), ctx.chars("b", 2, CODE))
    first = ctx.chars("c", 1, CODE)
    last = ctx.chars("d", 1, CODE)
    text = joined([first, raw(kind, name, around), last])
    got = preprocessor().filter_output(text)
    want = expected([("text", first), (kind, name), ("text", last)], [])
    ctx.check(ctx.eq(got, joined(want)), "filtered output")


@case("lookalikes", bounds="markers with one symbolic character changed at "
      "each position are kept as text unless they are the marker",
      quick=[dict(kind=x) for x in KINDS[1:]])
def lookalikes(ctx, kind):
    name = {"import": FILES[1], "lib": "https://host/x.js"}.get(kind, "")
    mark = raw(kind, name)
    at = ctx.choice("at", [i for i in range(len(mark))
                           if not (kind in ("import", "lib") and
                                   i in range(mark.index('"') + 1,
                                              mark.rindex('"')))])
    c = ctx.chars("c", 1, "X" + mark[at])
    line = mark[:at] + c + mark[at + 1:]
    got = preprocessor().filter_output("first\n" + line + "\nlast")
    real = c == mark[at]
    want = expected([("text", "first"), (kind if real else "text",
                                         name if real else line),
                     ("text", "last")], [])
    ctx.check(ctx.eq(got, joined(want)), "filtered output")


@case("published plots", bounds="the real pages of one and two line or event "
      "plots between other text: nothing refers to the notebook server, "
      "every script is embedded once, data and drawing calls stay",
      quick=[{}])
def published_plots(ctx):
    import pandas as pd
    from trappy.plotter.EventPlot import EventPlot
    from trappy.plotter.ILinePlotGen import ILinePlotGen
    quiet()
    p = preprocessor()
    seen = []
    for i in range(2):
        kind = ctx.choice("plot%d" % i, ["lines", "events"])
        if kind == "lines":
            gen = ILinePlotGen(1, per_line=1, title=None, fill=False,
                               scatter=False, point_size=2, step_plot=False,
                               max_datapoints=9)
            gen.add_plot(0, pd.DataFrame({"v": [1.5]}, index=[2.5]))
            html, name, what = gen.html(), gen._fig_map[0], "ILinePlot"
        else:
            plot = EventPlot({"x": [[1.5, 2.5, 0]]}, ["x"], (0, 3),
                             num_lanes=1)
            html, name, what = plot.html(), plot._fig_name, "EventPlot"
        before, after = "</", "*/"
        got = p.filter_output(before + "\n" + html + "\n" + after)
        ctx.check(ctx.eq(got[:3], before + "\n") and
                  ctx.eq(got[-3:], "\n" + after), "other text")
        page = got[3:-3]
        code = "\n".join(embedded(FILES[what == "EventPlot"]))
        rest = page.replace(code, "")
        ctx.check("TRAPPY_PUBLISH" not in rest and
                  "plotter_scripts" not in rest and
                  "require.config" not in rest and
                  '["require"' not in rest, "no reference to the server")
        ctx.check(page.count(code) == (0 if what in seen else 1),
                  "embedded once")
        libs = re.findall("SOURCE_LIB = \"([^\"]*)\"", html)
        ctx.check(len(libs) >= 2 and
                  all(page.count(script(u)) == (0 if what in seen else 1)
                      for u in libs), "libraries")
        ctx.check(page.count(what + ".generate(") - (
            0 if what in seen else code.count(what + ".generate(")) == 1 and
            name in page, "drawn once")
        seen.append(what)


@case("notebooks", bounds="two notebooks exported one after the other with "
      "one exporter, cells of every kind with 0-2 outputs of every kind",
      quick=[dict(n=1), dict(n=2)])
def notebooks(ctx, n):
    from nbformat.v4 import (new_notebook, new_code_cell, new_markdown_cell,
                             new_output)
    p = preprocessor()
    for book in range(n):
        cells, wants, state = [], [], []
        for j in range(2):
            tag = "%d_%d" % (book, j)
            kind = ctx.choice("cell" + tag, ["display", "text", "result",
                                             "markdown"])
            mine = [("text", ctx.chars("t" + tag, 1, CODE)),
                    ("import", FILES[j if n == 1 else 0]), ("line", "")]
            text = joined([raw(*m) for m in mine])
            if kind == "markdown":
                cells.append(new_markdown_cell(text))
                wants.append(text)
                continue
            if kind == "display":
                outs = [new_output("display_data", {"text/plain": text,
                                                    "text/html": text})]
                want = joined(expected(mine, state))
            elif kind == "text":
                outs = [new_output("stream", text=text)]
                want = text
            else:
                outs = [new_output("execute_result", {"text/html": text})]
                want = text
            cells.append(new_code_cell("code", outputs=outs))
            wants.append((kind, want, text))
        got, _ = p.preprocess(new_notebook(cells=cells), {"x": 1})
        ctx.check(len(got.cells) == len(wants), "cells")
        for cell, want in zip(got.cells, wants):
            if cell.cell_type == "markdown":
                ctx.check(ctx.eq(cell.source, want), "other cells")
                continue
            kind, want, text = want
            out = cell.outputs[0]
            have = out.text if kind == "text" else out.data["text/html"]
            ctx.check(ctx.eq(have, want), "outputs")
            ctx.check(cell.source == "code", "code")
            if kind == "display":
                ctx.check(ctx.eq(out.data["text/plain"], text),
                          "other formats")
