#!/usr/bin/env python3
"""Writes the generated part of ../DESIGN.md (everything below its marker):
what decides each property, its bounds, and the planted changes."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from symex import case  # noqa: E402

MARK = "<!-- generated by tools/design.py from here on -->"
HOW = {
    "C01": "The whole parser (`FTrace(path)`) runs on a file whose task names, "
           "pids, CPUs, flags and noise have symbolic characters. Oracle: the "
           "fields the line was composed of.",
    "C02": "Stamps of symbolic digits in both layouts. Oracle: the exact "
           "rational second count, within float tolerance.",
    "C03": "Symbolic stamps with arbitrary collisions. Oracle: the declarative "
           "statement (strictly increasing in file order, original time kept "
           "where free, otherwise the next representable one).",
    "C04": "Payloads of symbolic characters. Oracle: an independent splitter "
           "of `key=value` pairs plus Python's own number grammar.",
    "C05": "Arrays of every length and position with symbolic elements. "
           "Oracle: the list the line was composed of, padded.",
    "C06": "Symbolic choice of the event of every line, of the requested set "
           "and its order. Oracle: the line's own event.",
    "C07": "Symbolic times and symbolic window bounds. Oracle: the closed "
           "interval(s), computed from the stamps.",
    "C08": "Symbolic times. Oracle: original minus first event of the trace "
           "(requested or not), everything else unchanged.",
    "C09": "The trace is opened cold, then from the cache it wrote; symbolic "
           "text and numbers travel through the real CSV writer and reader. "
           "Oracle: the trace parsed without cache.",
    "C10": "Symbolic choice of the damage, the crash point and the changed "
           "bytes of the trace (file operations are wrapped and interrupted "
           "before, inside or after). Oracle: the trace parsed without cache, "
           "and the folder's other contents.",
    "C11": "Symbolic interleavings of events. Oracle: the lines in file order.",
    "C12": "Symbolic registration sequences, names and markers. Oracle: a "
           "dictionary model of the registry; substring relation of markers "
           "decided by the solver.",
    "C13": "Symbolic sorted index with any repetitions and symbolic maximum "
           "step. Oracle: the declarative statement (order, bounds, "
           "uniqueness, values of the rows).",
    "C14": "HTML pages composed of symbolic trace lines between symbolic "
           "non-trace lines, markers of symbolic characters. Oracle: the "
           "composed parts.",
    "C15": "Lines of every event with its own parser, fields symbolic. Oracle: "
           "the fields composed.",
    "C16": "Events with symbolic masks, loads and frequencies. Oracle: sums, "
           "maxima, shares and forward fill as formulas.",
    "C17": "Every operator pair/nesting as text, symbolic operand values. "
           "Oracle: a precedence-climbing evaluator of the documented table.",
    "C18": "Symbolic interleavings, pivots and values. Oracle: 'latest value "
           "at or before', per pivot.",
    "C19": "Symbolic pivots, values and filters. Oracle: counting and summing "
           "by definition, per node and group.",
    "C20": "Symbolic times and samples. Oracle: union of the times, last "
           "sample, weighted definition of the correlation.",
    "C21": "Symbolic rows, filters, windows. Oracle: a row predicate.",
    "C22": "Symbolic request shapes. Oracle: enumeration of the pairs the "
           "documentation names.",
    "C23": "Symbolic integer plot counts and columns over a recording "
           "`subplots()`; two arbitrary plots never share a cell. Grid "
           "arithmetic is decided for all values in the bounds at once.",
    "C24": "Symbolic switch histories including dropped events. Oracle: an "
           "independent interval builder, and the sum of residencies for "
           "well-formed traces.",
    "C25": "Symbolic intervals; the JSON handed to the browser is read back. "
           "Oracle: the intervals given.",
    "C26": "Outputs of symbolic lines and markers; the real pages of the "
           "plots. Oracle: a line-by-line definition of the markers.",
    "C27": "Symbolic metric names, runs and values. Oracle: grouping by "
           "definition.",
    "C28": "Symbolic file contents and presence. Oracle: the text written.",
    "C29": "Symbolic signal definitions. Oracle: the parts composed; refused "
           "exactly when malformed.",
    "C30": "Symbolic presence and content of files, symbolic header lines; "
           "`trace-cmd` is a stand-in on `PATH` lookups. Oracle: the file "
           "named, the header composed, an unchanged folder.",
    "C31": "Symbolic readings through the real plot functions; pyplot and the "
           "pandas plotting backend record. Oracle: points, labels and limits "
           "computed from the rows.",
    "C32": "As C31 for LinePlot and BarPlot.",
    "C33": "As C32 for the JSON in the page of ILinePlot.",
    "C34": "Symbolic failures of every download over several attempts in a "
           "scratch folder, network stand-in. Oracle: every script a shown "
           "page refers to is there and whole.",
    "C35": "plot_trace() on trace objects and files with symbolic switch "
           "histories. Oracle: the C24 interval builder; lanes per CPU.",
    "C36": "Symbolic scores and limits over a recording axis. Oracle: the "
           "scores read; the inequality 'inside the axis'.",
    "C37": "EventPlot.js runs in the JavaScript interpreter on symbolic "
           "intervals and gestures, over a stand-in page and d3. Oracle: "
           "intervals clipped to the window and scaled by the axis, computed "
           "from the definition; paths are parsed back from the SVG.",
    "C38": "ILinePlot.js runs in the JavaScript interpreter on symbolic "
           "tables, limits and groups, over a stand-in dygraphs. Oracle: the "
           "data given, and per group the union of the ranges of the plots "
           "still on the page.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT,
                                                      "properties.jsonl"))]
    out = ["", "## Properties: what decides them, bounds, assumptions", "",
           "Every property is decided by symbolic execution of the code named "
           "in `evidence/<id>.json` (`functions_encoded`), z3 refuting the "
           "negated assertion on every path. A case is listed with its "
           "parameter sets; `quick` ones run always, `+` ones in the thorough "
           "tier as well. Quick checks take 5 to 60 s each on 8 cores; "
           "thorough ones up to about 15 minutes.", ""]
    for p in props:
        name = "harness." + p["id"].lower()
        module = importlib.import_module(name)
        out += ["### %s %s" % (p["id"], p["title"]), "", HOW[p["id"]],
                "Beyond tests: " + p["why_tests_cant"], ""]
        groups = {}
        for c in case.REGISTRY[name]:
            groups.setdefault(c.name, []).append(c)
        for n, cs in groups.items():
            show = lambda c: ",".join("%s=%s" % kv for kv in
                                      sorted(c.params.items())) or "-"
            sets = "; ".join(show(c) for c in cs if c.tier == "quick")
            more = "; ".join(show(c) for c in cs if c.tier != "quick")
            out.append("- *%s*: %s.%s%s" % (
                n, cs[0].bounds, " [%s]" % sets if sets != "-" else "",
                " + [%s]" % more if more else ""))
        out += ["", "Outside: " + "; ".join(module.ASSUMPTIONS) + ".", ""]
    out += ["## Planted changes", "",
            "Each was written from the property's text and the code, passes "
            "the stable tests, has a demonstration, and is caught by the quick "
            "check of its property (`tools/seed.py` repeats this).", "",
            "| change | needs |", "|---|---|"]
    seeds = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(seeds)):
        meta = json.load(open(os.path.join(seeds, s, "meta.json")))
        out.append("| %s | %s |" % (s, meta["needs"].replace("|", "/")))
    out += ["", "## Repaired defects", "",
            "`known_findings.json` lists them as `fixed:` entries; none is "
            "left as a known finding.", ""]
    for e in json.load(open(os.path.join(ROOT, "known_findings.json"))):
        out.append("- " + e["entry"])
    path = os.path.join(ROOT, "DESIGN.md")
    head = open(path).read().split(MARK)[0].rstrip("\n")
    open(path, "w").write(head + "\n\n" + MARK + "\n" + "\n".join(out) + "\n")


if __name__ == "__main__":
    main()
