"""C30: trace path resolution and header metadata are right."""
import os
import subprocess
import tempfile

from symex.case import case
from harness.common import quiet, ftrace

ASSUMPTIONS = [
    "trace-cmd is replaced by a stand-in that records its arguments and "
    "returns a given report",
]
FILES = [".dat", ".txt", ".raw.txt", ".log"]


def content(tag):
    return ["version = 6", "   a-1 [000] 1.500000: ev: a=" + tag,
            "   a-1 [000] 2.500000: ev: a=7"]


class Report(object):
    """Stand-in for running trace-cmd"""

    def __init__(self, path=None, error=None):
        self.path = path
        self.error = error
        self.calls = []
        self.stdout = None

    def run(self, cmd, **kw):
        self.calls.append(list(cmd))
        if self.error is not None:
            raise self.error
        with open(self.path, "rb") as fin:
            self.stdout = fin.read()
        return self


class installed(object):
    def __init__(self, report, temp):
        self.report = report
        self.temp = temp

    def __enter__(self):
        self.old = subprocess.run, tempfile.tempdir
        subprocess.run = self.report.run
        tempfile.tempdir = self.temp

    def __exit__(self, *exc):
        subprocess.run, tempfile.tempdir = self.old


def opened(path, report, temp, **kw):
    with installed(report, temp):
        return ftrace(path, events=["ev"], scope="custom",
                      normalize_time=False, **kw)


def tags(trace):
    return trace.ev.data_frame["a"].tolist()


@case("which file", bounds="a folder with any subset of .dat, .txt, .raw.txt "
      "and .log files, each with one symbolic value, opened by folder or by "
      "each name", quick=[dict(stem=s) for s in ("trace", "my.run")])
def which_file(ctx, stem):
    quiet()
    where = ctx.tmpdir()
    value = {}
    present = []
    for ext in FILES:
        if ctx.bool("has" + ext):
            present.append(ext)
            value[ext] = "4" + ctx.digits("v" + ext, 1)
            if ext == ".dat":
                ctx.write(["binary"], stem + ext, where)
            else:
                ctx.write(content(value[ext]), stem + ext, where)
    report = Report(ctx.write(content(value.get(".dat", "0")), "report"))
    how = ctx.choice("how", ["folder", "folder/"] + FILES)
    path = {"folder": where, "folder/": where + os.sep}.get(
        how, os.path.join(where, stem + how))
    if how.startswith("folder"):
        found = present if stem == "trace" else []
    elif how in present:
        found = present if how in (".dat", ".txt") else [how]
    else:
        found = []
    if how == ".raw.txt" and found:
        return                       # naming a raw trace is not documented
    try:
        trace = opened(path, report, ctx.tmpdir())
    except IOError as e:
        trace = None
        ctx.check(path in str(e), "the error names the place")
        ctx.check(not found or found == [".log"] and
                  how.startswith("folder"), "not found")
    except RuntimeError:
        trace = None
        ctx.check(".dat" not in found and ".txt" not in found and
                  ".raw.txt" in found, "only raw")
    if trace is not None:
        best = [e for e in FILES if e in found]
        ctx.check(bool(best) and best[0] != ".raw.txt", "readable")
        if how.startswith("folder"):
            ctx.check(best[0] != ".log", "not a trace of the folder")
        ctx.check(trace.trace_path.endswith(stem + best[0]), "path")
        ctx.check(ctx.eq(tags(trace), [int(value[best[0]]), 7]), "events")
        ctx.check(bool(report.calls) == (best[0] == ".dat"), "trace-cmd")
    ctx.check(sorted(os.listdir(where)) ==
              sorted(stem + e for e in present), "folder left alone")


@case("other names", bounds="files and folders of unusual names, next to "
      "traces of similar names, absolute, relative or with a trailing slash",
      quick=[{}])
def other_names(ctx):
    quiet()
    top = ctx.tmpdir()
    v, w = "4" + ctx.digits("v", 1), "5" + ctx.digits("w", 1)
    name = ctx.choice("name", ["t.TXT", "t.Dat", "t", "t.log", "t.txt.1",
                               "t.html", ".txt", "t.dat.old", "run.1/",
                               "t.txt/", "t.dat/", "a.b/t", "t.d/trace.txt"])
    decoy = ctx.choice("decoy", ["none", "txt", "dat"])
    report = Report(ctx.write(content(w), "report"))
    if decoy != "none":              # of the name cut at its first dot
        for d in (top, os.path.join(top, "run"), os.path.join(top, "t")):
            if d.endswith(os.sep + name) or name == "t" and d != top:
                continue
            if not os.path.isdir(d):
                os.mkdir(d)
            for stem in ("t", "trace", "a"):
                ctx.write(content(w), stem + "." + decoy, d) \
                    if decoy == "txt" else \
                    ctx.write(["binary"], stem + ".dat", d)
    file = name + "trace.txt" if name.endswith("/") else name
    where = os.path.join(top, os.path.dirname(file))
    if not os.path.isdir(where):
        if os.path.exists(where):
            return                   # the decoy is in the way
        os.mkdir(where)
    if os.path.isdir(os.path.join(top, file)):
        return
    ctx.write(content(v), os.path.basename(file), where)
    path = os.path.join(top, name)
    if name.endswith("/") and ctx.bool("bare"):
        path = path[:-1]
    trace = opened(path, report, ctx.tmpdir())
    ctx.check(ctx.eq(tags(trace), [int(v), 7]), "the trace named")
    ctx.check(os.path.normpath(trace.trace_path) ==
              os.path.normpath(os.path.join(top, file)), "path")
    ctx.check(report.calls == [], "no binary trace asked for")


@case("binary traces", bounds="reports with a symbolic event and header, or "
      "trace-cmd failing, missing or printing an unreadable event: raw "
      "events asked for, nothing left behind", quick=[{}])
def binary(ctx):
    import trappy
    quiet()
    where, temp = ctx.tmpdir(), ctx.tmpdir()
    path = ctx.write(["binary"], "trace.dat", where)
    fate = ctx.choice("fate", ["fine", "fails", "missing", "unreadable"])
    n, v = ctx.digits("cpus", 1), "3" + ctx.digits("v", 1)
    lines = ["cpus=" + n] + content(v)
    if fate == "unreadable":
        lines.append("   a-1 [000] 3.500000: ev: nothing")
    error = {"fails": subprocess.CalledProcessError(1, "trace-cmd"),
             "missing": OSError(2, "No such file or directory", "trace-cmd")}
    report = Report(ctx.write(lines, "report"), error.get(fate))
    try:
        trace = opened(path if ctx.bool("by name") else where, report, temp)
    except Exception as e:
        trace = None
        ctx.check(fate != "fine", "readable")
        if fate == "missing":
            ctx.check(isinstance(e, OSError) and "installed" in str(e),
                      "says what is missing")
    ctx.check(os.listdir(temp) == [], "no temporary file left")
    ctx.check(os.listdir(where) == ["trace.dat"], "folder left alone")
    ctx.check(len(report.calls) == 1, "run once")
    cmd = report.calls[0]
    raw = set()
    classes = [trappy.FTrace.thermal_classes, trappy.FTrace.sched_classes,
               trappy.FTrace.dynamic_classes]
    for group in classes:
        for cls in group.values():
            if getattr(cls, "parse_raw", False) and \
                    getattr(cls, "name", None):
                raw.add(cls.name)
    ctx.check(cmd[:2] == ["trace-cmd", "report"] and cmd[-1] == path,
              "report of the trace")
    ctx.check({b for a, b in zip(cmd, cmd[1:]) if a == "-r"} == raw and
              len(raw) > 0, "raw events")
    if trace is not None:
        ctx.check(fate == "fine", "errors are not hidden")
        ctx.check(ctx.eq(tags(trace), [int(v), 7]), "events")
        ctx.check(ctx.eq([int(trace._cpus), int(trace._version)],
                         [int(n), 6]), "header")


HEADER = {
    "version": "version = ", "cpus": "cpus=",
}


@case("header", bounds="0-3 (thorough: 4) header lines among version, CPUs and "
      "other text, numbers of 1-2 symbolic digits, before and between events",
      quick=[dict(n=n) for n in range(4)], thorough=[dict(n=4)])
def header(ctx, n):
    quiet()
    head = []
    want = {}
    for i in range(n):
        kind = ctx.choice("kind%d" % i, ["version", "cpus", "other"])
        if kind == "other":
            head.append(["# tracer: nop", "", "CPU 0 is empty"][i % 3])
            continue
        value = ctx.digits("n%d" % i, 1 + i % 2)
        head.append(HEADER[kind] + value)
        want.setdefault(kind, int(value))
    v = "3" + ctx.digits("v", 1)
    late = [HEADER[ctx.choice("late", ["version", "cpus"])] + v] \
        if ctx.bool("late too") else []
    lines = content(v)[1:]
    trace = opened(ctx.write(head + lines[:1] + late + lines[1:]), Report(),
                   ctx.tmpdir())
    for key in ("version", "cpus"):
        got = getattr(trace, "_" + key)
        if key in want:
            ctx.check(got is not None and ctx.eq(int(got), want[key]),
                      key + " as in the header")
            ctx.check(ctx.eq(int(trace.metadata[key]), want[key]),
                      key + " in the metadata")
        else:
            ctx.check(got is None and key not in trace.metadata,
                      key + " unknown")
    ctx.check(ctx.eq(tags(trace), [int(v), 7]), "events")


@case("no header", bounds="lines around a header with symbolic characters "
      "before and after its name, and a first event of a task named like a "
      "header", quick=[{}])
def no_header(ctx):
    quiet()
    key = ctx.choice("key", ["version", "cpus"])
    n = ctx.digits("n", 1)
    what = ctx.choice("what", ["before", "after", "task"])
    ok = False
    if what == "before":
        first = ctx.chars("c", 1, "x_ #1=") + key + "=" + n
    elif what == "after":
        mid = ctx.chars("m", 2, "= x1_")
        first = key + mid + n
        # a number right behind the separator
        ok = any(mid == t for t in ("= ", " =", "=1"))
        if mid == "=1":
            n = "1" + n
    else:
        first = key + "=" + n + "-12 [000] 0.500000: ev: a=3"
    trace = opened(ctx.write([first] + content("5")[1:]), Report(),
                   ctx.tmpdir())
    got = getattr(trace, "_" + key)
    if ok:
        ctx.check(got is not None and ctx.eq(int(got), int(n)), "header")
    else:
        ctx.check(got is None, "not a header")
    ctx.check(ctx.eq(tags(trace), ([3] if what == "task" else []) + [5, 7]),
              "events")
