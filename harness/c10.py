"""C10: stale, damaged or half-written caches are never believed."""
import json
import os
import shutil
import warnings
from symex.case import case
from harness.common import ftrace, col
from harness.c09 import HEAD, line, same, read

ASSUMPTIONS = [
    "a table is damaged beyond reading (missing, empty, not text, a folder); "
    "silent edits of a readable table are not detectable",
    "crash points are the file operations of the cache writer (folder, "
    "metadata, tables, renames), each file operation either not done, half "
    "done or done",
]
EV = ["alpha", "beta"]
KW = dict(events=EV, scope="custom")


class Crash(BaseException):
    pass


def load(path, **kw):
    """(trace, warnings)"""
    import trappy
    trappy.FTrace.disable_cache = False
    try:
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            return trappy.FTrace(path, **dict(KW, **kw)), \
                [str(w.message) for w in got]
    finally:
        trappy.FTrace.disable_cache = True


def cache_of(path):
    return os.path.join(os.path.dirname(path),
                        "." + os.path.basename(path) + ".cache")


def setup(ctx, where=None):
    v = ctx.digits("v", 2)
    return ctx.write(HEAD + [line("1.000000", "alpha", "k=x" + v),
                             line("2.500000", "beta", "k=007 z=4"),
                             line("3.000000", "alpha", "k=q")], where=where)


def bystanders(path):
    d = os.path.dirname(path)
    for name in (".other.txt.cache", "trace.txt.cache", "sub"):
        os.mkdir(os.path.join(d, name))
        with open(os.path.join(d, name, "keep"), "w") as f:
            f.write(name)
    with open(os.path.join(d, "notes"), "w") as f:
        f.write("notes")


def untouched(ctx, path, trace_text):
    d = os.path.dirname(path)
    for name in (".other.txt.cache", "trace.txt.cache", "sub"):
        ctx.check(os.listdir(os.path.join(d, name)) == ["keep"],
                  "other folders untouched")
    ctx.check(read(os.path.join(d, "notes")) == "notes", "files untouched")
    ctx.check(read(path) == trace_text, "trace untouched")
    ctx.check(sorted(os.listdir(d)) ==
              sorted([".other.txt.cache", ".trace.txt.cache", "notes", "sub",
                      "trace.txt", "trace.txt.cache"]), "nothing else left")


def good(ctx, path, believe=None, kw={}):
    """The next load is right, and the one after that comes from a cache
    that is right too."""
    fresh = ftrace(path, **dict(KW, **kw))
    one, _ = load(path, **kw)
    same(ctx, fresh, one, EV)
    if believe is not None:
        ctx.check([getattr(one, n).cached for n in EV] == believe,
                  "only the undamaged part of the cache is used")
    two, _ = load(path, **kw)
    same(ctx, fresh, two, EV)
    ctx.check(two.alpha.cached and two.beta.cached, "cache is valid again")


META = ["missing", "empty", "folder", "garbage", "list", "no md5sum",
        "no basetime", "no endtime", "no ftrace", "other md5sum", "bytes",
        "other values"]
OTHER = {"all": ["5", "null", "true", '"md5sum basetime endtime ftrace"'],
         "basetime": [None, "1.0", [1.0]], "endtime": [None, "3.0", {}],
         "ftrace": [None, 5, "version", ["cpus"]]}


@case("damaged metadata", bounds="metadata missing, unreadable, truncated at "
      "every ninth position, lacking each entry or with entries of other types",
      quick=[dict(kind=k) for k in META] + [dict(kind="truncated")])
def damaged_metadata(ctx, kind):
    path = setup(ctx)
    bystanders(path)
    text = read(path)
    load(path)
    meta = os.path.join(cache_of(path), "metadata.json")
    with open(meta) as f:
        content = f.read()
    os.remove(meta)
    if kind == "folder":
        os.mkdir(meta)
    elif kind == "bytes":
        with open(meta, "wb") as f:
            f.write(b"\xff\xfe\x00{")
    elif kind != "missing":
        if kind == "truncated":
            n = ctx.choice("n", range(0, len(content), 9))
            content = content[:n]
        elif kind == "empty":
            content = ""
        elif kind == "garbage":
            content = "{md5sum"
        elif kind == "list":
            content = "[]"
        elif kind == "other values":
            what = ctx.choice("what", sorted(OTHER))
            value = ctx.choice("value", OTHER[what])
            content = value if what == "all" else \
                json.dumps(dict(json.loads(content), **{what: value}))
        else:
            data = json.loads(content)
            if kind == "other md5sum":
                # any single digit differs, or the checksum has another length
                md5 = data["md5sum"]
                at = ctx.choice("at", list(range(32)) + ["all", "short",
                                                         "long", "none"])
                data["md5sum"] = {
                    "all": "0" * 32, "short": md5[:-1], "long": md5 + "0",
                    "none": None}.get(at) if not isinstance(at, int) else \
                    md5[:at] + "%x" % ((int(md5[at], 16) + 8) % 16) + \
                    md5[at + 1:]
            else:
                del data[kind[3:]]
            content = json.dumps(data)
        with open(meta, "w") as f:
            f.write(content)
    good(ctx, path, [False, False])
    untouched(ctx, path, text)


@case("damaged tables", bounds="each table missing, empty, not text or a "
      "folder; loads with every subset of the events",
      quick=[dict(a=a) for a in ("fine", "missing", "empty", "bytes",
                                 "folder")])
def damaged_tables(ctx, a):
    path = setup(ctx)
    bystanders(path)
    text = read(path)
    load(path)
    b = ctx.choice("b", ["fine", "missing", "empty", "bytes"])
    extra = ctx.bool("extra")
    for name, kind in (("alpha", a), ("beta", b)):
        csv = os.path.join(cache_of(path), name + ".csv")
        ctx.check(os.path.isfile(csv), "table per event")
        if kind == "fine":
            continue
        os.remove(csv)
        if kind == "folder":
            os.mkdir(csv)
        elif kind != "missing":
            with open(csv, "wb") as f:
                f.write(b"" if kind == "empty" else b"\xff\xfe,\xfa\n\xff")
    if extra:
        with open(os.path.join(cache_of(path), "gamma.csv"), "w") as f:
            f.write("junk")
    fresh = ftrace(path, **KW)
    one, _ = load(path)
    same(ctx, fresh, one, EV)
    ctx.check([one.alpha.cached, one.beta.cached] ==
              [a == "fine", b == "fine"], "only undamaged tables are used")
    two, _ = load(path)
    same(ctx, fresh, two, EV)
    ctx.check(two.beta.cached, "tables are written again")
    if a != "folder":
        ctx.check(two.alpha.cached, "tables are written again")
    untouched(ctx, path, text)


@case("changed trace", bounds="trace file rewritten between loads with two "
      "symbolic digits, a line added or removed, keeping size and times",
      quick=[{}])
def changed_trace(ctx):
    path = setup(ctx)
    bystanders(path)
    first, _ = load(path)
    how = ctx.choice("how", ["value", "added", "removed", "order",
                             "unrequested", "header"])
    stat = os.stat(path)
    u = ctx.digits("u", 2)
    lines = HEAD + [line("1.000000", "alpha", "k=x" + u),
                    line("2.500000", "beta", "k=007 z=4"),
                    line("3.000000", "alpha", "k=q")]
    if how == "added":
        lines.append(line("9.000000", "beta", "k=9 z=3"))
    elif how == "removed":
        del lines[-1]
    elif how == "order":
        lines[2:5] = [lines[4], lines[3], lines[2]]
    elif how == "unrequested":
        lines.insert(2, line("0.500000", "gamma", "k=1"))
    elif how == "header":
        lines[1] = "cpus=8"
    ctx.write(lines, where=os.path.dirname(path))
    os.utime(path, ns=(stat.st_atime_ns, stat.st_mtime_ns))
    text = read(path)
    subset = ctx.bool("subset")
    if subset:
        t, _ = load(path, events=["beta"])
        ctx.check(t.beta.cached is False or how == "value", "stale")
    good(ctx, path)
    untouched(ctx, path, text)


@case("long trace changed", bounds="a trace of 150 kB in which one line, at "
      "the start, near the 4 kB, 64 kB or 128 kB boundary or at the end, gets "
      "another digit", quick=[{}])
def long_trace_changed(ctx):
    noise = [line("1.%06d" % i, "gamma", "filler=" + "x" * 100)
             for i in range(1100)]
    at = ctx.choice("at", [0, 29, 470, 950, 1100])
    v, u = ctx.digits("v", 1), ctx.digits("u", 1)

    def text(d):
        out = list(noise)
        out.insert(at, line("1.%06d" % at, "alpha", "k=" + d))
        return HEAD + out + [line("3.000000", "beta", "k=1")]
    path = ctx.write(text(v))
    load(path)
    stat = os.stat(path)
    ctx.write(text(u), where=os.path.dirname(path))
    os.utime(path, ns=(stat.st_atime_ns, stat.st_mtime_ns))
    trace, _ = load(path)
    ctx.check(ctx.eq(col(trace.alpha.data_frame, "k")[0], int(u)),
              "the value is that of the trace as it is now")


class Ops(object):
    """Counts file operations of the cache writer; crashes at one of them."""

    def __init__(self, at, how, error):
        self.n, self.at, self.how, self.error = 0, at, how, error

    def op(self, path, act):
        self.n += 1
        if self.n - 1 != self.at:
            return act()
        if self.how == "before":
            raise self.error
        r = act()
        if self.how == "half" and path and os.path.isfile(path):
            with open(path, "rb") as f:
                data = f.read()
            with open(path, "wb") as f:
                f.write(data[:len(data) // 2])
        raise self.error


class Json(object):
    def __init__(self, real, ops):
        self._real, self._ops = real, ops

    def dump(self, obj, fp, *a, **k):
        ops = self._ops
        ops.n += 1
        if ops.n - 1 == ops.at:
            if ops.how != "before":
                text = self._real.dumps(obj, *a, **k)
                text = str(text)
                fp.write(text if ops.how == "after"
                         else text[:len(text) // 2])
            raise ops.error
        return self._real.dump(obj, fp, *a, **k)

    def __getattr__(self, name):
        return getattr(self._real, name)


def with_faults(ctx, path, at, how, error):
    """Load with the at-th file operation failing.  Returns (ops, outcome)"""
    import pandas
    import trappy.ftrace
    ops = Ops(at, how, error)
    saved = (os.mkdir, os.replace, os.rename, pandas.DataFrame.to_csv,
             getattr(trappy.ftrace, "json", None), os.makedirs)
    real_json = saved[4]

    def to_csv(self, fname=None, *a, **k):
        return ops.op(fname if isinstance(fname, str) else None,
                      lambda: saved[3](self, fname, *a, **k))
    os.mkdir = lambda p, *a, **k: ops.op(None, lambda: saved[0](p, *a, **k))
    os.makedirs = lambda p, *a, **k: saved[5](p, *a, **k)
    os.replace = lambda p, q: ops.op(None, lambda: saved[1](p, q))
    os.rename = lambda p, q: ops.op(None, lambda: saved[2](p, q))
    pandas.DataFrame.to_csv = to_csv
    if real_json is not None:
        trappy.ftrace.json = Json(real_json, ops)
    out = None
    try:
        out = load(path)
    except Crash:
        pass
    finally:
        os.mkdir, os.replace, os.rename, pandas.DataFrame.to_csv = saved[:4]
        os.makedirs = saved[5]
        if real_json is not None:
            trappy.ftrace.json = real_json
    return ops, out


@case("crash", bounds="the process dies before, in the middle of or after "
      "each file operation of the cache writer, with or without an older "
      "cache of a subset or of another trace",
      quick=[dict(old=o) for o in ("none", "subset", "stale")])
def crash(ctx, old):
    path = setup(ctx)
    bystanders(path)
    text = read(path)
    if old == "subset":
        load(path, events=["beta"])
    elif old == "stale":
        ctx.write(HEAD + [line("1.000000", "alpha", "k=old"),
                          line("2.000000", "beta", "k=old")],
                  where=os.path.dirname(path))
        load(path)
        ctx.write([text], where=os.path.dirname(path), newline=False)
    at = ctx.choice("at", range(8))
    how = ctx.choice("how", ["before", "half", "after"])
    ops, out = with_faults(ctx, path, at, how, Crash())
    ctx.check(ops.n > 0, "the cache is written")
    if at >= ops.n:
        ctx.check(out is not None, "no crash")
    good(ctx, path)
    untouched(ctx, path, text)


@case("full disk", bounds="each file operation of the cache writer fails "
      "before or in the middle with an OS error",
      quick=[{}])
def full_disk(ctx):
    path = setup(ctx)
    bystanders(path)
    text = read(path)
    at = ctx.choice("at", range(7))
    how = ctx.choice("how", ["before", "half"])
    ops, out = with_faults(ctx, path, at, how,
                           OSError(28, "No space left on device"))
    fresh = ftrace(path, **KW)
    same(ctx, fresh, out[0], EV)
    if at < ops.n:
        ctx.check(any("Cache not created" in w for w in out[1]), "warned")
    good(ctx, path)
    untouched(ctx, path, text)


@case("no folder", bounds="a file in the place of the cache folder",
      quick=[{}])
def no_folder(ctx):
    path = setup(ctx)
    with open(cache_of(path), "w") as f:
        f.write("x")
    out = load(path)
    same(ctx, ftrace(path, **KW), out[0], EV)
    ctx.check(any("ache" in w for w in out[1]), "warned")
    out = load(path)
    same(ctx, ftrace(path, **KW), out[0], EV)


@case("two traces", bounds="two traces of one folder, loaded in any order, "
      "by absolute or relative path", quick=[{}])
def two_traces(ctx):
    d = ctx.tmpdir()
    v, u = ctx.digits("v", 2), ctx.digits("u", 2)
    one = ctx.write(HEAD + [line("1.000000", "alpha", "k=x" + v),
                            line("2.000000", "beta", "k=y" + v)],
                    name="one.txt", where=d)
    two = ctx.write(HEAD + [line("1.000000", "alpha", "k=x" + u),
                            line("2.000000", "beta", "k=z" + u)],
                    name="two.txt", where=d)
    order = ctx.choice("order", [(one, two, one, two), (two, one, two, one),
                                 (one, one, two, two)])
    rel = ctx.bool("rel")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        seen = set()
        for p in order:
            t, _ = load(os.path.basename(p) if rel else p)
            ctx.check(t.alpha.cached == (p in seen), "own cache only")
            seen.add(p)
            w = v if p == one else u
            ctx.check(ctx.eq(col(t.alpha.data_frame, "k"), ["x" + w]), "rows")
    finally:
        os.chdir(cwd)
