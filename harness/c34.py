"""C34: the scripts of interactive plots are installed whole before use."""
import importlib
import io
import os
import re
import urllib.error
import urllib.request

import IPython
import IPython.display
import pandas as pd

from symex.case import case
from harness.common import quiet

ASSUMPTIONS = [
    "downloads are made with urllib; what they bring, how often they fail "
    "and how much was written by then is up to the solver; the data "
    "directory of Jupyter is a scratch folder",
    "for IPython before 4.0 its version and the lookup of the profile "
    "directory are stand-ins",
]
MODULES = ["ILinePlot", "EventPlot"]


def conf():
    return importlib.import_module("trappy.plotter.IPythonConf")


def base_name(url):
    return url.rsplit("/", 1)[-1]


class Web(object):
    """Stands in for the network.  The fails-th download of an attempt
    fails in some way."""
    def __init__(self, ctx):
        self.ctx, self.contents, self.fetched = ctx, {}, []
        self.left, self.how = None, None

    def content(self, url):
        if url not in self.contents:
            k = len(self.contents)
            self.contents[url] = (self.ctx.chars("first%d" % k, 1, "ab") + "c",
                                  "d" + self.ctx.chars("rest%d" % k, 1, "ab"))
        return self.contents[url]

    def whole(self, url):
        a, b = self.content(url)
        return a + b

    def attempt(self, left, how):
        self.left, self.how = left, how

    def fails(self):
        if self.left is None:
            return False
        self.left -= 1
        return self.left < 0

    def chunks(self, url):
        a, b = self.content(url)
        if self.fails():
            if self.how == "refused":
                raise urllib.error.URLError("refused")
            yield a
            if self.how == "interrupted":
                raise KeyboardInterrupt()
            raise urllib.error.ContentTooShortError("short", (None, None))
        yield a
        yield b
        self.fetched.append(url)

    def urlretrieve(self, url, filename=None, reporthook=None, data=None):
        got = []
        for chunk in self.chunks(url):
            got.append(chunk)
            self.ctx.write(got, os.path.basename(filename),
                           os.path.dirname(filename), newline=False)
        return filename, None

    def urlopen(self, url, *args, **kw):
        chunks = self.chunks(url)
        first = next(chunks)
        ctx = self.ctx

        class Response(io.RawIOBase):
            def read(self, n=-1):
                where = ctx.write([first] + list(chunks), newline=False)
                return read_bytes(where)
        return Response()


class session(object):
    """A notebook with a data directory of its own"""
    def __init__(self, ctx, version=None):
        self.ctx, self.version = ctx, version
        self.web = Web(ctx)
        self.where = ctx.tmpdir()
        self.pages, self.undo = [], []

    def patch(self, thing, name, value):
        had = name in vars(thing)
        self.undo.append((thing, name, had, getattr(thing, name, None)))
        setattr(thing, name, value)

    def __enter__(self):
        self.patch(urllib.request, "urlretrieve", self.web.urlretrieve)
        self.patch(urllib.request, "urlopen", self.web.urlopen)
        self.env = {k: os.environ.get(k) for k in
                    ("JUPYTER_DATA_DIR", "JUPYTER_PLATFORM_DIRS")}
        os.environ["JUPYTER_DATA_DIR"] = self.where
        self.base, self.folder = "/nbextensions", "nbextensions"
        if self.version:
            self.patch(IPython, "__version__", self.version)
            if self.version.startswith("3"):
                self.base, self.folder = "/static", "static"
                self.patch(IPython.utils.path, "locate_profile",
                           lambda profile, top=self.where:
                           os.path.join(top, profile))

                class Shell(object):
                    profile = "default"
                self.patch(IPython, "get_ipython", Shell)
                self.where = os.path.join(self.where, "default")
        places = [IPython.display] + [
            importlib.import_module("trappy.plotter." + name)
            for name in ("ILinePlotGen", "EventPlot")]
        for module in places:
            for name, stand_in in (("display", self.pages.append),
                                   ("HTML", lambda text: text)):
                if hasattr(module, name):
                    self.patch(module, name, stand_in)
        return self

    def __exit__(self, *exc):
        for thing, name, had, value in reversed(self.undo):
            if had:
                setattr(thing, name, value)
            else:
                delattr(thing, name)
        for name, value in self.env.items():
            os.environ.pop(name, None)
            if value is not None:
                os.environ[name] = value
        return False

    def path(self, module, name):
        return os.path.join(self.where, self.folder, "plotter_scripts",
                            module, name)

    def show(self, module):
        quiet()
        if module == "ILinePlot":
            from trappy.plotter.ILinePlot import ILinePlot
            ILinePlot(pd.DataFrame({"a": [1, 2]}, index=[0.5, 1.5]),
                      column="a").view()
        else:
            from trappy.plotter.EventPlot import EventPlot
            EventPlot({"a": [[0, 1, 0]]}, ["a"], [0, 1], num_lanes=1).view()


def read(path):
    with open(path, encoding="utf-8") as src:
        return src.read()


def read_bytes(path):
    with open(path, "rb") as src:
        return src.read()


def resources(module):
    """The scripts on the web and the own files of a kind of plot"""
    all_ = conf().IPLOT_RESOURCES[module]
    web = [r for r in all_ if r.startswith("http")]
    return web, [r for r in all_ if r not in web]


def check_installed(ctx, s, module, complete):
    web, local = resources(module)
    for url in web:
        path = s.path(module, base_name(url))
        if os.path.exists(path):
            ctx.check(ctx.eq(ctx.scan("^(.*)$", read(path))[0][0],
                             s.web.whole(url)), "a script is complete")
        else:
            ctx.check(not complete, "script installed")
    plotter = os.path.dirname(conf().__file__)
    for name in local:
        path = s.path(module, os.path.basename(name))
        if complete:
            ctx.check(os.path.exists(path), "file installed")
            ctx.check(read_bytes(path) ==
                      read_bytes(os.path.join(plotter, name)), "own file")


@case("attempts", bounds="n attempts to show one of the two kinds of "
      "interactive plots, in each of which any or no download is refused, "
      "cut short or interrupted, then one where the network works; scripts "
      "of symbolic text", quick=[dict(module=m, n=2) for m in MODULES],
      thorough=[dict(module=m, n=3) for m in MODULES])
def attempts(ctx, module, n):
    web, local = resources(module)
    with session(ctx) as s:
        for j in range(n + 1):
            missing = [u for u in web if u not in s.web.fetched]
            left, how = None, None
            if j < n:
                left = ctx.choice("fails%d" % j,
                                  [None] + list(range(len(missing))))
            if left is not None:
                how = ctx.choice("how%d" % j,
                                 ["refused", "short", "interrupted"])
            s.web.attempt(left, how)
            done, shown = list(s.web.fetched), len(s.pages)
            try:
                s.show(module)
                failed = None
            except (ImportError, KeyboardInterrupt) as e:
                failed = type(e)
            want = {None: None, "interrupted": KeyboardInterrupt}
            ctx.check(failed is want.get(how, ImportError), "outcome")
            ctx.check(len(s.pages) == shown + (how is None),
                      "shown when its scripts are there")
            check_installed(ctx, s, module, how is None)
            if how is None:
                ctx.check(sorted(s.web.fetched) == sorted(web),
                          "every script downloaded once")
        ctx.check(len(set(s.web.fetched)) == len(s.web.fetched),
                  "downloaded once")
        ctx.observe("contents", [read(s.path(module, base_name(u)))
                                 for u in web])


@case("present files", bounds="any of the files of the two kinds of plots "
      "already there, with symbolic text: own files are replaced, "
      "downloaded ones are kept",
      quick=[dict(module=m) for m in MODULES])
def present(ctx, module):
    web, local = resources(module)
    with session(ctx) as s:
        names = [base_name(r) for r in web + local]
        old = {}
        for k, name in enumerate(names):
            if ctx.bool("have%d" % k):
                path = s.path(module, name)
                if not os.path.isdir(os.path.dirname(path)):
                    os.makedirs(os.path.dirname(path))
                old[name] = ctx.chars("old%d" % k, 1, "ab") + "!"
                ctx.write([old[name]], name, os.path.dirname(path),
                          newline=False)
        s.show(module)
        for url in web:
            name = base_name(url)
            got = ctx.scan("^(.*)$", read(s.path(module, name)))[0][0]
            ctx.check(ctx.eq(got, old[name] if name in old else
                             s.web.whole(url)), "script")
        plotter = os.path.dirname(conf().__file__)
        for name in local:
            ctx.check(read_bytes(s.path(module, os.path.basename(name))) ==
                      read_bytes(os.path.join(plotter, name)), "own file")
        ctx.check(sorted(s.web.fetched) ==
                  sorted(u for u in web if base_name(u) not in old),
                  "downloads what is missing")


@case("pages", bounds="both kinds of plots shown any number up to n times in "
      "any order, with IPython of several versions: all scripts that a page "
      "refers to are installed", quick=[dict(n=2)], thorough=[dict(n=3)])
def pages(ctx, n):
    version = ctx.choice("version", [None, "3.2.1", "4.0.0", "4.1.2",
                                     "5.0.0", "10.1.0"])
    with session(ctx, version) as s:
        for j in range(n):
            module = ctx.choice("module%d" % j, MODULES)
            s.show(module)
            page = s.pages[-1]
            found = re.findall(r"""["']([\w-]+)["']\s*:\s*["'](/[^"']*)["']""",
                               page)
            ctx.check(module in [name for name, _ in found], "main script")
            for name, path in found:
                ctx.check(path.startswith(s.base + "/"), "base of the server")
                path = os.path.join(s.where, s.folder,
                                    path[len(s.base) + 1:] + ".js")
                ctx.check(os.path.isfile(path), "script of the page")
            names = {os.path.basename(path) + ".js" for _, path in found}
            ctx.check(names == {base_name(r) for r in conf().
                                IPLOT_RESOURCES[module]
                                if r.endswith(".js")}, "all of its scripts")
            if module == "EventPlot":
                base, = re.findall(
                    r"EventPlot\.generate\('\w+', '([^']*)'", page)
                ctx.check(base.startswith(s.base + "/"), "base of the server")
                ctx.check(os.path.isfile(os.path.join(
                    s.where, s.folder, base[len(s.base) + 1:],
                    "plotter_scripts/EventPlot/EventPlot_help.jpg")), "help")
        ctx.check(len(s.pages) == n, "shown")
