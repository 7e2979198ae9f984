"""Replay server: runs scenarios on concrete values against the untouched
code.  Started as `python -m symex.replay MODULE`; reads one JSON request per
line, answers one JSON line.  Every request runs in a fork of its own."""
import importlib
import json
import os
import select
import signal
import sys
import tempfile
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_paths():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    for p in (REPO, ROOT):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter("ignore")


def run_case(fn, params, assignment, scratch):
    from symex.context import ConCtx, CheckFailed, BadAssumption
    ctx = ConCtx(assignment, scratch)
    res = {"status": "ok", "msg": ""}
    try:
        fn(ctx, **params)
    except CheckFailed as e:
        res = {"status": "check", "msg": str(e)}
    except BadAssumption:
        res = {"status": "assumption", "msg": ""}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res = {"status": "exception",
               "msg": "%s: %s (%s)" % (type(e).__name__, str(e)[:300],
                                       "%s:%d" % (tb[-1].filename,
                                                  tb[-1].lineno))}
    finally:
        ctx.cleanup()
    res["observed"] = ctx.observed
    res["nchecks"] = ctx.nchecks
    return res


def find_case(module, name, params):
    mod = importlib.import_module(module)
    from symex.case import REGISTRY
    for c in REGISTRY[mod.__name__]:
        if c.name == name and c.params == params:
            return c
    raise KeyError("%s %s %s" % (module, name, params))


def serve(module):
    setup_paths()
    proto = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    mod = importlib.import_module(module)
    import trappy                                     # noqa: F401
    for m in getattr(mod, "PRELOAD", ()):
        importlib.import_module(m)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(int(req.get("timeout", 60)))
            try:
                c = find_case(module, req["case"], req["params"])
                with tempfile.TemporaryDirectory(prefix="sxr") as d:
                    os.chdir(d)
                    res = run_case(c.fn, req["params"], req["assignment"], d)
                    os.chdir("/")
            except BaseException as e:
                res = {"status": "crash", "msg": repr(e), "observed": [],
                       "nchecks": 0}
            with os.fdopen(w, "w") as out:
                out.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as fin:
            text = fin.read()
        os.waitpid(pid, 0)
        if not text:
            text = json.dumps({"status": "timeout", "msg": "", "observed": [],
                               "nchecks": 0})
        proto.write(text + "\n")
        proto.flush()


class Client(object):
    """Talks to a replay server in a process of its own."""

    def __init__(self, module):
        import subprocess
        env = dict(os.environ)
        env["PYTHONPATH"] = ROOT
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.proc = subprocess.Popen(
            [sys.executable, "-m", "symex.replay", module],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=ROOT, env=env,
            universal_newlines=True)

    def run(self, case, params, assignment, timeout=60):
        self.proc.stdin.write(json.dumps(
            {"case": case, "params": params, "assignment": assignment,
             "timeout": timeout}) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            return {"status": "crash", "msg": "replay server died",
                    "observed": [], "nchecks": 0}
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(5)
        except Exception:
            self.proc.kill()


if __name__ == "__main__":
    serve(sys.argv[1])
