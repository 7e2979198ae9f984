"""Write seeded/<id>/ from an edit of the repository and a demo body.

    seed(id, property, file, old, new, needs, breaks, demo)

demo is Python run with the repository first on the path; it must raise
(assert) when the property is broken.  Helpers tr(lines, **kw) and tmp exist.
"""
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''import os, sys, shutil, tempfile, warnings
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.getcwd())
import math
import numpy as np
import pandas as pd
import trappy
tmp = tempfile.mkdtemp()


def write(lines, name="trace.txt"):
    path = os.path.join(tmp, name)
    with open(path, "w") as f:
        f.write("".join(l + "\\n" for l in lines))
    return path


def tr(lines, cache=False, **kw):
    trappy.FTrace.disable_cache = not cache
    return trappy.FTrace(write(lines), **kw)


try:
%s
finally:
    shutil.rmtree(tmp, ignore_errors=True)
'''


def seed(id, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new)"""
    d = os.path.join(ROOT, "seeded", id)
    work = tempfile.mkdtemp()
    try:
        repo = os.path.join(work, "r")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, text=True,
                              stdout=subprocess.PIPE, check=True).stdout
        assert diff, id
    finally:
        shutil.rmtree(work)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    body = "\n".join("    " + l if l else "" for l in
                     demo.strip("\n").split("\n"))
    open(os.path.join(d, "demo.py"), "w").write(PRELUDE % body)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
