#!/usr/bin/env python3
"""Validate planted bugs: tools/seed.py [--no-check] ID...

In a scratch copy of /repo: the demo passes, the patch applies, the stable
tests still pass, the demo fails, and the property's quick check says what?
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0")


def run(cmd, cwd, timeout=900, **env):
    e = dict(ENV)
    e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def stable_failures(copy):
    out = os.path.join(copy, "junit.xml")
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
         "--junitxml", out, "tests"], copy)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(out).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname").split(".")[-1] + "." + tc.get("name"))
    os.remove(out)
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = []
    for w in want:
        parts = re.split(r"[.:]+", w)
        if ".".join(parts[-2:]) not in ok:
            bad.append(w)
    return bad


def one(sid, check=True):
    seed = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(os.path.join(seed, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(seed, demo, ignore=shutil.ignore_patterns(
            "*.diff", "*.patch", "meta.json"))
        rc, out = run(["bash", os.path.join(demo, "demo.sh")], copy)
        if rc:
            return sid, meta, "BAD demo fails on clean tree: " + out[-600:]
        rc, out = run(["git", "apply", os.path.join(seed, "patch.diff")],
                      copy)
        if rc:
            return sid, meta, "BAD patch: " + out
        bad = stable_failures(copy)
        if bad:
            return sid, meta, "BAD breaks tests: %s" % bad[:5]
        rc, out = run(["bash", os.path.join(demo, "demo.sh")], copy)
        if rc == 0:
            return sid, meta, "BAD demo passes with the patch"
        if not check:
            return sid, meta, "valid"
        rc, out = run([PY, "check.py", meta["property"]] +
                      (["--jobs", os.environ["JOBS"]]
                       if "JOBS" in os.environ else []),
                      ROOT, VERIF_REPO=copy, X="")
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        i = [l for l in out.splitlines() if "INCONCL" in l or "INCOMP" in l]
        return sid, meta, "%s rc=%d %d violations %s %s" % (
            "CAUGHT" if rc == 1 and v else "MISSED", rc, len(v),
            "inconclusive: %d" % len(i) if i else "",
            out[-1500:] if rc not in (0, 1) else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--no-check" not in sys.argv
    ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(1 if check else 6) as ex:
        for sid, meta, msg in ex.map(lambda s: one(s, check), ids):
            print("%-28s %s %s" % (sid, meta["property"], msg), flush=True)


if __name__ == "__main__":
    main()
