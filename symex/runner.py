"""Explore the scenarios of one property and report."""
import hashlib
import importlib
import json
import multiprocessing
import os
import queue
import resource
import shutil
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STRICT = bool(os.environ.get("VERIF_STRICT"))


def setup_symbolic():
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    warnings.simplefilter("ignore")
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if tools not in sys.path:
        sys.path.append(tools)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    from symex import transform
    transform.install({"trappy": REPO, "harness": ROOT},
                      untracked=("harness",))


def explore(case, snapshot, client, deadline, opts):
    """All paths of one case.  Returns a JSON-able report."""
    import z3
    from symex import core, transform
    from symex.context import same_frozen
    from symex.symctx import SymCtx, Violated
    t0 = time.time()
    eng = core.Engine(timeout_ms=opts["solver_timeout_ms"],
                      deadline=deadline, pick_limit=opts["pick_limit"])
    core.ENGINE = eng
    rep = dict(label=case.label, name=case.name, params=case.params,
               bounds=case.bounds, violations=[], inconclusive=[],
               validated=0, mismatches=[], complete=False, reached=0,
               assumed_away=0, checks=0, incomplete="")
    transform.ENTERED.clear()
    scratch = tempfile.mkdtemp(prefix="sxs")
    cwd = os.getcwd()
    os.chdir(scratch)
    next_validate = 0

    def replay(ctx, model):
        return client.run(case.name, case.params, ctx.assignment(model))

    try:
        while True:
            eng.begin_path()
            snapshot.restore()
            ctx = SymCtx(eng, scratch)
            outcome, detail, model, bad = "ok", "", None, None
            try:
                case.fn(ctx, **case.params)
                if eng.aborted is not None:
                    raise eng.aborted
                if eng.pos < len(eng.trace):
                    raise core.Unsupported("non-deterministic scenario")
            except Violated as e:
                outcome, detail, model = "violation", e.msg, e.model
                bad = e.expr
            except core.Infeasible:
                outcome = "infeasible"
            except core.Budget as e:
                outcome, detail = "budget", str(e)
            except core.Unsupported as e:
                outcome, detail = "unsupported", str(e)
                if os.environ.get("SX_TRACE"):
                    traceback.print_exc()
            except RecursionError:
                outcome, detail = "unsupported", "recursion"
            except Exception as e:
                if eng.aborted is not None:
                    outcome = {"Infeasible": "infeasible",
                               "Budget": "budget"}.get(
                        type(eng.aborted).__name__, "unsupported")
                    detail = str(eng.aborted)
                else:
                    if os.environ.get("SX_TRACE"):
                        traceback.print_exc()
                    tb = traceback.extract_tb(e.__traceback__)
                    outcome = "exception"
                    detail = "%s: %s (%s:%d)" % (
                        type(e).__name__, ascii(str(e))[:200],
                        os.path.basename(tb[-1].filename), tb[-1].lineno)
            finally:
                eng.aborted = None
                ctx.cleanup()
            rep["checks"] += ctx.nchecks
            if outcome == "budget":
                rep["incomplete"] = detail
                break
            eng.stats["paths"] += 1
            if outcome == "infeasible":
                rep["assumed_away"] += 1
            elif outcome == "ok":
                if ctx.nchecks:
                    rep["reached"] += 1
                idx = eng.stats["paths"] - 1
                if idx >= next_validate or opts.get("validate_all"):
                    next_validate = int(idx * 1.6) + 1
                    m = eng.get_model()
                    res = replay(ctx, m)
                    if res["status"] in ("check", "exception"):
                        rep["violations"].append(dict(
                            msg=res["msg"], assignment=ctx.assignment(m),
                            found="replay of a path the solver passed"))
                    elif res["status"] != "ok" or not same_frozen(
                            ctx.frozen(m), res["observed"]):
                        rep["mismatches"].append(dict(
                            assignment=ctx.assignment(m),
                            symbolic=ctx.frozen(m), concrete=res))
                    else:
                        rep["validated"] += 1
            else:
                try:
                    if model is None:
                        eng.deadline = None
                        model = eng.get_model()
                    a = ctx.assignment(model)
                    res = client.run(case.name, case.params, a)
                    tries = 0
                    extra = [] if bad is None else [bad]
                    while res["status"] not in ("check", "exception") and \
                            tries < 6:
                        # another counterexample of the same path
                        tries += 1
                        every, some = ctx.differ(model)
                        if eng.possible(z3.And(extra + [every])):
                            extra.append(every)
                        elif eng.possible(z3.And(extra + [some])):
                            extra.append(some)
                        else:
                            break
                        model = eng.query_model
                        a2 = ctx.assignment(model)
                        res2 = client.run(case.name, case.params, a2)
                        if res2["status"] in ("check", "exception"):
                            a, res = a2, res2
                    if res["status"] in ("check", "exception"):
                        rep["violations"].append(dict(
                            msg=res["msg"], assignment=a,
                            found="%s: %s" % (outcome, detail)))
                    else:
                        rep["inconclusive"].append(dict(
                            kind=outcome, detail=detail, assignment=a,
                            replay=res["status"]))
                except core.PathAbort as e:
                    rep["inconclusive"].append(dict(
                        kind=outcome, detail="%s / %s" % (detail, e),
                        assignment=None, replay="none"))
                eng.aborted = None
                eng.deadline = deadline
            if rep["violations"]:
                rep["incomplete"] = "stopped at a violation"
                break
            if len(rep["inconclusive"]) > opts["max_inconclusive"]:
                rep["incomplete"] = "too many inconclusive paths"
                break
            if not eng.next_path():
                rep["complete"] = True
                break
    finally:
        core.ENGINE = None
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        snapshot.restore()
    rep["stats"] = {k: (round(v, 3) if isinstance(v, float) else v)
                    for k, v in eng.stats.items()}
    rep["functions"] = sorted(transform.ENTERED)
    rep["wall_s"] = round(time.time() - t0, 3)
    return rep


def worker(module, cases, todo, results, deadline, opts):
    from symex.replay import Client
    from symex.state import Snapshot
    out = open(os.devnull, "w")
    if not os.environ.get("SX_TRACE"):
        sys.stdout = out
    snapshot = Snapshot(("trappy",))
    client = Client(module)
    while True:
        i = todo.get()
        if i is None:
            break
        try:
            rep = explore(cases[i], snapshot, client, deadline, opts)
        except BaseException as e:
            rep = dict(label=cases[i].label, error="%r\n%s" % (
                e, traceback.format_exc()))
        results.put((i, rep))
    client.close()


def run(prop, tier, seed, jobs=None, only=None, budget=None):
    """Explore; returns (reports, harness module)."""
    setup_symbolic()
    module = "harness.%s" % prop.lower()
    mod = importlib.import_module(module)
    import trappy                                     # noqa: F401
    for m in getattr(mod, "PRELOAD", ()):
        importlib.import_module(m)
    from symex.case import REGISTRY
    cases = [c for c in REGISTRY[module]
             if tier == "thorough" or c.tier == "quick"]
    if only:
        cases = [c for c in cases if only in c.label]
    opts = dict(solver_timeout_ms=60000, pick_limit=80,
                max_inconclusive=20 if not STRICT else 5)
    opts["validate_all"] = getattr(mod, "VALIDATE_ALL", False)
    budget = budget or (600 if tier == "quick" else 3000)
    deadline = time.time() + budget
    jobs = min(jobs or int(os.environ.get("VERIF_JOBS", "8")), len(cases))
    mp = multiprocessing.get_context("fork")
    todo, results = mp.Queue(), mp.Queue()
    for i in range(len(cases)):
        todo.put(i)
    for _ in range(jobs):
        todo.put(None)
    procs = [mp.Process(target=worker, args=(module, cases, todo, results,
                                             deadline, opts))
             for _ in range(jobs)]
    for p in procs:
        p.start()
    reports = {}
    while len(reports) < len(cases):
        try:
            i, rep = results.get(timeout=5)
            reports[i] = rep
            if rep.get("violations"):
                break
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            if time.time() > deadline + 120:
                break
    if len(reports) < len(cases):
        # stopped early: let nothing keep running
        time.sleep(0.05)
        while True:
            try:
                i, rep = results.get_nowait()
                reports[i] = rep
            except queue.Empty:
                break
        for p in procs:
            p.terminate()
    for p in procs:
        p.join(10)
    for i, c in enumerate(cases):
        if i not in reports:
            reports[i] = dict(label=c.label, name=c.name, params=c.params,
                              skipped=True)
    return [reports[i] for i in range(len(cases))], cases, mod


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fin:
        return [f for f in json.load(fin) if f.get("kind") == "known"]


def main(prop, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    reports, cases, mod = run(prop, tier, seed, jobs, only)
    wall = time.time() - t0
    violations, incon, mism, errors, incomplete = [], [], [], [], []
    agg = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
               branches=0, forks=0, paths=0, checks=0)
    functions = set()
    validated = reached = assumed = 0
    per_case = []
    vacuous = []
    for rep in reports:
        if rep.get("error"):
            errors.append((rep["label"], rep["error"]))
            continue
        if rep.get("skipped"):
            incomplete.append((rep["label"], "not explored"))
            continue
        for k in agg:
            agg[k] += rep["stats"][k]
        functions.update(rep["functions"])
        validated += rep["validated"]
        reached += rep["reached"]
        assumed += rep["assumed_away"]
        for v in rep["violations"]:
            violations.append((rep, v))
        incon += [(rep["label"], x) for x in rep["inconclusive"]]
        mism += [(rep["label"], x) for x in rep["mismatches"]]
        if not rep["complete"] and not rep["violations"]:
            incomplete.append((rep["label"], rep["incomplete"]))
        if not rep["reached"] and not rep["violations"]:
            vacuous.append(rep["label"])
        per_case.append(dict(
            case=rep["label"], bounds=rep["bounds"],
            paths=rep["stats"]["paths"], excluded_paths=rep["assumed_away"],
            assertions=rep["checks"], queries=rep["stats"]["queries"],
            solver_s=rep["stats"]["solver_s"], wall_s=rep["wall_s"],
            exhaustive=rep["complete"], validated=rep["validated"]))
        if verbose:
            print("%-60s paths %5d excl %4d checks %5d q %6d solver %6.1fs "
                  "wall %6.1fs val %d%s" % (
                      rep["label"][:60], rep["stats"]["paths"],
                      rep["assumed_away"], rep["checks"],
                      rep["stats"]["queries"], rep["stats"]["solver_s"],
                      rep["wall_s"], rep["validated"],
                      "" if rep["complete"] else " INCOMPLETE"))
    code = 0
    # known findings: each is replayed on the real code
    from symex.replay import Client
    findings = [f for f in known_findings() if f["property"] == prop]
    if findings:
        client = Client("harness.%s" % prop.lower())
        for f in findings:
            res = client.run(f["case"], f.get("params", {}), f["assignment"])
            if res["status"] in ("check", "exception"):
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        client.close()
    replay_dir = os.path.join(ROOT, "evidence", "replay")
    vio_out = []
    for rep, v in violations:
        os.makedirs(replay_dir, exist_ok=True)
        body = dict(property=prop, case=rep["name"], params=rep["params"],
                    assignment=v["assignment"], message=v["msg"],
                    found=v["found"])
        h = hashlib.sha1(json.dumps(body, sort_keys=True,
                                    default=str).encode()).hexdigest()[:8]
        path = os.path.join(replay_dir, "%s-%s.json" % (prop, h))
        with open(path, "w") as out:
            json.dump(body, out, indent=1)
        print("counterexample in %s: %s" % (rep["label"], v["msg"]))
        print("  inputs: %s" % json.dumps(v["assignment"])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        vio_out.append(dict(case=rep["label"], message=v["msg"],
                            replay=path))
        code = 1
    for label, x in incon[:10]:
        print("INCONCLUSIVE %s: %s %s (replay on the real code: %s)" % (
            label, x["kind"], x["detail"][:300], x["replay"]))
        if verbose:
            print("   ", x["assignment"])
    for label, x in mism[:5]:
        print("ENCODING-MISMATCH %s: %s" % (label, json.dumps(x)[:1500]))
    for label, x in incomplete[:10]:
        print("INCOMPLETE %s: %s" % (label, x))
    for label in vacuous[:10]:
        print("NO-ASSERTION-REACHED %s" % label)
    for label, x in errors[:5]:
        print("ENGINE-ERROR %s: %s" % (label, x))
    if code == 0 and (errors or (STRICT and (incon or mism or incomplete or
                                             vacuous))):
        code = 2
    if code == 0 and not reached:
        print("nothing was checked")
        code = 2
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        wall_s=round(wall, 3),
        coverage=dict(
            states=agg["paths"], transitions=max(agg["branches"], 1),
            traces_validated_against_impl=validated,
            samples=agg["checks"],
            paths_reaching_assertions=reached,
            paths_excluded_by_assumptions=assumed,
            branch_forks=agg["forks"],
            assertions_discharged=agg["checks"],
            solver_queries=agg["queries"], solver_sat=agg["sat"],
            solver_unsat=agg["unsat"], solver_unknown=agg["unknown"],
            solver_s=round(agg["solver_s"], 3),
            functions_encoded=sorted(functions),
            cases=per_case,
            inconclusive_paths=len(incon), encoding_mismatches=len(mism),
            incomplete_cases=[l for l, _ in incomplete],
            cases_without_assertion=vacuous),
        assumptions=list(getattr(mod, "ASSUMPTIONS", ())) + COMMON_ASSUMPTIONS,
        violations=vio_out)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", "%s.json" % prop)
    with open(path + ".tmp", "w") as out:
        json.dump(ev, out, indent=1)
    os.replace(path + ".tmp", path)
    print("%s %s: %d cases, %d paths, %d assertions, %d queries "
          "(solver %.1fs), %d paths validated on the real code, %.1fs -> %s" %
          (prop, tier, len(reports), agg["paths"], agg["checks"],
           agg["queries"], agg["solver_s"], validated, wall,
           {0: "held", 1: "VIOLATED"}.get(code, "error")))
    return code


COMMON_ASSUMPTIONS = [
    "floating point numbers are encoded as exact reals; counterexamples are "
    "replayed in floating point and only reported when they reproduce",
    "C code reached (pandas, numpy, csv, json, pyparsing's C-free core "
    "excepted) runs natively on opaque symbolic objects",
]
