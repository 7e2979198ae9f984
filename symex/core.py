"""Symbolic execution core: path exploration by deterministic re-execution.

The code under test runs in the ordinary interpreter on proxy values
(SymBool / SymInt / SymReal here, SymStr in strs.py).  Whenever the program
needs the truth value of a proxy, Engine.branch() asks z3 which outcomes are
possible under the current path condition, takes one and schedules the other.
Every path through the program within the bounds of the scenario is visited;
on each path the assertions are discharged by z3 for all values of that path.
"""
import fractions
import math
import sys
import time

import z3


class PathAbort(BaseException):
    """Ends the current path; never visible to the code under test."""


class Infeasible(PathAbort):
    """The path condition became unsatisfiable (an assume() excluded it)."""


class Unsupported(PathAbort):
    """The engine cannot encode an operation; the path is inconclusive."""


class Budget(PathAbort):
    """Resource budget of the exploration exhausted."""


ENGINE = None          # the Engine of the running exploration (or None)


def engine():
    if ENGINE is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return ENGINE


def flag(name):
    return ENGINE is not None and ENGINE.path_state.get(name)


class Entry(object):
    """One event on the current path: a branch or an assumption."""
    __slots__ = ("branch", "taken", "open", "expr", "aux")

    def __init__(self, branch, taken, open_, expr, aux=None):
        self.aux = aux
        self.branch = branch
        self.taken = taken
        self.open = open_
        self.expr = expr


class Engine(object):
    def __init__(self, timeout_ms=20000, max_paths=100000, deadline=None,
                 pick_limit=64):
        self.solver = z3.Solver()
        # the incremental solver gets stuck now and then where a new one
        # answers at once
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", min(timeout_ms, 3000))
        self.last = self.solver
        self.trace = []            # Entry list for the current path
        self.pos = 0
        self.model = None          # a model of the current path condition
        self.aborted = None
        self.known = {}
        self.keep = []
        self.fresh = 0
        self.pick_limit = pick_limit
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                          branches=0, forks=0, paths=0, checks=0, again=0)
        self.path_state = {}

    # -- solver ---------------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.time()
        self.last = self.solver
        res = self.solver.check(*assumptions)
        if res == z3.unknown:
            self.last = z3.Solver()
            self.last.set("timeout", self.timeout_ms)
            self.last.add(*self.solver.assertions())
            self.last.add(*assumptions)
            res = self.last.check()
            self.stats["again"] += 1
        self.stats["solver_s"] += time.time() - t0
        self.stats["queries"] += 1
        self.stats[str(res)] += 1
        if res == z3.unknown:
            self.abort(Unsupported("solver returned unknown: %s" %
                                   self.last.reason_unknown()))
        return res == z3.sat

    def get_model(self):
        if self.model is None:
            if not self._check():
                self.abort(Infeasible("path condition unsatisfiable"))
            self.model = self.last.model()
        return self.model

    def abort(self, exc):
        if self.aborted is None:
            self.aborted = exc
        raise self.aborted

    def poll(self):
        if self.aborted is not None:
            raise self.aborted
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(Budget("time budget exhausted"))

    # -- exploration ----------------------------------------------------
    def begin_path(self):
        self.pos = 0
        self.aborted = None
        self.known = {}
        self.keep = []
        self.fresh = 0
        self.path_state = {}
        self.model = None

    def next_path(self):
        """Backtrack to the deepest open branch.  False when exhausted."""
        while self.trace:
            entry = self.trace.pop()
            if not entry.branch:
                continue
            self.solver.pop()
            if entry.open:
                expr = z3.Not(entry.expr) if entry.taken else entry.expr
                self.solver.push()
                self.solver.add(expr)
                self.trace.append(Entry(True, not entry.taken, False,
                                        entry.expr, entry.aux))
                return True
        return False

    def assume(self, expr):
        """Add a constraint to the path without branching."""
        self.poll()
        if isinstance(expr, bool):
            if not expr:
                self.abort(Infeasible("assumption is false"))
            return
        if self.pos < len(self.trace):
            entry = self.trace[self.pos]
            if entry.branch:
                self.abort(Unsupported("non-deterministic scenario"))
            self.pos += 1
            return
        self.pos += 1
        self.solver.add(expr)
        self.trace.append(Entry(False, None, False, None))
        if self.model is not None:
            if not z3.is_true(self.model.eval(expr, model_completion=True)):
                self.model = None

    def branch(self, expr, force=False, aux=None):
        """Decide the truth value of a z3 Bool on this path.  With force a
        trace entry is recorded even for a decided condition."""
        self.poll()
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        decided = None
        if z3.is_true(expr):
            decided = True
        elif z3.is_false(expr):
            decided = False
        else:
            decided = self.known.get(expr.get_id())
        if decided is not None and not force:
            return decided
        self.stats["branches"] += 1
        if self.pos < len(self.trace):
            entry = self.trace[self.pos]
            if not entry.branch:
                self.abort(Unsupported("non-deterministic scenario"))
            self.pos += 1
            self._learn(expr, entry.taken)
            return entry.taken
        if decided is not None:
            self.pos += 1
            self.solver.push()
            self.trace.append(Entry(True, decided, False, expr, aux))
            return decided
        model = self.get_model()
        val = z3.is_true(model.eval(expr, model_completion=True))
        other = z3.Not(expr) if val else expr
        saved = self.model
        both = self._check(other)
        self.model = saved
        taken = val
        self.pos += 1
        self.solver.push()
        if both:
            self.stats["forks"] += 1
            self.solver.add(expr if taken else z3.Not(expr))
        # when only one side is possible the constraint is implied already
        self.trace.append(Entry(True, taken, both, expr, aux))
        self._learn(expr, taken)
        return taken

    def _learn(self, expr, taken):
        self.keep.append(expr)
        self.known[expr.get_id()] = taken
        neg = z3.simplify(z3.Not(expr))
        self.keep.append(neg)
        self.known[neg.get_id()] = not taken

    def possible(self, expr):
        """Is expr satisfiable together with the path condition?  (query
        only; replayed prefixes ask again, so use it for verdicts only)"""
        self.poll()
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        saved = self.model
        res = self._check(expr)
        self.query_model = self.last.model() if res else None
        self.model = saved
        return res

    def pick(self, expr, what="value", limit=None):
        """Enumerate the feasible values of an Int/Real expression: each
        becomes a path of its own."""
        limit = limit or self.pick_limit
        expr = z3.simplify(expr)
        for _ in range(limit):
            val = const_value(expr)
            if val is not None:
                return val
            self.poll()
            if self.pos < len(self.trace):
                cand = self.trace[self.pos].aux
            else:
                cand = const_value(self.get_model().eval(
                    expr, model_completion=True))
            if self.branch(expr == to_z3_const(cand, expr), True, cand):
                return cand
        self.abort(Unsupported("too many values for %s" % what))

    def fresh_name(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)


def const_value(expr):
    """Python value of a constant z3 expression, or None."""
    if z3.is_int_value(expr):
        return expr.as_long()
    if z3.is_rational_value(expr):
        return fractions.Fraction(expr.numerator_as_long(),
                                  expr.denominator_as_long())
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return None


def to_z3_const(val, like):
    if like.sort() == z3.RealSort():
        return z3.RealVal(str(val))
    return z3.IntVal(val)
