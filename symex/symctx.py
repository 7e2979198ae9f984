"""The symbolic side of the scenario API."""
import fractions

import numpy as np
import z3

from . import core, strs, values
from .context import BaseCtx, CheckFailed
from .values import (SymBool, SymInt, SymReal, all_of, any_of, mk_bool,
                     mk_int, mk_real, neg, ite, truth, is_sym, num_expr)


class Violated(core.PathAbort):
    def __init__(self, msg, model, expr=None):
        core.PathAbort.__init__(self, msg)
        self.msg = msg
        self.model = model
        self.expr = expr            # what the counterexample satisfies


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, scratch=None):
        BaseCtx.__init__(self, scratch)
        self.eng = eng
        self.inputs = {}          # name -> (kind, payload)
        self.violations = []

    # -- inputs ----------------------------------------------------------
    def int(self, name, lo, hi):
        v = z3.Int("in_" + name)
        self.inputs[name] = ("int", v)
        self.eng.assume(z3.And(v >= lo, v <= hi))
        return mk_int(v)

    def real(self, name, lo, hi, den=8):
        """A multiple of 1/den (den a power of two, so floats are exact)."""
        v = z3.Int("in_" + name)
        self.inputs[name] = ("real", (v, den))
        self.eng.assume(z3.And(v >= int(lo * den), v <= int(hi * den)))
        return mk_real(z3.ToReal(v) / den)

    def bool(self, name):
        v = z3.Bool("in_" + name)
        self.inputs[name] = ("bool", v)
        return SymBool(v)

    def chars(self, name, n, alphabet):
        dom = frozenset(alphabet)
        out = []
        for i in range(n):
            v = z3.Int("in_%s[%d]" % (name, i))
            self.eng.assume(strs._one_of(v, dom))
            out.append(strs.SymChar(v, dom) if len(dom) > 1
                       else next(iter(dom)))
        self.inputs[name] = ("chars", (out, alphabet))
        return strs.mk_str(out)

    def real_const(self, x):
        """A concrete number that may share an index with symbolic ones."""
        return SymReal(values.real_val(fractions.Fraction(x)))

    def _lift(self, text):
        return strs.lift(text)

    def exact_floats(self):
        self.eng.path_state["realfloats"] = True

    # -- logic -------------------------------------------------------------
    def assume(self, cond):
        e = truth(cond)
        self.eng.assume(e)
        if not isinstance(e, bool):
            # exclude the path right away when nothing is left
            self.eng.get_model()

    def check(self, cond, msg):
        self.nchecks += 1
        self.eng.stats["checks"] += 1
        e = truth(cond)
        if isinstance(e, bool):
            if not e:
                raise Violated(msg, self.eng.get_model())
            return
        if self.eng.possible(z3.Not(e)):
            raise Violated(msg, self.eng.query_model, z3.Not(e))
        # holds for all values of this path: nothing to assume

    def eq(self, a, b):
        """Equality without forking; NaN equals NaN; lists elementwise."""
        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        ta, tb = type(a), type(b)
        if ta in (list, tuple) and tb in (list, tuple):
            if len(a) != len(b):
                return False
            return all_of(*[self.eq(x, y) for x, y in zip(a, b)])
        if ta is dict and tb is dict:
            if set(a) != set(b):
                return False
            return all_of(*[self.eq(a[k], b[k]) for k in a])
        if ta is str and not a.isascii():
            a = strs.lift(a)
        if tb is str and not b.isascii():
            b = strs.lift(b)
        if ta is float and tb is float:
            return (a != a and b != b) or a == b or \
                abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        r = (a == b)
        if r is NotImplemented:
            return False
        if isinstance(r, np.bool_):
            return bool(r)
        return r

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def same_type(self, a, kind):
        if isinstance(a, np.generic):
            a = a.item()
        if kind is float:
            return isinstance(a, float)
        if kind is int:
            return isinstance(a, int) and not isinstance(a, bool)
        return isinstance(a, kind)

    def all(self, *conds):
        return all_of(*conds)

    def any(self, *conds):
        return any_of(*conds)

    def neg(self, c):
        return neg(c)

    def ite(self, c, a, b):
        if num_expr(a) is None or num_expr(b) is None:
            return a if c else b
        return ite(c, a, b)

    # -- models -------------------------------------------------------------
    def _freeze(self, v):
        return v                     # evaluated later, with a model

    def assignment(self, model):
        out = {}
        for name, (kind, p) in self.inputs.items():
            if kind == "int":
                out[name] = model.eval(p, model_completion=True).as_long()
            elif kind == "real":
                n = model.eval(p[0], model_completion=True).as_long()
                out[name] = str(fractions.Fraction(n, p[1]))
            elif kind == "bool":
                out[name] = z3.is_true(model.eval(p, model_completion=True))
            else:
                out[name] = "".join(
                    c if type(c) is str else
                    chr(model.eval(c.expr, model_completion=True).as_long())
                    for c in p[0])
        return out

    def differ(self, model):
        """A constraint: some input takes another value than in model."""
        terms = []
        for kind, p in self.inputs.values():
            exprs = [p] if kind in ("int", "bool") else \
                [p[0]] if kind == "real" else \
                [c.expr for c in p[0] if type(c) is not str]
            terms += [e != model.eval(e, model_completion=True)
                      for e in exprs]
        return z3.And(terms) if terms else z3.BoolVal(False), \
            z3.Or(terms) if terms else z3.BoolVal(False)

    def frozen(self, model):
        return [[n, evaluate(v, model)] for n, v in self.observed]


def evaluate(v, model):
    """Value of a structure under a model, in the form ConCtx._freeze uses."""
    if isinstance(v, np.generic):
        v = v.item()
    t = type(v)
    if t is SymInt:
        return core.const_value(model.eval(v.expr, model_completion=True))
    if t is SymReal:
        e = model.eval(v.expr, model_completion=True)
        return {"f": repr(float(core.const_value(e)))}
    if t is SymBool:
        return z3.is_true(model.eval(v.expr, model_completion=True))
    if t is strs.SymStr or (t is str and not v.isascii()):
        out = []
        for c in strs.chars_of(v):
            if type(c) is str:
                out.append(c)
            elif type(c) is strs.NumTok:
                out.append("<num>")
            else:
                out.append(chr(model.eval(
                    c.expr, model_completion=True).as_long()))
        return "".join(out)
    if t is dict or isinstance(v, dict):
        return [[evaluate(k, model), evaluate(x, model)]
                for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [evaluate(x, model) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(evaluate(x, model) for x in v)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return {"f": repr(v)}
    if isinstance(v, fractions.Fraction):
        return {"f": repr(float(v))}
    return str(t.__name__)
