"""Numeric and boolean proxies."""
import fractions
import math
import numbers

import numpy as np
import z3

from . import core
from .core import Unsupported, engine

_REAL_HASH = 0x5EED


def to_frac(x):
    return fractions.Fraction(x)


def _int_like(x):
    return isinstance(x, (int, np.integer)) and not is_sym(x)


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymReal or t is SymBool or \
        getattr(t, "_symex_", False)


def real_val(x):
    f = fractions.Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def num_expr(x):
    """(kind, expr) for a number, or None.  kind is 'i' or 'r'."""
    t = type(x)
    if t is SymInt:
        return "i", x.expr
    if t is SymReal:
        return "r", x.expr
    if t is SymBool:
        return "i", z3.If(x.expr, z3.IntVal(1), z3.IntVal(0))
    if t is bool or t is np.bool_:
        return "i", z3.IntVal(int(x))
    if t is int or isinstance(x, np.integer):
        return "i", z3.IntVal(int(x))
    if t is float or isinstance(x, np.floating):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return "x", x
        return "r", real_val(x)
    if t is fractions.Fraction:
        return "r", real_val(x)
    return None


def as_real(kind, expr):
    if kind == "i":
        return z3.ToReal(expr)
    return expr


def mk_bool(expr):
    if isinstance(expr, bool):
        return expr
    expr = z3.simplify(expr)
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return SymBool(expr)


def mk_int(expr):
    expr = z3.simplify(expr)
    if z3.is_int_value(expr):
        return expr.as_long()
    return SymInt(expr)


def mk_real(expr):
    return SymReal(z3.simplify(expr))


def mk_num(kind, expr):
    return mk_int(expr) if kind == "i" else mk_real(expr)


def truth(x):
    """z3 Bool (or python bool) for any value, without forking."""
    t = type(x)
    if t is SymBool:
        return x.expr
    if t is SymInt:
        return x.expr != 0
    if t is SymReal:
        return x.expr != 0
    return bool(x)


def _floordiv_int(a, b):
    """Python floor division on z3 Ints (b != 0)."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymNum(object):
    _symex_ = True
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    # -- comparison -----------------------------------------------------
    def _cmp(self, other, op):
        o = num_expr(other)
        if o is None:
            if op == "==":
                return NotImplemented if core_is_sym(other) else False
            if op == "!=":
                return NotImplemented if core_is_sym(other) else True
            return NotImplemented
        k1, e1 = num_expr(self)
        k2, e2 = o
        if k2 == "x":
            x = e2
            if math.isnan(x):
                return op == "!="
            if op in ("==", "!="):
                return op == "!="
            return (x > 0) if op in ("<", "<=") else (x < 0)
        if k1 != k2:
            e1, e2 = as_real(k1, e1), as_real(k2, e2)
        if op == "==":
            return mk_bool(e1 == e2)
        if op == "!=":
            return mk_bool(e1 != e2)
        if op == "<":
            return mk_bool(e1 < e2)
        if op == "<=":
            return mk_bool(e1 <= e2)
        if op == ">":
            return mk_bool(e1 > e2)
        return mk_bool(e1 >= e2)

    def __eq__(self, other):
        if _is_arr(other):
            return NotImplemented
        return self._cmp(other, "==")

    def __ne__(self, other):
        if _is_arr(other):
            return NotImplemented
        return self._cmp(other, "!=")

    def __lt__(self, other):
        return self._cmp(other, "<")

    def __le__(self, other):
        return self._cmp(other, "<=")

    def __gt__(self, other):
        return self._cmp(other, ">")

    def __ge__(self, other):
        return self._cmp(other, ">=")

    # -- arithmetic -----------------------------------------------------
    def _bin(self, other, op, swap=False):
        if _is_arr(other):
            return NotImplemented
        o = num_expr(other)
        if o is None:
            return NotImplemented
        k1, e1 = num_expr(self)
        k2, e2 = o
        if k2 == "x":
            x = e2
            if math.isnan(x):
                return x
            if op in "+-":
                return -x if (op == "-" and not swap) else x
            core.engine().abort(Unsupported("infinity arithmetic"))
        if swap:
            k1, e1, k2, e2 = k2, e2, k1, e1
        if op in ("+", "-", "*"):
            if k1 == k2 == "i":
                k = "i"
            else:
                k = "r"
                e1, e2 = as_real(k1, e1), as_real(k2, e2)
            e = e1 + e2 if op == "+" else e1 - e2 if op == "-" else e1 * e2
            return mk_num(k, e)
        if op in ("/", "//", "%"):
            zero = (e2 == 0)
            if engine().branch(zero):
                raise ZeroDivisionError("division by zero")
            if op == "/":
                return mk_real(as_real(k1, e1) / as_real(k2, e2))
            if k1 == k2 == "i":
                q = _floordiv_int(e1, e2)
                return mk_int(q) if op == "//" else mk_int(e1 - e2 * q)
            e1, e2 = as_real(k1, e1), as_real(k2, e2)
            q = z3.ToReal(z3.ToInt(e1 / e2))
            return mk_real(q) if op == "//" else mk_real(e1 - e2 * q)
        if op == "**":
            exp = z3.simplify(e2)
            if not (z3.is_int_value(exp) or z3.is_rational_value(exp)):
                v = engine().pick(exp, "exponent")
            else:
                v = core.const_value(exp)
            v = fractions.Fraction(v)
            if v.denominator != 1:
                core.engine().abort(Unsupported("fractional exponent"))
            n = int(v)
            if abs(n) > 8:
                core.engine().abort(Unsupported("large exponent"))
            real = (k1 == "r" or k2 == "r" or n < 0)
            base = as_real(k1, e1) if real else e1
            res = z3.RealVal(1) if real else z3.IntVal(1)
            for _ in range(abs(n)):
                res = res * base
            if n < 0:
                if engine().branch(base == 0):
                    raise ZeroDivisionError(
                        "0.0 cannot be raised to a negative power")
                res = z3.RealVal(1) / res
            return mk_real(res) if real else mk_int(res)
        raise AssertionError(op)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __rfloordiv__(self, o): return self._bin(o, "//", True)
    def __mod__(self, o): return self._bin(o, "%")
    def __rmod__(self, o): return self._bin(o, "%", True)
    def __pow__(self, o): return self._bin(o, "**")
    def __rpow__(self, o): return self._bin(o, "**", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        k, e = num_expr(self)
        return mk_num(k, -e)

    def __pos__(self):
        k, e = num_expr(self)
        return mk_num(k, e)

    def __abs__(self):
        k, e = num_expr(self)
        return mk_num(k, z3.If(e >= 0, e, -e))

    def __bool__(self):
        return engine().branch(truth(self))

    def __str__(self):
        from . import strs
        return strs.token_str(self)

    __repr__ = __str__

    def __format__(self, spec):
        from . import strs
        return strs.format_num(self, spec)


def _is_arr(o):
    return isinstance(o, np.ndarray) or hasattr(type(o), "_typ")


def core_is_sym(o):
    return getattr(type(o), "_symex_", False)


def _and_const(x, c):
    """x & c of an integer and a constant that is not negative: the runs of
    ones of the constant cut out of x (in two's complement)"""
    total, lo = z3.IntVal(0), 0
    while c >> lo:
        if not (c >> lo) & 1:
            lo += 1
            continue
        n = 1
        while (c >> (lo + n)) & 1:
            n += 1
        total = total + ((x / 2 ** lo) % 2 ** n) * 2 ** lo
        lo += n
    return z3.simplify(total)


def _bits_with(x, c, op):
    if op == "<<":
        return x * 2 ** c
    if op == ">>":
        return x / 2 ** c
    both = x - _and_const(x, ~c) if c < 0 else _and_const(x, c)
    if op == "&":
        return both
    return x + c - (both if op == "|" else 2 * both)


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return hash(engine().pick(self.expr, "hash(int)"))

    def __int__(self):
        return engine().pick(self.expr, "int()")

    __index__ = __int__

    def __float__(self):
        return float(engine().pick(self.expr, "float()"))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def _bits(self, o, op, swap=False):
        if isinstance(o, (int, np.integer)) and not core_is_sym(o) and \
                not (swap and op in ("<<", ">>")):
            return mk_int(_bits_with(self.expr, int(o), op))
        a = engine().pick(self.expr, "bit operation")
        if core_is_sym(o):
            o = int(o)
        if not isinstance(o, (int, np.integer)):
            return NotImplemented
        o = int(o)
        if swap:
            a, o = o, a
        return {"&": a & o, "|": a | o, "^": a ^ o}[op] if op in "&|^" else \
            (a << o if op == "<<" else a >> o)

    def __and__(self, o): return self._bits(o, "&")
    def __rand__(self, o): return self._bits(o, "&", True)
    def __or__(self, o): return self._bits(o, "|")
    def __ror__(self, o): return self._bits(o, "|", True)
    def __xor__(self, o): return self._bits(o, "^")
    def __rxor__(self, o): return self._bits(o, "^", True)
    def __lshift__(self, o): return self._bits(o, "<<")
    def __rlshift__(self, o): return self._bits(o, "<<", True)
    def __rshift__(self, o): return self._bits(o, ">>")
    def __rrshift__(self, o): return self._bits(o, ">>", True)

    def __invert__(self):
        return mk_int(-self.expr - 1)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return engine().pick(self.expr, "bit_length").bit_length()


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return _REAL_HASH

    def __float__(self):
        return float(engine().pick(self.expr, "float()"))

    def __int__(self):
        return int(engine().pick(self.expr, "int()"))

    def __trunc__(self):
        e = self.expr
        return mk_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def __floor__(self):
        return mk_int(z3.ToInt(self.expr))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.expr))

    def __round__(self, n=None):
        # correct up to the tie-breaking rule (ties are excluded)
        scale = 10 ** (n or 0)
        e = self.expr * scale
        fl = z3.ToInt(e + z3.Q(1, 2))
        if engine().branch(z3.ToReal(fl) == e + z3.Q(1, 2)):
            engine().abort(Unsupported("round() tie"))
        if n is None:
            return mk_int(fl)
        return mk_real(z3.ToReal(fl) / scale)

    def is_integer(self):
        return mk_bool(z3.IsInt(self.expr))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0


class SymBool(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __bool__(self):
        return engine().branch(self.expr)

    def _logic(self, o, fn):
        if type(o) is SymBool:
            return mk_bool(fn(self.expr, o.expr))
        if isinstance(o, (bool, np.bool_)):
            return mk_bool(fn(self.expr, z3.BoolVal(bool(o))))
        return NotImplemented

    def __and__(self, o): return self._logic(o, z3.And)
    __rand__ = __and__
    def __or__(self, o): return self._logic(o, z3.Or)
    __ror__ = __or__
    def __xor__(self, o): return self._logic(o, z3.Xor)
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, (bool, np.bool_)):
            e = o.expr if type(o) is SymBool else z3.BoolVal(bool(o))
            return mk_bool(self.expr == e)
        return SymNum.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_bool(z3.Not(truth(r))) if core_is_sym(r) else not r

    def __invert__(self):
        return mk_bool(z3.Not(self.expr))


# -- logical helpers usable in scenarios in both modes -------------------
def all_of(*conds):
    es = [truth(c) for c in conds]
    if all(isinstance(e, bool) for e in es):
        return all(es)
    return mk_bool(z3.And([e if not isinstance(e, bool) else z3.BoolVal(e)
                           for e in es]))


def any_of(*conds):
    es = [truth(c) for c in conds]
    if all(isinstance(e, bool) for e in es):
        return any(es)
    return mk_bool(z3.Or([e if not isinstance(e, bool) else z3.BoolVal(e)
                          for e in es]))


def neg(cond):
    e = truth(cond)
    return (not e) if isinstance(e, bool) else mk_bool(z3.Not(e))


def implies(a, b):
    return any_of(neg(a), b)


def ite(cond, a, b):
    """Value-level if without forking (numbers only)."""
    c = truth(cond)
    if isinstance(c, bool):
        return a if c else b
    k1, e1 = num_expr(a)
    k2, e2 = num_expr(b)
    if k1 != k2:
        return mk_real(z3.If(c, as_real(k1, e1), as_real(k2, e2)))
    return mk_num(k1, z3.If(c, e1, e2))
