"""Load Python modules so that they can run on symbolic values.

The source is read from the working tree, its AST is rewritten (calls,
subscripts, membership tests, iteration, f-strings and bare excepts go through
small helpers) and compiled.  Nothing else about the program changes; on
concrete values every helper does what the plain operation does.
"""
import ast
import builtins
import collections
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import io
import itertools
import json as _json
import math as _math
import operator
import os
import re
import sys
import types
import warnings

import numpy as _np
import pandas as _pd
import z3

from . import core, strs, symre, values
from .core import engine, Unsupported
from .strs import (SymStr, sx_len, sx_iter, sx_getitem, sx_in, sx_int,
                   sx_float, sx_str, lift, concretise, chars_of, mk_str)
from .values import SymInt, SymReal, SymBool, mk_int, mk_real, is_sym

ENTERED = {}          # qualified function name -> times entered


def sx_fn(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1


# -- call helper -------------------------------------------------------------
def _bin(x):
    if type(x) is SymInt:
        return _radix(x, 2, "0b")
    return bin(x)


def _hex(x):
    return hex(x)


def _radix(x, base, prefix):
    eng = engine()
    neg = eng.branch(x.expr < 0)
    mag = -x.expr if neg else x.expr
    nd = 1
    while eng.branch(mag >= base ** nd):
        nd += 1
        if nd > 64:
            eng.abort(Unsupported("radix text too long"))
    dom = frozenset("01" if base == 2 else "0123456789")
    chars = list(("-" if neg else "") + prefix)
    for i in reversed(range(nd)):
        d = z3.simplify((mag / base ** i) % base)
        chars.append(str(d.as_long()) if z3.is_int_value(d)
                     else strs.SymChar(z3.simplify(d + 48), dom))
    return mk_str(chars)


def _ord(x):
    x = lift(x)
    if type(x) is SymStr and len(x.chars) == 1:
        return mk_int(strs.ch_code(x.chars[0]))
    return ord(x)


def _type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a)


def _bool(x=False):
    return bool(x)


def _iterables(f):
    def run(*a, **k):
        return f(*[sx_iter(v) if type(v) is SymStr or
                   (type(v) is str and not v.isascii()) else v for v in a],
                 **k)
    return run


def _sum(seq, start=0):
    return sum(sx_iter(seq), start)


def _round(x, n=None):
    return round(x) if n is None else round(x, n)


FUNCS = {
    int: sx_int, float: sx_float, str: sx_str, len: sx_len, bin: _bin,
    ord: _ord, type: _type, repr: lambda x: lift(repr(x)),
    format: lambda x, spec="": lift(format(x, spec)),
}
for _f in [list, tuple, set, frozenset, sorted, enumerate, zip, map, filter,
           any, all, min, max, reversed, iter, collections.Counter,
           collections.deque, functools.reduce, dict] + [
               v for v in vars(itertools).values() if isinstance(v, type)] + [
               itertools.tee]:
    FUNCS[_f] = _iterables(_f)
FUNCS[io.StringIO] = lambda *a, **k: io.StringIO(
    *[_real_text(v) for v in a], **{n: _real_text(v) for n, v in k.items()})
SUBST = {id(k): v for k, v in FUNCS.items()}
_descr_t = type(str.upper)
AS_VALUE = {id(int): sx_int, id(float): sx_float, id(str): sx_str,
            id(len): sx_len}
HIGHER = {"map", "filter", "apply", "applymap", "transform", "agg", "pipe",
          "sorted", "sort", "min", "max", "starmap", "groupby", "reduce",
          "defaultdict", "partial", "aggregate", "takewhile", "dropwhile",
          "filterfalse", "vectorize", "fromiter"}
EATERS = {"extend", "extendleft", "update", "fromkeys", "union",
          "difference", "intersection", "issubset", "issuperset",
          "isdisjoint", "from_iterable", "symmetric_difference",
          "difference_update", "intersection_update"}
NAMEY = {id(getattr), id(setattr), id(hasattr), id(delattr), id(open)}
STR_METHODS = {n for n in dir(str) if not n.startswith("__")}
_builtin_t = type(len)


def _sym_inside(x, depth=2):
    t = type(x)
    if t is SymStr:
        return True
    if depth and t in (list, tuple):
        return any(_sym_inside(v, depth - 1) for v in x)
    return False


def _real_text(x):
    """Symbolic text as what stands for it in files"""
    if type(x) is SymStr:
        return str(x)
    if type(x) in (list, tuple):
        return [_real_text(v) for v in x]
    return x


def sx_call(f, /, *args, **kw):
    t = type(f)
    if t is type or t is _builtin_t:
        sub = SUBST.get(id(f))
        if sub is not None and (sub is not None):
            if id(f) in HIGHER_IDS:
                args, kw = _sub_values(args, kw)
            return lift(sub(*args, **kw))
        if t is _builtin_t:
            me = getattr(f, "__self__", None)
            if type(me) is str:
                name = f.__name__
                if name not in ("format", "format_map"):
                    if name == "join" and args and type(args[0]) not in (
                            list, tuple):
                        args = (list(sx_iter(args[0])),)
                    if any(_sym_inside(a) for a in args) or \
                            any(_sym_inside(a) for a in kw.values()):
                        return lift(getattr(SymStr(tuple(me)), name)(
                            *args, **kw))
            elif isinstance(me, io.IOBase) and \
                    f.__name__ in ("write", "writelines"):
                args = tuple(_real_text(a) for a in args)
            elif f.__name__ in EATERS and any(
                    type(a) is SymStr or (type(a) is str and not a.isascii())
                    for a in args):
                args = tuple(sx_iter(a) if isinstance(a, str) and
                             (i == 0 or f.__name__ != "fromkeys") else a
                             for i, a in enumerate(args))
            elif id(f) in NAMEY:
                # (the third one is a value or default)
                args = tuple(concretise(a) if type(a) is SymStr else a
                             for a in args[:2]) + args[2:]
            elif f is warnings.warn and type(args[0]) is SymStr:
                # the text is shown, not looked at
                args = (str(args[0]),) + args[1:]
    elif type(getattr(f, "__self__", None)) is str:
        pass
    elif t is _descr_t and f.__objclass__ is str and args and \
            any(_sym_inside(lift(a)) for a in args):
        return lift(getattr(SymStr(tuple(chars_of(lift(args[0])))),
                            f.__name__)(*args[1:], **kw))
    elif t is operator.itemgetter and len(args) == 1 and \
            type(args[0]) is SymStr:
        return _items(f, args[0])
    name = getattr(f, "__name__", None)
    if name in HIGHER:
        args, kw = _sub_values(args, kw)
    elif "key" in kw:
        args, kw = args, _sub_values((), kw)[1]
    return lift(f(*args, **kw))


HIGHER_IDS = {id(f) for f in [
    map, filter, sorted, min, max, functools.reduce] + [
        v for v in vars(itertools).values() if isinstance(v, type)]}


def _as_value(f):
    if id(f) in AS_VALUE:
        return AS_VALUE[id(f)]
    if type(f) is _descr_t and f.__objclass__ is str:
        return functools.partial(sx_call, f)
    if type(f) is operator.itemgetter:
        return functools.partial(_items, f)
    return f


def _items(f, x):
    items = f.__reduce__()[1]
    got = tuple(sx_getitem(x, i) for i in items)
    return got if len(items) > 1 else got[0]


def _sub_values(args, kw):
    args = tuple(_as_value(a) for a in args)
    kw = {k: (_as_value(v) if k != "dtype" else v) for k, v in kw.items()}
    return args, kw


def sx_bound(x):
    """Value of a non-call attribute access: wrap bound str methods."""
    if type(x) is _builtin_t and type(getattr(x, "__self__", None)) is str:
        return functools.partial(sx_call, x)
    return x


def sx_recv(x):
    if type(x) is str and not x.isascii():
        return lift(x)
    return x


def sx_mod(a, b):
    if type(a) is str or type(a) is SymStr:
        return strs.percent(str(a), b)
    return a % b


def sx_imod(a, b):
    if type(a) is str or type(a) is SymStr:
        return strs.percent(str(a), b)
    a %= b
    return a


HELPERS = {
    "_sx_call_": sx_call, "_sx_recv_": sx_recv, "_sx_getitem_": sx_getitem,
    "_sx_in_": sx_in, "_sx_iter_": sx_iter, "_sx_lift_": lift,
    "_sx_mod_": sx_mod, "_sx_imod_": sx_imod, "_sx_bound_": sx_bound, "_sx_fn_": sx_fn,
    "_sx_slice_": slice,
}


# -- replaced modules --------------------------------------------------------
class ModProxy(types.ModuleType):
    def __init__(self, real, overrides):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(overrides)

    def __getattr__(self, name):
        return getattr(self._real, name)


ULP = z3.Q(1, 2 ** 30)


def sx_nextafter(x, y, *a, **k):
    """Contract of nextafter towards +inf: strictly larger, by at most
    2**-52 relative (bounded here by 2**-30 absolute)."""
    if type(x) is SymReal:
        if y != _math.inf:
            engine().abort(Unsupported("nextafter towards %r" % (y,)))
        st = engine().path_state.setdefault("ulp", {})
        key = x.expr.get_id()
        if key not in st:
            u = z3.Real(engine().fresh_name("ulp"))
            st[key] = (x, u)
            engine().assume(z3.And(u > 0, u <= ULP))
        return mk_real(x.expr + st[key][1])
    if type(x) is SymInt:
        return sx_nextafter(mk_real(z3.ToReal(x.expr)), y)
    if core.flag("realfloats") and not a and not k and \
            isinstance(x, (int, float, _np.number)):
        return sx_nextafter(SymReal(values.real_val(x)), y)
    return _np.nextafter(x, y, *a, **k)


def _sx_isnan(real):
    def isnan(x, *a, **k):
        if is_sym(x):
            return False
        return real(x, *a, **k)
    return isnan


def _sx_isfinite(real):
    def isfinite(x, *a, **k):
        if is_sym(x):
            return True
        return real(x, *a, **k)
    return isfinite


def _sx_isclose(real, rel, tol):
    def isclose(a, b, *args, **k):
        if not (is_sym(a) or is_sym(b)):
            return real(a, b, *args, **k)
        if args or k:
            engine().abort(Unsupported("isclose with tolerances"))
        if _np.ndim(a) or _np.ndim(b):
            engine().abort(Unsupported("isclose of arrays"))
        big = abs(b)
        if real is _math.isclose:
            big = max(big, abs(a))
        return abs(a - b) <= tol + rel * big
    return isclose


def sx_arange(start, stop=None, step=1, *a, **k):
    if stop is None:
        start, stop = 0, start
    if not any(is_sym(v) for v in (start, stop, step)):
        return _np.arange(start, stop, step, *a, **k)
    out = []
    i = 0
    while True:
        v = start + i * step
        if not v < stop:
            break
        out.append(v)
        i += 1
        if i > 64:
            engine().abort(Unsupported("arange longer than 64"))
    arr = _np.empty(len(out), dtype=object)
    arr[:] = out
    return arr


def _plain_specials(s, specials):
    """The string with each character that may be one of the specials either
    made concrete or known not to be one."""
    chars = list(s.chars)
    for i, c in enumerate(chars):
        if type(c) is str or type(c) is strs.NumTok:
            continue
        if any(x in specials for x in c.dom) and strs.is_in(c, specials):
            for x in sorted(set(specials) & set(c.dom)):
                if strs.is_in(c, x):
                    chars[i] = x
                    break
    return strs.mk_str(chars)


def _jsonable(x):
    t = type(x)
    if t is SymStr:
        return str(_plain_specials(x, '"\\'))
    if t is SymBool:
        return bool(x)
    if t is SymInt or t is SymReal:
        st = strs._registry()
        key = ("json", x.expr.get_id())
        if key not in st["int_text"]:
            st["int_text"][key] = (x, strs.NumTok(x))
        return strs.token_of(st["int_text"][key][1])
    if isinstance(x, dict):
        return {(str(k) if is_sym(k) else k): _jsonable(v)
                for k, v in x.items()}
    if t in (list, tuple):
        return [_jsonable(v) for v in x]
    return x


def _unjson(x):
    t = type(x)
    if t is str and not x.isascii():
        x = lift(x)
        if type(x) is SymStr and len(x.chars) == 1 and \
                type(x.chars[0]) is strs.NumTok:
            return x.chars[0].value
        return x
    if t is float and core.flag("realfloats") and \
            x == x and abs(x) != float("inf"):
        return SymReal(values.real_val(x))
    if t is list:
        return [_unjson(v) for v in x]
    if t is dict:
        return {lift(k): _unjson(v) for k, v in x.items()}
    return x


def json_dump(obj, fp, *a, **k):
    return _json.dump(_jsonable(obj), fp, *a, **k)


def json_dumps(obj, *a, **k):
    return lift(_json.dumps(_jsonable(obj), *a, ensure_ascii=False, **k))


def json_load(fp, *a, **k):
    return json_loads(fp.read(), *a, **k)


def json_loads(s, *a, **k):
    if type(s) is str:
        s = lift(s)
    if type(s) is not SymStr:
        return _unjson(_json.loads(s, *a, **k))
    if len(s.chars) == 1 and type(s.chars[0]) is strs.NumTok:
        return s.chars[0].value
    try:
        return _unjson(_json.loads(str(s), *a, **k))
    except ValueError:
        return _unjson(_json.loads(strs.concretise(s), *a, **k))


NA_TEXT = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN",
           "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN",
           "n/a", "nan", "null", "None"} - {"None"}


def _csv_kind(s):
    """How pandas reads one CSV cell: ('na'|'int'|'float'|'bool'|'str', v)"""
    if type(s) is SymStr:
        if len(s.chars) == 1 and type(s.chars[0]) is strs.NumTok:
            return "float", s.chars[0].value
        for na in NA_TEXT:
            if len(na) == len(s.chars) and bool(s == na):
                return "na", float("nan")
        for word, v in (("True", True), ("TRUE", True), ("true", True),
                        ("False", False), ("FALSE", False),
                        ("false", False)):
            if len(word) == len(s.chars) and bool(s == word):
                return "bool", v
        if symre.fullmatch(r"\s*[+-]?[0-9]+\s*", s):
            return "int", sx_int(s)
        if symre.fullmatch(r"\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)"
                           r"([eE][+-]?[0-9]+)?\s*", s):
            return "float", sx_float(s)
        if symre.fullmatch(r"(?i)[+-]?inf(inity)?", s):
            return "float", sx_float(s)
        return "str", s
    if isinstance(s, float):
        return "na", s
    if isinstance(s, (bool, _np.bool_)):
        return "bool", s
    if type(s) is str:
        if s in NA_TEXT:
            return "na", float("nan")
        if s in ("True", "TRUE", "true", "False", "FALSE", "false"):
            return "bool", s.lower() == "true"
        try:
            return "int", int(s) if "_" not in s else _bad()
        except ValueError:
            pass
        try:
            return "float", float(s) if "_" not in s else _bad()
        except ValueError:
            pass
        return "str", s
    return "num", s


def _bad():
    raise ValueError


def sx_read_csv(path, *a, **k):
    """Real pandas.read_csv on the file with character tokens, followed by
    pandas' documented column type inference applied symbolically."""
    conv = k.get("converters")
    if conv:
        k["converters"] = {c: AS_VALUE.get(id(f), f) for c, f in conv.items()}
    try:
        df = _pd.read_csv(path, *a, **k)
    except (_pd.errors.EmptyDataError, _pd.errors.ParserError):
        raise
    if k.get("dtype") is not None and not isinstance(k["dtype"], dict):
        typed = set(df.columns)
    else:
        typed = set(k.get("dtype") or ()) | set(conv or ())
    if any(type(c) is str and not c.isascii() for c in df.columns):
        df.columns = [lift(c) for c in df.columns]
    for pos, col in enumerate(df.columns):
        ser = df.iloc[:, pos]
        if ser.dtype != object:
            continue
        cells = list(ser.values)
        if not any(type(c) is str and not c.isascii() for c in cells):
            continue
        cells = [lift(c) if type(c) is str else c for c in cells]
        if col not in typed:
            kinds = [_csv_kind(c) for c in cells]
            names = {n for n, _ in kinds}
            if "str" in names or not names - {"na"}:
                cells = [v if n == "na" else c
                         for (n, v), c in zip(kinds, cells)]
            elif names == {"int"}:
                cells = [v for _, v in kinds]
            elif names <= {"int", "float", "na", "num"}:
                cells = [sx_float(v) if n != "na" else v for n, v in kinds]
            elif names == {"bool"}:
                cells = [v for _, v in kinds]
            else:
                cells = [v if n == "na" else c
                         for (n, v), c in zip(kinds, cells)]
        arr = _np.empty(len(cells), dtype=object)
        arr[:] = cells
        df.isetitem(pos, _pd.Series(arr, index=df.index, dtype=object))
    if df.index.dtype == object:
        vals = list(df.index.values)
        if any(type(v) is str and not v.isascii() for v in vals):
            kinds = [_csv_kind(lift(v)) for v in vals]
            if all(n in ("int", "float", "num") for n, _ in kinds):
                vals = [v for _, v in kinds]
            else:
                vals = [lift(v) for v in vals]
            df.index = _pd.Index(vals, name=df.index.name, dtype=object)
    return df


def _sx_unique(real):
    def unique(x, *a, **k):
        arr = _np.asarray(x)
        if arr.dtype == object and not a and not k and \
                any(is_sym(v) for v in arr.ravel()):
            out = []
            for v in sorted(arr.ravel().tolist()):
                if not out or not out[-1] == v:
                    out.append(v)
            res = _np.empty(len(out), dtype=object)
            res[:] = out
            return res
        return real(x, *a, **k)
    return unique


def sx_to_numeric(arg, errors="raise", downcast=None):
    cells = list(arg.values) if isinstance(arg, (_pd.Series, _pd.Index)) \
        else list(arg) if type(arg) in (list, tuple) else [arg]
    if core.ENGINE is None or not any(
            type(c) is SymStr or (type(c) is str and not c.isascii())
            for c in cells):
        return _pd.to_numeric(arg, errors=errors, downcast=downcast)
    if not isinstance(arg, (_pd.Series, str)):
        engine().abort(Unsupported("to_numeric of %s" % type(arg).__name__))
    out = []
    for c in cells:
        c = lift(c)
        if isinstance(c, str):
            try:
                c = sx_float(c) if symre.search(r"[^0-9\s+-]", c) \
                    else sx_int(c)
            except ValueError:
                if errors == "raise":
                    raise
                if errors == "ignore":
                    return arg
                c = float("nan")
        out.append(c)
    if not isinstance(arg, _pd.Series):
        return out[0]
    arr = _np.empty(len(out), dtype=object)
    arr[:] = out
    return _pd.Series(arr, index=arg.index, name=arg.name)


PROXIES = {}


def _install_proxies():
    PROXIES["re"] = symre
    PROXIES["numpy"] = ModProxy(_np, {
        "nextafter": sx_nextafter, "isnan": _sx_isnan(_np.isnan),
        "isinf": _sx_isnan(_np.isinf), "arange": sx_arange,
        "unique": _sx_unique(_np.unique),
        "isfinite": _sx_isfinite(_np.isfinite),
        "isclose": _sx_isclose(_np.isclose, 1e-5, 1e-8)})
    PROXIES["math"] = ModProxy(_math, {
        "nextafter": sx_nextafter, "isnan": _sx_isnan(_math.isnan),
        "isinf": _sx_isnan(_math.isinf),
        "isfinite": _sx_isfinite(_math.isfinite),
        "isclose": _sx_isclose(_math.isclose, 1e-9, 0.0)})
    PROXIES["json"] = ModProxy(_json, {
        "dump": json_dump, "dumps": json_dumps, "load": json_load,
        "loads": json_loads})
    PROXIES["pandas"] = ModProxy(_pd, {
        "read_csv": sx_read_csv, "to_numeric": sx_to_numeric})


def _number_labels():
    """An object index of symbolic numbers takes number labels, as the float
    index it stands for does."""
    real = _pd.Index._maybe_cast_slice_bound

    def cast(self, label, *a, **k):
        if self.dtype == object and len(self) and \
                any(is_sym(v) for v in self.values) and \
                isinstance(label, (int, float, _np.number)):
            return label
        return real(self, label, *a, **k)
    _pd.Index._maybe_cast_slice_bound = cast

    def numbers(self):
        return self.dtype == object and any(
            type(v) in (SymInt, SymReal) for v in self.values)

    fallback = _pd.Index.__dict__["_should_fallback_to_positional"]

    def positional(self):
        if core.ENGINE is not None and numbers(self):
            return False
        return fallback.__get__(self, type(self))
    _pd.Index._should_fallback_to_positional = property(positional)
    convert = _pd.Index._convert_slice_indexer

    def sliced(self, key, kind):
        if core.ENGINE is not None and numbers(self) and \
                not any(type(v) is SymInt for v in self.values):
            return self.slice_indexer(key.start, key.stop, key.step)
        return convert(self, key, kind)
    _pd.Index._convert_slice_indexer = sliced


def _csv_specials():
    """The C writer quotes a cell by its characters."""
    real = _pd.DataFrame.to_csv

    def to_csv(self, *a, **k):
        df = self
        if core.ENGINE is not None:
            for pos in range(df.shape[1]):
                ser = df.iloc[:, pos]
                if ser.dtype == object and any(type(c) is SymStr
                                               for c in ser.values):
                    if df is self:
                        df = self.copy()
                    arr = _np.empty(len(ser), dtype=object)
                    arr[:] = [_plain_specials(c, ',"\n\r')
                              if type(c) is SymStr else c
                              for c in ser.values]
                    df.isetitem(pos, _pd.Series(arr, index=df.index,
                                                dtype=object))
        return real(df, *a, **k)
    _pd.DataFrame.to_csv = to_csv


REGEX_SPECIAL = set(".^$*+?{}[]\\|()")


def _str_accessor():
    """Series.str.contains on symbolic text."""
    from pandas.core.strings.accessor import StringMethods
    real = StringMethods.contains

    def contains(self, pat, case=True, flags=0, na=None, regex=True):
        data = self._orig
        cells = list(data.values) if data.dtype == object else []
        pat = lift(pat) if type(pat) is str else pat
        if core.ENGINE is None or not (
                type(pat) is SymStr or
                any(type(c) is SymStr or (type(c) is str and
                                          not c.isascii()) for c in cells)):
            return real(self, pat, case, flags, na, regex)
        if flags or not case:
            engine().abort(Unsupported("str.contains with flags"))
        if regex:
            if type(pat) is SymStr:
                for c in pat.chars:
                    if (set(c) if type(c) is str else set(c.dom)) & \
                            REGEX_SPECIAL:
                        engine().abort(Unsupported("symbolic pattern"))
                regex = False
            else:
                regex = bool(set(pat) & REGEX_SPECIAL)
        out = []
        for c in cells:
            c = lift(c) if type(c) is str else c
            if not isinstance(c, str):
                out.append(na if na is not None else float("nan"))
            elif regex:
                out.append(bool(symre.search(pat, c)))
            else:
                out.append(bool(sx_in(pat, c)))
        return _pd.Series(out, index=data.index, name=data.name,
                          dtype=bool if all(type(v) is bool for v in out)
                          else object)
    StringMethods.contains = contains
    for name, one in _STR_CELLS.items():
        setattr(StringMethods, name, _cellwise(
            name, one, getattr(StringMethods, name)))
    for name in ("extractall", "cat", "get_dummies", "rpartition", "decode",
                 "wrap", "normalize", "translate", "rsplit"):
        setattr(StringMethods, name, _cellwise(
            name, None, getattr(StringMethods, name)))


def _re_or_plain(what):
    def run(c, pat, *a, **k):
        if k.get("flags") or k.get("case") is False:
            engine().abort(Unsupported("Series.str with flags"))
        if type(lift(pat)) is SymStr:
            engine().abort(Unsupported("symbolic pattern"))
        return what(c, pat)
    return run


def _str_replace(c, pat, repl, n=-1, case=None, flags=0, regex=None):
    if case is not None or flags:
        engine().abort(Unsupported("Series.str with flags"))
    if regex is None:      # (the default of pandas 1)
        regex = not (isinstance(pat, str) and len(pat) == 1)
    if not regex:
        return c.replace(pat, repl, n)
    return symre.sub(pat, repl, c, 0 if n < 0 else n)


def _str_split(c, pat=None, n=-1, expand=False, regex=None):
    n = -1 if n in (0, None) else n
    if regex or (regex is None and pat is not None and len(pat) > 1) or \
            hasattr(pat, "pattern"):
        return symre.split(pat, c, 0 if n < 0 else n)
    return c.split(pat, n)


def _str_extract(c, pat, flags=0, expand=True):
    m = symre.search(pat, c)
    nan = float("nan")
    n = re.compile(pat).groups
    if m is None:
        return [nan] * n
    return [nan if g is None else g for g in m.groups()]


def _plain_method(name):
    def run(c, *a, **k):
        return getattr(c, name)(*a, **k)
    return run


_STR_CELLS = {
    "match": _re_or_plain(lambda c, p: bool(symre.match(p, c))),
    "fullmatch": _re_or_plain(lambda c, p: bool(symre.fullmatch(p, c))),
    "findall": _re_or_plain(lambda c, p: symre.findall(p, c)),
    "count": _re_or_plain(lambda c, p: len(symre.findall(p, c))),
    "replace": _str_replace, "split": _str_split, "extract": _str_extract,
    "len": lambda c: len(c.chars),
    "get": lambda c, i: sx_getitem(c, i)
    if -len(c.chars) <= i < len(c.chars) else float("nan"),
    "slice": lambda c, start=None, stop=None, step=None: sx_getitem(
        c, slice(start, stop, step)),
    "__getitem__": lambda c, i: sx_getitem(c, i) if type(i) is slice or
    -len(c.chars) <= i < len(c.chars) else float("nan"),
    "partition": lambda c, sep=" ", expand=True: list(c.partition(sep)),
    "strip": lambda c, to_strip=None: c.strip(to_strip),
    "lstrip": lambda c, to_strip=None: c.lstrip(to_strip),
    "rstrip": lambda c, to_strip=None: c.rstrip(to_strip),
}
for _n in ("startswith", "endswith", "upper", "lower", "title", "capitalize",
           "swapcase", "casefold", "find", "rfind", "index", "rindex",
           "ljust", "rjust", "center", "zfill", "isdigit", "isalpha",
           "isalnum", "isspace", "isnumeric", "isdecimal", "isupper",
           "islower", "istitle", "removeprefix", "removesuffix", "join"):
    _STR_CELLS[_n] = _plain_method(_n)
_EXPAND = {"split": False, "partition": True, "extract": True}


def _cellwise(name, one, real):
    def run(self, *a, **k):
        data = self._orig
        cells = list(data.values) if data.dtype == object else []
        if core.ENGINE is None or not any(
                type(c) is SymStr or (type(c) is str and not c.isascii())
                for c in cells):
            return real(self, *a, **k)
        if one is None or not isinstance(data, _pd.Series):
            engine().abort(Unsupported("Series.str.%s" % name))
        k = dict(k)
        na = k.pop("na", float("nan"))
        expand = k.get("expand", _EXPAND.get(name))
        out = []
        for c in cells:
            c = lift(c) if type(c) is str else c
            if isinstance(c, str):
                c = c if type(c) is SymStr else SymStr(tuple(c))
                out.append(one(c, *a, **k))
            else:
                out.append(na)
        if expand:
            wide = max([len(r) for r in out if type(r) is list] or [1])
            if name == "extract" and wide == 1 and len(a) > 2:
                engine().abort(Unsupported("Series.str.extract"))
            none = None if name == "split" else float("nan")
            rows = [r + [None] * (wide - len(r)) if type(r) is list
                    else [none] * wide for r in out]
            cols = range(wide)
            if name == "extract":
                names = {v: n for n, v in
                         re.compile(a[0]).groupindex.items()}
                cols = [names.get(i + 1, i) for i in range(wide)]
            arr = _np.empty((len(rows), wide), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    arr[i, j] = v
            return _pd.DataFrame(arr, index=data.index, columns=cols)
        if name == "extract":
            if any(type(r) is list and len(r) > 1 for r in out):
                engine().abort(Unsupported("Series.str.extract"))
            out = [r[0] if type(r) is list else r for r in out]
        arr = _np.empty(len(out), dtype=object)
        arr[:] = out if not any(type(v) is list for v in out) else None
        for i, v in enumerate(out):
            arr[i] = v
        res = _pd.Series(arr, index=data.index, name=data.name)
        kinds = {type(v) for v in out}
        return res.astype(kinds.pop()) if len(kinds) == 1 and kinds <= {
            bool, int} else res
    return functools.wraps(real)(run)


def _astype():
    """astype(float) and astype(int) of cells that are symbolic numbers or
    texts: cell by cell"""
    from pandas.core.internals import blocks
    real = blocks.astype_array_safe

    def run(values, dtype, *a, **k):
        if core.ENGINE is None or getattr(values, "dtype", None) != object:
            return real(values, dtype, *a, **k)
        if not any(is_sym(c) for c in values.flat):
            return real(values, dtype, *a, **k)
        try:
            kind = _np.dtype(dtype).kind
        except TypeError:
            kind = None
        cast = {"f": sx_float, "i": sx_int}.get(kind)
        if cast is None:
            return real(values, dtype, *a, **k)
        out = _np.empty(values.shape, dtype=object)
        for at in _np.ndindex(*values.shape):
            out[at] = cast(values[at])
        return out
    blocks.astype_array_safe = run


_install_proxies()
_astype()
_number_labels()
_str_accessor()
_csv_specials()


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    mod = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0 and name in PROXIES:
        return PROXIES[name]
    return mod


# -- AST rewriting -----------------------------------------------------------
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.modname = modname
        self.scope = []
        self.track = track

    def _h(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def _function(self, node):
        self.scope.append(node.name)
        qual = "%s:%s" % (self.modname, ".".join(self.scope))
        node = self.generic_visit(node)
        self.scope.pop()
        if self.track:
            call = ast.Expr(self._h("_sx_fn_", ast.Constant(qual)))
            at = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                       isinstance(node.body[0].value, ast.Constant) and
                       isinstance(node.body[0].value.value, str)) else 0
            node.body.insert(at, call)
        return node

    visit_FunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node = self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_Call(self, node):
        func = node.func
        if isinstance(func, ast.Name) and func.id in (
                "super", "locals", "globals", "vars", "dir", "eval", "exec"):
            return self.generic_visit(node)
        if isinstance(func, ast.Attribute):
            func = ast.Attribute(
                value=self._h("_sx_recv_", self.visit(func.value)),
                attr=func.attr, ctx=ast.Load())
        else:
            func = self.visit(func)
        new = self._h("_sx_call_", func, *[self.visit(a) for a in node.args])
        new.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value))
                        for k in node.keywords]
        return new

    def visit_Attribute(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in STR_METHODS:
            return self._h("_sx_bound_", node)
        return node

    def _index(self, idx):
        if isinstance(idx, ast.Slice):
            return self._h("_sx_slice_", *[
                self.visit(p) if p is not None else ast.Constant(None)
                for p in (idx.lower, idx.upper, idx.step)])
        if isinstance(idx, ast.Tuple):
            return ast.Tuple(elts=[self._index(e) for e in idx.elts],
                             ctx=ast.Load())
        return self.visit(idx)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return self._h("_sx_getitem_", self.visit(node.value),
                           self._index(node.slice))
        return self.generic_visit(node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In,
                                                           ast.NotIn)):
            new = self._h("_sx_in_", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                new = ast.UnaryOp(op=ast.Not(), operand=new)
            return new
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h("_sx_mod_", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        return self._h("_sx_lift_", self.generic_visit(node))

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        # format specs stay as they are (nested JoinedStr must not be wrapped)
        return node

    def visit_For(self, node):
        node = self.generic_visit(node)
        node.iter = self._h("_sx_iter_", node.iter)
        return node

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets):
            node.value = self._h("_sx_iter_", node.value)
        return node

    def visit_Starred(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self._h("_sx_iter_", node.value)
        return node

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        node.value = self._h("_sx_iter_", node.value)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            node = self.generic_visit(node)
            return ast.copy_location(ast.Assign(
                targets=[node.target], value=self._h(
                    "_sx_imod_", ast.Name(id=node.target.id, ctx=ast.Load()),
                    node.value)), node)
        return self.generic_visit(node)

    def visit_comprehension(self, node):
        node = self.generic_visit(node)
        node.iter = self._h("_sx_iter_", node.iter)
        return node

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and
                                 node.type.id == "BaseException"):
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node


def transform_source(source, filename, modname, track=True):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname, track).visit(tree)
    # __future__ imports have to stay first; helpers live in the globals
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, track):
        self.name, self.path, self.track = name, path, track

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fin:
            source = fin.read()
        code = transform_source(source, self.path, self.name, self.track)
        bi = dict(vars(builtins))
        bi["__import__"] = sx_import
        module.__dict__["__builtins__"] = bi
        module.__dict__.update(HELPERS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Transforms the packages in `roots` ({top-level name: directory})."""

    def __init__(self, roots, untracked=()):
        self.roots = roots
        self.untracked = untracked

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        for file, pkg in ((os.path.join(base, "__init__.py"), True),
                          (base + ".py", False)):
            if os.path.isfile(file):
                loader = Loader(name, file, top not in self.untracked)
                spec = importlib.util.spec_from_file_location(
                    name, file, loader=loader,
                    submodule_search_locations=[base] if pkg else None)
                return spec
        return None


def install(roots, untracked=()):
    finder = Finder(roots, untracked)
    sys.meta_path.insert(0, finder)
    return finder
