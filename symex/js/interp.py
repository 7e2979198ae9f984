"""An interpreter of JavaScript on symbolic numbers and booleans.

The script is parsed by acorn (ESTree, as JSON) and every node is compiled to
a Python closure.  Numbers are Python ints and floats or the engine's proxies,
strings are str or Rope (text with symbolic numbers in it).  Numbers are exact
reals where they are symbolic.  What is not understood ends the path as
unsupported, so it is reported and never passed over.
"""
import math
import re

import z3

from .. import core, values
from ..core import Unsupported
from ..values import SymBool, SymInt, SymReal
from .text import JSThrow, Num, Rope, UNDEF, Undef, norm, rope


NAN = float("nan")
INF = float("inf")


def unsupported(what):
    exc = Unsupported("javascript: " + what)
    try:
        eng = core.engine()
    except Exception:
        raise exc
    eng.abort(exc)


class Thrown(Exception):
    """A JavaScript exception on its way"""

    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


class Obj(object):
    __slots__ = ("props", "proto", "cls", "extra")

    def __init__(self, proto, cls="Object"):
        self.props = {}
        self.proto = proto
        self.cls = cls
        self.extra = None


class Arr(Obj):
    __slots__ = ("items",)

    def __init__(self, proto, items):
        Obj.__init__(self, proto, "Array")
        self.items = items


class Fun(Obj):
    """A function: call(this, args, new)"""
    __slots__ = ("run", "name", "ctor")

    def __init__(self, proto, run, name=""):
        Obj.__init__(self, proto, "Function")
        self.run = run
        self.name = name
        self.ctor = None


class Acc(object):
    """An accessor property"""
    __slots__ = ("get", "set")

    def __init__(self, get=None, set=None):
        self.get = get
        self.set = set


class Env(object):
    __slots__ = ("vars", "up", "this", "fn", "consts")

    def __init__(self, up, this=None, fn=False):
        self.vars = {}
        self.up = up
        self.fn = fn
        self.this = this if fn else up.this if up else None
        self.consts = None


BREAK, CONTINUE, RETURN = "break", "continue", "return"


def is_sym(v):
    t = type(v)
    return t is SymInt or t is SymReal or t is SymBool


def is_num(v):
    t = type(v)
    return t is int or t is float or t is SymInt or t is SymReal


def is_str(v):
    return type(v) is str or type(v) is Rope


def is_bool(v):
    return type(v) is bool or type(v) is SymBool


def num_str(x):
    if type(x) is int:
        return str(x)
    if x != x:
        return "NaN"
    if x in (INF, -INF):
        return "Infinity" if x > 0 else "-Infinity"
    if x == 0:
        return "0"
    if x == int(x) and abs(x) < 1e21:
        return str(int(x))
    text = repr(x)
    if "e" in text:
        mant, exp = text.split("e")
        e = int(exp)
        if -7 < e < 0:
            digits = mant.replace(".", "").lstrip("-")
            return ("-" if x < 0 else "") + "0." + "0" * (-e - 1) + digits
        if mant.endswith(".0"):
            mant = mant[:-2]
        return "%se%s%d" % (mant, "+" if e > 0 else "-", abs(e))
    return text


_NUMBER = re.compile(r"^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?"
                     r"|Infinity)$")


def is_index(key):
    return type(key) is str and key.isdigit() and \
        (key == "0" or key[0] != "0")


class Interp(object):
    """The code is compiled once; reset() starts with a new page"""

    def __init__(self):
        self.code = {}
        self.reset()

    def reset(self):
        self.object_proto = Obj(None)
        self.fun_proto = Obj(self.object_proto, "Function")
        self.array_proto = Obj(self.object_proto)
        self.string_proto = Obj(self.object_proto)
        self.number_proto = Obj(self.object_proto)
        self.bool_proto = Obj(self.object_proto)
        self.error_proto = Obj(self.object_proto)
        self.regexp_proto = Obj(self.object_proto)
        self.map_proto = Obj(self.object_proto)
        self.set_proto = Obj(self.object_proto)
        self.steps = 0
        self.glob = Obj(self.object_proto, "Window")
        self.env = Env(None, self.glob, True)
        self.nfresh = 0
        from . import builtins
        builtins.install(self)

    # -- objects --------------------------------------------------------
    def obj(self, props=None):
        o = Obj(self.object_proto)
        if props:
            o.props.update(props)
        return o

    def arr(self, items):
        return Arr(self.array_proto, list(items))

    def native(self, fn, name=""):
        return Fun(self.fun_proto, fn, name)

    def throw(self, kind, msg):
        ctor = self.glob.props.get(kind)
        e = Obj(ctor.props["prototype"] if ctor else self.error_proto,
                "Error")
        e.props["message"] = msg
        e.props["name"] = kind
        raise Thrown(e)

    def key(self, k):
        """A property key: always a string"""
        t = type(k)
        if t is str:
            return k
        if t is int:
            return str(k)
        if t is SymInt:
            return str(core.engine().pick(k.expr, "index"))
        if t is SymReal:
            v = core.engine().pick(k.expr, "index")
            return num_str(norm(float(v)))
        if t is Rope:
            unsupported("a number of the data as a property name")
        s = self.to_str(k)
        if type(s) is Rope:
            unsupported("a number of the data as a property name")
        return s

    def get(self, o, k):
        t = type(o)
        if t is Arr:
            if type(k) is int:
                if 0 <= k < len(o.items):
                    return o.items[k]
                return UNDEF
            k = self.key(k)
            if k == "length":
                return len(o.items)
            if is_index(k):
                k = int(k)
                return o.items[k] if k < len(o.items) else UNDEF
        elif t is str or t is Rope:
            k = self.key(k)
            if k == "length":
                return len(o) if t is str else self.rope_length(o)
            if is_index(k):
                if t is Rope:
                    first = o.parts[0]
                    if type(first) is str and int(k) < len(first):
                        return first[int(k)]
                    unsupported("a character of a number")
                return o[int(k)] if int(k) < len(o) else UNDEF
            return self.lookup(self.string_proto, k, o)
        elif o is UNDEF or o is None:
            self.throw("TypeError", "Cannot read properties of %s (reading "
                       "'%s')" % (self.to_str(o), self.key(k)))
        elif is_num(o):
            return self.lookup(self.number_proto, self.key(k), o)
        elif is_bool(o):
            return self.lookup(self.bool_proto, self.key(k), o)
        else:
            k = self.key(k)
        return self.lookup(o, k, o)

    def lookup(self, o, k, this):
        if k == "__proto__":
            return o.proto
        first = o
        while o is not None:
            v = o.props.get(k, o)
            if v is not o:
                if type(v) is Acc:
                    return self.call(v.get, this, []) if v.get else UNDEF
                return v
            o = o.proto
        if type(first) is Fun:
            if k == "name":
                return first.name
            if k == "length":
                return first.extra or 0
        return UNDEF

    def has(self, o, k):
        k = self.key(k)
        if type(o) is Arr and (k == "length" or
                               is_index(k) and int(k) < len(o.items)):
            return True
        while o is not None:
            if k in o.props:
                return True
            o = o.proto
        return False

    def has_own(self, o, k):
        k = self.key(k)
        if type(o) is Arr and (k == "length" or
                               is_index(k) and int(k) < len(o.items)):
            return True
        return k in o.props

    def put(self, o, k, v):
        t = type(o)
        if t is Arr:
            if type(k) is not int:
                k = self.key(k)
                if k == "length":
                    n = self.index(v)
                    del o.items[n:]
                    while len(o.items) < n:
                        o.items.append(UNDEF)
                    return
                if is_index(k):
                    k = int(k)
            if type(k) is int and k >= 0:
                if k > 100000:
                    unsupported("a huge array")
                while len(o.items) <= k:
                    o.items.append(UNDEF)
                o.items[k] = v
                return
            k = self.key(k)
        elif o is UNDEF or o is None:
            self.throw("TypeError", "Cannot set properties of %s (setting "
                       "'%s')" % (self.to_str(o), self.key(k)))
        elif not isinstance(o, Obj):
            return
        else:
            k = self.key(k)
        p = o
        while p is not None:
            a = p.props.get(k)
            if type(a) is Acc:
                if a.set:
                    self.call(a.set, o, [v])
                return
            p = p.proto
        if o.extra == "frozen":
            return
        if k == "__proto__":
            o.proto = v
            return
        o.props[k] = v
        if o is self.glob:
            self.env.vars[k] = v

    def delete(self, o, k):
        k = self.key(k)
        if type(o) is Arr and is_index(k):
            if int(k) < len(o.items):
                o.items[int(k)] = UNDEF
            return True
        if isinstance(o, Obj):
            o.props.pop(k, None)
            if o is self.glob:
                self.env.vars.pop(k, None)
        return True

    def own_keys(self, o):
        if type(o) is str:
            return [str(i) for i in range(len(o))]
        if not isinstance(o, Obj):
            return []
        keys = [str(i) for i in range(len(o.items))] \
            if type(o) is Arr else []
        hidden = o.extra if type(o.extra) is set else ()
        props = [k for k in o.props if k not in hidden]
        ints = [k for k in props if is_index(k)]
        if ints:
            ints.sort(key=int)
            props = ints + [k for k in props if not is_index(k)]
        return keys + props

    def call(self, f, this, args):
        if type(f) is not Fun:
            self.throw("TypeError", "%s is not a function" %
                       self.describe(f))
        return f.run(this, args)

    def construct(self, f, args):
        if type(f) is not Fun:
            self.throw("TypeError", "%s is not a constructor" %
                       self.describe(f))
        if f.ctor:
            return f.ctor(args)
        proto = f.props.get("prototype")
        o = Obj(proto if isinstance(proto, Obj) else self.object_proto)
        r = f.run(o, args)
        return r if isinstance(r, Obj) else o

    def describe(self, v):
        if isinstance(v, Obj):
            return "[object %s]" % v.cls
        s = self.to_str(v)
        return s if type(s) is str else "a number"

    # -- conversions ----------------------------------------------------
    def rope_length(self, r):
        known = sum(len(p) if type(p) is str else 1 for p in r.parts)
        eng = core.engine()
        self.nfresh += 1
        v = z3.Int("js_length%d" % self.nfresh)
        eng.assume(v >= known)
        return SymInt(v)

    def truthy(self, v):
        t = type(v)
        if t is bool:
            return v
        if t is int:
            return v != 0
        if t is float:
            return v == v and v != 0
        if t is str:
            return v != ""
        if v is None or v is UNDEF:
            return False
        if t is SymBool or t is SymInt or t is SymReal:
            return bool(v)
        return True

    def to_prim(self, v, hint="default"):
        if not isinstance(v, Obj):
            return v
        for name in (("toString", "valueOf") if hint == "string"
                     else ("valueOf", "toString")):
            f = self.get(v, name)
            if type(f) is Fun:
                r = self.call(f, v, [])
                if not isinstance(r, Obj):
                    return r
        self.throw("TypeError", "Cannot convert object to primitive value")

    def to_num(self, v):
        t = type(v)
        if t is int or t is float or t is SymInt or t is SymReal:
            return v
        if t is bool:
            return int(v)
        if t is SymBool:
            return values.ite(v, 1, 0)
        if t is str:
            return self.parse_num(v)
        if v is None:
            return 0
        if v is UNDEF:
            return NAN
        if t is Rope:
            if len(v.parts) == 1 and v.parts[0].digits is None:
                return v.parts[0].value
            if any(type(p) is str and re.search("[^0-9.eE+ -]", p)
                   for p in v.parts):
                return NAN
            unsupported("number of a text")
        return self.to_num(self.to_prim(v, "number"))

    def parse_num(self, text):
        s = text.strip()
        if not s:
            return 0
        if re.match(r"^0[xX][0-9a-fA-F]+$", s):
            return int(s, 16)
        if not _NUMBER.match(s):
            return NAN
        if s.endswith("Infinity"):
            return -INF if s[0] == "-" else INF
        return norm(float(s))

    def to_str(self, v):
        t = type(v)
        if t is str or t is Rope:
            return v
        if t is int or t is float:
            return num_str(v)
        if t is bool:
            return "true" if v else "false"
        if t is SymInt or t is SymReal:
            return Rope([Num(v)])
        if t is SymBool:
            return "true" if bool(v) else "false"
        if v is None:
            return "null"
        if v is UNDEF:
            return "undefined"
        return self.to_str(self.to_prim(v, "string"))

    def index(self, v):
        """A whole number of Python"""
        v = self.to_num(v)
        if type(v) is SymInt or type(v) is SymReal:
            v = core.engine().pick(v.expr, "index")
            return int(v)
        if v != v:
            return 0
        if v in (INF, -INF):
            return 2 ** 31 if v > 0 else -2 ** 31
        return int(v)

    # -- operators ------------------------------------------------------
    def add(self, a, b):
        ta, tb = type(a), type(b)
        if (ta is int or ta is float) and (tb is int or tb is float):
            return norm(a + b)
        if isinstance(a, Obj):
            a = self.to_prim(a)
        if isinstance(b, Obj):
            b = self.to_prim(b)
        if is_str(a) or is_str(b):
            a, b = self.to_str(a), self.to_str(b)
            if type(a) is str and type(b) is str:
                return a + b
            return rope([a, b])
        return self.arith(a, b, "+")

    def arith(self, a, b, op):
        a, b = self.to_num(a), self.to_num(b)
        if not is_sym(a) and not is_sym(b):
            return self.con_arith(a, b, op)
        for x in (a, b):
            if type(x) is float and x != x:
                return NAN
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in "/%":
            if type(b) is float and b in (INF, -INF):
                return 0 if op == "/" else a
            if b == 0:
                if op == "%" or a == 0:
                    return NAN
                if is_sym(a):
                    return INF if a > 0 else -INF
                return INF if a > 0 else -INF
            if op == "/":
                return a / b
            q = a / b
            q = math.floor(q) if q >= 0 else math.ceil(q)
            return a - b * q
        return a ** b

    def con_arith(self, a, b, op):
        try:
            if op == "+":
                return norm(a + b)
            if op == "-":
                return norm(a - b)
            if op == "*":
                return norm(a * b)
            if op == "/":
                if b == 0:
                    if a == 0 or a != a:
                        return NAN
                    neg = (a < 0) != (math.copysign(1, b) < 0)
                    return -INF if neg else INF
                return norm(float(a) / b)
            if op == "%":
                if b == 0 or a in (INF, -INF) or a != a or b != b:
                    return NAN
                return norm(math.fmod(a, b))
            r = float(a) ** b
            return norm(r) if type(r) is float else NAN
        except (OverflowError, ZeroDivisionError):
            return INF

    def int32(self, v):
        v = self.to_num(v)
        if is_sym(v):
            v = self.index(v)
        if v != v or v in (INF, -INF):
            return 0
        v = int(v) & 0xffffffff
        return v - (1 << 32) if v >> 31 else v

    def bits(self, a, b, op):
        if op == ">>>":
            return (self.int32(a) & 0xffffffff) >> (self.int32(b) & 31)
        a, b = self.int32(a), self.int32(b)
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "<<":
            return self.int32(a << (b & 31))
        return a >> (b & 31)

    def less(self, a, b, op):
        ta, tb = type(a), type(b)
        if isinstance(a, Obj):
            a = self.to_prim(a, "number")
        if isinstance(b, Obj):
            b = self.to_prim(b, "number")
        if is_str(a) and is_str(b):
            if type(a) is Rope or type(b) is Rope:
                unsupported("order of texts with numbers")
        else:
            a, b = self.to_num(a), self.to_num(b)
        if op == "<":
            return a < b
        if op == ">":
            return a > b
        if op == "<=":
            return a <= b
        return a >= b

    def strict(self, a, b):
        if is_num(a):
            return is_num(b) and (a == b)
        if is_str(a):
            return is_str(b) and self.same_text(a, b)
        if is_bool(a):
            return is_bool(b) and (a == b)
        return a is b

    def same_text(self, a, b):
        if type(a) is str and type(b) is str:
            return a == b
        if type(a) is str:
            a, b = b, a
        if type(b) is str:
            known = [p for p in a.parts if type(p) is str]
            if not b or any(p not in b for p in known):
                return False
            # a number never holds these
            if not known and not re.match("^[-+0-9.e]*$", b):
                return False
            unsupported("equality of texts with numbers")
        pa, pb = a.parts, b.parts
        if len(pa) == len(pb):
            if all(type(x) is type(y) for x, y in zip(pa, pb)):
                if all(x == y for x, y in zip(pa, pb) if type(x) is str) and \
                        all(x.digits is None and y.digits is None
                            for x, y in zip(pa, pb) if type(x) is Num):
                    return values.all_of(*[
                        x.value == y.value for x, y in zip(pa, pb)
                        if type(x) is Num])
        unsupported("equality of texts with numbers")

    def loose(self, a, b):
        na, nb = a is None or a is UNDEF, b is None or b is UNDEF
        if na or nb:
            return na and nb
        if is_num(a) and is_num(b) or is_str(a) and is_str(b) or \
                is_bool(a) and is_bool(b):
            return self.strict(a, b)
        oa, ob = isinstance(a, Obj), isinstance(b, Obj)
        if oa and ob:
            return a is b
        if oa:
            return self.loose(self.to_prim(a), b)
        if ob:
            return self.loose(a, self.to_prim(b))
        return self.to_num(a) == self.to_num(b)

    def typeof(self, v):
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "object"
        if is_bool(v):
            return "boolean"
        if is_num(v):
            return "number"
        if is_str(v):
            return "string"
        return "function" if type(v) is Fun else "object"

    def iterate(self, v):
        """The items of an iterable"""
        if type(v) is Arr:
            return list(v.items)
        if type(v) is str:
            return list(v)
        if isinstance(v, Obj) and v.cls == "Map":
            return [self.arr([k, x]) for k, x in v.extra.values()]
        if isinstance(v, Obj) and v.cls == "Set":
            return [k for k, _ in v.extra.values()]
        if isinstance(v, Obj) and v.cls == "Arguments":
            return [v.props[str(i)] for i in range(v.props["length"])]
        self.throw("TypeError", "%s is not iterable" % self.describe(v))

    # -- names ----------------------------------------------------------
    def read(self, env, name):
        e = env
        while e is not None:
            v = e.vars
            if name in v:
                return v[name]
            e = e.up
        if name in self.glob.props:
            return self.glob.props[name]
        self.throw("ReferenceError", "%s is not defined" % name)

    def write(self, env, name, value):
        e = env
        while e is not None:
            if name in e.vars:
                if e.consts and name in e.consts:
                    self.throw("TypeError",
                               "Assignment to constant variable.")
                e.vars[name] = value
                if e is self.env:
                    self.glob.props[name] = value
                return
            e = e.up
        self.env.vars[name] = value
        self.glob.props[name] = value

    def declare(self, env, name, value, const=False):
        env.vars[name] = value
        if const:
            if env.consts is None:
                env.consts = set()
            env.consts.add(name)
        if env is self.env:
            self.glob.props[name] = value

    # -- running --------------------------------------------------------
    def run(self, tree, where=None):
        from .compile import Compiler
        code = self.code.get(id(tree))
        if code is None:
            code = (tree, Compiler(self, where).program(tree))
            self.code[id(tree)] = code
        code[1](self.env)

    def tick(self):
        self.steps += 1
        if self.steps > 2000000:
            unsupported("too many steps")
