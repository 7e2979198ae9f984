"""The library of the language, as far as page scripts use it."""
import functools
import json
import math
import re

from .. import values
from ..values import SymBool, SymInt, SymReal
from . import interp as I
from .interp import (UNDEF, NAN, INF, Arr, Fun, Obj, Num, Rope, rope, norm,
                     unsupported, is_sym, is_str)


def arg(args, i):
    return args[i] if i < len(args) else UNDEF


def fixed(vm, x, digits):
    if is_sym(x):
        return Rope([Num(x, digits)])
    if x != x or x in (INF, -INF):
        return I.num_str(x)
    import decimal
    d = decimal.Decimal(x)
    q = decimal.Decimal(1).scaleb(-digits)
    with decimal.localcontext() as c:
        c.prec = 400
        r = d.quantize(q, rounding=decimal.ROUND_HALF_UP)
    text = "{:f}".format(r)
    if x < 0 and not text.startswith("-"):
        text = "-" + text
    return text


def floor(x):
    if is_sym(x):
        return math.floor(x)
    return norm(float(math.floor(x))) if x == x and abs(x) != INF else x


def ceil(x):
    if is_sym(x):
        return math.ceil(x)
    return norm(float(math.ceil(x))) if x == x and abs(x) != INF else x


def js_round(x):
    if is_sym(x):
        if type(x) is SymInt:
            return x
        return math.floor(x + 0.5)
    return floor(x + 0.5) if x == x and abs(x) != INF else x


def pick_extreme(less):
    def fn(vm, args):
        xs = [vm.to_num(a) for a in args]
        if any(type(x) is float and x != x for x in xs):
            return NAN
        if not xs:
            return INF if less else -INF
        best = xs[0]
        for x in xs[1:]:
            if not is_sym(x) and not is_sym(best):
                best = min(best, x) if less else max(best, x)
            elif type(x) is float and x in (INF, -INF):
                best = best if (x > 0) == less else x
            elif type(best) is float and best in (INF, -INF):
                best = x if (best > 0) == less else best
            else:
                c = x < best if less else x > best
                best = values.ite(c, x, best)
        return best
    return fn


_TRANSLATE = re.compile(r"\(\?<([A-Za-z])")


def regexp(vm, pattern, flags):
    o = Obj(vm.regexp_proto, "RegExp")
    py = _TRANSLATE.sub(r"(?P<\1", pattern.replace("\\/", "/"))
    py = py.replace("[^]", r"[\s\S]").replace("$", r"\Z") \
        if "m" not in flags else py
    py = py.replace("\\\\Z", "\\$")
    f = (re.I if "i" in flags else 0) | (re.M if "m" in flags else 0) | \
        (re.S if "s" in flags else 0) | re.ASCII
    try:
        o.extra = (re.compile(py, f), "g" in flags, pattern, flags)
    except re.error:
        unsupported("regular expression")
    return o


def known(text):
    if type(text) is Rope:
        unsupported("a text with numbers in a library function")
    return text


def install(vm):
    g = vm.glob
    nat = vm.native

    def method(proto, name, hidden=True):
        def deco(fn):
            proto.props[name] = nat(fn, name)
            if proto.extra is None:
                proto.extra = set()
            proto.extra.add(name)
            return fn
        return deco

    def ctor(name, fn, proto, new=None):
        f = nat(fn, name)
        f.ctor = new
        f.props["prototype"] = proto
        f.extra = {"prototype"}
        proto.props["constructor"] = f
        if proto.extra is None:
            proto.extra = set()
        proto.extra.add("constructor")
        g.props[name] = f
        vm.env.vars[name] = f
        return f

    def static(f, name):
        def deco(fn):
            f.props[name] = nat(fn, name)
            if type(f.extra) is set:
                f.extra.add(name)
            return fn
        return deco

    def glob(name, v):
        g.props[name] = v
        vm.env.vars[name] = v

    glob("window", g)
    glob("globalThis", g)
    glob("self", g)
    glob("NaN", NAN)
    glob("Infinity", INF)

    # -- Object ----------------------------------------------------------
    op = vm.object_proto
    op.extra = set()

    @method(op, "hasOwnProperty")
    def has_own(this, args):
        return vm.has_own(this, arg(args, 0)) if isinstance(this, Obj) \
            else False

    @method(op, "toString")
    def obj_string(this, args):
        return "[object %s]" % (this.cls if isinstance(this, Obj)
                                else "Object")

    @method(op, "valueOf")
    def value_of(this, args):
        return this

    def make_object(this, args):
        v = arg(args, 0)
        return v if isinstance(v, Obj) else vm.obj()

    O = ctor("Object", make_object, op, lambda args: make_object(None, args))

    @static(O, "keys")
    def keys(this, args):
        return vm.arr(vm.own_keys(arg(args, 0)))

    @static(O, "values")
    def vals(this, args):
        o = arg(args, 0)
        return vm.arr([vm.get(o, k) for k in vm.own_keys(o)])

    @static(O, "entries")
    def entries(this, args):
        o = arg(args, 0)
        return vm.arr([vm.arr([k, vm.get(o, k)]) for k in vm.own_keys(o)])

    @static(O, "fromEntries")
    def from_entries(this, args):
        o = vm.obj()
        for e in vm.iterate(arg(args, 0)):
            vm.put(o, vm.get(e, 0), vm.get(e, 1))
        return o

    @static(O, "assign")
    def assign(this, args):
        o = arg(args, 0)
        for s in args[1:]:
            if s is None or s is UNDEF:
                continue
            for k in vm.own_keys(s):
                vm.put(o, k, vm.get(s, k))
        return o

    @static(O, "create")
    def create(this, args):
        return Obj(arg(args, 0))

    @static(O, "freeze")
    def freeze(this, args):
        o = arg(args, 0)
        if type(o) is Obj and o.extra is None:
            o.extra = "frozen"
        return o

    @static(O, "getPrototypeOf")
    def get_proto(this, args):
        return arg(args, 0).proto

    @static(O, "defineProperty")
    def define(this, args):
        o, k, d = args[:3]
        if vm.has(d, "get") or vm.has(d, "set"):
            acc = I.Acc(vm.get(d, "get") or None, vm.get(d, "set") or None)
            o.props[vm.key(k)] = acc
        else:
            vm.put(o, k, vm.get(d, "value"))
        return o

    # -- Function --------------------------------------------------------
    fp = vm.fun_proto

    @method(fp, "call")
    def f_call(this, args):
        return vm.call(this, arg(args, 0), args[1:])

    @method(fp, "apply")
    def f_apply(this, args):
        a = arg(args, 1)
        return vm.call(this, arg(args, 0),
                       [] if a is None or a is UNDEF else vm.iterate(a))

    @method(fp, "bind")
    def f_bind(this, args):
        first, more = arg(args, 0), args[1:]
        return nat(lambda _, a: vm.call(this, first, more + a), this.name)

    @method(fp, "toString")
    def f_string(this, args):
        return "function %s() { [native code] }" % this.name

    ctor("Function", lambda this, args: unsupported("Function()"), fp)

    # -- Array -----------------------------------------------------------
    ap = vm.array_proto

    def new_array(this, args):
        if len(args) == 1 and I.is_num(args[0]):
            return vm.arr([UNDEF] * vm.index(args[0]))
        return vm.arr(args)

    A = ctor("Array", new_array, ap, lambda args: new_array(None, args))

    @static(A, "isArray")
    def is_array(this, args):
        return type(arg(args, 0)) is Arr

    @static(A, "of")
    def array_of(this, args):
        return vm.arr(args)

    def list_of(v):
        if isinstance(v, Obj) and v.cls in ("Object", "Function",
                                            "Arguments") and \
                "length" in v.props:
            return [vm.get(v, str(i))
                    for i in range(vm.index(v.props["length"]))]
        return vm.iterate(v)

    @static(A, "from")
    def array_from(this, args):
        items = list_of(arg(args, 0))
        f = arg(args, 1)
        if f is not UNDEF:
            items = [vm.call(f, UNDEF, [x, i]) for i, x in enumerate(items)]
        return vm.arr(items)

    def array_method(name):
        def deco(fn):
            def run(this, args):
                if type(this) is not Arr:
                    items = list_of(this)
                    return fn(vm.arr(items), args)
                return fn(this, args)
            method(ap, name)(run)
            return fn
        return deco

    @array_method("push")
    def push(this, args):
        this.items.extend(args)
        return len(this.items)

    @array_method("pop")
    def pop(this, args):
        return this.items.pop() if this.items else UNDEF

    @array_method("shift")
    def shift(this, args):
        return this.items.pop(0) if this.items else UNDEF

    @array_method("unshift")
    def unshift(this, args):
        this.items[:0] = args
        return len(this.items)

    def span(n, args):
        a = arg(args, 0)
        b = arg(args, 1)
        a = 0 if a is UNDEF else vm.index(a)
        b = n if b is UNDEF else vm.index(b)
        a = max(n + a, 0) if a < 0 else min(a, n)
        b = max(n + b, 0) if b < 0 else min(b, n)
        return a, b

    @array_method("slice")
    def slice_(this, args):
        a, b = span(len(this.items), args)
        return vm.arr(this.items[a:b])

    @array_method("splice")
    def splice(this, args):
        n = len(this.items)
        a, _ = span(n, args[:1])
        count = n - a if len(args) < 2 else \
            max(0, min(vm.index(args[1]), n - a))
        out = this.items[a:a + count]
        this.items[a:a + count] = args[2:]
        return vm.arr(out)

    @array_method("concat")
    def concat(this, args):
        out = list(this.items)
        for a in args:
            if type(a) is Arr:
                out.extend(a.items)
            else:
                out.append(a)
        return vm.arr(out)

    @array_method("join")
    def join(this, args):
        sep = arg(args, 0)
        sep = "," if sep is UNDEF else vm.to_str(sep)
        out = []
        for i, x in enumerate(this.items):
            if i:
                out.append(sep)
            out.append("" if x is None or x is UNDEF else vm.to_str(x))
        return rope(out)

    @array_method("toString")
    def array_string(this, args):
        return join(this, [])

    @array_method("reverse")
    def reverse(this, args):
        this.items.reverse()
        return this

    def looping(name, each, done):
        @array_method(name)
        def run(this, args):
            f, t = arg(args, 0), arg(args, 1)
            state = []
            i = 0
            while i < len(this.items):
                x = this.items[i]
                r = vm.call(f, t, [x, i, this])
                v = each(state, x, i, r)
                if v is not None:
                    return v[0]
                i += 1
            return done(state)

    looping("forEach", lambda s, x, i, r: None, lambda s: UNDEF)
    looping("map", lambda s, x, i, r: s.append(r), vm.arr)
    looping("filter", lambda s, x, i, r:
            s.append(x) if vm.truthy(r) else None, vm.arr)
    looping("some", lambda s, x, i, r: (True,) if vm.truthy(r) else None,
            lambda s: False)
    looping("every", lambda s, x, i, r: None if vm.truthy(r) else (False,),
            lambda s: True)
    looping("find", lambda s, x, i, r: (x,) if vm.truthy(r) else None,
            lambda s: UNDEF)
    looping("findIndex", lambda s, x, i, r: (i,) if vm.truthy(r) else None,
            lambda s: -1)

    @array_method("flatMap")
    def flat_map(this, args):
        out = []
        for i, x in enumerate(list(this.items)):
            r = vm.call(arg(args, 0), arg(args, 1), [x, i, this])
            out.extend(r.items if type(r) is Arr else [r])
        return vm.arr(out)

    @array_method("flat")
    def flat(this, args):
        out = []
        for r in this.items:
            out.extend(r.items if type(r) is Arr else [r])
        return vm.arr(out)

    def reduce_with(items, this, args, order):
        f = arg(args, 0)
        idx = list(range(len(items)))
        if order < 0:
            idx.reverse()
        if len(args) > 1:
            acc = args[1]
        else:
            if not idx:
                vm.throw("TypeError",
                         "Reduce of empty array with no initial value")
            acc = items[idx.pop(0)]
        for i in idx:
            acc = vm.call(f, UNDEF, [acc, items[i], i, this])
        return acc

    @array_method("reduce")
    def reduce_(this, args):
        return reduce_with(list(this.items), this, args, 1)

    @array_method("reduceRight")
    def reduce_right(this, args):
        return reduce_with(list(this.items), this, args, -1)

    @array_method("indexOf")
    def index_of(this, args):
        for i, x in enumerate(this.items):
            if vm.truthy(vm.strict(x, arg(args, 0))):
                return i
        return -1

    @array_method("lastIndexOf")
    def last_index_of(this, args):
        for i in reversed(range(len(this.items))):
            if vm.truthy(vm.strict(this.items[i], arg(args, 0))):
                return i
        return -1

    @array_method("includes")
    def includes(this, args):
        return index_of(this, args) >= 0

    @array_method("fill")
    def fill(this, args):
        a, b = span(len(this.items), args[1:])
        for i in range(a, b):
            this.items[i] = arg(args, 0)
        return this

    @array_method("at")
    def at(this, args):
        i = vm.index(arg(args, 0))
        i = len(this.items) + i if i < 0 else i
        return this.items[i] if 0 <= i < len(this.items) else UNDEF

    @array_method("keys")
    def array_keys(this, args):
        return vm.arr(range(len(this.items)))

    @array_method("values")
    def array_values(this, args):
        return vm.arr(this.items)

    @array_method("entries")
    def array_entries(this, args):
        return vm.arr([vm.arr([i, x]) for i, x in enumerate(this.items)])

    @array_method("sort")
    def sort(this, args):
        f = arg(args, 0)

        def cmp(a, b):
            if a is UNDEF or b is UNDEF:
                return (a is UNDEF) - (b is UNDEF)
            if f is UNDEF:
                x, y = vm.to_str(a), vm.to_str(b)
                if vm.truthy(vm.less(x, y, "<")):
                    return -1
                return 1 if vm.truthy(vm.less(y, x, "<")) else 0
            r = vm.to_num(vm.call(f, UNDEF, [a, b]))
            if vm.truthy(vm.less(r, 0, "<")):
                return -1
            return 1 if vm.truthy(vm.less(r, 0, ">")) else 0
        this.items.sort(key=functools.cmp_to_key(cmp))
        return this

    # -- String ----------------------------------------------------------
    sp = vm.string_proto

    def make_string(this, args):
        return vm.to_str(args[0]) if args else ""

    S = ctor("String", make_string, sp)

    @static(S, "fromCharCode")
    def from_char_code(this, args):
        return "".join(chr(vm.index(a)) for a in args)

    def string_method(name):
        def deco(fn):
            def run(this, args):
                return fn(known(vm.to_str(this)), args)
            method(sp, name)(run)
            return fn
        return deco

    @method(sp, "toString")
    def string_string(this, args):
        return vm.to_str(this)

    @method(sp, "valueOf")
    def string_value(this, args):
        return vm.to_str(this)

    @method(sp, "concat")
    def string_concat(this, args):
        return rope([vm.to_str(this)] + [vm.to_str(a) for a in args])

    @method(sp, "trim")
    def trim(this, args):
        this = vm.to_str(this)
        if type(this) is str:
            return this.strip()
        parts = list(this.parts)
        if type(parts[0]) is str:
            parts[0] = parts[0].lstrip()
        if type(parts[-1]) is str:
            parts[-1] = parts[-1].rstrip()
        return rope(parts)

    @method(sp, "split")
    def split(this, args):
        this = vm.to_str(this)
        sep = arg(args, 0)
        if sep is UNDEF:
            return vm.arr([this])
        if isinstance(sep, Obj) and sep.cls == "RegExp":
            return vm.arr([UNDEF if x is None else x
                           for x in sep.extra[0].split(known(this))])
        sep = known(vm.to_str(sep))
        if type(this) is str:
            return vm.arr(this.split(sep) if sep else list(this))
        if not sep or re.search("[-+0-9.e]", sep):
            unsupported("split of a text with numbers")
        out = [[]]
        for p in this.parts:
            if type(p) is str:
                bits = p.split(sep)
                out[-1].append(bits[0])
                out.extend([b] for b in bits[1:])
            else:
                out[-1].append(p)
        return vm.arr([rope(x) for x in out])

    @string_method("charAt")
    def char_at(this, args):
        i = vm.index(arg(args, 0))
        return this[i] if 0 <= i < len(this) else ""

    @string_method("charCodeAt")
    def char_code_at(this, args):
        i = vm.index(arg(args, 0))
        return ord(this[i]) if 0 <= i < len(this) else NAN

    @string_method("indexOf")
    def string_index(this, args):
        return this.find(known(vm.to_str(arg(args, 0))))

    @string_method("lastIndexOf")
    def string_last(this, args):
        return this.rfind(known(vm.to_str(arg(args, 0))))

    @string_method("includes")
    def string_includes(this, args):
        return known(vm.to_str(arg(args, 0))) in this

    @method(sp, "startsWith")
    def starts(this, args):
        this, what = vm.to_str(this), known(vm.to_str(arg(args, 0)))
        if type(this) is Rope and type(this.parts[0]) is str and \
                len(this.parts[0]) >= len(what):
            this = this.parts[0]
        return known(this).startswith(what)

    @method(sp, "endsWith")
    def ends(this, args):
        this, what = vm.to_str(this), known(vm.to_str(arg(args, 0)))
        if type(this) is Rope and type(this.parts[-1]) is str and \
                len(this.parts[-1]) >= len(what):
            this = this.parts[-1]
        return known(this).endswith(what)

    @string_method("toUpperCase")
    def upper(this, args):
        return this.upper()

    @string_method("toLowerCase")
    def lower(this, args):
        return this.lower()

    @string_method("slice")
    def string_slice(this, args):
        a, b = span(len(this), args)
        return this[a:b]

    @string_method("substring")
    def substring(this, args):
        n = len(this)
        a = min(max(vm.index(arg(args, 0)), 0), n)
        b = arg(args, 1)
        b = n if b is UNDEF else min(max(vm.index(b), 0), n)
        return this[min(a, b):max(a, b)]

    @string_method("substr")
    def substr(this, args):
        n = len(this)
        a = vm.index(arg(args, 0))
        a = max(n + a, 0) if a < 0 else a
        c = arg(args, 1)
        return this[a:] if c is UNDEF else this[a:a + max(vm.index(c), 0)]

    @string_method("repeat")
    def repeat(this, args):
        return this * vm.index(arg(args, 0))

    @string_method("padStart")
    def pad_start(this, args):
        fill = arg(args, 1)
        fill = " " if fill is UNDEF else known(vm.to_str(fill))
        k = vm.index(arg(args, 0)) - len(this)
        return (fill * (k // len(fill) + 1))[:k] + this if k > 0 else this

    @string_method("match")
    def match(this, args):
        return exec_(arg(args, 0), [this]) \
            if not arg(args, 0).extra[1] else \
            vm.arr([m.group(0) for m in arg(args, 0).extra[0].finditer(this)]
                   ) if arg(args, 0).extra[0].search(this) else None

    @string_method("replace")
    def replace(this, args):
        what, new = arg(args, 0), arg(args, 1)

        def fresh(m):
            if type(new) is Fun:
                return known(vm.to_str(vm.call(
                    new, UNDEF, [m.group(0)] + [
                        UNDEF if x is None else x for x in m.groups()] +
                    [m.start(), this])))
            return re.sub(r"\$(\$|&|\d)", lambda d: "$" if d.group(1) == "$"
                          else m.group(0) if d.group(1) == "&" else
                          m.group(int(d.group(1))) or "",
                          known(vm.to_str(new)))
        if isinstance(what, Obj) and what.cls == "RegExp":
            return what.extra[0].sub(fresh, this,
                                     count=0 if what.extra[1] else 1)
        return re.sub(re.escape(known(vm.to_str(what))), fresh, this,
                      count=1)

    @string_method("replaceAll")
    def replace_all(this, args):
        return this.replace(known(vm.to_str(arg(args, 0))),
                            known(vm.to_str(arg(args, 1))))

    @string_method("localeCompare")
    def locale_compare(this, args):
        b = known(vm.to_str(arg(args, 0)))
        return -1 if this < b else 1 if this > b else 0

    # -- RegExp ----------------------------------------------------------
    rp = vm.regexp_proto

    def new_regexp(args):
        p = arg(args, 0)
        flags = arg(args, 1)
        if isinstance(p, Obj):
            return regexp(vm, p.extra[2], p.extra[3])
        return regexp(vm, known(vm.to_str(p)),
                      "" if flags is UNDEF else known(vm.to_str(flags)))

    ctor("RegExp", lambda this, args: new_regexp(args), rp, new_regexp)

    @method(rp, "test")
    def re_test(this, args):
        return this.extra[0].search(known(vm.to_str(arg(args, 0)))) \
            is not None

    @method(rp, "exec")
    def exec_(this, args):
        m = this.extra[0].search(known(vm.to_str(arg(args, 0))))
        if m is None:
            return None
        a = vm.arr([m.group(0)] + [UNDEF if x is None else x
                                   for x in m.groups()])
        a.props["index"] = m.start()
        return a

    @method(rp, "toString")
    def re_string(this, args):
        return "/%s/%s" % this.extra[2:4]

    # -- Number, Boolean ---------------------------------------------------
    np_ = vm.number_proto
    N = ctor("Number", lambda this, args: vm.to_num(args[0]) if args else 0,
             np_)
    for k, v in (("MAX_VALUE", 1.7976931348623157e308),
                 ("MIN_VALUE", 5e-324), ("EPSILON", 2.0 ** -52),
                 ("MAX_SAFE_INTEGER", 2 ** 53 - 1), ("NaN", NAN),
                 ("POSITIVE_INFINITY", INF), ("NEGATIVE_INFINITY", -INF)):
        N.props[k] = v

    @method(np_, "toFixed")
    def to_fixed(this, args):
        d = arg(args, 0)
        return fixed(vm, this, 0 if d is UNDEF else vm.index(d))

    @method(np_, "toString")
    def number_string(this, args):
        if arg(args, 0) is not UNDEF and vm.index(args[0]) != 10:
            if is_sym(this) or this != int(this) or args[0] != 16:
                unsupported("toString of a base")
            return ("-" if this < 0 else "") + "%x" % abs(int(this))
        return vm.to_str(this)

    @method(np_, "valueOf")
    def number_value(this, args):
        return this

    def is_nan(x):
        return type(x) is float and x != x

    def is_finite(x):
        return not (type(x) is float and (x != x or x in (INF, -INF)))

    @static(N, "isFinite")
    def n_finite(this, args):
        return I.is_num(arg(args, 0)) and is_finite(args[0])

    @static(N, "isNaN")
    def n_nan(this, args):
        return is_nan(arg(args, 0))

    @static(N, "isInteger")
    def n_integer(this, args):
        x = arg(args, 0)
        if type(x) is SymReal:
            return x.is_integer()
        return type(x) is SymInt or type(norm(x)) is int

    bp = vm.bool_proto

    def to_bool(this, args):
        v = arg(args, 0)
        return v if type(v) is SymBool else vm.truthy(v)

    ctor("Boolean", to_bool, bp)

    @method(bp, "toString")
    def bool_string(this, args):
        return vm.to_str(this)

    def parse_float(this, args):
        s = vm.to_str(arg(args, 0))
        if type(s) is Rope:
            head = s.parts
            if type(head[0]) is str and not head[0].strip():
                head = head[1:]
            if type(head[0]) is not Num:
                m = re.match(r"\s*[^-+0-9.I\s]", head[0])
                if m:
                    return NAN
                unsupported("parseFloat")
            if len(head) > 1 and (type(head[1]) is not str or
                                  re.match(r"[0-9.eE]", head[1])):
                unsupported("parseFloat")
            if head[0].digits is not None:
                unsupported("parseFloat of rounded text")
            return head[0].value
        m = re.match(r"\s*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|"
                     r"\.\d+([eE][+-]?\d+)?|Infinity))", s)
        return vm.parse_num(m.group(1)) if m else NAN

    glob("parseFloat", nat(parse_float, "parseFloat"))
    N.props["parseFloat"] = g.props["parseFloat"]

    def parse_int(this, args):
        v = arg(args, 0)
        base = arg(args, 1)
        base = 10 if base is UNDEF or not base else vm.index(base)
        if is_sym(v):
            return math.floor(v) if v >= 0 else math.ceil(v)
        s = vm.to_str(v)
        if type(s) is Rope:
            x = parse_float(this, [s])
            if type(x) is float:
                return x
            return math.floor(x) if x >= 0 else math.ceil(x)
        s = s.strip()
        if base == 16:
            m = re.match(r"([+-]?)(?:0[xX])?([0-9a-fA-F]+)", s)
        else:
            m = re.match(r"([+-]?)(\d+)", s)
        if not m:
            return NAN
        n = int(m.group(2), base)
        return -n if m.group(1) == "-" else n

    glob("parseInt", nat(parse_int, "parseInt"))
    N.props["parseInt"] = g.props["parseInt"]
    glob("isNaN", nat(lambda this, args: is_nan(vm.to_num(arg(args, 0))),
                      "isNaN"))
    glob("isFinite", nat(lambda this, args:
                         is_finite(vm.to_num(arg(args, 0))), "isFinite"))

    # -- Math ------------------------------------------------------------
    M = vm.obj()
    M.extra = set()
    glob("Math", M)
    for k in ("PI", "E"):
        M.props[k] = getattr(math, k.lower())

    def maths(name, fn):
        def run(this, args):
            return fn(vm.to_num(arg(args, 0)))
        M.props[name] = nat(run, name)

    maths("floor", floor)
    maths("ceil", ceil)
    maths("round", js_round)
    maths("trunc", lambda x: (floor(x) if x >= 0 else ceil(x))
          if is_sym(x) or x == x else x)
    maths("abs", lambda x: abs(x))
    maths("sign", lambda x: values.ite(x > 0, 1, values.ite(x < 0, -1, 0))
          if is_sym(x) else x if x != x else (x > 0) - (x < 0))

    def concrete(name, fn):
        def run(x):
            if is_sym(x):
                unsupported("Math." + name)
            try:
                return norm(float(fn(x)))
            except (ValueError, OverflowError):
                return NAN
        maths(name, run)

    for name in ("sqrt", "exp", "sin", "cos", "tan", "log10", "log2",
                 "atan"):
        concrete(name, getattr(math, name))
    concrete("log", lambda x: -INF if x == 0 else math.log(x))
    M.props["min"] = nat(lambda this, args:
                         pick_extreme(True)(vm, args), "min")
    M.props["max"] = nat(lambda this, args:
                         pick_extreme(False)(vm, args), "max")
    M.props["pow"] = nat(lambda this, args:
                         vm.arith(args[0], args[1], "**"), "pow")

    # -- Errors ----------------------------------------------------------
    def error(name, base):
        proto = Obj(base)
        proto.props["name"] = name
        proto.props["message"] = ""

        def make(args):
            e = Obj(proto, "Error")
            if args:
                e.props["message"] = vm.to_str(args[0])
            e.props["stack"] = ""
            return e
        ctor(name, lambda this, args: make(args), proto, make)
        return proto

    ep = error("Error", op)
    vm.error_proto = ep

    @method(ep, "toString")
    def error_string(this, args):
        return rope([vm.to_str(vm.get(this, "name")), ": ",
                     vm.to_str(vm.get(this, "message"))])
    for name in ("TypeError", "RangeError", "ReferenceError", "SyntaxError"):
        error(name, ep)

    # -- Map and Set -------------------------------------------------------
    def slot(k):
        if is_sym(k) or type(k) is Rope:
            unsupported("a symbolic key")
        if isinstance(k, Obj):
            return (id(k),)
        return (type(k).__name__ if not I.is_num(k) else "n", k)

    def new_map(args):
        o = Obj(vm.map_proto, "Map")
        o.extra = {}
        v = arg(args, 0)
        if v is not UNDEF and v is not None:
            for e in vm.iterate(v):
                o.extra[slot(vm.get(e, 0))] = (vm.get(e, 0), vm.get(e, 1))
        return o

    def new_set(args):
        o = Obj(vm.set_proto, "Set")
        o.extra = {}
        v = arg(args, 0)
        if v is not UNDEF and v is not None:
            for e in vm.iterate(v):
                o.extra.setdefault(slot(e), (e, e))
        return o

    ctor("Map", lambda this, args: vm.throw("TypeError", "new"), vm.map_proto,
         new_map)
    ctor("Set", lambda this, args: vm.throw("TypeError", "new"), vm.set_proto,
         new_set)

    def size(this, args):
        return len(this.extra)

    for proto in (vm.map_proto, vm.set_proto):
        proto.props["size"] = I.Acc(nat(size))

        @method(proto, "has")
        def has(this, args):
            return slot(arg(args, 0)) in this.extra

        @method(proto, "delete")
        def delete(this, args):
            return this.extra.pop(slot(arg(args, 0)), None) is not None

        @method(proto, "clear")
        def clear(this, args):
            this.extra.clear()
            return UNDEF

        @method(proto, "forEach")
        def each(this, args):
            for k, v in list(this.extra.values()):
                vm.call(args[0], UNDEF, [v, k, this])
            return UNDEF

        @method(proto, "keys")
        def map_keys(this, args):
            return vm.arr([k for k, _ in this.extra.values()])

        @method(proto, "values")
        def map_values(this, args):
            return vm.arr([v for _, v in this.extra.values()])

        @method(proto, "entries")
        def map_entries(this, args):
            return vm.arr([vm.arr([k, v])
                           for k, v in this.extra.values()])

    @method(vm.map_proto, "get")
    def map_get(this, args):
        e = this.extra.get(slot(arg(args, 0)))
        return e[1] if e else UNDEF

    @method(vm.map_proto, "set")
    def map_set(this, args):
        this.extra[slot(arg(args, 0))] = (arg(args, 0), arg(args, 1))
        return this

    @method(vm.set_proto, "add")
    def set_add(this, args):
        this.extra.setdefault(slot(arg(args, 0)),
                              (arg(args, 0), arg(args, 0)))
        return this

    # -- JSON, console -------------------------------------------------------
    J = vm.obj()
    glob("JSON", J)

    def dump(v):
        if type(v) is Arr:
            out = ["["]
            for i, x in enumerate(v.items):
                out += ["," if i else "", dump(x) or "null"]
            return rope(out + ["]"])
        if v is UNDEF or type(v) is Fun:
            return None
        if isinstance(v, Obj):
            out, first = ["{"], True
            for k in vm.own_keys(v):
                d = dump(vm.get(v, k))
                if d is None:
                    continue
                out += ["" if first else ",", json.dumps(k), ":", d]
                first = False
            return rope(out + ["}"])
        if type(v) is str:
            return json.dumps(v, ensure_ascii=False)
        if type(v) is Rope:
            unsupported("JSON of a text with numbers")
        if not is_sym(v) and I.is_num(v) and not is_finite(v):
            return "null"
        return vm.to_str(v)

    def load(v):
        if isinstance(v, dict):
            return vm.obj({k: load(x) for k, x in v.items()})
        if isinstance(v, list):
            return vm.arr([load(x) for x in v])
        return norm(v) if isinstance(v, float) else v

    def parse(this, args):
        s = known(vm.to_str(arg(args, 0)))
        try:
            return load(json.loads(s))
        except ValueError:
            vm.throw("SyntaxError", "Unexpected token in JSON")

    J.props["parse"] = nat(parse, "parse")

    def stringify(this, args):
        d = dump(arg(args, 0))
        return UNDEF if d is None else d
    J.props["stringify"] = nat(stringify, "stringify")

    console = vm.obj()
    glob("console", console)
    for name in ("log", "warn", "error", "info", "debug"):
        console.props[name] = nat(lambda this, args: UNDEF, name)
    doc = [k for k in g.props]
    g.extra = set(doc)
