"""Symbolic strings: a concrete length, characters concrete or symbolic.

A SymStr deliberately is not iterable / sized at type level so that numpy and
pandas treat it as an opaque scalar; the transformed code (transform.py)
reaches len(), iteration, indexing and so on through helpers.

At boundaries that need a real `str` (files, str.format, csv, json, ...) each
symbolic character is represented by a private-use code point; lift() turns
such strings back into SymStr.
"""
import re as _re

import z3

from . import core, values
from .core import Unsupported, engine
from .values import mk_bool, mk_int, mk_real, SymInt, SymReal, is_sym

PUA_RE = _re.compile("[\ue000-\uf8ff]")
PUA_BASE = 0xE000
WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
DIGITS = frozenset("0123456789")


class SymChar(object):
    __slots__ = ("expr", "dom", "token")

    def __init__(self, expr, dom):
        self.expr = expr
        self.dom = dom
        self.token = None


class NumTok(object):
    """An opaque token standing for the text of a symbolic number."""
    __slots__ = ("value", "token")

    def __init__(self, value):
        self.value = value
        self.token = None


def _registry():
    st = engine().path_state
    if "tokens" not in st:
        st["tokens"] = {}
        st["int_origin"] = {}
        st["int_text"] = {}
    return st


def token_of(ch):
    if type(ch) is str:
        return ch
    if ch.token is None:
        reg = _registry()["tokens"]
        t = chr(PUA_BASE + len(reg))
        reg[t] = ch
        ch.token = t
    return ch.token


def has_token(s):
    return not s.isascii() and PUA_RE.search(s) is not None


def lift_str(s):
    """str possibly holding tokens -> str or SymStr."""
    if s.isascii() or not PUA_RE.search(s):
        return s
    reg = _registry()["tokens"]
    return mk_str([reg.get(c, c) for c in s])


def lift(x):
    t = type(x)
    if t is str:
        if x.isascii():
            return x
        return lift_str(x) if core.ENGINE is not None else x
    if t is list:
        for i, v in enumerate(x):
            if type(v) is str and not v.isascii():
                x[i] = lift(v)
            elif type(v) is list:
                lift(v)
        return x
    if t is tuple and any(type(v) is str and not v.isascii() for v in x):
        return tuple(lift(v) for v in x)
    return x


def deep_lift(x):
    t = type(x)
    if t is str:
        return lift(x)
    if t is list:
        return [deep_lift(v) for v in x]
    if t is tuple:
        return tuple(deep_lift(v) for v in x)
    if t is dict:
        return {deep_lift(k): deep_lift(v) for k, v in x.items()}
    return x


def mk_str(chars):
    """Collapse to a plain str when nothing is symbolic."""
    for c in chars:
        if type(c) is not str:
            return SymStr(tuple(chars))
    return "".join(chars)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars
    if type(s) is str:
        if not s.isascii() and core.ENGINE is not None:
            s = lift_str(s)
            if type(s) is SymStr:
                return s.chars
        return tuple(s)
    raise TypeError("expected str, got %r" % type(s).__mro__[0].__name__)


def in_set(ch, charset):
    """Is the character in charset (a string or frozenset)?  bool/SymBool"""
    if type(ch) is str:
        return ch in charset
    if type(ch) is NumTok:
        engine().abort(Unsupported("inspecting the text of a number"))
    inside = [c for c in ch.dom if c in charset]
    if not inside:
        return False
    if len(inside) == len(ch.dom):
        return True
    if len(inside) * 2 > len(ch.dom):
        outside = [c for c in ch.dom if c not in charset]
        return mk_bool(z3.Not(_one_of(ch.expr, outside)))
    return mk_bool(_one_of(ch.expr, inside))


def _one_of(expr, chars):
    codes = sorted(ord(c) for c in chars)
    terms = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        if i == j:
            terms.append(expr == codes[i])
        else:
            terms.append(z3.And(expr >= codes[i], expr <= codes[j]))
        i = j + 1
    return terms[0] if len(terms) == 1 else z3.Or(terms)


def is_in(ch, charset):
    r = in_set(ch, charset)
    return r if r is True or r is False else bool(r)


def ch_eq(a, b):
    """z3 Bool / bool equality of two characters."""
    if a is b:
        return True
    if type(a) is str and type(b) is str:
        return a == b
    if type(a) is NumTok or type(b) is NumTok:
        if type(a) is NumTok and type(b) is NumTok:
            r = (a.value == b.value)
            return r if isinstance(r, bool) and not is_sym(r) \
                else values.truth(r)
        engine().abort(Unsupported("comparing the text of a number"))
    if type(a) is str:
        a, b = b, a
    if type(b) is str:
        if b not in a.dom:
            return False
        return a.expr == ord(b)
    if not (a.dom & b.dom):
        return False
    return a.expr == b.expr


def ch_code(ch):
    return z3.IntVal(ord(ch)) if type(ch) is str else ch.expr


def str_eq(a, b):
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        if any(type(c) is NumTok for c in ca + cb):
            engine().abort(Unsupported("comparing the text of a number"))
        return False
    terms = []
    for x, y in zip(ca, cb):
        r = ch_eq(x, y)
        if r is False:
            return False
        if r is not True:
            terms.append(r)
    if not terms:
        return True
    return mk_bool(z3.And(terms) if len(terms) > 1 else terms[0])


def pick_char(ch):
    if type(ch) is str:
        return ch
    if type(ch) is NumTok:
        engine().abort(Unsupported("text of a symbolic number"))
    return chr(engine().pick(ch.expr, "character", 200))


def concretise(s):
    if type(s) is str:
        s = lift(s)
        if type(s) is str:
            return s
    return "".join(pick_char(c) for c in s.chars)


def _strlike(x):
    return type(x) is str or type(x) is SymStr


class SymStr(object):
    _symex_ = True
    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = chars

    @property
    def __class__(self):
        return str

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- comparison -----------------------------------------------------
    def __eq__(self, o):
        if _strlike(o):
            return str_eq(self, o)
        if values._is_arr(o):
            return NotImplemented
        return False

    def __ne__(self, o):
        if values._is_arr(o):
            return NotImplemented
        return values.neg(self.__eq__(o))

    def _lt(self, o, strict):
        a, b = self.chars, chars_of(o)
        for x, y in zip(a, b):
            r = ch_eq(x, y)
            if r is True or (r is not False and engine().branch(r)):
                continue
            return engine().branch(ch_code(x) < ch_code(y))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if _strlike(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if _strlike(o) else NotImplemented

    def __gt__(self, o):
        return (not self._lt(o, False)) if _strlike(o) else NotImplemented

    def __ge__(self, o):
        return (not self._lt(o, True)) if _strlike(o) else NotImplemented

    def __contains__(self, o):
        return sx_in(o, self)

    def __hash__(self):
        return hash(concretise(self))

    def __bool__(self):
        return True            # collapsed when empty

    # -- conversions ----------------------------------------------------
    def __str__(self):
        return "".join(token_of(c) for c in self.chars)

    def __repr__(self):
        return "'" + str(self) + "'"

    def __format__(self, spec):
        if not spec:
            return str(self)
        return format(str(self), spec)   # one token per character

    def __int__(self):
        return int(concretise(self))

    def __float__(self):
        return float(concretise(self))

    def __fspath__(self):
        return concretise(self)

    # -- concatenation --------------------------------------------------
    def __add__(self, o):
        if not _strlike(o):
            return NotImplemented
        return mk_str(self.chars + chars_of(o))

    def __radd__(self, o):
        if not _strlike(o):
            return NotImplemented
        return mk_str(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mk_str(self.chars * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent(str(self), args)

    def __rmod__(self, tmpl):
        return percent(tmpl, (self,))

    # -- methods --------------------------------------------------------
    def _find(self, sub, start=None, end=None, rev=False):
        n = len(self.chars)
        start, end, _ = slice(start, end).indices(n)
        sub = chars_of(sub)
        m = len(sub)
        rng = range(start, end - m + 1)
        for i in (reversed(rng) if rev else rng):
            if _match_at(self.chars, i, sub):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        one = chars_of(sub)
        if len(one) == 1 and start is None and end is None:
            # a symbolic sum, without forking
            total = z3.IntVal(0)
            for ch in self.chars:
                r = ch_eq(ch, one[0])
                if r is True:
                    total = total + 1
                elif r is not False:
                    total = total + z3.If(r, z3.IntVal(1), z3.IntVal(0))
            return mk_int(total)
        n, pos = 0, start or 0
        while True:
            i = self._find(sub, pos, end)
            if i < 0:
                return n
            n += 1
            pos = i + max(1, len(chars_of(sub)))

    def startswith(self, pre, start=None, end=None):
        if type(pre) is tuple:
            return any(self.startswith(p, start, end) for p in pre)
        c = self.chars[slice(start, end)]
        p = chars_of(pre)
        return len(p) <= len(c) and _match_at(c, 0, p)

    def endswith(self, suf, start=None, end=None):
        if type(suf) is tuple:
            return any(self.endswith(p, start, end) for p in suf)
        c = self.chars[slice(start, end)]
        p = chars_of(suf)
        return len(p) <= len(c) and _match_at(c, len(c) - len(p), p)

    def _strip(self, chars, left, right):
        cs = WS if chars is None else chars
        if type(cs) is not str:
            cs = concretise(cs)
        a, b = 0, len(self.chars)
        if left:
            while a < b and is_in(self.chars[a], cs):
                a += 1
        if right:
            while b > a and is_in(self.chars[b - 1], cs):
                b -= 1
        return mk_str(self.chars[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return mk_str(self.chars[len(chars_of(p)):]) \
            if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(chars_of(p))
        return mk_str(self.chars[:len(self.chars) - n]) \
            if n and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        out = []
        c = self.chars
        n = len(c)
        maxsplit = int(maxsplit)
        if sep is None:
            i = 0
            while True:
                while i < n and is_in(c[i], WS):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and is_in(c[j - 1], WS):
                        j -= 1
                    out.append(mk_str(c[i:j]))
                    break
                j = i
                while j < n and not is_in(c[j], WS):
                    j += 1
                out.append(mk_str(c[i:j]))
                i = j
            return out
        s = chars_of(sep)
        if not s:
            raise ValueError("empty separator")
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            k = self._find(sep, i)
            if k < 0:
                break
            out.append(mk_str(c[i:k]))
            i = k + len(s)
        out.append(mk_str(c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if int(maxsplit) < 0:
            return self.split(sep)
        out = []
        c = self.chars
        end = len(c)
        if sep is None:
            while True:
                while end > 0 and is_in(c[end - 1], WS):
                    end -= 1
                if end == 0:
                    break
                if len(out) >= maxsplit:
                    out.append(mk_str(c[:end]))
                    break
                j = end
                while j > 0 and not is_in(c[j - 1], WS):
                    j -= 1
                out.append(mk_str(c[j:end]))
                end = j
            return out[::-1]
        s = chars_of(sep)
        while len(out) < maxsplit:
            k = SymStr(c)._find(sep, 0, end, True)
            if k < 0:
                break
            out.append(mk_str(c[k + len(s):end]))
            end = k
        out.append(mk_str(c[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        out, cur = [], []
        for ch in self.chars:
            if is_in(ch, "\n"):
                if keepends:
                    cur.append(ch)
                out.append(mk_str(cur))
                cur = []
            else:
                cur.append(ch)
        if cur:
            out.append(mk_str(cur))
        return out

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return (self, "", "")
        n = len(chars_of(sep))
        return (mk_str(self.chars[:i]), sep, mk_str(self.chars[i + n:]))

    def rpartition(self, sep):
        i = self._find(sep, None, None, True)
        if i < 0:
            return ("", "", self)
        n = len(chars_of(sep))
        return (mk_str(self.chars[:i]), sep, mk_str(self.chars[i + n:]))

    def replace(self, old, new, count=-1):
        o, nw = chars_of(old), chars_of(new)
        out, i, done, n = [], 0, 0, len(self.chars)
        count = int(count)
        if not o:
            engine().abort(Unsupported("replace of the empty string"))
        while i < n:
            if (count < 0 or done < count) and i + len(o) <= n and \
                    _match_at(self.chars, i, o):
                out.extend(nw)
                i += len(o)
                done += 1
            else:
                out.append(self.chars[i])
                i += 1
        return mk_str(out)

    def join(self, seq):
        out = []
        for k, item in enumerate(sx_iter(seq)):
            if not _strlike(item):
                raise TypeError("sequence item %d: expected str instance" % k)
            if k:
                out.extend(self.chars)
            out.extend(chars_of(item))
        return mk_str(out)

    def format(self, *a, **k):
        return lift(str(self).format(*a, **k))

    def _map(self, fn):
        out = []
        for ch in self.chars:
            if type(ch) is str:
                out.extend(fn(ch))
                continue
            mapped = {fn(c) for c in ch.dom}
            if all(fn(c) == c for c in ch.dom):
                out.append(ch)
            elif all(len(m) == 1 for m in mapped):
                e = ch.expr
                for c in ch.dom:
                    if fn(c) != c:
                        e = z3.If(ch.expr == ord(c), z3.IntVal(ord(fn(c))), e)
                out.append(SymChar(e, frozenset(mapped)))
            else:
                out.extend(fn(pick_char(ch)))
        return mk_str(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    casefold = lower

    def title(self):
        return concretise(self).title()

    def capitalize(self):
        return concretise(self).capitalize()

    def swapcase(self):
        return self._map(str.swapcase)

    def _all(self, pred):
        for ch in self.chars:
            if type(ch) is str:
                if not pred(ch):
                    return False
            elif not is_in(ch, frozenset(c for c in ch.dom if pred(c))):
                return False
        return True

    def isdigit(self): return self._all(str.isdigit)
    def isdecimal(self): return self._all(str.isdecimal)
    def isnumeric(self): return self._all(str.isnumeric)
    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isspace(self): return self._all(str.isspace)
    def isprintable(self): return self._all(str.isprintable)
    def isascii(self): return self._all(str.isascii)

    def isupper(self): return concretise(self).isupper()
    def islower(self): return concretise(self).islower()
    def isidentifier(self): return concretise(self).isidentifier()

    def zfill(self, w):
        return lift(str(self).zfill(w)) if not is_in(self.chars[0], "+-") \
            else lift(self.chars[0] + str(mk_str(self.chars[1:])).zfill(w - 1))

    def ljust(self, *a): return lift(str(self).ljust(*a))
    def rjust(self, *a): return lift(str(self).rjust(*a))
    def center(self, *a): return lift(str(self).center(*a))

    def encode(self, *a, **k):
        return concretise(self).encode(*a, **k)

    def translate(self, table):
        return self._map(lambda c: c.translate(table))

    def expandtabs(self, n=8):
        return concretise(self).expandtabs(n)


def _match_at(chars, i, sub):
    """Does sub occur at position i?  forks once at most."""
    terms = []
    for k, s in enumerate(sub):
        r = ch_eq(chars[i + k], s)
        if r is False:
            return False
        if r is not True:
            terms.append(r)
    if not terms:
        return True
    return engine().branch(z3.And(terms) if len(terms) > 1 else terms[0])


_PCT = _re.compile(r"%(\(\w+\))?([-+ #0]*)(\d+|\*)?(\.\d+)?([a-zA-Z%])")


def percent(tmpl, args):
    """tmpl % args without realising symbolic numbers."""
    if type(args) is tuple:
        lst = list(args)
    elif isinstance(args, dict):
        lst = None
    else:
        lst = [args]
    if lst is None or not any(is_sym(a) and type(a) is not SymStr
                              for a in lst):
        return lift(tmpl % args)
    pos = [0]

    def one(m):
        if m.group(5) == "%":
            return "%"
        if m.group(1) or m.group(3) == "*":
            engine().abort(Unsupported("percent format"))
        a = lst[pos[0]]
        pos[0] += 1
        if not is_sym(a) or type(a) is SymStr or m.group(5) in "sr":
            return str(m.group(0) % (a,))
        if m.group(5) in "di" and type(a) is SymReal:
            a = a.__trunc__()
        if not is_sym(a):
            return m.group(0) % (a,)
        flags = m.group(2)
        if m.group(5) in "di" and type(a) is SymInt and flags in ("", "0"):
            return format_num(a, (("0" if flags else "") + m.group(3) + "d")
                              if m.group(3) else "")
        if m.group(5) in "fFeEgG":
            return format_num(sx_float(a), (m.group(3) or "") +
                              (m.group(4) or ".6") + m.group(5))
        if type(a) is SymInt and m.group(5) in "dixXo":
            return m.group(0) % engine().pick(a.expr, "format")
        engine().abort(Unsupported("percent format"))
    res = _PCT.sub(one, tmpl)
    if pos[0] != len(lst):
        raise TypeError("not all arguments converted during string "
                        "formatting")
    return lift(res)


# -- helper operations -----------------------------------------------------
def sx_len(x):
    x = lift(x)
    if type(x) is SymStr:
        if any(type(c) is NumTok for c in x.chars):
            engine().abort(Unsupported("length of the text of a number"))
        return len(x.chars)
    return len(x)


class _LiftIter(object):
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self

    def __next__(self):
        return lift(next(self.it))


def sx_iter(x):
    t = type(x)
    if t is list or t is tuple or t is dict or t is set or t is range:
        return x
    if t is str:
        if x.isascii():
            return x
        x = lift(x)
        t = type(x)
    if t is SymStr:
        return [mk_str((c,)) for c in x.chars]
    it = iter(x)
    return _LiftIter(it) if it is x else x


def sx_getitem(x, idx):
    x = lift(x)
    if type(x) is SymStr:
        if isinstance(idx, slice):
            return mk_str(x.chars[idx])
        return mk_str((x.chars[idx],))
    return lift(x[idx])


def sx_in(item, cont):
    cont = lift(cont)
    item = lift(item)
    if type(cont) is SymStr or (type(cont) is str and type(item) is SymStr):
        hay = chars_of(cont)
        ned = chars_of(item)
        if not ned:
            return True
        if len(ned) == 1 and type(ned[0]) is SymChar and \
                all(type(c) is str for c in hay):
            return is_in(ned[0], "".join(hay))
        ha = SymStr(hay)
        return ha._find(item) >= 0
    return item in cont


# -- numbers <-> text --------------------------------------------------------
def _key(chars):
    return tuple(c if type(c) is str else id(c) for c in chars)


def int_chars(n):
    """Decimal characters of a SymInt; forks on sign and digit count."""
    st = _registry()
    k = n.expr.get_id()
    if k in st["int_text"]:
        return st["int_text"][k][1]
    eng = engine()
    e = n.expr
    negative = eng.branch(e < 0)
    mag = -e if negative else e
    nd = 1
    while eng.branch(mag >= 10 ** nd):
        nd += 1
        if nd > 25:
            eng.abort(Unsupported("integer text longer than 25 digits"))
    chars = ["-"] if negative else []
    for i in reversed(range(nd)):
        d = z3.simplify((mag / (10 ** i)) % 10 if i else mag % 10)
        if nd == 1:
            d = z3.simplify(mag)
        if z3.is_int_value(d):
            chars.append(str(d.as_long()))
        else:
            chars.append(SymChar(z3.simplify(d + 48), DIGITS))
    chars = tuple(chars)
    st["int_text"][k] = (n, chars)
    st["int_origin"][_key(chars)] = (n, chars)
    return chars


def token_str(x):
    """Real str (with tokens) for a symbolic number."""
    t = type(x)
    if t is SymInt:
        return "".join(token_of(c) for c in int_chars(x))
    if t is values.SymBool:
        return "True" if x else "False"
    v = core.const_value(x.expr)
    if v is not None and float(v) == v:
        return repr(float(v))
    st = _registry()
    key = ("real", x.expr.get_id())
    if key not in st["int_text"]:
        st["int_text"][key] = (x, NumTok(x))
    return token_of(st["int_text"][key][1])


def sx_str(x):
    t = type(x)
    if t is SymStr:
        return x
    return lift(str(x))


def format_num(x, spec):
    t = type(x)
    if t is SymInt:
        if spec in ("", "d", "n"):
            return token_str(x)
        if spec[-1] in "xXob" or spec[-1] in "eEfFgG%":
            return format(engine().pick(x.expr, "format"), spec)
        m = _re.fullmatch(r"(.?[<>^])?(0?)(\d+)d?", spec)
        if m:
            txt = token_str(x)
            if m.group(2) and not m.group(1):
                w = int(m.group(3))
                if txt.startswith("-"):
                    return "-" + txt[1:].rjust(w - 1, "0")
                return txt.rjust(w, "0")
            al = m.group(1) or ">"
            return format(txt, al + m.group(2) + m.group(3))
        return format(engine().pick(x.expr, "format"), spec)
    if t is SymReal:
        if not spec:
            return token_str(x)
        v = core.const_value(x.expr)
        if v is not None:
            return format(float(v), spec)
        st = _registry()
        key = ("fmt", spec, x.expr.get_id())
        if key not in st["int_text"]:
            st["int_text"][key] = (x, NumTok(x))
            st["int_text"][key][1].value = _Fmt(x, spec)
        return token_of(st["int_text"][key][1])
    return format(bool(x), spec)


class _Fmt(object):
    def __init__(self, x, spec):
        self.x, self.spec = x, spec

    def __eq__(self, o):
        if isinstance(o, _Fmt) and o.spec == self.spec:
            return self.x == o.x
        return False


_HEX = frozenset("0123456789abcdefABCDEF")


def _digit_val(ch, base):
    """z3 Int value of a digit char already known to be valid."""
    if type(ch) is str:
        return z3.IntVal(int(ch, 36))
    e = ch.expr
    if base <= 10 or all(c in DIGITS for c in ch.dom):
        return e - 48
    return z3.If(e <= 57, e - 48, z3.If(e >= 97, e - 87, e - 55))


def _digits(base):
    return frozenset("0123456789abcdefghijklmnopqrstuvwxyz"[:base] +
                     "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:base])


def sx_int(x=0, *args, **kw):
    """int() on possibly symbolic arguments."""
    x = lift(x)
    t = type(x)
    if t is SymInt and not args and not kw:
        return x
    if t is SymReal and not args and not kw:
        return x.__trunc__()
    if t is values.SymBool:
        return mk_int(values.num_expr(x)[1])
    if t is not SymStr:
        if type(x) is str and args == () and not kw:
            return int(x)
        return int(x, *args, **kw)
    base = int(args[0] if args else kw.get("base", 10))

    def bad():
        raise ValueError("invalid literal for int() with base %d: %r" %
                         (base, str(x)))
    c = x.chars
    if any(type(ch) is NumTok for ch in c):
        if len(c) == 1:
            # the text of a float always carries '.', 'e', 'inf' or 'nan'
            bad()
        engine().abort(Unsupported("int() of the text of a number"))
    st = _registry()
    if base in (0, 10):
        org = st["int_origin"].get(_key(c))
        if org is not None:
            return org[0]
    a, b = 0, len(c)
    while a < b and is_in(c[a], WS):
        a += 1
    while b > a and is_in(c[b - 1], WS):
        b -= 1
    whole = c[a:b]
    sign = 1
    if a < b and is_in(c[a], "+-"):
        if is_in(c[a], "-"):
            sign = -1
        a += 1
    if a >= b:
        bad()
    real_base = base
    prefixed = False
    if base in (0, 16, 8, 2) and b - a >= 2 and is_in(c[a], "0"):
        for pb, letters in ((16, "xX"), (8, "oO"), (2, "bB")):
            if base in (0, pb) and is_in(c[a + 1], letters):
                # for base 16, "0b1" is the number 0xb1
                real_base = pb
                a += 2
                prefixed = True
                break
    if prefixed and a < b and is_in(c[a], "_"):
        a += 1
    if a >= b:
        bad()
    dec0 = False
    if base == 0 and not prefixed:
        real_base = 10
        dec0 = True
    val = z3.IntVal(0)
    valid = _digits(real_base)
    prev_us = True
    digs = []
    for i in range(a, b):
        ch = c[i]
        if is_in(ch, valid):
            val = val * real_base + _digit_val(ch, real_base)
            digs.append(ch)
            prev_us = False
        elif not prev_us and is_in(ch, "_"):
            prev_us = True
        else:
            bad()
    if prev_us:
        bad()
    if dec0 and len(digs) > 1 and is_in(digs[0], "0"):
        # base 0: leading zeros only allowed when the value is zero
        for d in digs:
            if not is_in(d, "0"):
                bad()
    res = mk_int(val * sign if sign < 0 else val)
    if type(res) is SymInt and real_base == 10 and len(digs) == b - a and \
            whole == (("-",) if sign < 0 else ()) + tuple(digs):
        # canonical decimal text: remember it so that str() gives it back
        if len(digs) == 1 and sign > 0 or \
                not is_in(digs[0], "0"):
            st["int_text"].setdefault(res.expr.get_id(), (res, whole))
    return res


def sx_float(x=0.0):
    x = lift(x)
    t = type(x)
    if t is SymReal:
        return x
    if t is SymInt:
        return mk_real(z3.ToReal(x.expr))
    if t is values.SymBool:
        return mk_real(z3.ToReal(values.num_expr(x)[1]))
    if t is not SymStr:
        if type(x) is str and core.flag("realfloats"):
            f = float(x)
            if f == f and f not in (float("inf"), float("-inf")):
                return mk_real(_dec(x.strip(), f))
            return f
        return float(x)
    c = list(x.chars)
    if any(type(ch) is NumTok for ch in c):
        if len(c) == 1 and type(c[0].value) is SymReal:
            return c[0].value
        engine().abort(Unsupported("float() of the text of a number"))

    def bad():
        raise ValueError("could not convert string to float: %r" % str(x))
    a, b = 0, len(c)
    while a < b and is_in(c[a], WS):
        a += 1
    while b > a and is_in(c[b - 1], WS):
        b -= 1
    sign = 1
    if a < b and is_in(c[a], "+-"):
        if is_in(c[a], "-"):
            sign = -1
        a += 1
    if a >= b:
        bad()
    if is_in(c[a], "iInN"):
        word = concretise(mk_str(c[a:b]))
        return sign * float(word)
    val, scale, nd = z3.IntVal(0), 0, 0
    seen_dot = False
    us_ok = False
    i = a
    exp = 0
    while i < b:
        ch = c[i]
        if is_in(ch, DIGITS):
            val = val * 10 + _digit_val(ch, 10)
            nd += 1
            us_ok = True
            if seen_dot:
                scale += 1
        elif not seen_dot and is_in(ch, "."):
            seen_dot = True
            us_ok = False
        elif us_ok and is_in(ch, "_"):
            if i + 1 >= b or not is_in(c[i + 1], DIGITS):
                bad()
        elif nd and is_in(ch, "eE"):
            word = concretise(mk_str(c[i + 1:b]))
            if not _re.fullmatch(r"[+-]?\d+(_\d+)*", word):
                bad()
            exp = int(word)
            break
        else:
            bad()
        i += 1
    if not nd:
        bad()
    if abs(exp) > 30:
        engine().abort(Unsupported("large float exponent"))
    e = z3.ToReal(val) * sign
    p = exp - scale
    e = e * (10 ** p) if p >= 0 else e / (10 ** -p)
    return mk_real(e)


def _dec(text, f):
    import fractions
    try:
        return values.real_val(fractions.Fraction(text.replace("_", "")))
    except ValueError:
        return values.real_val(f)
