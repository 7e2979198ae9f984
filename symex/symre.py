"""Regular expressions over SymStr: a backtracking matcher that walks the
parse tree CPython's own `re` compiles, so the accepted language and the
priority order of alternatives are those of the real engine.
"""
import re as _re
from re import _parser as _p
from re import _constants as _c

from . import core
from .core import Unsupported, engine
from .strs import (SymStr, SymChar, chars_of, mk_str, lift, is_in, ch_eq,
                   concretise)

A, I, M, S, U, X, L = (_re.A, _re.I, _re.M, _re.S, _re.U, _re.X, _re.L)
ASCII, IGNORECASE, MULTILINE, DOTALL, UNICODE, VERBOSE, LOCALE = \
    A, I, M, S, U, X, L
error = _re.error
RegexFlag = _re.RegexFlag
escape = _re.escape
purge = _re.purge
REAL = _re


def _category(cat, ch, flags):
    neg = False
    name = str(cat).lower()
    if "not_" in name:
        neg = True
    if name.endswith("digit"):
        r = ch.isdigit() and (ch.isdecimal())
        if flags & A:
            r = r and ch.isascii()
    elif name.endswith("space"):
        r = ch.isspace()
        if flags & A:
            r = ch in " \t\n\r\f\v"
    elif name.endswith("word"):
        r = ch.isalnum() or ch == "_"
        if flags & A:
            r = r and ch.isascii()
    else:
        raise NotImplementedError(name)
    return r != neg


def _pred(op, av, flags):
    """Predicate str->bool for a single-character node."""
    if op is _c.LITERAL:
        lit = chr(av)
        if flags & I:
            return lambda ch: ch.lower() == lit.lower()
        return lambda ch: ch == lit
    if op is _c.NOT_LITERAL:
        lit = chr(av)
        if flags & I:
            return lambda ch: ch.lower() != lit.lower()
        return lambda ch: ch != lit
    if op is _c.ANY:
        if flags & S:
            return lambda ch: True
        return lambda ch: ch != "\n"
    if op is _c.IN:
        items = list(av)
        neg = False
        if items and items[0][0] is _c.NEGATE:
            neg = True
            items = items[1:]

        def one(ch):
            for o, v in items:
                if o is _c.LITERAL:
                    if ord(ch) == v:
                        return True
                elif o is _c.RANGE:
                    if v[0] <= ord(ch) <= v[1]:
                        return True
                elif o is _c.CATEGORY:
                    if _category(v, ch, flags):
                        return True
                else:
                    raise NotImplementedError(str(o))
            return False
        if flags & I:
            return lambda ch: (one(ch.lower()) or one(ch.upper())) != neg
        return lambda ch: one(ch) != neg
    return None


class _Node(object):
    __slots__ = ("pred", "memo")

    def __init__(self, pred):
        self.pred = pred
        self.memo = {}

    def test(self, ch):
        if type(ch) is str:
            r = self.memo.get(ch)
            if r is None:
                r = self.memo[ch] = self.pred(ch)
            return r
        if type(ch) is not SymChar:
            engine().abort(Unsupported("regex over the text of a number"))
        cs = self.memo.get(ch.dom)
        if cs is None:
            cs = self.memo[ch.dom] = frozenset(
                c for c in ch.dom if self.pred(c))
        return is_in(ch, cs)


def _compile(seq, flags):
    """Parse tree -> list of matcher nodes."""
    out = []
    for op, av in seq:
        p = _pred(op, av, flags)
        if p is not None:
            out.append(("char", _Node(p)))
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            body = _compile(sub, flags)
            hi = 1 << 30 if hi is _c.MAXREPEAT else hi
            if op is _c.POSSESSIVE_REPEAT:
                out.append(("atomic", [("rep", lo, hi, body, True)]))
            else:
                out.append(("rep", lo, hi, body, op is _c.MAX_REPEAT))
        elif op is _c.SUBPATTERN:
            gid, add, dele, sub = av
            body = _compile(sub, (flags | add) & ~dele)
            out.append(("group", gid, body))
        elif op is _c.BRANCH:
            out.append(("alt", [_compile(b, flags) for b in av[1]]))
        elif op is _c.AT:
            out.append(("at", str(av), flags))
        elif op is _c.ASSERT or op is _c.ASSERT_NOT:
            out.append(("look", op is _c.ASSERT, av[0],
                        _compile(av[1], flags), _width(av[1])))
        elif op is _c.GROUPREF:
            out.append(("ref", av))
        elif op is _c.GROUPREF_EXISTS:
            out.append(("refif", av[0], _compile(av[1], flags),
                        _compile(av[2] or [], flags)))
        elif op is _c.ATOMIC_GROUP:
            out.append(("atomic", _compile(av, flags)))
        elif op is _c.FAILURE:
            out.append(("fail",))
        else:
            raise NotImplementedError(str(op))
    return out


def _width(sub):
    lo, hi = sub.getwidth()
    return lo if lo == hi else None


class _Matcher(object):
    def __init__(self, chars):
        self.s = chars
        self.n = len(chars)

    def run(self, nodes, i, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        node = nodes[i]
        kind = node[0]
        if kind == "char":
            # run through consecutive single characters without recursion
            while True:
                if pos >= self.n or not nodes[i][1].test(self.s[pos]):
                    return None
                pos += 1
                i += 1
                if i == len(nodes):
                    return k(pos, groups)
                if nodes[i][0] != "char":
                    return self.run(nodes, i, pos, groups, k)
        if kind == "rep":
            return self.rep(node, nodes, i, pos, groups, k)
        if kind == "group":
            _, gid, body = node

            def after(p, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                    g["last"] = gid
                return self.run(nodes, i + 1, p, g, k)
            return self.run(body, 0, pos, groups, after)
        if kind == "alt":
            for b in node[1]:
                r = self.run(b, 0, pos, groups,
                             lambda p, g: self.run(nodes, i + 1, p, g, k))
                if r is not None:
                    return r
            return None
        if kind == "at":
            if not self.at(node[1], node[2], pos):
                return None
            return self.run(nodes, i + 1, pos, groups, k)
        if kind == "look":
            _, positive, direction, body, width = node
            p0 = pos
            r = None
            if direction < 0:
                if width is None:
                    raise NotImplementedError("variable look-behind")
                p0 = pos - width
            if p0 >= 0:
                r = self.run(body, 0, p0, groups, lambda p, g: (p, g))
            if (r is not None) != positive:
                return None
            return self.run(nodes, i + 1, pos, r[1] if positive else groups,
                            k)
        if kind == "ref":
            span = groups.get(node[1])
            if span is None:
                return None
            m = span[1] - span[0]
            if pos + m > self.n:
                return None
            for d in range(m):
                r = ch_eq(self.s[span[0] + d], self.s[pos + d])
                if r is False or (r is not True and
                                  not engine().branch(r)):
                    return None
            return self.run(nodes, i + 1, pos + m, groups, k)
        if kind == "refif":
            body = node[2] if groups.get(node[1]) else node[3]
            return self.run(body, 0, pos, groups,
                            lambda p, g: self.run(nodes, i + 1, p, g, k))
        if kind == "atomic":
            r = self.run(node[1], 0, pos, groups, lambda p, g: (p, g))
            if r is None:
                return None
            return self.run(nodes, i + 1, r[0], r[1], k)
        return None

    def rep(self, node, nodes, i, pos, groups, k):
        _, lo, hi, body, greedy = node
        if len(body) == 1 and body[0][0] == "char":
            test = body[0][1].test
            if greedy:
                count = 0
                while count < hi and pos + count < self.n and \
                        test(self.s[pos + count]):
                    count += 1
                while count >= lo:
                    r = self.run(nodes, i + 1, pos + count, groups, k)
                    if r is not None:
                        return r
                    count -= 1
                return None
            count = 0
            while count < lo:
                if pos + count >= self.n or not test(self.s[pos + count]):
                    return None
                count += 1
            while True:
                r = self.run(nodes, i + 1, pos + count, groups, k)
                if r is not None:
                    return r
                if count >= hi or pos + count >= self.n or \
                        not test(self.s[pos + count]):
                    return None
                count += 1

        def attempt(count, p, g):
            def more():
                if count >= hi:
                    return None

                def after(p2, g2):
                    if p2 == p and count >= lo:
                        return None
                    return attempt(count + 1, p2, g2)
                return self.run(body, 0, p, g, after)

            def stop():
                if count < lo:
                    return None
                return self.run(nodes, i + 1, p, g, k)
            if greedy:
                r = more()
                return r if r is not None else stop()
            r = stop()
            return r if r is not None else more()
        return attempt(0, pos, groups)

    def word(self, pos):
        if pos < 0 or pos >= self.n:
            return False
        return _WORD.test(self.s[pos])

    def at(self, name, flags, pos):
        name = name.lower()
        if name == "at_beginning":
            if flags & M:
                return pos == 0 or is_in(self.s[pos - 1], "\n")
            return pos == 0
        if name == "at_beginning_string":
            return pos == 0
        if name == "at_end_string":
            return pos == self.n
        if name == "at_end":
            if pos == self.n:
                return True
            if flags & M:
                return is_in(self.s[pos], "\n")
            return pos == self.n - 1 and is_in(self.s[pos], "\n")
        if name == "at_boundary":
            return self.word(pos - 1) != self.word(pos)
        if name == "at_non_boundary":
            return self.word(pos - 1) == self.word(pos)
        raise NotImplementedError(name)


_WORD = _Node(lambda ch: ch.isalnum() or ch == "_")


class Match(object):
    def __init__(self, pattern, string, chars, span, groups, pos, endpos):
        self.re = pattern
        self.string = string
        self._chars = chars
        self._span = span
        self._groups = groups
        self.pos, self.endpos = pos, endpos

    def _gid(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        g = int(g)
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._gid(g)
        if g == 0:
            return self._span
        return self._groups.get(g, (-1, -1))

    @property
    def regs(self):
        return tuple(self.span(g) for g in range(self.re.groups + 1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mk_str(self._chars[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(g, default)
                     for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(g, default)
                for n, g in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return self._groups.get("last")

    @property
    def lastgroup(self):
        li = self.lastindex
        for n, g in self.re.groupindex.items():
            if g == li:
                return n
        return None

    def expand(self, template):
        return _expand(self, template)

    def __bool__(self):
        return True


def _expand(m, template):
    items = _p.parse_template(template, m.re.real)
    out = ()
    for it in items:
        if isinstance(it, int):
            g = m._one(it)
            out += chars_of(g) if g is not None else ()
        elif it:
            out += chars_of(it)
    return mk_str(out)


class Pattern(object):
    """Drop-in for re.Pattern; concrete subjects use the real engine."""

    def __init__(self, pattern, flags=0):
        if isinstance(pattern, Pattern):
            pattern, flags = pattern.pattern, pattern.real.flags
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._nodes = None

    def __eq__(self, o):
        return isinstance(o, Pattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __deepcopy__(self, memo):
        return self

    def _tree(self):
        if self._nodes is None:
            tree = _p.parse(self.pattern, int(self.flags) & ~int(U)
                            if False else int(self.flags))
            self._nodes = _compile(tree, self.flags)
        return self._nodes

    def _subject(self, s):
        s = lift(s)
        return s

    def _match(self, s, pos, endpos, full=False, search=False):
        chars = chars_of(s)
        n = len(chars)
        end = n if endpos is None else min(n, endpos)
        m = _Matcher(chars[:end])
        nodes = self._tree()
        if full:
            def k(p, g):
                return (p, g) if p == m.n else None
        else:
            def k(p, g):
                return (p, g)
        starts = range(pos, end + 1) if search else (pos,)
        for st in starts:
            r = m.run(nodes, 0, st, {}, k)
            if r is not None:
                return Match(self, s, chars, (st, r[0]), r[1], pos, end)
        return None

    def _dispatch(self, name, s, pos, endpos, **kw):
        s = self._subject(s)
        if type(s) is not SymStr:
            a = (pos,) if endpos is None else (pos, endpos)
            return getattr(self.real, name)(s, *a)
        return self._match(s, pos, endpos, **kw)

    def match(self, string, pos=0, endpos=None):
        return self._dispatch("match", string, pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        return self._dispatch("fullmatch", string, pos, endpos, full=True)

    def search(self, string, pos=0, endpos=None):
        return self._dispatch("search", string, pos, endpos, search=True)

    def finditer(self, string, pos=0, endpos=None):
        s = self._subject(string)
        if type(s) is not SymStr:
            a = (pos,) if endpos is None else (pos, endpos)
            for m in self.real.finditer(s, *a):
                yield m
            return
        n = len(s.chars)
        must_advance = -1
        while pos <= n:
            m = self._match(s, pos, endpos, search=True)
            if m is None:
                return
            if m.end() == m.start() == must_advance:
                # empty match directly after the previous match
                pos += 1
                must_advance = -1
                continue
            yield m
            if m.end() == m.start():
                pos = m.end() + 1
                must_advance = -1
            else:
                pos = m.end()
                must_advance = pos if False else -1

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                g = m.group(1)
                out.append("" if g is None else g)
            else:
                out.append(tuple("" if g is None else g for g in m.groups()))
        return out

    def subn(self, repl, string, count=0):
        s = self._subject(string)
        rsym = type(repl) is SymStr
        if type(s) is not SymStr and not rsym and not callable(repl):
            return self.real.subn(repl, s, count)
        chars = chars_of(s)
        out, pos, n = (), 0, 0
        if type(s) is not SymStr:
            it = self.real.finditer(s)
        else:
            it = self.finditer(s)
        for m in it:
            if count and n >= count:
                break
            out += chars[pos:m.start()]
            if callable(repl) and not isinstance(repl, str):
                r = lift(repl(m))
            elif rsym:
                if any(is_in(c, "\\") for c in repl.chars):
                    engine().abort(Unsupported("symbolic template"))
                r = repl
            elif type(m) is Match:
                r = _expand(m, repl)
            else:
                r = m.expand(repl)
            out += chars_of(r)
            pos = m.end()
            n += 1
        out += chars[pos:]
        return mk_str(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        s = self._subject(string)
        if type(s) is not SymStr:
            return self.real.split(s, maxsplit)
        out, pos = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(mk_str(s.chars[pos:m.start()]))
            out.extend(m.groups())
            pos = m.end()
        out.append(mk_str(s.chars[pos:]))
        return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    if type(pattern) is SymStr or (type(pattern) is str and
                                   not pattern.isascii()):
        pattern = concretise(lift(pattern))
    key = (pattern, int(flags))
    if key not in _cache:
        _cache[key] = Pattern(pattern, flags)
    return _cache[key]


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)
