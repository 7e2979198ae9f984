"""What a scenario sees: SymCtx (values are solver variables) and ConCtx (the
same scenario on concrete values, against the untouched code)."""
import fractions
import math
import os
import re
import shutil
import tempfile


class CheckFailed(Exception):
    pass


class BadAssumption(Exception):
    pass


def _text(x):
    return x if type(x) is str else str(x)


class BaseCtx(object):
    symbolic = False

    def __init__(self, scratch=None):
        self._scratch = scratch
        self._dirs = []
        self.observed = []
        self.nchecks = 0

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="sx", dir=self._scratch)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []

    def write(self, lines, name="trace.txt", where=None, newline=True):
        """Write a text file; lines may be symbolic.  Returns the path."""
        where = where or self.tmpdir()
        path = os.path.join(where, name)
        with open(path, "w", encoding="utf-8", newline="") as out:
            out.write("".join(_text(l) + ("\n" if newline else "")
                              for l in lines))
        return path

    def scan(self, pattern, text):
        """The groups of each match of a regular expression.  Unknown
        characters and numbers of the text are matched as one character
        each that differs from all others."""
        return [tuple(self._lift(g) for g in m.groups())
                for m in re.finditer(pattern, _text(text), re.S)]

    def _lift(self, text):
        return text

    def exact_floats(self):
        """From here on numbers read from text are exact reals, so that
        they can share an index with symbolic ones."""

    def observe(self, name, value):
        self.observed.append((name, self._freeze(value)))

    # -- plain helpers shared by both modes ------------------------------
    def choice(self, name, options):
        """One of a list of concrete options (a path for each)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    def text(self, name, n, alphabet):
        return self.chars(name, n, alphabet)

    def digits(self, name, n):
        return self.chars(name, n, "0123456789")

    def perm(self, name, items):
        """Every order of a short list (a path for each)."""
        items = list(items)
        out = []
        k = 0
        while items:
            j = self.choice("%s%d" % (name, k), range(len(items)))
            out.append(items.pop(j))
            k += 1
        return out


def _num(x):
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    return x


class ConCtx(BaseCtx):
    """Concrete values from an assignment {name: value}."""

    def __init__(self, assignment, scratch=None):
        BaseCtx.__init__(self, scratch)
        self.assignment = assignment

    def _get(self, name, default):
        return self.assignment.get(name, default)

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def real(self, name, lo, hi, den=8):
        v = self._get(name, lo)
        return float(fractions.Fraction(v) if isinstance(v, str) else v)

    def bool(self, name):
        return bool(self._get(name, False))

    def chars(self, name, n, alphabet):
        return self._get(name, alphabet[0] * n)

    def real_const(self, x):
        return float(x)

    def assume(self, cond):
        if not cond:
            raise BadAssumption()

    def check(self, cond, msg):
        self.nchecks += 1
        if not bool(cond):
            raise CheckFailed(msg)

    def eq(self, a, b):
        a, b = _num(a), _num(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y)
                                            for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(a, float) or isinstance(b, float):
                if math.isnan(a) or math.isnan(b):
                    return math.isnan(a) and math.isnan(b)
                return a == b or abs(a - b) <= 1e-10 + 1e-13 * max(abs(a),
                                                                   abs(b))
            return a == b
        if type(a) is not type(b) and (isinstance(a, str) !=
                                       isinstance(b, str)):
            return False
        return bool(a == b)

    # strict comparisons of values computed along different float paths
    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b or self.eq(a, b)

    def same_type(self, a, kind):
        a = _num(a)
        if kind is float:
            return isinstance(a, float)
        if kind is int:
            return isinstance(a, int) and not isinstance(a, bool)
        return isinstance(a, kind)

    def all(self, *conds):
        return all(conds)

    def any(self, *conds):
        return any(conds)

    def neg(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def _freeze(self, v):
        v = _num(v)
        if isinstance(v, dict):
            return [[self._freeze(k), self._freeze(x)] for k, x in v.items()]
        if isinstance(v, (list, tuple)):
            return [self._freeze(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return sorted(self._freeze(x) for x in v)
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, float):
            return {"f": repr(v)}
        if isinstance(v, fractions.Fraction):
            return {"f": repr(float(v))}
        return str(type(v).__name__)


def same_frozen(a, b):
    if isinstance(a, dict) and "f" in a or isinstance(b, dict) and "f" in b:
        def val(x):
            if isinstance(x, dict):
                return float(x["f"])
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                return float(x)
            return None
        x, y = val(a), val(b)
        if x is None or y is None:
            return False
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        return x == y or abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_frozen(x, y)
                                        for x, y in zip(a, b))
    return a == b
