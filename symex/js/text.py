"""Texts and values of scripts that do not need a solver."""
import math


class Undef(object):
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False

    def __deepcopy__(self, memo):
        return self


UNDEF = Undef()


class JSThrow(Exception):
    """A JavaScript exception that nobody caught"""


class Num(object):
    """A symbolic number within a text; digits as given to toFixed"""
    __slots__ = ("value", "digits")

    def __init__(self, value, digits=None):
        self.value = value
        self.digits = digits


class Rope(object):
    """Text made of strings and numbers (at least one number)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


def rope(parts):
    out = []
    for p in parts:
        if type(p) is Rope:
            more = p.parts
        else:
            more = [p]
        for q in more:
            if type(q) is str:
                if not q:
                    continue
                if out and type(out[-1]) is str:
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return Rope(out)


def norm(x):
    """Concrete numbers: whole floats as ints (not -0.0)"""
    if type(x) is float and x == x and abs(x) < 2 ** 53 and x == int(x) and \
            (x != 0 or math.copysign(1, x) > 0):
        return int(x)
    if type(x) is int and abs(x) >= 2 ** 53:
        return float(x)
    return x
