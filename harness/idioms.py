"""Engine self-test: ways of writing things that refactorings of the code may
bring in, every path validated on the real Python (not a property)."""
import re, io, math, json, os, string, itertools, functools, operator, collections
from collections import defaultdict, OrderedDict, Counter, deque, namedtuple
import numpy as np
import pandas as pd
from symex.case import case
VALIDATE_ALL = True

TEXT = {}
def t(f):
    TEXT[f.__name__] = f
    return f

@t
def partition(s): return list(s.partition("="))
@t
def rpartition(s): return list(s.rpartition("="))
@t
def finditer(s): return [(m.group(1), m.span()) for m in re.finditer(r"(\d)=?", s)]
@t
def compiled(s):
    r = re.compile(r"(?P<k>[ab])=(?P<v>\d)")
    return [m.groupdict() for m in r.finditer(s)]
@t
def groupby(s): return [(k, "".join(g)) for k, g in itertools.groupby(s, key=str.isdigit)]
@t
def groupby2(s): return [(bool(k), "".join(g)) for k, g in itertools.groupby(s, lambda c: c == "=")]
@t
def takewhile(s): return "".join(itertools.takewhile(lambda c: c != "=", s))
@t
def dropwhile(s): return "".join(itertools.dropwhile(str.isdigit, s))
@t
def filt(s): return "".join(filter(str.isdigit, s))
@t
def mapu(s): return list(map(str.upper, s))
@t
def reduce(s): return functools.reduce(lambda a, b: b + a, s, "")
@t
def rev(s): return "".join(reversed(s))
@t
def rev2(s): return s[::-1]
@t
def enum(s): return [i for i, c in enumerate(s) if c == "="]
@t
def zipd(s): return [(a, b) for a, b in zip(s, s[1:]) if a == b]
@t
def anyc(s): return any(c.isdigit() for c in s), all(c in "ab1" for c in s)
@t
def setc(s): return sorted(set(s))
@t
def counter(s): return sorted(Counter(s).items())
@t
def dd(s):
    d = defaultdict(list)
    for i, c in enumerate(s): d[c].append(i)
    return sorted(d.items())
@t
def setdefault(s):
    d = {}
    for i, c in enumerate(s): d.setdefault(c, []).append(i)
    return sorted(d.items())
@t
def deq(s):
    d = deque(s, maxlen=2)
    return "".join(d)
@t
def fstr(s): return f"<{s}>{s!r:>8}|{s:^6}|"
@t
def fmtmap(s): return "%(a)s %(a)5s" % {"a": s}
@t
def tmpl(s): return string.Template("$a-b").substitute(a=s)
@t
def splitlines(s): return s.replace("=", "\n").splitlines()
@t
def sio(s): return [l.rstrip("\n") for l in io.StringIO(s.replace("=", "\n"))]
@t
def rsplit(s): return s.rsplit("=", 1)
@t
def idx(s): return s.find("="), s.rfind("="), s.count("=")
@t
def indexerr(s):
    try: return s.index("=")
    except ValueError: return -1
@t
def strip(s): return s.strip("="), s.lstrip("a"), s.rstrip("1")
@t
def startsw(s): return s.startswith(("a", "1")), s.endswith("=")
@t
def removep(s): return s.removeprefix("a"), s.removesuffix("=")
@t
def trans(s): return s.translate(str.maketrans({"=": "-", "a": None}))
@t
def trans2(s): return s.translate(str.maketrans("=a", "-b"))
@t
def trans3(s): return s.translate({ord("="): " "})
@t
def ords(s): return [ord(c) - 48 for c in s if c.isdigit()]
@t
def subf(s): return re.sub(r"\d", lambda m: m.group() * 2, s)
@t
def subn(s): return re.subn(r"[ab]", "x", s)
@t
def subg(s): return re.sub(r"(\d)(.)", r"\2\1", s)
@t
def splitc(s): return re.split("(=)", s)
@t
def case_(s): return s.title(), s.capitalize(), s.swapcase(), s.upper()
@t
def just(s): return s.ljust(6, "."), s.rjust(6), s.center(7), s.zfill(6)
@t
def joinlist(s): return "=".join([s, s[:1], s[-1:]])
@t
def cmp(s): return s < "b", s == "a1=b", s >= "1"
@t
def mx(s): return max(s), min(s)
@t
def sortk(s): return sorted(s, key=lambda c: (c != "=", c), reverse=True)
@t
def walrus(s):
    if (m := re.match(r"([ab]+)", s)): return m[1]
    return None
@t
def match_stmt(s):
    match s[:1]:
        case "a": return 1
        case "1": return 2
        case _: return 3
@t
def dictget(s): return {"a": 1, "1": 2}.get(s[:1], 0)
@t
def inlist(s): return s[:1] in ("a", "b"), s[0] in {"1", "="}, s in ["a1=b"]
@t
def slices(s): return s[1:3], s[-2:], s[::2]
@t
def unpack(s):
    a, *b = s
    return a, b
@t
def starmap(s): return list(itertools.starmap(operator.add, zip(s, s)))
@t
def attrg(s): return operator.itemgetter(0, -1)(s), operator.methodcaller("upper")(s)
@t
def chain(s): return list(itertools.chain.from_iterable(x.split("=") for x in [s, s]))
@t
def islice(s): return list(itertools.islice(s, 1, 3))
@t
def expand(s): return s.expandtabs(), s.casefold()
@t
def enc(s): return s.encode("ascii").decode("utf-8")
@t
def intd(s):
    out = []
    for c in s:
        try: out.append(int(c))
        except ValueError: pass
    return sum(out)
@t
def isx(s): return s.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isidentifier(), s.isnumeric(), s.isdecimal()
@t
def pathops(s): return os.path.join("x", s), os.path.splitext(s + ".q"), os.path.basename("a/" + s)
@t
def jsond(s): return json.dumps({"a": s})
@t
def namedt(s): return tuple(namedtuple("N", "x y")(s, 1))
@t
def lits(s): return "=" in s, s not in ("x",)
@t
def acc(s): return list(itertools.accumulate(s))
@t
def comb(s): return ["".join(c) for c in itertools.combinations(s, 3)]
@t
def nexti(s): return next((c for c in s if c.isdigit()), None)
@t
def iters(s):
    it = iter(s)
    return list(zip(it, it))
@t
def forelse(s):
    for i, c in enumerate(s):
        if c == "=": break
    else: i = -1
    return i
@t
def listmut(s):
    l = list(s); l.pop(0); l.insert(1, "z"); l.remove("z"); l.sort(); l.reverse()
    return l
@t
def strser(s): return pd.Series([s, "q"]).str.upper().tolist()
@t
def strser2(s): return pd.Series([s, "q=1"]).str.split("=").tolist()
@t
def strser3(s): return pd.Series([s, "q=1"]).str.contains("=").tolist()
@t
def strser4(s): return pd.Series([s, "q=1"]).str.extract(r"(\d)")[0].fillna("none").tolist()
@t
def applys(s): return pd.Series([s, "q"]).apply(lambda x: x[:1]).tolist()
@t
def maps(s): return pd.Series([s, "q"]).map(len).tolist()
@t
def fullm(s): return bool(re.fullmatch(r"[ab1=]{4}", s)), re.match("a", s) is not None
@t
def escape(s): return bool(re.search(re.escape("="), s))
@t
def lookah(s): return re.findall(r"\d(?==)", s), re.findall(r"(?<=a)\d", s), re.findall(r"a(?!1)", s)
@t
def scanner(s): return re.compile("[ab]").sub("", s)
@t
def mstart(s):
    m = re.search(r"=", s)
    return (s[:m.start()], s[m.end():]) if m else None
@t
def lastg(s):
    m = re.search(r"(?:(a)|(1))", s)
    return m and (m.lastindex, m.string, m.expand(r"<\g<0>>"))
@t
def dictcomp(s): return sorted({c: i for i, c in enumerate(s)}.items())
@t
def sumb(s): return sum(c == "=" for c in s)
@t
def cnt2(s): return [*map("ab1=".index, s)]
@t
def joing(s): return "".join(c if c.isalnum() else "_" for c in s)
@t
def fromkeys(s): return list(dict.fromkeys(s))
@t
def strmeth(s): return str.split(s, "="), str.join("-", s), str.replace(s, "=", ":", 1)
@t
def isin(s): return isinstance(s, str), type(s) is str, type(s) == str
@t
def boolx(s): return bool(s), not s, len(s)
@t
def hashx(s): return {s: 1}[s], s in {s}
@t
def literal(s):
    import ast
    try: return ast.literal_eval(s)
    except Exception: return "bad"
@t
def iomod(s):
    f = io.StringIO(); print(s, 1, sep="-", file=f); f.write(s); return f.getvalue()
@t
def contextm(s):
    import contextlib
    with contextlib.suppress(ValueError):
        return int(s)
    return -1
@t
def lru(s):
    @functools.lru_cache(None)
    def f(x): return x[:1]
    return f(s) + f(s)
@t
def partial(s): return functools.partial(re.sub, "=", "-")(s)
@t
def zipl(s): return list(itertools.zip_longest(s, "zz", fillvalue="-"))
@t
def prod(s): return ["".join(p) for p in itertools.product(s[:2], "xy")]
@t
def tee(s):
    a, b = itertools.tee(s); next(b, None)
    return list(zip(a, b))
@t
def setops(s): return sorted(set(s) & set("a=")), sorted(set(s) - {"a"}), set("a") <= set(s)
@t
def ternary(s): return s and s[0] or "none"
@t
def chained(s): return "1" <= s[0] <= "a"
@t
def fnm(s):
    import fnmatch
    return fnmatch.fnmatch(s, "a*b")
@t
def bis(s):
    import bisect
    return bisect.bisect("1ab", s[0])

@t
def ps1(s): return pd.Series([s, "q=1"]).str.match("a").tolist()
@t
def ps2(s): return pd.Series([s, "q=1"]).str.findall(r"\d").tolist()
@t
def ps3(s): return pd.Series([s, "q=1"]).str.replace(r"[ab]", "", regex=True).tolist()
@t
def ps4(s): return pd.Series([s, "q=1"]).str.replace("=", "-", regex=False).tolist()
@t
def ps5(s): return pd.Series([s, "q=1"]).str.strip("=").tolist(), pd.Series([s, "q=1"]).str.len().tolist(), pd.Series([s, "q=1"]).str[0].tolist()
@t
def ps7(s): return pd.Series([s, "q=1"]).str.isdigit().tolist(), pd.Series([s, "q=1"]).str.partition("=").values.tolist(), pd.Series([s, "q=1"]).str.split("=", expand=True)[0].tolist()
@t
def ps9(s): return (pd.Series([s, "q"]) == "a1=b").tolist(), pd.Series([s, "q"]).isin(["a1=b"]).tolist(), (pd.Series([s, "q"]) + "z").tolist(), pd.Series([s, "q"]).astype(str).tolist(), pd.Series([s, "q"]).unique().tolist()
@t
def pn(s): return pd.to_numeric(pd.Series([s[:1], "2"]), errors="coerce").fillna(-1).tolist()
@t
def pdf(s):
    d = pd.DataFrame([s.split("="), ["x"]]); return d[0].tolist(), d.shape
@t
def pgb(s):
    d = pd.DataFrame({"c": list(s), "v": range(4)}); return [(k, g.v.tolist()) for k, g in d.groupby("c")]
@t
def npa(s): return np.array([s, "q"], dtype=object).tolist(), np.char.upper("x").item(), np.array([s]) == "a"
@t
def pathlib_(s):
    import pathlib
    return pathlib.PurePosixPath("a").joinpath(s).name, str(pathlib.Path("x") / s)
@t
def rexpr(s): return re.compile("[%s]" % re.escape("=a")).split(s), re.split(r"[=a]", s, maxsplit=1)
@t
def gen(s):
    def g():
        yield from s
        yield s
    return list(g())
@t
def imod(s):
    x = "<%s>"; x %= s
    return x
@t
def star(s): return [*s], (lambda *a: a)(*s), {**{"a": s}}
@t
def swap(s):
    a, b = s[:2]; a, b = b, a
    return a + b
@t
def unb(s): return list(map(str.strip, s.split("="))), sorted([s, "B"], key=str.lower), functools.partial(str.replace, s)("=", "-")
@t
def fltn(s): return list(filter(None, s.split("="))), list(filter(str.isalpha, s)), list(itertools.filterfalse(str.isalpha, s)), list(itertools.compress(s, [1, 0, 1]))
@t
def tryd(s):
    try: return {"a": 1}[s[0]]
    except KeyError as e: return "none"
@t
def longest(s): return max(s.split("="), key=len), min(s.split("="), key=len), sorted(s.split("="), key=lambda p: (-len(p), p))
@t
def hasp(s): return re.match(r"a", s) and 1 or 2
@t
def mgroups(s):
    m = re.match(r"(.)(.)", s)
    return m.groups(), m.group(1, 2), m[2], m.span(1), m.start(2), m.regs[0]
@t
def cls(s):
    import dataclasses
    @dataclasses.dataclass(frozen=True)
    class D:
        x: str
        y: int = 0
    return D(s) == D("a1=b"), D(s).x, dataclasses.asdict(D(s))["x"]
@t
def enu(s): return [i for i, _ in enumerate(re.split("=", s), 1)]
@t
def ordr(s): return chr(ord(s[0]) + 1), [chr(ord(c)) for c in s], int(s[0] == "a")
@t
def fmt3(s): return "{a[k]}".format(a={"k": s}), "{:.2}".format(s), f"{s[:2]!s:_<4}", "%-6s|%.2s" % (s, s), "%r" % s
@t
def dct(s): return dict(p.split("=", 1) for p in [s] if "=" in p), dict(zip("xyz", s)), dict([(s, 1)]), {s: 1} == {"a1=b": 1}
@t
def lsort(s): l = list(s); l.sort(key=str.lower); return l, sorted(l, key=operator.itemgetter(0)), l.index(s[0]), l.count("a")
@t
def cond(s):
    n = 0
    while s and s[0] in "ab": s = s[1:]; n += 1
    return n, s
@t
def recur(s):
    def f(x): return "" if not x else f(x[1:]) + x[0]
    return f(s)

@case("text", quick=[dict(k=k) for k in TEXT])
def text(ctx, k):
    s = ctx.text("s", 4, "ab1=")
    ctx.assume(len(s) == 4)
    ctx.observe("r", TEXT[k](s))
    ctx.check(True, "")

NUM = {}
def n(f):
    NUM[f.__name__] = f
    return f
@n
def dm(i, r): return divmod(i, 3), divmod(r, 2), divmod(7, i + 4)
@n
def flo(i, r): return math.floor(r), math.ceil(r), int(r), math.trunc(r)
@n
def absm(i, r): return abs(i), math.fabs(r), np.abs(r), np.abs(i)
@n
def mxm(i, r): return max(i, 1), min(r, 0.5), max([i, 2], default=0), np.maximum(i, 1), np.minimum(r, 0.5)
@n
def clip(i, r): return np.clip(r, 0, 1), np.clip(i, -1, 1)
@n
def sums(i, r): return sum([i, r, 1]), np.sum([i, 2]), math.fsum([r, 1.0])
@n
def isn(i, r): return math.isnan(r), np.isnan(r), pd.isnull(r), pd.isna(i), pd.notnull(r), np.isfinite(r), math.isfinite(r)
@n
def sign(i, r): return np.sign(i), math.copysign(1, r)
@n
def where(i, r): return np.where(np.array([i, 1]) > 0, 1, 0).tolist(), 
@n
def where2(i, r): return np.where(i > 0, "x", "y").tolist()
@n
def arr(i, r): return (np.array([i, 2]) + 1).tolist(), np.diff([1, i]).tolist(), np.cumsum([i, i]).tolist()
@n
def ser(i, r): return pd.Series([i, 2]).sum(), pd.Series([r, 2]).max(), pd.Series([r, 2.]).mean()
@n
def ser2(i, r): return (pd.Series([i, 2]) > 1).tolist(), pd.Series([i, 2]).diff().tolist()[1:], pd.Series([i, 2]).shift(-1).tolist()[0]
@n
def ser3(i, r): return pd.Series([i, 2]).clip(0, 1).tolist()
@n
def ser4(i, r): return pd.Series([i, 2]).isin([1, 2]).tolist(), pd.Series([i, 2]).between(0, 1).tolist()
@n
def ser5(i, r): return pd.Series([i, 2]).where(lambda s: s > 0, 0).tolist(), pd.Series([i, 2]).mask(pd.Series([i, 2]) > 0, 0).tolist()
@n
def ser6(i, r): return pd.Series([i, 2, 1]).sort_values().tolist(), pd.Series([i, 2, 1]).unique().tolist(), pd.Series([i, 2]).drop_duplicates().tolist()
@n
def df1(i, r):
    d = pd.DataFrame({"a": [i, 1], "b": [r, 0.5]})
    return d[d.a > 0].b.tolist(), d.loc[d["a"] == 1, "b"].tolist(), d.query("a > 0").b.tolist()
@n
def df2(i, r):
    d = pd.DataFrame({"a": [i, 1], "b": [r, 0.5]}).assign(c=lambda x: x.a + 1)
    return d.c.tolist(), d.set_index("a").b.tolist(), d.sort_values("a").b.tolist()
@n
def df3(i, r):
    d = pd.DataFrame({"a": [i, 1, 1], "b": [r, 0.5, 1.]})
    return [(k, g.b.tolist()) for k, g in d.groupby("a")]
@n
def df4(i, r):
    d = pd.DataFrame({"a": [i, 1, 1], "b": [r, 0.5, 1.]})
    return d.groupby("a")["b"].sum().tolist()
@n
def df5(i, r):
    d = pd.DataFrame({"a": [i, 1]}); e = pd.DataFrame({"a": [1, 2], "z": [3, 4]})
    return d.merge(e, on="a", how="left").z.fillna(0).tolist()
@n
def df6(i, r):
    d = pd.DataFrame([dict(a=i), dict(a=2, b=r)])
    return d.b.fillna(7).tolist(), list(d.itertuples(index=False))[0][0], [row["a"] for _, row in d.iterrows()]
@n
def df7(i, r):
    d = pd.DataFrame({"a": [1, 2]}, index=[r, 5.0])
    return d.index.tolist(), d[d.index > 1].a.tolist(), d.truncate(before=1).a.tolist() if r <= 5 else None
@n
def df8(i, r):
    d = pd.concat([pd.DataFrame({"a": [i]}), pd.DataFrame({"a": [3]})], ignore_index=True)
    return d.a.tolist(), d.to_dict("records"), d.values.tolist(), d.a.cumsum().tolist()
@n
def ran(i, r):
    return list(range(i + 2)), [0] * (i + 2), "x" * (i + 2), ["a", "b", "c", "d"][i], list(range(5))[i:], "abcde"[:i]
@n
def fmtn(i, r): return "%d" % i, "{:03d}".format(i), f"{i}", str(i), "%5d" % i, "{:>4}".format(i), hex(i + 2), format(i, "x"), "%x" % (i + 2), repr(i)
@n
def cmpn(i, r): return i == r, i < r, 0 <= i < 2, i != 1, (i, 1) < (1, 0), [i] == [1], i in (0, 1), i in range(2)
@n
def sort(i, r): return sorted([i, 1, 0]), sorted([(i, 1), (1, 0)]), np.sort([i, 1]).tolist(), np.argsort([i, 1]).tolist()
@n
def bis2(i, r):
    import bisect
    return bisect.bisect_left([0, 1, 2], i), np.searchsorted([0., 1., 2.], r), bisect.bisect_right([0, 1, 2], r)
@n
def pown(i, r): return i ** 2, pow(i, 3), r * r, math.pow(i, 2), np.power(i, 2), 2 ** (i + 2), np.square(r)
@n
def bitn(i, r): return i & 1, i | 2, 1 << (i + 2), ~i, (i + 2) >> 1, bin(i + 2), (i + 2).bit_length()
@n
def floats(i, r): return float(i), int(i), bool(i), complex(1).real, r.is_integer() if isinstance(r, float) else None, np.float64(r), np.int64(i)
@n
def isin(i, r): return isinstance(i, int), isinstance(r, float), type(i) is int, isinstance(i, (int, float)), isinstance(i, bool), type(r) == float
@n
def npmin(i, r): return np.min([i, 1]), np.max([i, 1]), np.mean([i, 1]), np.array([i, 1]).argmax(), np.median([i, 1, 0])
@n
def dictn(i, r): return {0: "a", 1: "b"}.get(i), {i: 1}.get(1), dict([(i, 2)]), set([i, 1])
@n
def listn(i, r): return [1, 2, 1].count(i), [0, 1, 2, -1, -2].index(i), [i, 2].index(2)
@n
def ctr(i, r):
    c = Counter([i, 1]); return sorted(c.items()), c.most_common(1)[0][1]
@n
def gb(i, r): return [(k, list(g)) for k, g in itertools.groupby([i, 1, 1])]
@n
def accn(i, r): return list(itertools.accumulate([i, 1, 2])), functools.reduce(operator.mul, [i, 2], 1), sum(x > 0 for x in [i, 1])
@n
def cut(i, r): return pd.cut([r], [-3, 0, 3], labels=["a", "b"]).tolist()
@n
def hist(i, r): return np.histogram([r], bins=2, range=(-2, 2))[0].tolist()
@n
def serrep(i, r): return pd.Series([i, 1]).replace({1: 5}).tolist(), pd.Series([i, 1]).map({1: "x"}).fillna("n").tolist(), pd.Series([i, 1]).astype(float).tolist(), pd.Series([i, 2]).abs().tolist(), pd.Series([i, 1]).value_counts().get(1, 0)
@n
def roll(i, r): return pd.Series([1, i]).rolling(2).sum().tolist()[1], pd.Series([i, 1]).cummax().tolist(), pd.Series([i, 1]).pct_change().tolist()[1:] if i else 0, pd.Series([i, 1]).quantile(0.5), pd.Series([1, i]).rank().tolist()
@n
def ilocs(i, r):
    s = pd.Series([1, i], index=[0.5, 1.5]); s.iloc[0] = i; s.loc[1.5] = 3; s.at[0.5] += 1
    return s.tolist(), s.index[-1], s.head(1).tolist(), s.reindex([0.5, 1.0], method="ffill").tolist(), s.to_dict(), s.items().__next__()
@n
def npmask(i, r):
    a = np.array([i, 1, 2]); m = a > 0
    return a[m].tolist(), np.nonzero(m)[0].tolist(), np.count_nonzero(m), np.flatnonzero(m).tolist(), m.sum(), a.tolist(), np.unique(a).tolist(), np.concatenate([a, [3]]).tolist(), np.argmax(m), np.append(a, 4).tolist()

@n
def vc(i, r):
    c = pd.Series([i, 1]).value_counts()
    return c.index.tolist(), c.tolist()
@n
def vc2(i, r):
    c = pd.Series([5, 6], index=[i, 1])
    return c.get(1, 0) if i != 1 else 0
@n
def vc3(i, r):
    c = pd.Series([5], index=[i])
    return c.get(1, 0), 1 in c.index, c.index.get_loc(i)

@n
def fl1(i, r):
    c = pd.Series([5, 6, 7], index=[r, 2.5, 3.0])
    return c[2:3].tolist(), c.loc[2:].tolist(), c[2.5], c.get(1, 0) if r != 1 else 5, 1 in c.index, 2.5 in c, c.index.get_loc(2.5), c[:2.6].tolist(), c.iloc[0:2].tolist()
@n
def fl2(i, r):
    d = pd.DataFrame({"a": [1, 2, 3]}, index=[r, 2.5, 3.0])
    return d[2:3].a.tolist(), d.loc[2:2.5].a.tolist(), d.loc[r].tolist() if False else 0, d.between_time if False else 0, d.index.searchsorted(2.2), d.index.slice_indexer(2, 3), d.iloc[-1].a, d.tail(1).index.tolist(), d.index.max(), d.index.min(), d.index.values.tolist(), d.reset_index().iloc[0, 0], d.index.is_monotonic_increasing, d.index.duplicated().tolist(), d.index.is_unique
@n
def fl3(i, r):
    d = pd.DataFrame({"a": [1, 2, 3]}, index=[i, 2, 3])
    return d[1:3].a.tolist(), d.loc[2:3].a.tolist(), d.at[3, "a"], d.a[3], d.a.get(3), d.a.get(7, "n"), d.index.tolist(), d.a.to_dict()

@case("num", quick=[dict(k=k) for k in NUM])
def num(ctx, k):
    i = ctx.int("i", -2, 2)
    r = ctx.real("r", -2, 2)
    ctx.observe("r", NUM[k](i, r))
    ctx.check(True, "")
