"""Congruence of value-graph terms.

Two terms are congruent when they have the same canonical form (terms.py) or when
value numbering by random interpretation (Gulwani & Necula) cannot tell them apart:
the elementwise residue of both terms is a function of shared value numbers (the
maximal non-elementwise subterms, themselves partitioned by recursive congruence),
and is compared on random assignments to those numbers, including NaN, None, ties of
every comparison and every text constant a number is compared with.  Only terms are
evaluated, never code of the package.

Verdicts: EQ, NE (with the distinguishing assignment) or UND (the difference rests on
a vocabulary that models.py does not define)."""
import cmath
import hashlib
import math
import random
from fractions import Fraction
from terms import *  # noqa
import terms as TT
import models as M

EQ, NE, UND = "eq", "ne", "und"


class Res:
    def __init__(self, verdict, why="", a=None, b=None, env=None, va=None, vb=None):
        self.v, self.why, self.a, self.b, self.env = verdict, why, a, b, env
        self.va, self.vb = va, vb
        self.splits = ()

    def __repr__(self):
        return "<%s %s>" % (self.v, self.why)


class Err:
    def __repr__(self):
        return "<type error>"


ERR = Err()


class Tok:
    """an opaque value (text, object): equal only to itself"""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Tok) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return self.s


ELEM = {"num", "bool", "nan", "inf", "pi", "imag", "poly", "ite", "lt", "le", "eq", "and", "or", "not",
        "isnan", "isinf", "isfinite", "min", "max", "pymin", "pymax", "fmin", "fmax", "ew", "isnone",
        "truth", "str", "none", "divzero", "pair"}
EWN = {"exp", "log", "log10", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "sinh",
       "cosh", "tanh", "abs", "floor", "ceil", "round", "trunc", "tofloat", "mod", "hypot", "sign",
       "real", "imag", "conj", "log2", "log1p", "expm1", "cast_int", "cast_bool",
       "tofloat32", "tofloat16", "cbrt", "fmod", "floordiv", "copysign", "rint"}


def payload(t):
    """data of a labelled array built from data (labels are compared on their own)"""
    if t.op == "call" and t.args[0] == "xarray.DataArray":
        if t.args[1]:
            return t.args[1][0]
        for k, v in t.args[2]:
            if k == "data":
                return v
    return None


REDV = {"sum", "mean", "median", "min", "max", "std", "var", "any", "all", "prod", "ptp"}


def explicit(t):
    """elements of an explicit array (possibly selected by a mask): [(value, keep)] or None"""
    if t.op == "vec":
        return [(x, TRUE) for x in t.args]
    if t.op == "compress" and t.args[0].op == "vec":
        return [(x, TT.index(t.args[1], TT.num(k))) for k, x in enumerate(t.args[0].args)]
    return None


def ddof(t):
    """delta degrees of freedom of a std/var reduction, None if it has other options"""
    if not t.args[3]:
        return 0
    if t.args[0] in ("std", "var") and len(t.args[3]) == 1 and t.args[3][0][0] == "ddof" \
            and t.args[3][0][1].op == "num":
        return float(t.args[3][0][1].args[0])
    return None


def elementwise(t):
    if t.op == "full":
        return True
    if t.op == "red":
        return t.args[0] in REDV and t.args[2].op == "none" and explicit(t.args[1]) is not None and (
            not t.args[3] or ddof(t) is not None)
    if t.op == "ew":
        return t.args[0] in EWN and not (t.args[0] in ("round", "rint") and len(t.args) > 2) \
            or t.args[0].startswith("cast_like_")
    return t.op in ELEM


def elem_children(t):
    if t.op == "full":
        return [t.args[1]]
    if t.op == "red":
        return [y for x in explicit(t.args[1]) for y in x]
    return children(t)


def rw(t, mapping, scope="all"):
    if scope == "all":
        return rewrite(t, mapping)
    memo = {}

    def f(x):
        if x in memo:
            return memo[x]
        if x in mapping:
            r = mapping[x]
        elif x.op == "full":
            r = mk("full", x.args[0], f(x.args[1]))
        elif x.op == "red":
            r = TT.rebuild(x, lambda y: TT.rebuild(y, f) if y.op in ("vec", "compress") else f(y)) \
                if elementwise(x) and x.args[1].op == "vec" else x
        elif not elementwise(x):
            r = x
        else:
            r = TT.rebuild(x, f)
            if r is not x and r in mapping:
                r = mapping[r]
        memo[x] = r
        return r
    return f(t)


def strip(t):
    for _ in range(5):
        if payload(t) is not None:
            t = payload(t)
            continue
        m = {x: payload(x) for x in walk(t, into=elementwise) if payload(x) is not None}
        if not m:
            return t
        t = rw(t, m, "elem")
    return t


def atoms_of(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if elementwise(x):
            stack.extend(elem_children(x))
        else:
            acc[x] = True
    return acc


def tainted(t, memo={}):
    """rests on vocabulary without a model"""
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    if t.op in ("opaque", "dead", "noreturn", "unset", "excval", "exc", "star"):
        r = True
    elif t.op == "call":
        n = t.args[0]
        if isinstance(n, T):
            r = n.op not in ("par", "fn", "fld", "attr", "fnattr", "interp1d", "cls") and not (
                n.op == "call" and isinstance(n.args[0], T) and n.args[0].op == "cls")
        else:
            r = n not in M.KNOWN_CALLS
    elif t.op == "meth":
        r = t.args[1] not in M.KNOWN_METH
    elif t.op == "ew":
        r = t.args[0] not in EWN and not t.args[0].startswith(("cast_like_", "datetime64"))
    if not r:
        r = any(tainted(c) for c in children(t))
    memo[t] = r
    return r


def sizes(t):
    """extents of a shape"""
    while t.op == "ew" and t.args[0] == "trunc" or t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array"):
        t = t.args[1] if t.op == "ew" else t.args[1][0]
    if t.op in ("list", "tuple", "vec"):
        return [x.args[1] if x.op == "ew" and x.args[0] == "trunc" else x for x in t.args]
    if t.op in ("num", "poly", "lenof", "floor"):
        return [t]
    return None


RESHAPERS = {"locidx", "locix", "concat", "concatn", "slice", "sstore", "store", "vec", "nonzero", "nonzero_tuple", "argwhere",
             "transpose", "reverse", "repeat", "mesh", "list", "tuple", "seg", "extended", "appended", "dictof",
             "dsof", "seqof", "setattr", "setfld", "rng", "sl", "dot", "mapstore", "shape", "dict", "quant",
             "sumseg", "last", "loopout", "rec", "someiter", "exists", "get", "guarded", "range", "compress"}
RESHAPE_CALLS = {"numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.append",
                 "numpy.repeat", "numpy.roll", "numpy.reshape", "numpy.tile", "numpy.broadcast_to", "numpy.flip",
                 "numpy.column_stack", "numpy.row_stack", "numpy.dstack", "numpy.transpose", "numpy.diff",
                 "numpy.lib.stride_tricks.sliding_window_view", "builtins.sum", "builtins.sorted", "numpy.sort",
                 "numpy.nonzero", "pandas.DataFrame", "pandas.Series", "xarray.concat", "xarray.merge", "xarray.Dataset", "xarray.DataArray",
                 "numpy.arange", "numpy.linspace", "numpy.logspace", "numpy.clip", "numpy.convolve"}


def INJ(t):
    return t.op == "call" and t.args[0] in ("numpy.reshape", "numpy.column_stack")


def lookup(t):
    return t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "interp1d"


def nodes(t):
    return {x for x in walk(t.args[0]) if x.op == "call" and x.args[0] == "numpy.linspace"
            and all(is_const(y) for y in x.args[1]) and not x.args[2]}


def reshaper(t):
    """a construct with many equivalent spellings: a mismatch of it proves nothing"""
    if t.op in RESHAPERS:
        return True
    if t.op == "call":
        return t.args[0] in RESHAPE_CALLS
    if t.op == "idx":
        return reshaper(t.args[0])
    if t.op == "lenof":
        return t.args[0].op not in ("par", "fld", "attr")
    if t.op == "red" and t.args[1].op == "call":
        return t.args[1].args[0] in RESHAPE_CALLS
    return False


# ------------------------------------------------------------------ evaluation
def isnanv(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, complex):
        return x != x
    return False


NANV = float("nan")


def numv(x):
    if isinstance(x, bool):
        return 1.0 if x else 0.0
    return x


class Ev:
    def __init__(self, cls, env):
        self.cls, self.env = cls, env      # term -> class id, class id -> value
        self.memo = {}
        self.touched = set()
        self.flags = {}

    def ev(self, t):
        m = self.memo.get(t)
        if m is not None or t in self.memo:
            return m
        r = self._ev(t)
        self.memo[t] = r
        return r

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "num":
            return float(a[0])
        if op == "bool":
            return a[0]
        if op == "nan":
            return NANV
        if op == "inf":
            return 1e300
        if op == "pi":
            return math.pi
        if op == "imag":
            return 1j
        if op == "str":
            return Tok(a[0])
        if op == "none":
            return None
        if op == "full":
            return self.ev(a[1])
        if op == "poly":
            return self.poly(t)[0]
        if op == "ite":
            c = self.tr(self.ev(a[0]))
            if c is ERR:
                return ERR
            return self.ev(a[1]) if c else self.ev(a[2])
        if op in ("lt", "le"):
            p = a[0]
            if p.op == "pair":
                x, y = self.ev(p.args[0]), self.ev(p.args[1])
                if isinstance(x, Tok) and isinstance(y, Tok):
                    return x.s < y.s if op == "lt" else x.s <= y.s
                return ERR
            v, s = self.poly(p)
            if v is ERR or v is None or isinstance(v, (Tok, complex)):
                return ERR
            if v != v:
                return False
            if abs(v) <= 1e-9 * s:
                v = 0.0
            return v < 0 if op == "lt" else v <= 0
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.eqv(x, y)
        if op == "and":
            for c in a:
                v = self.tr(self.ev(c))
                if v is ERR:
                    return ERR
                if not v:
                    return False
            return True
        if op == "or":
            for c in a:
                v = self.tr(self.ev(c))
                if v is ERR:
                    return ERR
                if v:
                    return True
            return False
        if op == "not":
            v = self.tr(self.ev(a[0]))
            return ERR if v is ERR else not v
        if op == "truth":
            return self.tr(self.ev(a[0]))
        if op == "isnan":
            v = self.ev(a[0])
            if v is None or isinstance(v, Tok) or v is ERR:
                return ERR
            return isnanv(v)
        if op == "isinf":
            v = numv(self.ev(a[0]))
            return abs(v) > 1e299 if isinstance(v, (float, complex)) and v == v else False
        if op == "isfinite":
            v = numv(self.ev(a[0]))
            return isinstance(v, (float, complex)) and v == v and abs(v) < 1e299
        if op == "isnone":
            return self.ev(a[0]) is None
        if op in ("min", "max", "fmin", "fmax"):
            vs = [numv(self.ev(x)) for x in a]
            if any(not isinstance(v, float) for v in vs):
                return ERR
            if op in ("min", "max"):
                if any(v != v for v in vs):
                    return NANV
            else:
                vs = [v for v in vs if v == v]
                if not vs:
                    return NANV
            return min(vs) if op.endswith("min") else max(vs)
        if op in ("pymin", "pymax"):
            vs = [numv(self.ev(x)) for x in a]
            if any(not isinstance(v, float) for v in vs):
                return ERR
            r = vs[0]
            for v in vs[1:]:
                if (v < r) if op == "pymin" else (v > r):
                    r = v
            return r
        if op == "divzero":
            return NANV
        if op == "ew":
            return self.ew(a[0], [self.ev(x) for x in a[1:]])
        if op == "red" and t not in self.cls:
            return self.red(a[0], explicit(a[1]), ddof(t))
        # value number
        k = self.cls[t]
        self.touched.add(t)
        return self.env[k]

    def red(self, kind, xs, dd=0):
        vs = []
        for x, g in xs:
            k = self.tr(self.ev(g))
            if k is ERR:
                return ERR
            if k:
                vs.append(numv(self.ev(x)))
        if kind in ("any", "all"):
            vs = [self.tr(v) for v in vs]
            return ERR if ERR in vs else (any(vs) if kind == "any" else all(vs))
        if any(not isinstance(v, float) for v in vs):
            return ERR
        if any(v != v for v in vs):
            return NANV
        n = len(vs)
        if kind == "sum":
            return float(sum(vs))
        if kind == "prod":
            return float(math.prod(vs))
        if n == 0:
            return NANV
        if kind in ("min", "max"):
            return min(vs) if kind == "min" else max(vs)
        if kind == "ptp":
            return max(vs) - min(vs)
        if kind == "median":
            v = sorted(vs)
            return v[n // 2] if n % 2 else (v[n // 2] + v[n // 2 - 1]) / 2
        m = sum(vs) / n
        if kind == "mean":
            return m
        if n - dd <= 0:
            return NANV
        v = sum((x - m) ** 2 for x in vs) / (n - dd)
        return math.sqrt(v) if kind == "std" else v

    def tr(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if v is ERR:
            return ERR
        if isinstance(v, Tok):
            return bool(v.s)
        if isinstance(v, (float, complex)):
            return not (abs(v) < 1e-12) if v == v else True
        return True

    def eqv(self, x, y):
        if x is ERR or y is ERR:
            return ERR
        if isinstance(x, Tok) or isinstance(y, Tok) or x is None or y is None:
            return x == y if (type(x) is type(y)) else False
        x, y = numv(x), numv(y)
        if isnanv(x) or isnanv(y):
            return False
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-30)

    def poly(self, t):
        """value and magnitude (sum of absolute values of the monomials)"""
        if t.op != "poly":
            v = numv(self.ev(t))
            return v, (abs(v) if isinstance(v, (float, complex)) and v == v else 0)
        tot, mag = 0.0, 0.0
        for m, c in t.args[0]:
            x = float(c)
            for b, e in m:
                bv = numv(self.ev(b))
                if bv is ERR or bv is None or isinstance(bv, Tok):
                    return ERR, 0
                if e is ONE:
                    x = x * bv
                    continue
                evv = numv(self.ev(e))
                if evv is ERR or evv is None or isinstance(evv, Tok):
                    return ERR, 0
                x = x * self.pw(bv, evv)
            tot = tot + x
            mag += abs(x) if x == x else 0
        if isinstance(tot, (float, complex)) and tot == tot and abs(tot) > 1e299:
            tot = NANV
        if isinstance(tot, float) and 0 < abs(tot) <= 1e-9 * mag and len(t.args[0]) > 1:
            tot = 0.0           # a tie up to rounding
        return tot, mag

    def pw(self, b, e):
        try:
            if isinstance(b, complex) or isinstance(e, complex):
                return b ** e
            if b != b or e != e:
                return 1.0 if e == 0 else NANV
            if b == 0:
                return 0.0 if e > 0 else (1.0 if e == 0 else NANV)
            if b < 0 and e != int(e):
                return NANV
            r = b ** e
            return r if not isinstance(r, complex) else NANV
        except (OverflowError, ZeroDivisionError, ValueError):
            return NANV

    def ew(self, name, vs):
        vs = [numv(v) for v in vs]
        if any(v is ERR or v is None or isinstance(v, Tok) for v in vs):
            return ERR
        if name.startswith("cast_like_"):
            f = self.flag("int dtype of " + name[10:])
            v = vs[0]
            if not f or not isinstance(v, float):
                return v
            return float(math.trunc(v)) if v == v else -1234567.0
        if any(isnanv(v) for v in vs):
            if name in ("cast_int",):
                return -1234567.0
            if name == "cast_bool":
                return True
            return NANV
        try:
            if name in ("abs",):
                return float(abs(vs[0]))
            if name == "real":
                return float(complex(vs[0]).real)
            if name == "imag":
                return float(complex(vs[0]).imag)
            if name == "conj":
                return complex(vs[0]).conjugate()
            if any(isinstance(v, complex) for v in vs):
                f = {"exp": cmath.exp, "log": cmath.log, "sin": cmath.sin, "cos": cmath.cos,
                     "tan": cmath.tan, "sinh": cmath.sinh, "cosh": cmath.cosh, "tanh": cmath.tanh,
                     "log10": cmath.log10}.get(name)
                if f is not None:
                    return f(vs[0])
                return self.unint(name, vs)
            x = vs[0]
            if name == "log":
                return math.log(x) if x > 0 else NANV
            if name == "log10":
                return math.log10(x) if x > 0 else NANV
            if name == "log2":
                return math.log2(x) if x > 0 else NANV
            if name in ("exp", "sin", "cos", "tan", "sinh", "cosh", "tanh", "expm1"):
                return getattr(math, name)(x)
            if name == "log1p":
                return math.log1p(x) if x > -1 else NANV
            if name == "arcsin":
                return math.asin(x) if -1 <= x <= 1 else NANV
            if name == "arccos":
                return math.acos(x) if -1 <= x <= 1 else NANV
            if name == "arctan":
                return math.atan(x)
            if name == "arctan2":
                return math.atan2(x, vs[1])
            if name == "hypot":
                return math.hypot(x, vs[1])
            if name == "floor":
                return float(math.floor(x + 1e-9))
            if name == "ceil":
                return float(math.ceil(x - 1e-9))
            if name in ("trunc", "cast_int"):
                return float(math.trunc(x + (1e-9 if x > 0 else -1e-9)))
            if name == "tofloat":
                return x
            if name == "cast_bool":
                return x != 0
            if name in ("tofloat32", "tofloat16"):
                m, e = math.frexp(x)        # stands for the loss of digits
                return math.ldexp(round(m * 512) / 512, e)
            if name == "tobool":
                return x != 0
            if name == "cbrt":
                return math.copysign(abs(x) ** (1 / 3), x)
            if name == "fmod":
                return math.fmod(x, vs[1]) if vs[1] else NANV
            if name == "floordiv":
                return float(math.floor(x / vs[1] + 1e-9)) if vs[1] else NANV
            if name == "copysign":
                return math.copysign(x, vs[1])
            if name in ("round", "rint") and len(vs) == 1:
                return float(round(x))
            if name == "mod":
                return math.fmod(math.fmod(x, vs[1]) + vs[1], vs[1]) if vs[1] else NANV
            if name == "sign":
                return float((x > 0) - (x < 0))
        except (OverflowError, ValueError, ZeroDivisionError):
            return NANV
        return self.unint(name, vs)

    def unint(self, name, vs):
        s = name + "|" + "|".join("%.6g" % v if isinstance(v, float) else repr(v) for v in vs)
        h = int(hashlib.md5(s.encode()).hexdigest()[:8], 16)
        return h / 2.0 ** 31 - 0.5

    def flag(self, name):
        k = ("flag", name)
        if k not in self.env:
            self.env[k] = bool(int(hashlib.md5((name + str(self.env.get("seed"))).encode()).hexdigest(), 16) & 1)
        return self.env[k]


def same_value(x, y):
    if x is ERR and y is ERR:
        return True
    if x is ERR or y is ERR:
        return False
    if x is None or y is None or isinstance(x, Tok) or isinstance(y, Tok):
        return x == y and type(x) is type(y)
    x, y = numv(x), numv(y)
    if isnanv(x) and isnanv(y):
        return True
    if isnanv(x) or isnanv(y):
        return False
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-9


# --------------------------------------------------------------- classification
INTEGER = {"K", "lenof", "pos", "rangelen", "iters", "ndim"}


def sort_of(t):
    if is_bool(t):
        return "bool"
    if t.op in INTEGER or t.op == "nn" and t.args[0] == "ix" or t.op == "meth" and t.args[1] == "strftime" and len(
            t.args[2]) == 1 and t.args[2][0].op == "str" and t.args[2][0].args[0] in (
            "%j", "%d", "%m", "%H", "%M", "%S", "%Y"):
        return "int"
    if t.op == "red" and t.args[0] == "count" or t.op == "red" and t.args[0] == "sum" and is_bool(t.args[1].args[0] if t.args[1].op == "compress" else t.args[1]):
        return "int"
    return "any"


# f(x) is not x for some x
CHANGERS = {"numpy.sort", "numpy.unique", "numpy.flip", "numpy.flipud", "numpy.roll", "numpy.cumsum", "torch.nan_to_num",
            "numpy.nan_to_num", "torch.flip", "torch.sort", "builtins.sorted", "torch.sigmoid", "torch.abs", "torch.clamp"}


LOCKSTEP = {"fld", "setfld", "setattr", "meth", "call", "locidx", "idx", "sl", "dict", "list", "tuple", "rollred", "red",
            "ite", "isnone", "truth", "not", "pymax", "pymin"}
CHANGER_METHODS = {"simplify", "buffer", "tz_convert", "tz_localize", "fillna", "shift", "dropna", "diff", "cumsum", "interpolate", "round",
                   "clip", "abs", "ffill", "bfill"}


def root_differences(a, b, limit=4):
    """the places where two value graphs of the same make begin to differ: set of pairs, None if too many"""
    out, seen = [], set()

    def pairs(x, y):
        if isinstance(x, T) and isinstance(y, T):
            return go(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            return all(pairs(p, q) for p, q in zip(x, y))
        return x == y

    def go(x, y):
        if x is y or (x, y) in seen:
            return True
        seen.add((x, y))
        n = len(out)
        if x.op == y.op and x.op in LOCKSTEP and len(x.args) == len(y.args) and pairs(x.args, y.args):
            return True
        del out[n:]
        out.append((x, y))
        return len(out) <= limit
    go(a, b)
    r = list(dict.fromkeys(out))
    return r if len(r) <= limit else None


class Ctx:
    """shared by a family of comparisons: memo, loops, domains"""

    def __init__(self, trials=300, seed=1, domains=None, loops=None):
        self.trials, self.seed = trials, seed
        self.domains = domains or {}
        self.memo = {}
        self.loops = {}
        self.unrolling = False
        self.depth = 0
        self.budget = 400
        self.bounded = False
        self.strict = False      # both sides are the same code: spellings do not differ
        self.path = []

    def soft(self, t):
        return tainted(t) or not self.strict and reshaper(t)

    # -- structural comparison of two non-elementwise terms
    def equiv(self, a, b):
        if a is b:
            return Res(EQ)
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = Res(UND, "cycle")
        r = self._equiv(a, b)
        self.memo[k] = r
        self.memo[(b, a)] = r
        return r

    def _equiv(self, a, b):
        if self.depth > 200:
            return Res(UND, "depth")
        self.depth += 1
        try:
            if elementwise(a) or elementwise(b):
                return self.elem(a, b)
            return self.struct(a, b)
        finally:
            self.depth -= 1

    def struct(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "slice" and x.args[0] is y and not tainted(y) and len(x.args) > 2 and x.args[2] is mk("lenof", y) \
                    and x.args[1].op == "num" and x.args[1].args[0] > 0:
                return Res(NE, "only a part of %s" % show(y, 3), a, b)
            if x.op == "slice" and x.args[0] is y and not tainted(y) and len(x.args) > 2 and x.args[1] is TT.ZERO \
                    and x.args[2].op == "num" and not TT.LENS:
                return Res(NE, "only a part of %s" % show(y, 3), a, b)
            if x.op == "call" and x.args[0] == "xarray.merge" and not tainted(y) and y.op in ("call", "fn", "fncall") and not (
                    y.op == "call" and y.args[0] in RESHAPE_CALLS) and y in set(walk(x)):
                return Res(NE, "a data set instead of %s" % show(y, 3), a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] in CHANGERS and x.args[1] and x.args[1][0] is y and not tainted(y) and not any(
                    z.op == "call" and z.args[0] in CHANGERS for z in walk(y)):
                return Res(NE, "%s of the value" % x.args[0], a, b)
            if x.op == "call" and x.args[0] == "numpy.reshape" and x.args[1][0] is y and y.op == "idx" \
                    and y.args[1].op == "tuple" and sum(z.op == "sl" for z in y.args[1].args) == 2 \
                    and x.args[1][1:] and x.args[1][1].op == "tuple" and len(x.args[1][1].args) == 2 \
                    and x.args[1][1].args[1] is TT.ONE:
                return Res(NE, "a table instead of one column", a, b)
            if x.op == "idx" and x.args[1].op == "tuple" and all(z.op == "sl" for z in x.args[1].args) and not tainted(y) and any(
                    z.args[2].op == "num" and z.args[2].args[0] < 0 or z.args[0].op == "num" and z.args[0].args[0] > 0
                    for z in x.args[1].args) and (x.args[0] is y or x.args[0].op == y.op and self.equiv(x.args[0], y).v == EQ):
                return Res(NE, "another order or a part of %s" % show(y, 3), a, b)
            if x.op == "locidx" and x.args[0] is y and not tainted(y):
                return Res(NE, "without the selection of %s" % show(x.args[2], 3), a, b)
            if x.op == "meth" and x.args[0] is y and x.args[1] in CHANGER_METHODS and not tainted(y):
                return Res(NE, ".%s of the value" % x.args[1], a, b)
            if x.op == "idx" and x.args[0].op == "nonzero_tuple" and y.op == "nonzero" and x.args[0].args[0] is y.args[0]:
                return Res(NE, "another axis", a, b)
            if x.op == "setattr" and x.args[0] is y and not tainted(y):
                return Res(NE, "without setting .%s" % x.args[1], a, b)
            if x.op == "call" and x.args[0] == "numpy.reshape" and len(x.args[1]) > 1 and y.op in ("list", "vec") and \
                    x.args[1][1].op == "shape" and TT.DECLARED.get(x.args[1][1].args[0]) == 2 and \
                    self.equiv(x.args[1][0], y).v == EQ:
                return Res(NE, "a list instead of a table", a, b)
            if x.op == "slice" and not tainted(y) and not tainted(x) and (
                    x.args[0] is y or x.args[0].op == "call" and x.args[0].args[0] == "numpy.reshape" and x.args[0].args[1][0] is y):
                n = M.lenof(x.args[0])
                if any(self.equiv(p, q).v == NE and not any(z.op in ("pymin", "pymax", "min", "max") for z in walk(p))
                       for p, q in ((x.args[1], TT.ZERO), (x.args[2], n))):
                    return Res(NE, "a part of %s" % show(y, 3), a, b)
            if x.op == "reverse" and x.args[0] is y and not tainted(y):
                return Res(NE, "reversed", a, b)
            if x.op == "call" and x.args[0] == "numpy.reshape" and y.op == "meth" and y.args[1] == "permute" and \
                    x.args[1][0] is y.args[0]:
                return Res(NE, "reshape instead of a permutation of the axes", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] in ("builtins.str", "pathlib.Path") and len(x.args[1]) == 1 and not (
                    y.op == "call" and y.args[0] == x.args[0]):
                r = self.equiv(x.args[1][0], y)
                return Res(UND, "text or path of the same name") if r.v == EQ else r
        if {a.op, b.op} == {"vec", "list"} and not any(x.op in ("seg", "guarded", "star") for x in a.args + b.args):
            return self.zipargs(a.args, b.args, a, b)
        if a.op != b.op:
            v = UND if self.soft(a) or self.soft(b) else NE
            return Res(v, "different constructs: %s / %s" % (show(a, 3), show(b, 3)), a, b)
        if a.op == "dict" and a.args and b.args and isinstance(a.args[0], tuple) and isinstance(b.args[0], tuple):
            da, db = dict(a.args[0]), dict(b.args[0])
            if len(da) == len(a.args[0]) and set(da) == set(db) and len(db) == len(b.args[0]):
                worst = Res(EQ)
                for k in da:
                    r = self.equiv(da[k], db[k])
                    if r.v == NE:
                        return r
                    if r.v == UND:
                        worst = r
                return worst
            if any(isinstance(k, T) and k.op not in ("str", "num", "none", "bool", "ext") for d in (da, db) for k in d):
                return Res(UND, "dictionaries with computed keys")
        if a.op == "compress":
            r = self.equiv(a.args[1], b.args[1])
            if r.v != EQ:
                return r
            dead = mk("num", Fraction(-987654321, 1000))
            return self.equiv(ite(a.args[1], a.args[0], dead), ite(a.args[1], b.args[0], dead))
        if a.op == "red" and a.args[1].op == "compress" and b.args[1].op == "compress":
            pass
        if a.op == "rec":
            return self.rec(a, b)
        if a.op == "seg":
            return self.seg(a, b)
        if INJ(a) and INJ(b):
            return self.arranged(a, b)
        if a.op in ("call", "meth") and a.args[0] is b.args[0] and (a.op == "call" or a.args[1] == b.args[1]) \
                or a.op == "call" and a.args[0] == b.args[0]:
            (pa, ka), (pb, kb) = a.args[-2:], b.args[-2:]
            if isinstance(pa, tuple) and isinstance(pb, tuple) and len(pa) != len(pb) \
                    and len(pa) + len(ka) == len(pb) + len(kb):
                return Res(UND, "arguments by position and by name: %s / %s" % (show(a, 3), show(b, 3)))
        return self.zipargs(a.args, b.args, a, b)

    def arranged(self, a, b):
        """the same elements in another arrangement: differs when the elements differ"""
        if a.args[2] != b.args[2] or len(a.args[1]) != len(b.args[1]):
            return Res(NE, "other order of elements: %s / %s" % (show(a, 2), show(b, 2)), a, b)
        r = self.equiv(a.args[1][0], b.args[1][0])
        if r.v != EQ:
            return r
        for x, y in zip(a.args[1][1:], b.args[1][1:]):
            r = self.equiv(x, y)
            if r.v == EQ or x.op == "shape" and y.op == "shape" and x.args[0].op == y.args[0].op == "par":
                continue      # coordinate arrays of one grid have the same shape
            if x.op == "shape" and self.reversed_shape(y, x) or y.op == "shape" and self.reversed_shape(x, y):
                return Res(NE, "rows and columns exchanged", a, b)
            return Res(UND, "shape " + r.why)
        return Res(EQ)

    def same_rows(self, a, b):
        """the same elements are written, with other values"""
        if a.op != "mapstore" or b.op != "mapstore":
            return False
        if any(a.args[i] is not b.args[i] for i in (0, 1, 2, 3, 4)):
            return False
        return not any(self.soft(x) for v in (a.args[5], b.args[5]) for x in atoms_of(v))

    def reversed_shape(self, x, y):
        if x.op == "reverse":
            return x.args[0] is y
        return x.op == "tuple" and len(x.args) == 2 and x.args[0] is mk("idx", y, ONE) and x.args[1] is mk("idx", y, ZERO)

    def zipargs(self, xs, ys, a, b):
        if len(xs) != len(ys):
            return Res(UND if tainted(a) or tainted(b) else NE,
                       "different arity: %s / %s" % (show(a, 3), show(b, 3)), a, b)
        worst = None
        for x, y in zip(xs, ys):
            r = self.one(x, y, a, b)
            if r.v == EQ:
                continue
            if r.v == NE:
                return r
            worst = r
        return worst or Res(EQ)

    def one(self, x, y, a, b):
        if isinstance(x, T) and isinstance(y, T):
            r = self.equiv(x, y)
            if r.v == EQ and x is not y and a.op != "full" and (x.op == "full" or y.op == "full"):
                return self.same_size(x, y)
            return r
        if isinstance(x, tuple) and isinstance(y, tuple):
            return self.zipargs(x, y, a, b)
        if x == y:
            return Res(EQ)
        v = UND if (tainted(a) or tainted(b)) else NE
        return Res(v, "%s / %s in %s / %s" % (x, y, show(a, 2), show(b, 2)), a, b)

    def same_size(self, x, y):
        """constant arrays as parts of something else: their shapes count"""
        if x.op != y.op:
            return Res(UND, "size of %s / %s" % (show(x, 3), show(y, 3)))
        p, q = sizes(x.args[0]), sizes(y.args[0])
        if p is None or q is None or len(p) != len(q):
            r = self.equiv(x.args[0], y.args[0])
            return r if r.v == EQ else Res(UND, "size of %s / %s" % (show(x, 3), show(y, 3)))
        for u, v in zip(p, q):
            r = self.equiv(u, v)
            if r.v != EQ:
                r.why = "size of %s / %s: %s" % (show(x, 3), show(y, 3), r.why)
                return r
        return Res(EQ)

    def seg(self, a, b):
        k1, n1, g1, e1 = a.args
        k2, n2, g2, e2 = b.args
        if k1 is not k2:
            g1, e1 = rewrite(g1, {k1: k2}), rewrite(e1, {k1: k2})
        for x, y in ((n1, n2), (g1, g2), (e1, e2)):
            r = self.equiv(x, y)
            if r.v == UND and (self.equiv(n1, n2).v == EQ if x is not n1 else False):
                q = self.first_iterations(k1, k2, x, y)
                if q is not None:
                    return q
            if r.v != EQ:
                return r
        return Res(EQ)

    def first_iterations(self, k1, k2, x, y):
        """entries that rest on what the iterations before left: those of the first iterations"""
        def mus(t):
            return [z for z in walk(t) if z.op == "mu" and z.args[0] in self.loops
                    and self.loops[z.args[0]].K in (k1, k2) and z in self.loops[z.args[0]].carried]
        ms = mus(x) + mus(y)
        if not ms or self.unrolling:
            return None
        carried = {}
        for z in ms:
            loop = self.loops[z.args[0]]
            if loop.breaks:
                return None
            carried.update({m: (loop.K, v) for m, v in loop.carried.items()})
        values = {m: v[0] for m, (_, v) in carried.items()}
        self.unrolling = True
        try:
            for i in range(3):
                m = dict(values)
                m.update({k1: num(i), k2: num(i)})
                r = self.equiv(rewrite(x, m), rewrite(y, m))
                if r.v == NE:
                    r.why = "iteration %d: %s" % (i, r.why)
                    return r
                values = {c: rewrite(v[1], {**m, k: num(i)}) for c, (k, v) in carried.items()}
        finally:
            self.unrolling = False
        return None

    # -- optimistic congruence of loop-carried values
    def rec(self, a, b):
        la, lb = self.loops.get(a.args[0]), self.loops.get(b.args[0])
        if la is None or lb is None:
            return Res(UND, "loop")
        if la is lb:
            return Res(UND, "two values of one loop") if a is not b else Res(EQ)
        r = self.equiv(la.n, lb.n) if la.n is not None and lb.n is not None else Res(UND, "iterations")
        if r.v != EQ:
            return Res(UND, "loop bounds")
        if la.breaks or lb.breaks:
            return Res(UND, "break")
        import itertools
        m1, m2 = list(la.carried), list(lb.carried)
        if a.args[1] not in m1 or b.args[1] not in m2:
            return Res(UND, "loop")
        cands = {}
        for x in m1:
            cands[x] = [y for y in m2 if self.equiv(la.carried[x][0], lb.carried[y][0]).v == EQ]
        others = [x for x in m1 if x is not a.args[1]]
        if b.args[1] not in cands[a.args[1]]:
            return Res(UND, "loop start values differ")
        tries = 0
        for combo in itertools.product(*[cands[x] + [None] for x in others]):
            tries += 1
            if tries > 64:
                break
            pair = dict(zip(others, combo))
            pair[a.args[1]] = b.args[1]
            sub_ = {x: y for x, y in pair.items() if y is not None}
            if la.K is not lb.K:
                sub_[la.K] = lb.K
            ok = True
            c2 = Ctx(self.trials, self.seed, self.domains)
            c2.strict = self.strict
            c2.loops = self.loops
            for x, y in pair.items():
                if y is None:
                    continue
                s1 = rewrite(la.carried[x][1], sub_)
                if c2.equiv(s1, lb.carried[y][1]).v != EQ:
                    ok = False
                    break
            if ok:
                return Res(EQ, "congruent loop-carried values")
        return Res(UND, "loop steps not congruent")

    # -- case split on the discrete facts both values are gated by
    def split_atom(self, a, b):
        best, score = None, None
        cnt = {}
        for t in (a, b):
            for x in walk(t, into=elementwise):
                if x.op == "isnone" and not elementwise(x.args[0]):
                    cnt[(0, x.skey, x)] = cnt.get((0, x.skey, x), 0) + 1
                elif x.op == "eq" and (x.args[0].op == "str" or x.args[1].op == "str"):
                    o = x.args[1] if x.args[0].op == "str" else x.args[0]
                    if not elementwise(o):
                        cnt[(1, x.skey, x)] = cnt.get((1, x.skey, x), 0) + 1
                elif not elementwise(x) and x in TT.SCALAR_CONDS:
                    cnt[(2, x.skey, x)] = 1
        if not cnt:
            return self.split_inner(a, b)
        return sorted(cnt)[0][2]

    def split_inner(self, a, b):
        """conditions inside value numbers: which cached value is used"""
        best = None
        seen = set()
        for t in (a, b):
            for x in walk(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "array_equal":
                    cs = [x]
                elif self.strict and x.op == "ite" and x.args[0] in TT.SCALAR_CONDS:
                    cs = [y for y in walk(x.args[0], into=lambda y: y.op in ("and", "or", "not"))
                          if y.op not in ("and", "or", "not", "bool")]
                else:
                    continue
                for c in cs:
                    n = c.op == "array_equal", len(list(walk(c))), c.skey
                    if any(y.op == "ite" for y in walk(c)):
                        n = (2,) + n[1:]
                    if best is None or n < best[0]:
                        best = n, c
        if best is None:
            return None
        c = best[1]
        for y in walk(c):
            if y.op == "ite" and y.args[0] in TT.SCALAR_CONDS and not is_const(y.args[0]):
                z = y.args[0]
                while z.op in ("and", "or", "not"):
                    z = z.args[0]
                return z
        return c

    def witness(self, t):
        """any(p) holds when p holds for the generic element under the facts assumed so far"""
        m = {}
        for x in walk(t, into=elementwise):
            if x.op == "red" and x.args[0] == "any" and x.args[2].op == "none":
                p = x.args[1]
                for q in self.path:
                    p = rw(p, q, "elem")
                if p is TRUE:
                    m[x] = TRUE
        return rw(t, m, "elem") if m else t

    def elem(self, a, b):
        a, b = strip(a), strip(b)
        if a is b:
            return Res(EQ)
        x = self.split_atom(a, b) if self.budget > 0 else None
        if x is None:
            return self.residue(a, b)
        self.budget -= 1
        worst = None
        for val in (TRUE, FALSE):
            m = {x: val}
            scope = "all"
            if x.op == "isnone":
                if val is TRUE:
                    m[x.args[0]] = NONE
            elif x.op == "eq" and "str" in (x.args[0].op, x.args[1].op):
                o, c = (x.args[1], x.args[0]) if x.args[0].op == "str" else x.args
                if o not in TT.SCALARS:
                    scope = "elem"
                if val is TRUE:
                    m[o] = c
            elif x.op in ("array_equal", "eq") and val is TRUE:
                big, small = sorted(x.args, key=lambda y: (len(list(walk(y))), y.skey))[::-1]
                if big not in set(walk(small)) and big.op not in ("num", "none", "str"):
                    m[big] = small
            a2, b2 = rw(a, m, scope), rw(b, m, scope)
            self.path.append(m)
            try:
                a2, b2 = self.witness(a2), self.witness(b2)
                r = self.equiv(a2, b2)
            finally:
                self.path.pop()
            if r.v == NE:
                env = dict(r.env or {})
                env[show(x, 4)] = val is TRUE
                r2 = Res(NE, r.why, r.a, r.b, env, r.va, r.vb)
                r2.splits = r.splits + (x,)
                return r2
            if r.v == UND:
                worst = r
        return worst or Res(EQ)

    # -- elementwise residue
    def first_node(self, a, b):
        """the tables of two interpolations start at different points"""
        for k in "xy":
            u, v = (index(dict(t.args[0].args[0])[k], ZERO) for t in (a, b))
            if not tainted(u) and not tainted(v) and self.equiv(u, v).v == NE:
                return True
        return False

    def residue(self, a, b):
        acc = {}
        atoms_of(a, acc)
        sa = set(acc)
        accb = {}
        atoms_of(b, accb)
        sb = set(accb)
        allat = sorted(sa | sb, key=lambda t: t.skey)
        cls, reps = {}, []
        undec, hard = set(), set()
        for t in allat:
            for i, r in enumerate(reps):
                if r is t:
                    cls[t] = i
                    break
                if r.op != t.op and not (r.op == "rec" or t.op == "rec"):
                    continue
                if r.op == "nn" and r.args[1].op == "str":
                    continue    # different elements of one query result
                e = self.equiv(r, t)
                if e.v == EQ:
                    cls[t] = i
                    break
                if e.v == NE and (INJ(r) and INJ(t) or r.op == t.op == "dict" or self.same_rows(r, t)) and not tainted(r) and not tainted(t):
                    hard.add(t)
                    hard.add(r)
                if e.v != EQ and lookup(r) and lookup(t) and nodes(r) and nodes(t) and (
                        not (nodes(r) & nodes(t)) or self.first_node(r, t)):
                    # different nodes of a table of interpolated values
                    hard.add(t)
                    hard.add(r)
                    continue
                if e.v == UND and (r in sa) != (t in sa) or e.v == UND and (r in sb) != (t in sb):
                    undec.add(t)
                    undec.add(r)
            else:
                cls[t] = len(reps)
                reps.append(t)
        # a value number that only one side has and that we cannot model
        onlya = {cls[t] for t in sa} - {cls[t] for t in sb}
        onlyb = {cls[t] for t in sb} - {cls[t] for t in sa}
        soft = {t for t in allat if (cls[t] in onlya or cls[t] in onlyb) and (
            t in undec or t.op == "mu" or t not in hard and self.soft(t)
            or self.bounded and not (t.op in ("par", "nn") or t.op == "idx" and t.args[0].op == "par"
                                     and t.args[1].op == "num"))}
        onesided = {t for t in sa if cls[t] in onlya}
        conds = [x for t in (a, b) for x in walk(t, into=elementwise) if x.op in ("lt", "le", "eq")]
        conds = sorted(set(conds), key=lambda t: t.skey)
        nonables = {cls[x.args[0]] for t in (a, b) for x in walk(t, into=elementwise)
                    if x.op == "isnone" and x.args[0] in cls}
        texts = {}
        for c in conds:
            if c.op == "eq":
                for x, y in (c.args, c.args[::-1]):
                    if y.op == "str" and x in cls:
                        texts.setdefault(cls[x], set()).add(y.args[0])
            elif c.args[0].op == "pair":
                pass
        infs = sorted({cls[y] for t in (a, b) for x in walk(t, into=elementwise) if x.op in ("isfinite", "isinf")
                       for y in walk(x.args[0], into=lambda z: z.op in ("poly", "ew", "idx")) if y in cls and sort_of(y) == "any" and not self.has_domain(y)})
        rng = random.Random(self.seed * 7919 + len(reps))
        nns = any(r.op == "nn" for r in reps)
        counts = self.count_pairs(reps)
        und = None
        scales = [1.0, 1.0, 3.0, 10.0, 0.1, 40.0]
        neq = sum(c.op == "eq" and "str" not in (c.args[0].op, c.args[1].op) for c in conds)
        npred = len(conds) + sum(x.op == "isnan" for t in (a, b) for x in walk(t, into=elementwise))
        guided = self.trials if neq >= 2 else self.trials // 3 if npred >= 2 else 0
        both = is_bool(a) and is_bool(b)
        for trial in range(self.trials + guided):
            env = {"seed": trial}
            for i, r in enumerate(reps):
                env[i] = self.sample(r, i, rng, nonables, texts, scales, trial)
            if trial % 5 == 4 and trial < self.trials:
                # many values are missing
                for i, r in enumerate(reps):
                    if isinstance(env[i], float) and sort_of(r) == "any" and not self.has_domain(r) and \
                            r not in TT.SCALARS and rng.random() < 0.4:
                        env[i] = NANV
            if trial >= self.trials and both:
                x, y = (a, b) if trial % 2 else (b, a)
                fixed = set()
                for c, pol in sorted(((x, True), (y, False)), key=lambda _: rng.random()):
                    self.satisfy(c, pol, cls, env, reps, rng, fixed)
            elif trial >= self.trials:
                self.follow(a if trial % 2 else b, cls, env, reps, rng, set(), 0)
            elif trial % 3 == 0:
                # exactly one value is missing
                ks = [i for i, r in enumerate(reps) if isinstance(env[i], float) and sort_of(r) == "any"
                      and not self.has_domain(r) and r not in TT.SCALARS]
                for i in ks:
                    if env[i] != env[i]:
                        env[i] = self.sample(reps[i], i, rng, (), texts, scales, 1)
                        env[i] = 1.5 if env[i] != env[i] else env[i]
                if ks and trial % 2 == 0:
                    env[rng.choice(ks)] = NANV
            if conds and trial % 2 and trial < self.trials:
                for _ in range(1 + (trial % 3)):
                    self.tie(rng.choice(conds), cls, env, reps, rng, texts)
            if infs and trial % 3 == 1:
                k = rng.choice(infs)
                if isinstance(env[k], float):
                    env[k] = rng.choice((-1, 1)) * math.inf
            if nns:
                self.fix_nn(env, reps, rng)
            for i, j in counts:
                if isinstance(env[i], float) and isinstance(env[j], float) and env[i] > env[j]:
                    env[i] = env[j]
            ea = Ev(cls, env)
            va = ea.ev(a)
            eb = Ev(cls, env)
            vb = eb.ev(b)
            if vb is ERR:
                continue
            if not same_value(va, vb):
                # what only the reference rests on is missing in the code, however it is spelled
                t = (ea.touched & soft) | (eb.touched & soft & (undec if not (ea.touched & onesided) else soft))
                w = {show(reps[i], 4): env[i] for i in range(len(reps))
                     if any(cls[x] == i for x in ea.touched | eb.touched)}
                r = Res(NE, "", a, b, w, va, vb)
                if t:
                    r.v = UND
                    r.why = "rests on " + ", ".join(sorted(show(x, 2) for x in t))[:200]
                    und = r
                    continue
                # name the smallest differing cause among the value numbers
                r.why = "differs"
                return r
        return und or Res(EQ)

    def follow(self, t, cls, env, reps, rng, fixed, depth):
        """move the value numbers so that evaluation takes a randomly chosen path through the conditions of t"""
        while t.op == "ite" and not is_bool(t) and depth < 60:
            depth += 1
            v = Ev(cls, env).ev(t.args[0])
            pol = rng.random() < 0.5
            if not (v is True and pol or v is False and not pol):
                self.satisfy(t.args[0], pol, cls, env, reps, rng, fixed)
                v = Ev(cls, env).ev(t.args[0])
            else:
                self.freeze(t.args[0], cls, fixed, pol)
            if v is not True and v is not False:
                return
            t = t.args[1] if v else t.args[2]
        if t.op == "poly":
            for x in walk(t, into=lambda y: y.op == "poly"):
                if x.op == "ite":
                    self.follow(x, cls, env, reps, rng, fixed, depth + 1)
                    break

    def freeze(self, c, cls, fixed, pol):
        """what an equality that has to stay fixes"""
        for x in walk(c, into=lambda y: y.op in ("and", "or", "not")):
            if x.op == "eq":
                fixed.update(cls[y] for y in atoms_of(x) if y in cls)

    def satisfy(self, c, pol, cls, env, reps, rng, fixed):
        if c.op == "not":
            return self.satisfy(c.args[0], not pol, cls, env, reps, rng, fixed)
        if c.op in ("and", "or"):
            parts = list(c.args)
            if (c.op == "and") == pol:
                # equalities first: they leave no freedom
                for x in sorted(parts, key=lambda y: (y.op != "eq", rng.random())):
                    self.satisfy(x, pol, cls, env, reps, rng, fixed)
            elif not any(Ev(cls, env).ev(x) is pol for x in parts):
                self.satisfy(rng.choice(parts), pol, cls, env, reps, rng, fixed)
            return
        if Ev(cls, env).ev(c) is pol:
            if pol:
                self.freeze(c, cls, fixed, pol)
            return
        if c in cls and sort_of(c) == "bool":
            if cls[c] not in fixed:
                env[cls[c]] = pol
            return
        if c.op == "eq" and "str" in (c.args[0].op, c.args[1].op):
            x, y = c.args if c.args[1].op == "str" else c.args[::-1]
            if x in cls and cls[x] not in fixed:
                env[cls[x]] = Tok(y.args[0]) if pol else Tok("zzz")
            return
        if c.op in ("eq", "lt", "le"):
            acc = [x for x in atoms_of(c) if x in cls and sort_of(x) != "bool" and cls[x] not in fixed]
            for x in acc:
                if not isinstance(env[cls[x]], float) or env[cls[x]] != env[cls[x]]:
                    env[cls[x]] = 1.5 if sort_of(x) != "int" else 1.0
            if c.op == "eq" and not pol:
                for x in acc[:1]:
                    env[cls[x]] += 1.0
                return
            for x in sorted(acc, key=lambda t: rng.random()):
                old = env[cls[x]]
                self.tie(c, cls, env, reps, rng, {}, x)
                if c.op != "eq":
                    v = env[cls[x]]
                    for d in (0.0, 1.0, -1.0) if sort_of(x) == "int" else (0.0, 1e-3, -1e-3, 1.0, -1.0):
                        env[cls[x]] = v + d * max(1.0, abs(v)) if sort_of(x) != "int" else v + d
                        if Ev(cls, env).ev(c) is pol:
                            return
                elif Ev(cls, env).ev(c) is pol:
                    fixed.update(cls[y] for y in atoms_of(c) if y in cls)
                    return
                env[cls[x]] = old
            return
        if c.op in ("isnan", "isnone") and c.args[0] in cls and cls[c.args[0]] not in fixed:
            k = cls[c.args[0]]
            if pol:
                env[k] = None if c.op == "isnone" else NANV
            elif not isinstance(env[k], float) or env[k] != env[k]:
                env[k] = 1.5

    def fix_nn(self, env, reps, rng):
        """a neighbour query returns distances in ascending order, missing neighbours last"""
        g = {}
        for i, r in enumerate(reps):
            if r.op == "nn":
                g.setdefault((r.args[1], r.args[2]), {}).setdefault(r.args[3].args[0], {})[r.args[0]] = i
        for key, cols in g.items():
            nb = rng.randrange(len(cols) + 1) if any("ix" in c for c in cols.values()) else len(cols)
            d = sorted(rng.choice([0.0, 1e-12, 1e-6, 2e-3, rng.uniform(0.1, 3), rng.uniform(1, 30)]) for _ in cols)
            if rng.random() < 0.6:
                d = sorted(rng.uniform(0.1, 5) for _ in cols)
            ids = rng.sample(range(3), min(3, len(cols)))
            for n, j in enumerate(sorted(cols)):
                if n >= nb:
                    dv, iv = 1e300, 3.0
                else:
                    dv, iv = d[n], float(ids[n % 3])
                for what, i in cols[j].items():
                    env[i] = dv if what == "dist" else iv

    def count_pairs(self, reps):
        """(i, j): value number i counts the valid values of an expression that needs all of what j counts"""
        c = [(i, r) for i, r in enumerate(reps) if r.op == "red" and r.args[0] == "count"]
        return [(i, j) for i, x in c for j, y in c if i != j and x.args[2:] == y.args[2:]
                and x.args[1].op == "poly" and set(atoms_of(y.args[1])) <= set(atoms_of(x.args[1]))
                and (y.args[1].op == "poly" or not elementwise(y.args[1]))
                and all(not elementwise(b) for m, _ in x.args[1].args[0] for b, e in m)]

    def has_domain(self, t):
        if t.op == "nn":
            return True
        return any(d is t or (t.op == "idx" and t.args[0] is d) for d in self.domains)

    def sample(self, t, i, rng, nonables, texts, scales, trial):
        for d, f in self.domains.items():
            if d is t or (t.op == "idx" and t.args[0] is d):
                return f(rng)
        s = sort_of(t)
        if s == "bool":
            return rng.random() < 0.5
        if i in nonables and rng.random() < 0.35:
            return None
        if i in texts:
            c = sorted(texts[i]) + ["zzz"]
            return Tok(rng.choice(c))
        if s == "int":
            return float(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 12]))
        u = rng.random()
        if u < 0.08 and t not in TT.SCALARS:
            return NANV
        if u < 0.16:
            return 0.0
        if u < 0.26:
            return float(rng.choice([1, -1, 2, 3, -2, 10, 100]))
        sc = rng.choice(scales)
        v = rng.uniform(0.05, 1.0) * sc
        if rng.random() < 0.3:
            v = -v
        return v

    def tie(self, c, cls, env, reps, rng, texts, x=None):
        """move one value number so that comparison c is (nearly) an equality"""
        p = c.args[0] if c.op in ("lt", "le") else None
        if c.op == "eq":
            if c.args[0].op in ("str",) or c.args[1].op in ("str",):
                return
            p = sub(c.args[0], c.args[1])
        if p is None or p.op == "pair":
            return
        acc = list(atoms_of(p))
        acc = [x for x in acc if sort_of(x) != "bool" and x in cls]
        if not acc:
            return
        exact = x is not None
        x = x if exact else rng.choice(sorted(acc, key=lambda t: t.skey))
        k = cls[x]
        if sort_of(x) == "int" and self.has_domain(x):
            return
        if not isinstance(env[k], float):
            return

        def f(v):
            e2 = dict(env)
            e2[k] = v
            r = Ev(cls, e2).poly(p)[0]
            return r
        old = env[k]
        try:
            y0, y1, y2 = f(0.0), f(1.0), f(2.0)
        except KeyError:
            return
        if not all(isinstance(y, float) and y == y for y in (y0, y1, y2)):
            return
        if abs((y2 - y1) - (y1 - y0)) > 1e-9 * (abs(y0) + abs(y1) + abs(y2)) or abs(y1 - y0) < 1e-12:
            # not linear: bisect on a bracket
            lo, hi = 1e-3, 1e3
            a, b = f(lo), f(hi)
            if not (isinstance(a, float) and isinstance(b, float)) or not a == a or not b == b or a * b > 0:
                return
            for _ in range(80):
                mid = (lo + hi) / 2
                m = f(mid)
                if not isinstance(m, float) or m != m:
                    return
                if a * m <= 0:
                    hi = mid
                else:
                    lo, a = mid, m
            env[k] = (lo + hi) / 2
            return
        v = -y0 / (y1 - y0)
        u = rng.random()
        if sort_of(x) == "int":
            v = float(round(v))
            if v < 0:
                return
        elif exact:
            pass
        elif u < 0.25:
            v += 1e-3 * max(1.0, abs(v))
        elif u < 0.5:
            v -= 1e-3 * max(1.0, abs(v))
        env[k] = v
