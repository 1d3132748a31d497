"""Hash-consed value-graph terms and their canonical form.

The interpreter (interp.py) never executes code of /repo: it turns every
expression into a node of a value graph.  This module defines the nodes and the
rewrites that make two graphs that compute the same thing *look* the same:

* arithmetic is kept as a sum of monomials with exact rational coefficients
  (associativity, commutativity, distributivity, named intermediates, a/b*c ...)
* comparisons are kept as ``p < 0`` / ``p <= 0`` over that form
* boolean structure is kept flat, sorted, with negation pushed to the leaves
* masked stores, np.where, xr.where and control-flow joins are all ``ite``
* masked reads (x[mask]) are pulled to the outside of elementwise arithmetic
"""
from fractions import Fraction
import hashlib
import itertools

_TABLE = {}


class T:
    __slots__ = ("op", "args", "skey", "_at")

    def __repr__(self):
        return show(self)


def _keypart(a):
    if isinstance(a, T):
        return a.skey
    if isinstance(a, tuple):
        return "(" + ",".join(_keypart(x) for x in a) + ")"
    return type(a).__name__[0] + repr(a)


def mk(op, *args):
    key = (op, tuple((type(a).__name__, a) for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        s = op + "(" + ",".join(_keypart(a) for a in args) + ")"
        if len(s) > 80:
            s = op + "#" + hashlib.md5(s.encode()).hexdigest()
        t.skey = s
        t._at = None
        _TABLE[key] = t
    return t


# ----------------------------------------------------------------- constants
def num(v):
    if isinstance(v, bool):
        return mk("bool", v)
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, Fraction):
        return mk("num", v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        return mk("num", Fraction(repr(v)))
    if isinstance(v, complex):
        return add(num(v.real), mul(num(v.imag), IMAG))
    raise TypeError(v)


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, complex, Fraction)):
        return num(v)
    if isinstance(v, str):
        return mk("str", v)
    if v is Ellipsis:
        return mk("ellipsis")
    if isinstance(v, bytes):
        return mk("bytes", v)
    raise TypeError(type(v))


NAN = mk("nan")
INF = mk("inf")
IMAG = mk("imag")
PI = mk("pi")
POS = mk("pos")        # position of the generic element of an array
NONE = mk("none")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
ZERO = mk("num", Fraction(0))
ONE = mk("num", Fraction(1))


def S(s):
    return mk("str", s)


def is_num(t):
    return t.op == "num"


def is_const(t):
    return t.op in ("num", "bool", "str", "none", "nan", "inf", "ellipsis", "bytes")


def constval(t):
    if t.op in ("num", "bool", "str"):
        v = t.args[0]
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        return v
    if t.op == "none":
        return None
    if t.op == "nan":
        return float("nan")
    if t.op == "inf":
        return float("inf")
    raise ValueError(t)


# --------------------------------------------------------------- polynomials
# dict { mono : Fraction }, mono = tuple of (base T, exponent T) sorted by key
def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "bool":
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, ONE),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def _mkey(m):
    return tuple((b.skey, e.skey) for b, e in m)


def _mono_mul(m1, m2):
    """product of two monomials -> (coef, mono)"""
    exps = {}
    for b, e in m1 + m2:
        if b in exps:
            exps[b] = add(exps[b], e)
        else:
            exps[b] = e
    coef = Fraction(1)
    out = []
    for b, e in exps.items():
        if e is ZERO:
            continue
        if b is IMAG and e.op == "num" and e.args[0].denominator == 1:
            k = int(e.args[0]) % 4
            if k == 0:
                continue
            if k == 2:
                coef = -coef
                continue
            if k == 3:
                coef = -coef
            out.append((IMAG, ONE))
            continue
        if b.op == "num" and e.op == "num" and e.args[0].denominator == 1:
            if b.args[0] == 0:
                if e.args[0] > 0:
                    return Fraction(0), ()
            else:
                coef *= b.args[0] ** int(e.args[0])
                continue
        out.append((b, e))
    out.sort(key=lambda be: (be[0].skey, be[1].skey))
    return coef, tuple(out)


MAX_EXPAND = 200


def _ppmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c, m = _mono_mul(m1, m2)
            c = c * c1 * c2
            if c:
                r[m] = r.get(m, 0) + c
    return r


def _has_nan(*ts):
    return any(t is NAN for t in ts)


def _lift(fn, *args):
    """pull x[mask] outside of the elementwise operation fn"""
    mask = None
    for a in args:
        if a.op == "compress":
            if mask is None:
                mask = a.args[1]
            elif mask is not a.args[1]:
                return None
    if mask is None:
        return None
    inner = [a.args[0] if a.op == "compress" else a for a in args]
    return compress(fn(*inner), mask)


def _unfull(t):
    return t.args[1] if t.op == "full" else t


def _full2(fn, a, b):
    """a constant array combined with a constant: the shape is kept"""
    if a.op == "full" and b.op in ("num", "nan") and a.args[1].op in ("num", "nan"):
        return mk("full", a.args[0], fn(a.args[1], b))
    if b.op == "full" and a.op in ("num", "nan") and b.args[1].op in ("num", "nan"):
        return mk("full", b.args[0], fn(a, b.args[1]))
    return None


def add(a, b):
    if a.op == "compress" or b.op == "compress":
        r = _lift(add, a, b)
        if r is not None:
            return r
    if a.op == "full" or b.op == "full":
        r = _full2(add, a, b)
        if r is not None:
            return r
    a, b = _unfull(a), _unfull(b)
    if _has_nan(a, b):
        return NAN
    if (a.op in ("str", "list", "tuple", "concat", "fstr")
            or b.op in ("str", "list", "tuple", "concat", "fstr")):
        return concat(a, b)
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def _plain(p):
    """a value as it appears inside a string"""
    while p.op == "fstr" and p.args[1].op == "str" and p.args[1].args[0] == "" or \
            p.op == "call" and p.args[0] == "builtins.str" and len(p.args[1]) == 1 and not p.args[2]:
        p = p.args[0] if p.op == "fstr" else p.args[1][0]
    return p


def concat(*parts):
    out = []
    if any(p.op in ("str", "fstr") for p in parts):
        parts = [_plain(p) for p in parts]
    for p in parts:
        if p.op in ("concat",):
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if res and p.op == "str" and res[-1].op == "str":
            res[-1] = S(res[-1].args[0] + p.args[0])
        elif res and p.op in ("list", "tuple") and res[-1].op == p.op:
            res[-1] = mk(p.op, *(res[-1].args + p.args))
        else:
            res.append(p)
    if len(res) == 1:
        return res[0]
    return mk("concat", *res)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "compress" or b.op == "compress":
        r = _lift(mul, a, b)
        if r is not None:
            return r
    if a.op == "full" or b.op == "full":
        r = _full2(mul, a, b)
        if r is not None:
            return r
    a, b = _unfull(a), _unfull(b)
    if _has_nan(a, b):
        return NAN
    if a.op in ("str", "list", "tuple") or b.op in ("str", "list", "tuple"):
        return mk("repeat", a, b)
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) <= MAX_EXPAND:
        return from_poly(_expand_pow(_ppmul(p, q)))
    # too large to expand: keep sums as opaque factors
    c1, f1 = _as_factor(a)
    c2, f2 = _as_factor(b)
    c, m = _mono_mul(f1, f2)
    return from_poly({m: c * c1 * c2})


def _expand_pow(p):
    """expand positive integer powers of sums that arose by merging factors"""
    out = {}
    again = False
    for m, c in p.items():
        for i, (b, e) in enumerate(m):
            if b.op == "poly" and e.op == "num" and e.args[0].denominator == 1 \
                    and 0 < e.args[0] <= 4 and len(b.args[0]) ** int(e.args[0]) <= MAX_EXPAND:
                rest = {m[:i] + m[i + 1:]: c}
                q = to_poly(b)
                for _ in range(int(e.args[0])):
                    rest = _ppmul(rest, q)
                for mm, cc in rest.items():
                    out[mm] = out.get(mm, 0) + cc
                again = True
                break
        else:
            out[m] = out.get(m, 0) + c
    if again:
        return _expand_pow({m: c for m, c in out.items() if c})
    return out


def _as_factor(t):
    if t.op == "num":
        return t.args[0], ()
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return c, m
    c, t2 = _content(t)
    return c, ((t2, ONE),)


def _content(t, signed=True):
    """factor a sum into (positive or signed) leading coefficient * monic sum"""
    p = to_poly(t)
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    c = items[0][1]
    if not signed:
        c = abs(c)
    return c, from_poly({m: v / c for m, v in p.items()})


def _common_mono(t):
    """largest monomial (integer/equal exponents) dividing every term of a sum"""
    p = to_poly(t)
    monos = list(p)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for b in list(common):
            if b not in d or d[b] is not common[b]:
                del common[b]
    return tuple(sorted(common.items(), key=lambda be: (be[0].skey, be[1].skey)))


def power(a, e):
    if a.op == "compress" or e.op == "compress":
        r = _lift(power, a, e)
        if r is not None:
            return r
    a, e = _unfull(a), _unfull(e)
    if e is ZERO:
        return ONE
    if e is ONE:
        return a
    if _has_nan(a, e):
        return NAN
    if a is ONE:
        return ONE
    isint = e.op == "num" and e.args[0].denominator == 1
    if a.op == "num":
        if isint and (a.args[0] != 0 or e.args[0] > 0) and abs(e.args[0]) < 200:
            return num(a.args[0] ** int(e.args[0]))
        if a.args[0] > 0 and e.op == "num":
            # perfect squares etc. stay symbolic; equality of both sides suffices
            pass
        return mk("poly", ((((a, e),), Fraction(1)),))
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        res = ONE
        for b, be in m:
            even = be.op == "num" and be.args[0].denominator == 1 and be.args[0] % 2 == 0
            if even and not isint:
                res = mul(res, mk("poly", ((((_pw(b, be), e),), Fraction(1)),)))
            else:
                res = mul(res, _pw(b, mul(be, e)))
        if c != 1:
            if c < 0 and not isint:
                return mk("poly", ((((a, e),), Fraction(1)),))
            res = mul(res, power(num(c), e))
        return res
    # a sum
    if isint and 0 < e.args[0] <= 4 and len(p) ** int(e.args[0]) <= MAX_EXPAND:
        r = a
        for _ in range(int(e.args[0]) - 1):
            r = mul(r, a)
        return r
    c, base = _content(a, signed=isint)
    res = ONE
    cm = _common_mono(base)
    if cm:
        mono_t = from_poly({cm: Fraction(1)})
        base = mul(base, _inv_mono(cm))
        res = mul(res, power(mono_t, e))
    if c != 1:
        res = mul(res, power(num(c), e))
    if base.op != "poly":
        return mul(res, power(base, e))
    return mul(res, mk("poly", ((((base, e),), Fraction(1)),)))


def _inv_mono(m):
    return from_poly({tuple((b, neg(e)) for b, e in m): Fraction(1)})


def _pw(b, e):
    if e is ONE:
        return b
    if e is ZERO:
        return ONE
    return mk("poly", ((((b, e),), Fraction(1)),))


def div(a, b):
    if a.op == "compress" or b.op == "compress":
        r = _lift(div, a, b)
        if r is not None:
            return r
    if b is ZERO:
        return mk("divzero", a)
    return mul(a, power(b, num(-1)))


# ----------------------------------------------------------------- booleans
BOOL_OPS = {"lt", "le", "eq", "isnone", "and", "or", "not", "isnan", "isinf", "isfinite",
            "isin", "contains", "isinstance", "any", "all", "hasattr", "array_equal",
            "startswith", "endswith", "exists", "bool", "truth", "exc"}


# values that cannot be NaN: sizes, texts, containers, objects
NEVER_NAN = {"shape", "lenof", "fstr", "concat", "tuple", "list", "dict", "str", "ext", "cls", "fn",
             "inst", "K", "pos", "dtype", "self", "num", "rangelen"}


_BOOL_MEMO, _NOT_MEMO, _BOP_MEMO = {}, {}, {}


def is_bool(t):
    r = _BOOL_MEMO.get(t)
    if r is None:
        r = _BOOL_MEMO[t] = _is_bool(t)
    return r


def lnot(a):
    r = _NOT_MEMO.get(a)
    if r is None:
        r = _NOT_MEMO[a] = _lnot(a)
        if r.op != "not" and r not in _NOT_MEMO:
            pass
    return r


def _is_bool(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == "red":
        return t.args[0] in ("any", "all")
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op in ("compress", "idx", "shift", "roll", "full"):
        i = 1 if t.op == "full" else 0
        return is_bool(t.args[i])
    if t.op == "store":
        return is_bool(t.args[0])
    if t.op == "vec":
        return bool(t.args) and all(is_bool(x) for x in t.args)
    if t.op == "meth" and t.args[1] == "shift":
        return is_bool(t.args[0])
    if t.op == "meth" and t.args[1] in BOOL_METH:
        return True
    return False


BOOL_METH = {"intersects", "contains", "covers", "within", "touches", "crosses", "covered_by", "disjoint", "dwithin"}


FINITE = set()      # arrays and numbers that are never NaN, by the documentation of what takes them


def finite(*terms):
    FINITE.clear()
    FINITE.update(terms)
    _NOT_MEMO.clear()


def _finite(t):
    if t.op == "num" or t in FINITE:
        return True
    if t.op == "poly":
        return all(_finite(x) for m, c in t.args[0] for x, e in m)
    if t.op in ("idx", "fld"):      # the frequencies of a spectrogram
        c = t.args[0]
        return c.op == "call" and c.args[0] == "matplotlib.mlab.specgram" and t.args[1] is ONE
    return False


def _lnot(a):
    if FINITE and a.op in ("lt", "le") and len(a.args) == 1 and _finite(a.args[0]):
        return _cmp("le" if a.op == "lt" else "lt", ZERO, a.args[0])
    if a.op == "compress":
        return compress(lnot(a.args[0]), a.args[1])
    if a.op == "full":
        return mk("full", a.args[0], lnot(a.args[1]))
    if a.op == "bool":
        return FALSE if a.args[0] else TRUE
    if a.op == "none":
        return TRUE
    if a.op == "num":
        return TRUE if a.args[0] == 0 else FALSE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return lor(*[lnot(x) for x in a.args])
    if a.op == "or":
        return land(*[lnot(x) for x in a.args])
    if a.op == "ite" and is_bool(a):
        return ite(a.args[0], lnot(a.args[1]), lnot(a.args[2]))
    return mk("not", a)


def _boolnorm(a):
    if a.op == "none":
        return FALSE
    if a.op == "num":
        return TRUE if a.args[0] != 0 else FALSE
    if a.op == "str":
        return TRUE if a.args[0] else FALSE
    return a


def _bin_bool(op, args):
    flat = []
    ident, absorb = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    for a in args:
        a = _boolnorm(_unfull(a))
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    seen = {}
    for a in flat:
        if a is ident:
            continue
        if a is absorb:
            return absorb
        seen[a.skey] = a
    vals = [seen[k] for k in sorted(seen)]
    s = set(vals)
    for a in vals:
        if lnot(a) in s:
            return absorb
    # unit propagation:  a and (not a or b)  ->  a and b
    dual = "or" if op == "and" else "and"
    out, changed = [], False
    for a in vals:
        if a.op == dual:
            if any(x in s for x in a.args):
                changed = True
                continue            # absorption
            keep = [x for x in a.args if lnot(x) not in s]
            if len(keep) != len(a.args):
                changed = True
                a = lor(*keep) if op == "and" else land(*keep)
        out.append(a)
    if changed:
        return _bin_bool(op, out)
    if not vals:
        return ident
    if len(vals) == 1:
        return vals[0]
    return mk(op, *vals)


def _boolop(op, args):
    k = (op, tuple(args))
    r = _BOP_MEMO.get(k)
    if r is None:
        r = _BOP_MEMO[k] = _boolop0(op, args)
    return r


def _boolop0(op, args):
    args = list(args)
    if any(a.op == "compress" for a in args):
        r = _lift(lambda *x: _boolop(op, x), *args)
        if r is not None:
            return r
    return _bin_bool(op, args)


def land(*args):
    return _boolop("and", args)


def lor(*args):
    return _boolop("or", args)


def lxor(a, b):
    return lor(land(a, lnot(b)), land(lnot(a), b))


def _cmp(op, a, b):
    if a.op == "compress" or b.op == "compress":
        r = _lift(lambda x, y: _cmp(op, x, y), a, b)
        if r is not None:
            return r
    a, b = _unfull(a), _unfull(b)
    if a is NAN or b is NAN:
        return FALSE
    if a.op == "str" or b.op == "str" or a.op == "none" or b.op == "none":
        if a.op == "str" and b.op == "str":
            x, y = a.args[0], b.args[0]
            return const(x < y if op == "lt" else x <= y)
        return mk(op, mk("pair", a, b))
    p = sub(a, b)
    if p.op == "num":
        v = p.args[0]
        return const(v < 0 if op == "lt" else v <= 0)
    if p.op == "poly":
        c, q = _content(p, signed=False)
        p = q
    r = _cmp_count(op, p)
    if r is None:
        r = _cmp_red(op, p)
    if r is not None:
        return r
    return mk(op, p)


def _count(b):
    """b is the number of elements for which a condition holds"""
    return b.op == "red" and b.args[0] == "sum" and b.args[2].op == "none" and not b.args[3] \
        and is_bool(b.args[1].args[0] if b.args[1].op == "compress" else b.args[1])


def _cmp_count(op, p):
    """count(x) > 0  is  any(x)"""
    if p.op != "poly":
        ms, k = (((((p, ONE),)), Fraction(1)),), Fraction(0)
    else:
        ms = [x for x in p.args[0] if x[0]]
        k = sum((c for m, c in p.args[0] if not m), Fraction(0))
    if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][1] is not ONE or not _count(ms[0][0][0][0]):
        return None
    b, c = ms[0][0][0][0], ms[0][1]
    import models
    none = lnot(models.red("any", b.args[1]))
    bound = -k / c
    if c > 0:            # count < bound / count <= bound
        if bound < 0 or bound == 0 and op == "lt":
            return FALSE
        if bound < 1 or bound == 1 and op == "lt":
            return none
    else:                # count > bound / count >= bound
        if bound < 0 or bound == 0 and op == "le":
            return TRUE
        if bound < 1 or bound == 1 and op == "le":
            return lnot(none)
    return None


def _cmp_red(op, p):
    """min(x) < c  is  any(x < c);  max(x) < c  is  all(x < c)   (x without NaN)"""
    hit = None
    for m, c in (p.args[0] if p.op == "poly" else (((((p, ONE),)), Fraction(1)),)):
        for b, e in m:
            if b.op == "red":
                if hit is not None or b.args[0] not in ("min", "max") or len(m) != 1 or e is not ONE \
                        or b.args[2].op != "none" or b.args[3]:
                    return None
                hit = (b, c)
            elif not (b in SCALARS or b.op in ("lenof", "pi")):
                return None
    if hit is None:
        return None
    b, c = hit
    x = b.args[1]
    mask = None
    if x.op == "compress":
        x, mask = x.args
        if x.op == "compress":
            return None
    q = add(sub(p, mul(num(c), b)), mul(num(c), x))
    e = _cmp(op, q, ZERO)
    import models
    if (c > 0) == (b.args[0] == "min"):
        return models.red("any", e if mask is None else land(mask, e))
    return models.red("all", e if mask is None else lor(lnot(mask), e))


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def gt(a, b):
    return _cmp("lt", b, a)


def ge(a, b):
    return _cmp("le", b, a)


def eq(a, b):
    if a.op == "compress" or b.op == "compress":
        r = _lift(eq, a, b)
        if r is not None:
            return r
    a, b = _unfull(a), _unfull(b)
    if a is NAN or b is NAN:
        return FALSE
    if a.op in ("tuple", "list") and b.op == a.op and a is not b and a.args and \
            not any(x.op in ("seg", "guarded", "star", "mapseg", "unk") for x in a.args + b.args):
        return land(*[eq(x, y) for x, y in zip(a.args, b.args)]) if len(a.args) == len(b.args) else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "shape" and y.op == "tuple" and len(y.args) == 1 and y.args[0].op not in (
                "seg", "guarded", "star", "mapseg", "unk"):
            n = LENS.get(x.args[0])
            return eq(mk("lenof", x.args[0]) if n is None else num(n), y.args[0])        # only of one-dimensional arrays
    if a is b:
        if is_const(a):
            return TRUE
        # x == x is false exactly for NaN
        if a.op in NEVER_NAN or is_bool(a):
            return TRUE
        return lnot(isnan(a))
    if is_const(a) and is_const(b):
        if a.op in ("num", "bool") and b.op in ("num", "bool"):
            return const(a.args[0] == b.args[0])
        return FALSE
    # comparisons of boolean-valued terms with True/False
    for x, y in ((a, b), (b, a)):
        if y.op in ("bool", "num") and is_bool(x):
            v = y.args[0]
            if v == 1:
                return x
            if v == 0:
                return lnot(x)
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and is_const(y) and (is_const(x.args[1]) or is_const(x.args[2])):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    for x, y in ((a, b), (b, a)):
        # numeric flags: v == True  is  v == 1
        if y.op == "bool":
            return eq(x, ONE if y.args[0] else ZERO)
    for x, y in ((a, b), (b, a)):
        if y is ZERO and _count(x):
            import models
            return lnot(models.red("any", x.args[1]))
    if b.skey < a.skey:
        a, b = b, a
    return mk("eq", a, b)


def ne(a, b):
    return lnot(eq(a, b))


NOTNONE = set()
PRECISE = []       # not empty: conversion to short floats changes values


def isnone(a):
    if a.op == "none":
        return TRUE
    if a in NOTNONE:
        return FALSE
    if a.op == "idx":
        b = a
        while b.op in ("idx", "sl") and b.args:
            b = b.args[0]
        if b.op in ("nonzero", "mapstore", "full", "rng"):
            return FALSE          # an element of an array of numbers
    if a.op in ("par", "attr", "idx", "unk", "mu", "loopout", "get", "opaque", "gstate", "prev", "meth", "fld", "star"):
        return mk("isnone", a)
    if a.op == "ite":
        c, x, y = a.args
        is_ = lambda c, x: any(z.op == "isinstance" and z.args[0] is x for z in (c.args if c.op == "and" else (c,)))
        return ite(c, FALSE if is_(c, x) else isnone(x), FALSE if is_(lnot(c), y) else isnone(y))
    if a.op == "call":
        f = a.args[0]
        while isinstance(f, T) and f.op == "call":
            f = f.args[0]
        if isinstance(f, T) and f.op in ("fn", "interp1d"):
            return FALSE
        if isinstance(f, str) and f.split(".")[0] in ("numpy", "scipy", "xarray", "pandas", "shapely", "math"):
            return FALSE
        return mk("isnone", a)
    return FALSE


def isnan(a):
    if a.op == "compress":
        return compress(isnan(a.args[0]), a.args[1])
    a = _unfull(a)
    if a is NAN:
        return TRUE
    if a.op in ("num", "bool", "str", "none", "inf", "pi") or a.op in NEVER_NAN:
        return FALSE
    if is_bool(a):
        return FALSE
    if a.op == "ite":
        x, y = isnan(a.args[1]), isnan(a.args[2])
        return ite(a.args[0], x, y)
    return mk("isnan", a)


# conditions that come from control flow (scalar) rather than from masks
SCALAR_CONDS = set()


def assume(t, cond, val):
    """replace the boolean condition `cond` by a constant inside t (elementwise
    scope only)"""
    return rewrite(t, {cond: TRUE if val else FALSE}, scope="elem")


def ite(c, a, b, scalar=False):
    c = _boolnorm(c)
    if c.op == "compress" or a.op == "compress" or b.op == "compress":
        r = _lift(lambda x, y, z: ite(x, y, z), c, a, b)
        if r is not None and c.op == "compress":
            return r
    if not scalar:
        c = _unfull(c)
        a, b = (_unfull(a), _unfull(b)) if c not in (TRUE, FALSE) else (a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a is TRUE and b is FALSE and is_bool(c):
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if is_bool(a) and is_bool(b) and is_bool(c):
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "vec" or b.op == "vec":
        n = len(a.args) if a.op == "vec" else len(b.args)
        if not (a.op == b.op and len(b.args) != n):
            return mk("vec", *[ite(c if scalar else index(c, num(k)), index(a, num(k)), index(b, num(k)), scalar=scalar)
                               for k in range(n)])
    if scalar:
        SCALAR_CONDS.add(c)
        # element stores commute with the join: one store of the selected value
        if a.op == "sstore" or b.op == "sstore":
            ba, bb = _sbase(a), _sbase(b)
            if ba is bb and ba.op in ("mu", "full", "par", "rec"):
                x = a if a.op == "sstore" else b
                i = x.args[1]
                if i.op in ("num", "poly", "K", "POS"):
                    if a.op == "sstore" and b.op == "sstore" and b.args[1] is i:
                        return mk("sstore", ite(c, a.args[0], b.args[0], scalar=True), i,
                                  ite(c, a.args[2], b.args[2], scalar=True))
                    if a.op == "sstore":
                        return mk("sstore", ite(c, a.args[0], b, scalar=True), i,
                                  ite(c, a.args[2], index(b, i), scalar=True))
                    return mk("sstore", ite(c, a, b.args[0], scalar=True), i,
                              ite(c, index(a, i), b.args[2], scalar=True))
    return mk("ite", c, a, b)


def _sbase(t):
    while t.op == "sstore":
        t = t.args[0]
    return t


# --------------------------------------------------------------- array terms
def compress(x, m):
    """x[m] for a boolean mask"""
    if m is TRUE:
        return x
    if m.op == "vec" and x.op == "vec" and len(m.args) == len(x.args) and all(k in (TRUE, FALSE) for k in m.args):
        return mk("vec", *[v for v, k in zip(x.args, m.args) if k is TRUE])
    if x.op == "compress":
        if m.op == "compress" and m.args[1] is x.args[1]:
            return compress(x.args[0], land(x.args[1], m.args[0]))
        return mk("compress", x, m)
    if m.op == "compress":
        # x is a full-size value indexed with a shortened mask: keep opaque
        return mk("compress", x, m)
    if is_const(x):
        return x
    return mk("compress", x, m)


def strip_compress(v, m):
    """value stored under mask m: drop the matching x[m]"""
    if v.op == "compress":
        if v.args[1] is m:
            return v.args[0]
        return None
    if _mentions_compress(v):
        return None
    return v


def _mentions_compress(t, depth=0):
    for a in children(t):
        if a.op == "compress":
            return True
        if a.op in ELEM_OPS and _mentions_compress(a):
            return True
    return False


def store_mask(arr, m, v):
    if m.op == "compress":
        # y = x[m1]; y[m2] = v  with both shortened by the same mask
        if arr.op == "compress" and arr.args[1] is m.args[1]:
            inner = store_mask(arr.args[0], m.args[0],
                               v.args[0] if v.op == "compress" else v)
            return compress(inner, m.args[1])
        return mk("store", arr, m, v)
    s = strip_compress(v, m)
    if s is None:
        return mk("store", arr, m, v)
    return ite(m, s, arr)


ELEM_OPS = {"poly", "ite", "lt", "le", "eq", "and", "or", "not", "isnan", "isinf", "isfinite",
            "min", "max", "pymin", "pymax", "fmin", "fmax", "ew", "isnone", "isin", "pair",
            "abs", "truth"}


def ew(name, *args):
    """named elementwise function"""
    args = list(args)
    if any(a.op == "compress" for a in args):
        r = _lift(lambda *x: ew(name, *x), *args)
        if r is not None:
            return r
    args = [_unfull(a) for a in args]
    if any(a is NAN for a in args) and name not in ("nan_to_num", "isfinite"):
        return NAN
    if name == "abs":
        a = args[0]
        if a.op == "num":
            return num(abs(a.args[0]))
        c, q = _content(a) if a.op == "poly" else (Fraction(1), a)
        if a.op == "poly":
            return mul(num(abs(c)), mk("ew", "abs", q))
        if is_bool(a):
            return a
        return mk("ew", "abs", a)
    if name in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh", "cos", "cosh") and args[0].op == "poly":
        c, q = _content(args[0])
        if c < 0:
            r = mk("ew", name, neg(args[0]))
            return r if name in ("cos", "cosh") else neg(r)
    if name == "exp" and args[0] is ZERO:
        return ONE
    return mk("ew", name, *args)


def minmax(op, *args):
    """numpy-style (NaN-propagating) minimum/maximum, flattened and sorted"""
    args = list(args)
    if any(a.op == "compress" for a in args):
        r = _lift(lambda *x: minmax(op, *x), *args)
        if r is not None:
            return r
    flat = []
    for a in args:
        a = _unfull(a)
        if a is NAN:
            return NAN
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    u = sorted({a.skey: a for a in flat}.values(), key=lambda a: a.skey)
    if len(u) == 1:
        return u[0]
    return mk(op, *u)


def pyminmax(op, *args):
    """Python's min()/max() on scalars: the first argument survives NaN
    comparisons, so order matters when NaN is possible"""
    args = [a for a in args]
    while args and args[0].op == op:
        args = list(args[0].args) + args[1:]
    if len(args) == 1:
        return args[0]
    if all(a.op == "red" and a.args[0] in ("min", "max") and index_like(a.args[1]) for a in args):
        args = sorted(args, key=lambda a: a.skey)
    return mk(op, *args)


def index_like(t):
    """labels of a table (never NaN): x.index, also localized, converted or chosen between such"""
    if t.op == "fld" and len(t.args) > 1 and t.args[1] == "index":
        return True
    if t.op == "ite":
        return index_like(t.args[1]) and index_like(t.args[2])
    if t.op == "meth" and t.args[1] in ("tz_localize", "tz_convert"):
        return index_like(t.args[0])
    return False


# ---------------------------------------------------------------- traversal
def children(t):
    out = []
    if t.op == "poly":
        for m, c in t.args[0]:
            for b, e in m:
                out.append(b)
                if not is_num(e):
                    out.append(e)
        return out
    for a in t.args:
        _collect(a, out)
    return out


def _collect(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, out)


def walk(t, into=None):
    """all distinct subterms"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if into is not None and not into(x):
            continue
        stack.extend(children(x))


def atoms(t, op):
    return [x for x in walk(t) if x.op == op]


def rebuild(t, f):
    """re-canonicalise t with children mapped by f"""
    op, a = t.op, t.args
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            x = num(c)
            for b, e in m:
                x = mul(x, power(f(b), f(e) if not is_num(e) else e))
            r = add(r, x)
        return r
    if op in ("num", "bool", "str", "none", "nan", "inf", "pi", "imag", "ellipsis", "bytes"):
        return t
    if op == "ite":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]), scalar=a[0] in SCALAR_CONDS)
    if op == "and":
        return land(*[f(x) for x in a])
    if op == "or":
        return lor(*[f(x) for x in a])
    if op == "not":
        return lnot(f(a[0]))
    if op in ("lt", "le"):
        p = a[0]
        if p.op == "pair":
            return _cmp(op, f(p.args[0]), f(p.args[1]))
        return _cmp(op, f(p), ZERO)
    if op == "eq":
        return eq(f(a[0]), f(a[1]))
    if op == "isnan":
        return isnan(f(a[0]))
    if op == "isnone":
        return isnone(f(a[0]))
    if op == "isinstance":
        x = f(a[0])
        return FALSE if x is NONE else mk("isinstance", x, a[1])
    if op == "ew":
        return ew(a[0], *[f(x) for x in a[1:]])
    if op in ("min", "max"):
        return minmax(op, *[f(x) for x in a])
    if op == "compress":
        return compress(f(a[0]), f(a[1]))
    if op == "idx":
        return index(f(a[0]), f(a[1]))
    if op == "array_equal":
        return array_equal(f(a[0]), f(a[1]))
    if op == "concatn":
        return concatn(f(a[0]), [f(x) for x in a[1:]])
    if op == "store":
        m = f(a[1])
        if is_bool(m):
            return store_mask(f(a[0]), m, f(a[2]))
        return mk("store", f(a[0]), m, f(a[2]))
    return mk(op, *[_mapargs(x, f) for x in a])


def concatn(ax, ts):
    """without the empty blocks"""
    def empty(t):
        return t.op == "full" and t.args[0].op == "tuple" and (
            len(t.args[0].args) == 1 and t.args[0].args[0] is ZERO
            or ax.op == "num" and 0 <= ax.args[0] < len(t.args[0].args) and t.args[0].args[int(ax.args[0])] is ZERO)
    out = [t for t in ts if not empty(t)]
    return mk("concatn", ax, *(out or ts))


def array_equal(a, b):
    """a missing earlier value equals no array"""
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            return TRUE if y is NONE else FALSE if y.op != "ite" else ite(
                y.args[0], array_equal(NONE, y.args[1]), array_equal(NONE, y.args[2]), scalar=True)
        if x.op == "ite" and (x.args[1] is NONE or x.args[2] is NONE):
            return ite(x.args[0], array_equal(x.args[1], y), array_equal(x.args[2], y), scalar=True)
    if a.op == "num" and b.op == "num":
        return TRUE if a is b else FALSE
    x, y = sorted((a, b), key=lambda t: t.skey)
    return mk("array_equal", x, y)


def _mapargs(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapargs(y, f) for y in x)
    return x


def rewrite(t, mapping, scope="all"):
    memo = {}

    def f(x):
        if x in memo:
            return memo[x]
        if x in mapping:
            r = mapping[x]
        elif scope == "elem" and x.op not in ELEM_OPS and x is not t:
            r = x
        elif scope == "elem" and x.op not in ELEM_OPS:
            r = x
        else:
            r = rebuild(x, f)
            if r is not x and r in mapping:
                r = mapping[r]
        memo[x] = r
        return r

    return f(t)


# scalar parameters are not indexed when an index is pushed inwards
SCALARS = set()
# parameters that are series of one common length: par -> representative par
SAMELEN = {}
# series of a fixed length (bounded analysis): par -> length
class _Lens(dict):
    """lengths of parameters, and of derived arrays by rule(term) -> length or None"""
    rule = None

    def _r(self, t):
        return self.rule(t) if self.rule is not None else None

    def __contains__(self, t):
        return dict.__contains__(self, t) or self._r(t) is not None

    def __getitem__(self, t):
        if dict.__contains__(self, t):
            return dict.__getitem__(self, t)
        r = self._r(t)
        if r is None:
            raise KeyError(t)
        return r

    def __bool__(self):
        return len(self) > 0 or self.rule is not None

    def clear(self):
        self.rule = None
        dict.clear(self)


LENS = _Lens()
# known number of dimensions: par -> n; nearest-neighbour queries: {"k": (points, neighbours)}
HOOKS = {}
NDIMS = {}
DECLARED = {}            # the same, kept for the comparison
QUERY = {}
# arrays of shape (n, 1)
COLUMNS = set()
# array terms whose element i we write  idx(arr, i)
INDEX_PUSH = {"poly", "ite", "lt", "le", "and", "or", "not", "isnan", "isinf", "isfinite", "ew",
              "min", "max", "isin", "abs"}


def is_int_index(i):
    return i.op in ("num", "poly", "K", "mu", "loopout", "call", "opaque", "lenof", "idx", "par") \
        or i.op in ("min", "max", "ew")


def POS_IN(t):
    return any(x is POS for x in walk(t))


def picked(a, n):
    """element n of the elements of an explicit array that a mask keeps"""
    xs, m = a.args[0].args, a.args[1]
    gs = [index(m, num(k)) for k in range(len(xs))]

    def rec(k, need):
        if k == len(xs):
            return mk("idx", a, num(n))
        return ite(gs[k], xs[k] if need == 0 else rec(k + 1, need - 1), rec(k + 1, need), scalar=True)
    return rec(0, n)


def index(a, i):
    """a[i] for an integer-like index term i"""
    if a.op in ("num", "bool", "nan", "pi", "inf", "none", "imag"):
        return a
    if i is POS:
        return a
    if a is POS:
        return i
    if a.op == "K":
        return a
    if a.op in ("lenof", "shape", "fstr", "nn"):
        return a
    if LENS and a.op == "idx" and a.args[0] in LENS and a.args[1].op == "num":
        return a
    if a.op == "red" and a.args[2].op == "none":
        return a            # full reduction: a scalar
    if a.op == "red" and a.args[2].op == "num" and a.args[2].args[0] in (1, -1) and not a.args[3] and a.args[1].op == "call" \
            and a.args[1].args[0] == "numpy.lib.stride_tricks.sliding_window_view":
        # a reduction over a window that starts at i
        k = dict(a.args[1].args[2])
        if set(k) == {"x", "window_shape"} and not a.args[1].args[1] and k["window_shape"].op not in ("tuple", "list"):
            return HOOKS["red"](a.args[0], HOOKS["slice"](k["x"], i, add(i, k["window_shape"])))
    if a.op == "full":
        return a.args[1]
    if a.op == "arange":
        return add(a.args[0], i)
    if a.op == "compress" and a.args[0].op == "vec" and i.op == "num" and i.args[0] >= 0 and LENS:
        return picked(a, int(i.args[0]))
    if LENS and a.op == "nonzero" and i.op == "num" and i.args[0] in (0, -1):
        m = a.args[0]
        n = next((LENS[x] if x in LENS else len(x.args) for x in walk(m, into=lambda y: y.op in ELEM_OPS or y.op == "poly")
                  if x in LENS or x.op == "vec"), 0)
        if 0 < n <= 8:
            r = num(10 ** 9)        # no such position
            for k in (reversed(range(n)) if i.args[0] == 0 else range(n)):
                r = ite(index(m, num(k)), num(k), r, scalar=True)
            return r
    if LENS and i.op == "vec" and not is_bool(i):
        return mk("vec", *[index(a, x) for x in i.args])
    if LENS and i.op == "compress" and i.args[0].op == "vec" and not is_bool(i.args[0]):
        return compress(mk("vec", *[index(a, x) for x in i.args[0].args]), i.args[1])
    if LENS and a in LENS and i.op == "nn":
        n = LENS[a]
        r = mk("idx", a, num(n - 1))
        for k in reversed(range(n - 1)):
            r = ite(eq(i, num(k)), mk("idx", a, num(k)), r, scalar=True)
        return r
    if a.op == "vec":
        n = len(a.args)
        if i.op == "num" and i.args[0].denominator == 1 and -n <= i.args[0] < n:
            return a.args[int(i.args[0])]
        if i.op in ("poly", "mu", "K", "idx", "ew", "red"):
            r = mk("idx", a, i) if n == 0 else a.args[-1]
            for k in reversed(range(n - 1)):
                r = ite(eq(i, num(k)), a.args[k], r, scalar=True)
            return r
    if a.op == "idx" and i.op in ("num", "K", "poly", "lenof") and POS_IN(a.args[1]):
        return index(a.args[0], rewrite(a.args[1], {POS: i}))
    if a.op == "idx" and a.args[0] in SAMELEN and not any(x is POS for x in walk(a.args[1])):
        return a            # an element of a one-dimensional series
    if i.op == "ite" and not is_bool(i) and a.op not in ("dict", "list", "tuple"):
        return ite(i.args[0], index(a, i.args[1]), index(a, i.args[2]), scalar=True)
    if a.op == "call" and a.args[0] == "numpy.linspace" and len(a.args[1]) == 3 and not a.args[2]:
        lo, hi, n = a.args[1]
        return add(lo, mul(i, div(sub(hi, lo), sub(n, ONE))))
    if a.op == "compress" or a.op == "rec":
        return mk("idx", a, i)
    if a.op == "list" and len(a.args) == 1 and a.args[0].op == "seg" and a.args[0].args[2] is TRUE and i.op == "num" \
            and i.args[0] >= 0 and a.args[0].args[0].op == "K" and isinstance(a.args[0].args[3], T):
        return rewrite(a.args[0].args[3], {a.args[0].args[0]: i})
    if a.op in ("list", "tuple") and i.op == "num" and i.args[0].denominator == 1:
        k = int(i.args[0])
        if -len(a.args) <= k < len(a.args) and not any(x.op == "seg" for x in a.args):
            return a.args[k]
    if a.op == "slice":
        # slice(x, lo, hi): lo/hi already normalised to non-negative terms
        inn = not (i.op == "num" and i.args[0] < 0)
        if inn:
            return index(a.args[0], add(a.args[1], i))
    if a in SCALARS:
        return a
    if a.op in ("pymax", "pymin") and all(x in SCALARS or x.op == "num" for x in children(a)):
        return a
    if a.op == "ite" and a.args[0] in SCALAR_CONDS:
        return ite(a.args[0], index(a.args[1], i), index(a.args[2], i), scalar=True)
    if a.op in INDEX_PUSH and i.op not in ("str",):
        memo = {}

        def f(x):
            if x not in memo:
                memo[x] = index(x, i)
            return memo[x]

        if a.op == "poly":
            r = ZERO
            for m, c in a.args[0]:
                x = num(c)
                for b, e in m:
                    x = mul(x, power(f(b), e if is_num(e) else f(e)))
                r = add(r, x)
            return r
        if a.op in ("lt", "le"):
            return _cmp(a.op, f(a.args[0]), ZERO) if a.args[0].op != "pair" else mk("idx", a, i)
        if a.op == "ite" and a.args[0] in SCALAR_CONDS:
            return ite(a.args[0], f(a.args[1]), f(a.args[2]), scalar=True)
        return rebuild(a, f)
    if a.op == "eq":
        x, y = a.args
        return eq(index(x, i), index(y, i))
    if a.op == "sstore":
        # sstore(arr, idx, val)  -- integer element store
        arr, j, v = a.args
        if j is i:
            return v
        d = sub(i, j)
        if d.op == "num" and d.args[0] != 0:
            return index(arr, i)
        if LENS and i.op == "num" and j.op not in ("rng", "tuple", "selix", "locix", "list"):
            return ite(eq(i, j), v, index(arr, i), scalar=True)
    return mk("idx", a, i)


# ------------------------------------------------------------------- display
def show(t, depth=6):
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    d = depth - 1
    if op == "num":
        v = a[0]
        return str(v.numerator) if v.denominator == 1 else repr(float(v))
    if op == "bool":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op in ("none", "nan", "inf", "pi", "imag"):
        return {"none": "None", "imag": "1j"}.get(op, op)
    if op == "par":
        return a[0]
    if op == "poly":
        parts = []
        for m, c in a[0]:
            fs = []
            for b, e in m:
                s = show(b, d)
                if b.op in ("poly", "ite"):
                    s = "(" + s + ")"
                if e is not ONE:
                    s += "**" + ("(%s)" % show(e, d))
                fs.append(s)
            cs = show(num(c), d)
            if not fs:
                parts.append(cs)
            elif c == 1:
                parts.append("*".join(fs))
            elif c == -1:
                parts.append("-" + "*".join(fs))
            else:
                parts.append(cs + "*" + "*".join(fs))
        return " + ".join(parts)
    if op == "lt":
        if a[0].op == "pair":
            return "(%s < %s)" % tuple(show(x, d) for x in a[0].args)
        return "(%s < 0)" % show(a[0], d)
    if op == "le":
        if a[0].op == "pair":
            return "(%s <= %s)" % tuple(show(x, d) for x in a[0].args)
        return "(%s <= 0)" % show(a[0], d)
    if op == "eq":
        return "(%s == %s)" % (show(a[0], d), show(a[1], d))
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(show(x, d) for x in a) + ")"
    if op == "not":
        return "not " + show(a[0], d)
    if op == "ite":
        return "[%s if %s else %s]" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == "ew":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if op == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "compress":
        return "%s[mask %s]" % (show(a[0], d), show(a[1], d))
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "call":
        args = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        f = a[0] if isinstance(a[0], str) else show(a[0], d)
        return "%s(%s)" % (f, ", ".join(args))
    if op == "meth":
        args = [show(x, d) for x in a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in a[3]]
        return "%s.%s(%s)" % (show(a[0], d), a[1], ", ".join(args))

    def one(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ",".join(one(y) for y in x) + ")"
        return str(x)

    return "%s(%s)" % (op, ", ".join(one(x) for x in a))
