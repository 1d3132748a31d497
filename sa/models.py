"""Semantics of the library vocabulary (numpy, xarray, pandas, builtins) used by
the package, as value-graph constructors.  Everything not listed here becomes an
opaque ``call``/``meth`` node; a verdict never rests on such a node."""
import ast
from fractions import Fraction
from terms import *  # noqa
import terms as TT
from interp import V, VT, Unsupported, content, Event, Cls, path_like

# ---------------------------------------------------------------- shape / len
SCALAR_OPS = {"lenof", "num", "str", "none", "bool", "nan", "pi", "inf", "K", "fstr", "imag", "pos"}


def is_scalar(t):
    if t in TT.SCALARS or t.op in SCALAR_OPS:
        return True
    if t.op == "red":
        return t.args[2].op == "none"
    if t.op == "idx":
        return is_scalar_index(t.args[1]) and t.args[0].op in ("par", "full", "fld", "mu")
    if t.op in ("poly", "ite", "and", "or", "not", "lt", "le", "eq", "ew", "isnan", "min", "max", "pymin", "pymax"):
        return all(is_scalar(c) for c in children(t))
    return False


def is_scalar_index(i):
    return i.op in ("num", "K", "poly", "lenof", "pos") or is_scalar(i)


def rep(t):
    """representative array whose shape t has"""
    if t in TT.SAMELEN:
        return TT.SAMELEN[t]
    if t.op == "ite" and t.args[0] in SCALAR_CONDS:
        a, b = rep(t.args[1]), rep(t.args[2])
        if a is b or is_scalar(b) and not is_scalar(a):
            return a
        if is_scalar(a) and not is_scalar(b):
            return b
        return t
    if t.op in ELEM_OPS or t.op in ("poly",):
        best = None
        for c in children(t):
            if is_scalar(c):
                continue
            r = rep(c)
            if r is None or is_scalar(r):
                continue
            if best is None or (r.op != "par", r.skey) < (best.op != "par", best.skey):
                best = r
        return best if best is not None else t
    if t.op == "idx" and any(x is POS for x in walk(t.args[1])):
        return rep(t.args[0])
    if t.op == "full":
        return t.args[0].args[0] if t.args[0].op == "shape" else t
    if t.op in ("sstore", "store", "mapstore", "setattr"):
        return rep(t.args[0])
    if t.op == "ew":
        return rep(t.args[1])
    if t.op == "rec":
        return t
    return t


def lenof(t):
    if t in TT.LENS:
        return num(TT.LENS[t])
    if t.op == "meth" and t.args[1] == "keys" and not t.args[2]:
        t = t.args[0]
    if t.op in ("list", "tuple") and not any(x.op in ("seg", "guarded", "star") for x in t.args):
        return num(len(t.args))
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "seg" and t.args[0].args[2] is TRUE:
        return t.args[0].args[1]
    if t.op == "str":
        return num(len(t.args[0]))
    if t.op == "vec":
        return num(len(t.args))
    if t.op == "meth" and t.args[1] == "ravel":
        return lenof(t.args[0])
    if t.op == "nonzero_tuple" and dims_of(t.args[0]):
        return num(dims_of(t.args[0]))
    if t.op == "full":
        s = t.args[0]
        if s.op in ("tuple", "list") and s.args:
            return s.args[0]
        if s.op == "shape":
            return lenof(s.args[0])
        if s.op == "concat":
            return s.args[0].args[0] if s.args[0].op in ("tuple", "list") and s.args[0].args else mk("lenof", t)
        return s
    r = rep(t)
    if r is not t:
        return lenof(r)
    if t.op == "compress":
        return red("sum", t.args[1])
    if t.op == "slice":
        return sub(t.args[2], t.args[1])
    if t.op == "arange":
        return sub(t.args[1], t.args[0])
    if t.op == "nonzero":
        return red("sum", t.args[0])
    if t.op == "range":
        return sub(t.args[1], t.args[0])
    if t.op == "fld" and False:
        pass
    return mk("lenof", t)


def dims_of(t):
    """number of dimensions where it is known"""
    r = rep(t)
    if r in TT.NDIMS:
        return TT.NDIMS[r]
    if r.op == "idx" and r.args[0].op == "call" and r.args[0].args[0] == "matplotlib.mlab.specgram" and r.args[1] is ONE:
        return 1
    if r.op == "idx" and r.args[0].op == "call" and r.args[0].args[0] == "matplotlib.mlab.specgram" and r.args[1] is ZERO:
        return 2
    if r.op == "full" and r.args[0].op in ("tuple", "list"):
        return len(r.args[0].args)
    if r.op == "concatn":
        return next((d for d in map(dims_of, r.args[1:]) if d), None)
    if r.op == "idx" and r.args[1].op == "tuple" and all(x.op == "sl" for x in r.args[1].args):
        return dims_of(r.args[0])
    if r.op == "red" and r.args[2].op == "num" and not r.args[3]:
        d = dims_of(r.args[1])
        return d - 1 if d else None
    if r.op in ("ite", "last"):
        a, b = dims_of(r.args[-2]), dims_of(r.args[-1])
        return a if a == b else None
    return None


def shape(t):
    t = something(t)
    if t.op == "full":
        s = t.args[0]
        if s.op == "shape":
            return s
        if s.op in ("tuple", "list"):
            return mk("tuple", *s.args)
        return mk("tuple", s)
    if t.op == "ite" and t.args[0] in SCALAR_CONDS:
        return ite(t.args[0], shape(t.args[1]), shape(t.args[2]), scalar=True)
    r = rep(t)
    if r.op == "compress":
        return mk("tuple", red("sum", r.args[1]))
    return mk("shape", r)


# ----------------------------------------------------------------- reductions
NANRED = {"nansum": "sum", "nanmean": "mean", "nanstd": "std", "nanmax": "max", "nanmin": "min",
          "nanmedian": "median", "nanvar": "var", "nanprod": "prod"}


def elements(es):
    """all elements of explicit rows"""
    out = []
    for e in es:
        v = e if e.op == "vec" else vecify(e) if any(
            y.op == "vec" for y in walk(e, into=lambda z: z.op in TT.ELEM_OPS or z.op == "poly")) else e
        out += elements(v.args) if v.op == "vec" else [e]
    return out


def without_dim(c, axis):
    """c has no dimension `axis`: the arrays in it are reduced along it"""
    for y in walk(c, into=lambda z: z.op in TT.ELEM_OPS or z.op == "poly"):
        if y.op in TT.ELEM_OPS or y.op in ("poly", "num", "bool", "str", "none") or y in TT.SCALARS:
            continue
        if y.op == "red" and y.args[2] is axis and not y.args[3]:
            continue
        return False
    return True


def red(kind, x, axis=NONE, extra=()):
    extra = tuple(sorted((k, v) for k, v in extra if not (v.op == "none") and
                         not (k == "keepdims" and v is FALSE) and not (k == "ddof" and v is ZERO)))
    if TT.LENS and axis.op == "none" and not extra and x.op != "compress" and kind in (
            "sum", "mean", "min", "max", "any"):
        L = veclen(x)
        if L.op == "num" and 0 < L.args[0] <= 16:
            es = elements([index(x, num(k)) for k in range(int(L.args[0]))])
            L = num(len(es))
            if kind in ("sum", "mean"):
                tot = ZERO
                for e in es:
                    tot = add(tot, e)
                return tot if kind == "sum" else div(tot, L)
            if kind == "any":
                return lor(*es)
            return minmax(kind, *es)
    if TT.LENS and axis.op == "none" and x.op == "compress" and not x.args[0].op == "compress":
        v = vecify(x.args[0])
        if v.op == "vec":
            if kind == "sum" and not extra:
                tot = ZERO
                for k, e in enumerate(v.args):
                    if is_bool(e):
                        e = ite(e, ONE, ZERO)
                    tot = add(tot, ite(index(x.args[1], num(k)), e, ZERO))
                return tot
            x = compress(v, x.args[1])
    if kind in NANRED and axis.op == "none":
        m = lnot(isnan(x.args[0] if x.op == "compress" else x))
        if x.op == "compress":
            return red(NANRED[kind], compress(x.args[0], land(x.args[1], m)), axis, extra)
        return red(NANRED[kind], compress(x, m), axis, extra)
    if kind in ("min", "max") and axis.op == "none" and not extra and x.op == "call" and x.args[0] in (
            "numpy.unique", "numpy.sort") and len(x.args[1]) == 1 and not x.args[2]:
        return red(kind, x.args[1][0])
    if kind == "count_nonzero":
        return red("sum", x if is_bool(x) else ne(x, ZERO), axis, extra)
    if kind in ("sum", "any") and x.op == "compress" and axis.op == "none" and not extra and is_bool(x.args[0]):
        return red(kind, land(*x.args))
    if kind == "all":
        return lnot(red("any", lnot(x), axis, extra))
    if kind == "any":
        if x is TRUE or x is FALSE:
            return x
        if x.op == "or" and not extra:
            return lor(*[red("any", y, axis) for y in x.args])
    if x.op == "ite" and axis.op == "str" and kind in ("median", "mean", "min", "max", "std", "var") and NAN in x.args[1:] \
            and without_dim(x.args[0], axis):
        # a mask that is the same along the dimension hides all of its values or none
        return ite(x.args[0], red(kind, x.args[1], axis, extra), red(kind, x.args[2], axis, extra))
    if x is NAN and axis.op == "str" and kind in ("median", "mean", "min", "max", "std", "var"):
        return NAN
    if x.op == "full":
        if kind in ("mean", "min", "max", "median") and not extra and axis.op == "none":
            return x.args[1]
    if kind in ("sum", "mean") and not is_bool(x) and not extra:
        mask = None
        y = x
        if x.op == "compress":
            y, mask = x.args
        if y.op == "poly":
            tot = ZERO
            changed = False
            parts = []
            for m, c in y.args[0]:
                sc, ar = num(c), ONE
                for b, e in m:
                    f = TT._pw(b, e)
                    if is_scalar(b) and is_scalar(e):
                        sc = mul(sc, f)
                    else:
                        ar = mul(ar, f)
                if sc is not ONE:
                    changed = True
                parts.append((sc, ar))
            if changed or len(parts) > 1:
                for sc, ar in parts:
                    a2 = compress(ar, mask) if mask is not None else ar
                    if ar is ONE:
                        if kind == "mean":
                            r = ONE
                        else:
                            r = lenof(compress(y, mask)) if mask is not None else lenof(y)
                    else:
                        r = mk("red", kind, a2, axis, extra)
                    tot = add(tot, mul(sc, r))
                return tot
    return mk("red", kind, x, axis, extra)


REDS = {"sum", "mean", "std", "var", "min", "max", "median", "any", "all", "prod", "argmax", "argmin",
        "nansum", "nanmean", "nanstd", "nanmax", "nanmin", "nanmedian", "nanvar", "amin", "amax",
        "count_nonzero", "ptp", "cumsum"}

# ------------------------------------------------------------------ indexing
ALIAS_ATTR = {"values", "data", "array", "T", "flat", "real"}
IDENT_ATTR = {"values", "data", "array"}


def norm_index(I, t, ix):
    """1-d integer index: negative constants counted from the end"""
    if ix.op == "num" and ix.args[0] < 0:
        if TT.LENS and t.op == "nonzero":
            return ix
        return add(lenof(t), ix)
    return ix


def norm_slice(I, t, lo, hi):
    lo = ZERO if lo.op == "none" else lo
    hi = lenof(t) if hi.op == "none" else hi
    if lo.op == "num" and lo.args[0] < 0:
        lo = add(lenof(t), lo)
    if hi.op == "num" and hi.args[0] < 0:
        hi = add(lenof(t), hi)
    return lo, hi


def something(t):
    """None has no members: a use of `x if c else None` is one of x"""
    while t.op == "ite" and NONE in t.args[1:]:
        t = t.args[2] if t.args[1] is NONE else t.args[1]
    return t


def fld(t, name):
    """named member: ds.name / ds["name"] / coordinate of a DataArray"""
    t = something(t)
    if t.op == "setfld":
        if t.args[1] == name:
            return t.args[2]
        return fld(t.args[0], name)
    if t.op == "setattr":
        if t.args[1] == name:
            return t.args[2]
        if t.args[1] == "index" and name not in ("columns", "shape", "dtypes", "values"):
            return mk("setattr", fld(t.args[0], name), "index", t.args[2])    # a column with its labels
        return fld(t.args[0], name)
    if t.op == "sel":
        return sel(fld(t.args[0], name), t.args[1], t.args[2]) if not any(
            d == name for d, _ in t.args[1]) else mk("fld", t, name)
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if b is NAN:
            return ite(t.args[0], fld(a, name), NAN)
        if a is NAN:
            return ite(t.args[0], NAN, fld(b, name))
        if is_const(a):
            return ite(t.args[0], a, fld(b, name))
        if is_const(b):
            return ite(t.args[0], fld(a, name), b)
        return ite(t.args[0], fld(a, name), fld(b, name))
    if t.op == "dsof":
        return fld(t.args[0], name)
    if t.op == "dict":
        for k, v in t.args[0]:
            if k.op == "str" and k.args[0] == name:
                return v
    if t.op == "call" and t.args[0] == "xarray.Dataset":
        parts = [(v, k == "coords") for k, v in t.args[2] if k in ("data_vars", "coords")]
        for part, coord in parts + [(v, i == 1) for i, v in enumerate(t.args[1])]:
            if part.op == "dict":
                for k, v in part.args[0]:
                    if k.op == "str" and k.args[0] == name:
                        if v.op == "tuple" and len(v.args) >= 2:
                            return v.args[1]
                        # labels along their own axis
                        return mk("axis", name, v) if coord else v
    if t.op == "mapstore" and t.args[5].op == "setfld":
        # rows of several variables of a dataset
        ds, K, n, ix, g, v = t.args
        fv = fld(v, name)
        base = v
        while base.op == "setfld":
            base = base.args[0]
        if fv is fld(base, name):
            return fld(ds, name)
        return mk("mapstore", fld(ds, name), K, n, ix, g, fv)
    if t.op == "sstore" and t.args[1].op == "fldpath":
        # element store into one variable of a dataset
        n, rest = t.args[1].args
        if n == name:
            return sstore(fld(t.args[0], name), rest, t.args[2])
        return fld(t.args[0], name)
    return mk("fld", t, name)


def sel(t, items, how="sel"):
    """label (sel) or position (isel) selection, pushed through elementwise code"""
    if is_const(t) or t.op in ("K",):
        return t
    if t in TT.SCALARS:
        return t
    if t.op == "sel" and t.args[2] == how:
        merged = dict(t.args[1])
        if not (set(merged) & {k for k, _ in items}):
            merged.update(dict(items))
            return mk("sel", t.args[0], tuple(sorted(merged.items())), how)
    if t.op == "full":
        return t
    if t.op == "sstore" and t.args[1].op == "selix":
        if t.args[1].args == (items, how):
            return t.args[2]
    if t.op == "setfld" and False:
        pass
    if t.op in ("poly", "and", "or", "not", "lt", "le", "isnan", "ew", "eq", "ite", "min", "max"):
        if t.op == "eq":
            return eq(sel(t.args[0], items, how), sel(t.args[1], items, how))
        if t.op == "ite" and t.args[0] in SCALAR_CONDS:
            return ite(t.args[0], sel(t.args[1], items, how), sel(t.args[2], items, how), scalar=True)
        return rebuild(t, lambda x: sel(x, items, how))
    return mk("sel", t, items, how)


def sstore(arr, ix, v):
    if arr.op == "sstore" and arr.args[1] is ix:
        arr = arr.args[0]
    if arr.op == "list" and ix.op == "tuple" and len(ix.args) == 2 and ix.args[0].op == "num" and \
            0 <= ix.args[0].args[0] < len(arr.args) and is_const(v):
        k = int(ix.args[0].args[0])
        row = arr.args[k]
        if row.op == "list":
            row = sstore(row, ix.args[1], v)
            if row.op == "list":
                return mk("list", *(arr.args[:k] + (row,) + arr.args[k + 1:]))
    if arr.op == "list" and is_const(v) and all(x.op == "num" for x in arr.args):
        n = len(arr.args)
        if ix.op == "num" and -n <= ix.args[0] < n and v.op == "num":
            k = int(ix.args[0]) % n
            return mk("list", *(arr.args[:k] + (v,) + arr.args[k + 1:]))
    return mk("sstore", arr, ix, v)


def index_key(I, ix):
    """index V -> T"""
    if ix.kind == "slice":
        return mk("sl", *[I.term(x) for x in ix.data])
    if ix.kind == "tuple":
        return mk("tuple", *[index_key(I, x) for x in ix.data])
    return I.term(ix)


def as_mask(t):
    if t.op == "nonzero":
        return t.args[0]
    if t.op == "nonzero_tuple":
        return t.args[0]
    if t.op == "tuple" and len(t.args) == 1 and t.args[0].op == "nonzero":
        return t.args[0].args[0]
    if is_bool(t):
        return t
    if t.op == "compress" and is_bool(t.args[0]):
        return t
    if t.op == "fld" or t.op == "par":
        return None
    return None


def rows_only(I, ix):
    """x[mask, :] is x[mask]"""
    if ix.kind == "tuple" and len(ix.data) > 1 and ix.data[0].kind in ("term", "obj", "view") and \
            all(full_slice(x) for x in ix.data[1:]) and as_mask(I.term(ix.data[0])) is not None:
        return ix.data[0]
    return ix


def full_slice(ix):
    return ix.kind == "slice" and all(x.kind == "term" and x.data.op == "none" for x in ix.data)


def known_len(t):
    """length in a bounded analysis"""
    if t.op == "vec":
        return len(t.args)
    if t in TT.LENS:
        return TT.LENS[t]
    if not TT.LENS:
        return None
    r = len_term(t)
    return int(r.args[0]) if r.op == "num" else None


def out_of_bounds(I, b, ix):
    if not TT.LENS or ix.kind not in ("term", "obj"):
        return False
    t = I.safe_term(b)
    i = I.safe_term(ix)
    n = len(t.args) if t.op == "vec" else TT.LENS.get(t)
    if n is None:
        return False
    for x in (i.args if i.op == "vec" else (i,)):
        if is_num(x) and x.args[0].denominator == 1 and not -n <= x.args[0] < n:
            return True
    return False


def subscript(I, b, ix, node):
    k = b.kind
    if k in ("term", "obj") and out_of_bounds(I, b, ix):
        I.do_raise("IndexError", node)
        return VT(mk("dead"))
    if k == "tuple" or k == "list":
        items = I.concrete_items(b, node)
        if items is not None:
            if ix.kind in ("term", "obj"):
                t = I.term(ix)
                if t.op == "num" and t.args[0].denominator == 1:
                    i = int(t.args[0])
                    if -len(items) <= i < len(items):
                        return items[i]
                    I.do_raise("IndexError", node)
                    return VT(mk("dead"))
            if ix.kind == "tuple" and ix.data and all(x.kind == "term" and x.data.op == "num" for x in ix.data):
                r = b
                for x in ix.data:
                    r = subscript(I, r, x, node)
                return r
            if ix.kind == "slice":
                ps = [I.term(x) for x in ix.data]
                if all(p.op in ("num", "none") for p in ps):
                    sl = slice(*[constval(p) for p in ps])
                    if k == "tuple":
                        return V("tuple", tuple(items[sl]))
                    return I.newlist([("item", x, TRUE) for x in items[sl]])
    if k == "dict":
        key = index_key(I, ix)
        d = I.heap[b.data]
        if key in d:
            I.key_log.append((I.pc, FALSE))
            return d[key]
        I.key_log.append((I.pc, land(*[ne(key, x) for x in d])))
        if 1 < len(d) <= 8 and all(x.op in ("str", "num") for x in d) and not is_const(key) and all(
                x.kind in ("obj", "term") for x in d.values()) and key.op in ("par", "str"):
            ks = list(d)
            v = d[ks[-1]]
            for x in ks[-2::-1]:
                v = I.merge_val(eq(key, x), d[x], v, I.heap, I.heap)
            return v
        return I.obj(mk("get", I.term(b), key))
    if k == "inst":
        c, fields, own = I.heap[b.data]
        if own == "nt" and ix.kind == "term" and ix.data.op == "num":
            return fields[c.fields[int(ix.data.args[0])]]
    if k == "locator":
        base, how = b.data
        return loc_read(I, base, how, ix, node)
    if k == "ext":
        return V("ext", b.data)      # typing subscripts
    t = I.term(b)
    if TT.QUERY.get("keep1d"):
        I.store_log.append((t, node, "read"))
    I.key_log.append((I.pc, None))
    I.pos_log.append((I.pc, no_such_position(I, t, ix)))
    ix = rows_only(I, ix)
    if TT.COLUMNS:
        k = index_key(I, ix)
        if t in TT.COLUMNS and k.op == "tuple" and len(k.args) == 2 and k.args[1] in (ZERO, num(-1)):
            t = mk("colflat", t)
            b = I.obj(t, I.vroots(b))
            ix = ix.data[0]
        elif t.op == "idx" and t.args[0] in TT.COLUMNS and k in (ZERO, num(-1)):
            return I.obj(column(t, "item", ()))
    roots = frozenset(content(r) for r in I.vroots(b))
    view = (b, ix)
    # boolean mask / fancy indexing
    if ix.kind in ("term", "obj", "view"):
        it = I.term(ix)
        m = as_mask(it)
        if m is not None:
            return I.obj(compress(t, m))
        if it.op == "str":
            v = I.obj(fld(t, it.args[0]), roots)
            mark_view(I, v, view)
            return v
        if it.op == "dict":
            return loc_read(I, b, "loc", ix, node)
        if it.op == "ellipsis":
            return b
        if it.op == "nonzero2":
            pass
        if t.op == "shape" and it is ZERO:
            return VT(lenof(t.args[0]))
        if t.op == "nonzero_tuple":
            if it is ZERO:
                return I.obj(mk("nonzero", t.args[0]))
        if t.op in ("tuple", "list") or not it.op == "list":
            v = I.obj(index(t, norm_index(I, t, it)), roots)
            mark_view(I, v, view)
            return v
        return I.obj(mk("idx", t, it))
    if ix.kind == "slice":
        lo, hi, st = [I.term(x) for x in ix.data]
        if full_slice(ix):
            v = I.obj(t, roots, I.dtype_of(b))
            mark_view(I, v, view)
            return v
        if st.op == "none" or st is ONE:
            if t.op == "str" and lo.op in ("num", "none") and hi.op in ("num", "none"):
                return VT(S(t.args[0][slice(constval(lo), constval(hi))]))
            lo, hi = norm_slice(I, t, lo, hi)
            v = I.obj(mkslice(t, lo, hi), roots, I.dtype_of(b))
            mark_view(I, v, view)
            return v
        if st.op == "num" and st.args[0] == -1 and lo.op == "none" and hi.op == "none":
            v = I.obj(reverse(t), roots)
            mark_view(I, v, view)
            return v
        v = I.obj(mk("idx", t, mk("sl", lo, hi, st)), roots)
        mark_view(I, v, view)
        return v
    if ix.kind == "tuple":
        # x[:, i] etc.
        key = index_key(I, ix)
        basic = all(x.kind == "slice" or (x.kind in ("term", "obj") and as_mask(I.term(x)) is None
                                          and I.term(x).op not in ("list", "nonzero"))
                    for x in ix.data)
        if all(full_slice(x) or (x.kind == "term" and x.data.op == "ellipsis") for x in ix.data):
            return b
        v = I.obj(idx2(t, key), roots if basic else frozenset())
        if basic:
            mark_view(I, v, view)
        return v
    if ix.kind in ("list",):
        items = I.concrete_items(ix, node)
        if items is not None and items and all(I.term(x).op == "str" for x in items):
            return I.obj(mk("flds", t, tuple(I.term(x).args[0] for x in items)))
        return I.obj(mk("idx", t, I.term(ix)))
    if ix.kind == "dict":
        return loc_read(I, b, "loc", ix, node)
    return I.obj(mk("idx", t, index_key(I, ix)))


FULLSL = mk("sl", NONE, NONE, NONE)


def reverse(t):
    if t.op == "reverse":
        return t.args[0]
    if t.op == "vec":
        return mk("vec", *reversed(t.args))
    return mk("reverse", t)


def x_flip(I, args, kwargs, node):
    ax = arg(args, kwargs, 1, "axis")
    t = I.term(args[0])
    if len(args) == 1 and not kwargs and (dims_of(t) == 1 or t.op == "vec") or ax is not None and I.term(ax) is ZERO:
        return I.obj(reverse(t), {content(r) for r in I.vroots(args[0])})
    return opaque(I, "numpy.flip", args, kwargs, node)


def idx2(t, key):
    """t[key] for a tuple key; drop trailing full slices; integer row then rest"""
    parts = list(key.args)
    while parts and parts[-1] is FULLSL:
        parts.pop()
    if not parts:
        return t
    if len(parts) == 1 and parts[0].op not in ("sl", "tuple"):
        return index(t, parts[0]) if t.op in (
            "par", "fld", "full", "call", "meth", "list", "tuple") else mk("idx", t, parts[0])
    if t.op == "sstore" and t.args[1] is mk("tuple", *parts):
        return t.args[2]
    if parts == [FULLSL, NONE] and dims_of(t) == 1:
        return columns([t])
    return mk("idx", t, mk("tuple", *parts))


def mkslice(t, lo, hi):
    if is_const(t) or t in TT.SCALARS:
        return t
    if t.op == "full":
        return mk("full", sub(hi, lo), t.args[1])
    if lo is ZERO and hi is lenof(t):
        return t
    if TT.LENS and lo.op == "num" and hi.op == "num":
        L = lenof(t)
        if L.op == "num" and L.args[0] <= 16:
            h = min(int(hi.args[0]), int(L.args[0]))
            return mk("vec", *[index(t, num(k)) for k in range(max(0, int(lo.args[0])), h)])
    if t.op == "slice":
        return mkslice(t.args[0], add(t.args[1], lo), add(t.args[1], hi))
    if t.op in TT.INDEX_PUSH or t.op == "eq":
        f = lambda x: x if is_scalar(x) else mkslice(x, lo, hi)
        if t.op == "eq":
            return eq(f(t.args[0]), f(t.args[1]))
        if not has_pos(t):
            if t.op == "ite" and t.args[0] in SCALAR_CONDS:
                return ite(t.args[0], f(t.args[1]), f(t.args[2]), scalar=True)
            return rebuild(t, f)
        return mk("slice", t, lo, hi)
    return mk("slice", t, lo, hi)


def has_pos(t):
    return any(x is POS for x in walk(t, into=lambda y: y.op in ELEM_OPS or y.op in ("poly",)))


def mark_view(I, v, view):
    if not hasattr(I, "viewof"):
        I.viewof = {}
    if v.kind == "obj":
        I.viewof[v.data] = view


def loc_read(I, base, how, ix, node):
    t = I.term(base)
    roots = frozenset(content(r) for r in I.vroots(base))
    items = loc_items(I, ix)
    if items is not None:
        v = I.obj(sel(t, items, "sel" if how == "loc" else "isel"), roots)
    else:
        m = as_mask(I.term(ix)) if ix.kind in ("term", "obj") else None
        if m is not None:
            return I.obj(compress(t, m))
        v = I.obj(mk("locidx", t, how, index_key(I, ix)), roots)
    mark_view(I, v, (V("locator", (base, how)), ix))
    return v


def loc_items(I, ix):
    if ix.kind == "dict":
        d = I.heap[ix.data]
        if all(k.op == "str" for k in d):
            return tuple(sorted((k.args[0], I.term(v)) for k, v in d.items()))
    return None


def store_sub(I, b, ix, v, node, eff=True):
    """b[ix] = v"""
    k = b.kind
    if k == "locator":
        base, how = b.data
        items = loc_items(I, ix)
        key = mk("selix", items, "sel" if how == "loc" else "isel") if items is not None else \
            mk("locix", how, index_key(I, ix))
        t0 = I.term(base)
        m = as_mask(I.term(ix)) if ix.kind in ("term", "obj") else None
        nt = store_mask(t0, m, I.term(v)) if m is not None else sstore(t0, key, I.term(v))
        write_through(I, base, nt, "item store", node, eff)
        return
    if k == "dict":
        key = index_key(I, ix)
        if eff:
            I.effect("write", [r for r in I.vroots(b) if not r.endswith("*")], "item store", node, (key, I.safe_term(v)))
        if v.kind in ("obj", "list", "dict"):
            kept = {"kept:" + r[7:] for r in I.roots.get(b.data, ()) if r.startswith("global:")}
            if kept:
                I.roots[v.data] = I.roots.get(v.data, frozenset()) | kept
        d = I.copied(b)
        d[key] = v
        d.maybe.pop(key, None)
        I.heap[b.data] = d
        return
    if k == "list":
        if eff:
            I.effect("write", [r for r in I.roots.get(b.data, ())], "item store", node)
        es = I.heap[b.data]
        it = I.term(ix) if ix.kind in ("term", "obj") else None
        if it is not None and it.op == "num" and all(e[0] == "item" for e in es):
            i = int(it.args[0])
            es = list(es)
            if -len(es) <= i < len(es):
                es[i] = ("item", v, TRUE)
                I.heap[b.data] = tuple(es)
                return
        I.heap[b.data] = (("item", I.obj(sstore(I.term(b), index_key(I, ix), I.term(v))), TRUE),)
        return
    if k != "obj":
        t = I.safe_term(b)
        if eff:
            I.effect("write", I.vroots(b), "item store", node)
        return
    t0 = I.heap[b.data]
    if TT.QUERY.get("keep1d"):
        I.store_log.append((t0, node, "store"))
    vt = I.safe_term(v)
    dt = I.dt.get(b.data)
    # container level: dataset["name"] = ...
    if ix.kind == "term" and ix.data.op == "str":
        if eff:
            I.effect("write", [r for r in I.vroots(b) if not r.endswith("*")], "variable store", node)
        I.heap[b.data] = mk("setfld", t0, ix.data.args[0], vt)
        prop_view(I, b, I.heap[b.data], node)
        return
    vt = I.cast(dt, v, vt)
    ix = rows_only(I, ix)
    if ix.kind == "slice" and full_slice(ix) or (
            ix.kind == "term" and ix.data.op == "ellipsis") or (
            ix.kind == "tuple" and all(full_slice(x) or (x.kind == "term" and x.data.op == "ellipsis") for x in ix.data)):
        nt = vt
        if t0.op == "full" and is_scalar(vt):
            nt = mk("full", t0.args[0], vt)
        elif is_scalar(vt):
            nt = mk("full", shape(t0), vt)
    elif ix.kind == "slice":
        lo, hi, st = [I.term(x) for x in ix.data]
        if st.op == "none":
            lo, hi = norm_slice(I, t0, lo, hi)
            nt = slice_store(t0, lo, hi, vt)
        else:
            nt = sstore(t0, index_key(I, ix), vt)
    elif ix.kind in ("term", "obj"):
        it = I.term(ix)
        m = as_mask(it)
        if m is not None:
            nt = store_mask(t0, m, vt)
        elif it.op == "dict":
            nt = sstore(t0, mk("selix", tuple(sorted((kk.args[0], x) for kk, x in it.args[0])), "sel"), vt)
        else:
            nt = sstore(t0, norm_index(I, t0, it), vt)
    elif ix.kind == "dict":
        items = loc_items(I, ix)
        nt = sstore(t0, mk("selix", items, "isel") if items is not None else index_key(I, ix), vt)
    else:
        key = index_key(I, ix)
        nt = grid_store(t0, key, vt) or sstore(t0, key, vt)
    write_through(I, b, nt, "item store", node, eff)


def grid_dims(t):
    """bounded analysis: rows and columns of an explicit two-dimensional array"""
    if t.op == "full" and t.args[0].op in ("tuple", "list") and len(t.args[0].args) == 2 and all(
            x.op == "num" and 0 < x.args[0] <= 6 for x in t.args[0].args):
        return tuple(int(x.args[0]) for x in t.args[0].args)
    if t.op == "ite":
        return grid_dims(t.args[1]) or grid_dims(t.args[2])
    if t.op == "vec" and t.args:
        for r in t.args:
            while r.op == "ite":
                r = r.args[1] if r.args[1].op in ("vec", "ite") else r.args[2]
            if r.op == "vec":
                return len(t.args), len(r.args)
    return None


def grid_el(t, i, j):
    if t.op == "ite":
        a, b = grid_el(t.args[1], i, j), grid_el(t.args[2], i, j)
        return None if a is None or b is None else ite(t.args[0], a, b, scalar=True)
    if t.op == "full":
        return t.args[1]
    if i is None:
        return t.args[j] if t.op == "vec" else t if is_scalar(t) else None
    return grid_el(t.args[i], None, j) if t.op == "vec" else t if is_scalar(t) else None


OUTSIDE = mk("par", "IndexError")       # what an array holds after a store outside of it


def grid_store(t0, key, vt):
    """bounded analysis: x[i, j] = v of an explicit two-dimensional array, element by element"""
    if not TT.LENS or key.op != "tuple" or len(key.args) != 2:
        return None
    d = grid_dims(t0)
    if d is None:
        return None
    i, j = key.args
    if i.op == "compress" and i.args[0].op != "vec":
        i = mk("compress", vecify(i.args[0]), i.args[1])
    if i.op == "compress":
        if i.args[0].op != "vec":
            return None
        m = vecify(i.args[1])
        if vt.op == "compress" and vt.args[1] is i.args[1]:
            vals = vecify(vt.args[0])
            if vals.op != "vec":
                return None
            vals = vals.args
        elif is_scalar(vt):
            vals = [vt] * len(i.args[0].args)
        else:
            return None
        if m.op != "vec" or len(m.args) != len(vals) or len(vals) != len(i.args[0].args):
            return None
        todo = list(zip(i.args[0].args, vals, m.args))
    elif is_scalar(i) or i.op in ("num", "idx", "nn", "poly", "K", "fld"):
        todo = [(i, vt, TRUE)]
    else:
        return None
    if j.op in ("vec", "compress", "sl", "tuple", "list", "rng"):
        return None
    g = [[grid_el(t0, r, c) for c in range(d[1])] for r in range(d[0])]
    if any(x is None for r in g for x in r):
        return None
    for k, v, c in todo:
        if k.op in ("vec", "compress", "sl", "tuple", "list", "rng"):
            return None
        g = [[ite(land(c, eq(k, num(a)), eq(j, num(b))), v, g[a][b], scalar=True) for b in range(d[1])]
             for a in range(d[0])]
        out = land(c, lor(*[le(num(n), x) for n, x in ((d[0], k), (d[1], j)) if x.op != "num"]))
        if out is not FALSE:
            g = [[ite(out, OUTSIDE, x, scalar=True) for x in r] for r in g]
    return mk("vec", *[mk("vec", *r) for r in g])


def slice_store(t0, lo, hi, vt):
    """t0[lo:hi] = v as a function of the position"""
    if t0.op in ("mu", "rec") or (t0.op in ("sstore",) and _base(t0).op == "mu") or _has_mu(t0):
        return sstore(t0, mk("rng", lo, hi), vt)
    n = lenof(t0)
    if TT.LENS and n.op == "num" and lo.op == "num" and hi.op == "num" and 0 < n.args[0] <= 16:
        m, l, h = int(n.args[0]), int(lo.args[0]), int(hi.args[0])
        vv = vt if is_scalar(vt) or vt in TT.SCALARS else vecify(vt)
        if vv.op in ("list", "tuple"):
            vv = mk("vec", *vv.args)
        l, h = max(0, l), min(m, h)
        if vv.op == "vec" and len(vv.args) == 1:
            vv = mk("vec", *(list(vv.args) * max(0, h - l)))
        return mk("vec", *[index(vv, num(k - l)) if l <= k < h else index(t0, num(k)) for k in range(m)])
    conds = []
    if lo is not ZERO:
        conds.append(le(lo, POS))
    if hi is not n:
        conds.append(lt(POS, hi))
    v = vt if is_scalar(vt) else index(vt, sub(POS, lo)) if lo is not ZERO else vt
    if lo is ZERO and v.op == "slice" and v.args[1] is ZERO:
        v = v.args[0]
    base = t0.args[1] if t0.op == "full" else t0
    if v.op == "slice":
        v = index(v, sub(POS, lo))
    v = unslice(v, lo)
    r = ite(land(*conds), v, base) if conds else v
    if t0.op == "full" and not conds and is_scalar(v):
        return mk("full", t0.args[0], v)
    if is_scalar(r) or t0.op == "full" and not any(x.op == "par" for x in walk(r)):
        return mk("full", t0.args[0] if t0.op == "full" else shape(t0), r)
    return r


def unslice(v, lo):
    """value written at positions lo..: replace x[a:b] by its element at POS-lo"""
    if v.op in TT.ELEM_OPS or v.op == "poly":
        if v.op == "eq":
            return eq(unslice(v.args[0], lo), unslice(v.args[1], lo))
        return rebuild(v, lambda x: unslice(x, lo))
    if v.op == "slice":
        return index(v.args[0], add(v.args[1], sub(POS, lo)))
    return v


def _base(t):
    while t.op == "sstore":
        t = t.args[0]
    return t


def _has_mu(t):
    return any(x.op == "mu" for x in walk(t, into=lambda y: y.op in ("ite", "sstore", "poly")))


def veclen(t):
    if t.op in ("poly", "ite", "ew", "min", "max", "lt", "le", "eq", "and", "or", "not", "isnan"):
        for x in walk(t, into=lambda y: y.op in TT.ELEM_OPS or y.op == "poly"):
            if x.op == "vec":
                return num(len(x.args))
            if x in TT.LENS:
                return num(TT.LENS[x])
    return lenof(t)


def vecify(t):
    """bounded analysis: an array as the tuple of its elements"""
    L = veclen(t)
    if t.op != "vec" and L.op == "num" and 0 < L.args[0] <= 16:
        return mk("vec", *[index(t, num(k)) for k in range(int(L.args[0]))])
    return t


def write_through(I, b, nt, how, node, eff=True):
    if eff:
        I.effect("write", I.vroots(b), how, node)
    if TT.LENS:
        nt = vecify(nt)
    if b.kind == "obj":
        I.heap[b.data] = nt
        prop_view(I, b, nt, node)


def prop_view(I, b, nt, node):
    view = getattr(I, "viewof", {}).get(b.data)
    if view is None:
        return
    base, ix = view
    if base.kind == "obj" and ix.kind == "term" and ix.data.op == "str":
        # ds["name"][...] = v : same storage as the dataset's variable
        I.heap[base.data] = mk("setfld", I.heap[base.data], ix.data.args[0], nt)
        prop_view(I, base, I.heap[base.data], node)
        return
    if base.kind == "ident":
        tgt = base.data
        I.heap[tgt.data] = nt
        prop_view(I, tgt, nt, node)
        return
    store_sub(I, base, ix, VT(nt), node, eff=False)


def view_term(I, v):
    raise Unsupported("view")


def write_view(I, v, t, node):
    raise Unsupported("view")


# ------------------------------------------------------------------ attributes
def ext_attr(I, mod, name):
    full = mod + "." + name
    if full in CONST:
        return VT(CONST[full])
    return V("ext", "inspect._empty" if full in EMPTY else canon(full))


EMPTY = {"inspect.Parameter.empty", "inspect.Signature.empty", "inspect._empty"}
CONST = {"numpy.nan": NAN, "numpy.NaN": NAN, "numpy.NAN": NAN, "numpy.inf": INF, "numpy.pi": PI,
         "numpy.newaxis": NONE, "math.pi": PI, "math.nan": NAN, "math.inf": INF, "scipy.pi": PI,
         "numpy.Inf": INF, "numpy.e": mk("ew", "exp", ONE), "math.e": mk("ew", "exp", ONE)}

CANON = {"numpy.core.numeric": "numpy", "numpy.lib.stride_tricks": "numpy.lib.stride_tricks"}
TYPE_FLOAT = {"builtins.float", "numpy.float64", "numpy.float32", "numpy.float16", "numpy.float_", "numpy.double",
              "numpy.floating"}
SHORT_FLOAT = {"numpy.float32": "float32", "numpy.single": "float32", "numpy.float16": "float16",
               "numpy.half": "float16"}
TYPE_BOOL = {"builtins.bool", "numpy.bool_", "numpy.bool"}
TYPE_INT = {"builtins.int", "numpy.int64", "numpy.int32", "numpy.int_", "numpy.intp", "numpy.uint8"}


def canon(full):
    for a, b in (("np.", "numpy."),):
        if full.startswith(a):
            full = b + full[len(a):]
    return full


def dtype_arg(I, v):
    if v is None:
        return None
    if v.kind == "ext":
        if TT.PRECISE and v.data in SHORT_FLOAT:
            return SHORT_FLOAT[v.data]
        if v.data in TYPE_FLOAT:
            return "float"
        if v.data in TYPE_BOOL:
            return "bool"
        if v.data in TYPE_INT:
            return "int"
        if v.data in ("builtins.object", "numpy.object_"):
            return "object"
        return None
    if v.kind == "term" and v.data.op == "dtype" and isinstance(v.extra, tuple):
        return v.extra[1]
    if v.kind == "obj":
        t = I.term(v)
        if t.op == "call" and t.args[0] == "numpy.dtype" and len(t.args[1]) == 1:
            v = VT(t.args[1][0])
    if v.kind == "term" and v.data.op == "str":
        s = v.data.args[0]
        if TT.PRECISE and s in ("float32", "f4", "float16", "f2"):
            return "float16" if s in ("float16", "f2") else "float32"
        if s.startswith("float") or s in ("f8", "f4", "f", "d"):
            return "float"
        if s.startswith("bool") or s == "?":
            return "bool"
        if s.startswith("int"):
            return "int"
        if s.startswith(("M8", "<M8", "=M8")):
            return "datetime64" + s[s.index("M8") + 2:]
        return s
    return None


def convert(t, dt):
    """value conversion of an elementwise term to dtype"""
    if t.op in ("list", "vec") and not any(x.op in ("guarded", "star") for x in t.args):
        return mk(t.op, *[mk("seg", *x.args[:3], convert(x.args[3], dt)) if x.op == "seg" else convert(x, dt) for x in t.args])
    if dt == "bool":
        if is_bool(t):
            return t
        return ne(t, ZERO) if t.op not in ("num", "nan") else (TRUE if t.op == "nan" or t.args[0] else FALSE)
    if dt == "int":
        return t if integral(t) else trunc(t)
    if isinstance(dt, str) and dt.startswith("datetime64"):
        return mk("ew", dt, t)
    if dt in ("float32", "float16"):
        return t if is_const(t) or integral(t) else mk("ew", "to" + dt, t)
    if isinstance(dt, str) and dt not in ("float", "object", "complex", "str"):
        return mk("ew", "astype_" + dt, t)
    return t


def integral(t):
    """whole-numbered whatever the inputs are"""
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op in ("lenof", "K", "pos", "rangelen", "ndim") or is_bool(t):
        return True
    if t.op == "red":
        x = t.args[1].args[0] if t.args[1].op == "compress" else t.args[1]
        return t.args[0] in ("sum", "count", "argmax", "argmin") and (t.args[0] != "sum" or integral(x))
    if t.op == "ite":
        return integral(t.args[1]) and integral(t.args[2])
    if t.op == "ew":
        return t.args[0] in ("trunc", "floor", "ceil")
    if t.op == "poly":
        return all(c.denominator == 1 and all(
            e.op == "num" and e.args[0].denominator == 1 and e.args[0] > 0 and integral(b) for b, e in m)
            for m, c in t.args[0])
    return False


def trunc(t):
    if t.op == "num":
        return num(int(t.args[0]))
    return mk("ew", "trunc", t)


METHOD_ATTRS = None


def get_attr(I, b, name, node):
    if b.kind in ("term", "obj"):
        t = I.term(b)
        if name in IDENT_ATTR:
            if b.kind == "term":
                return b
            v = I.obj(t, {content(r) for r in I.vroots(b)}, I.dtype_of(b))
            mark_view(I, v, (V("ident", b), None))
            return v
        if name in ("loc", "iloc"):
            return V("locator", (b, name))
        if name == "at" or name == "iat":
            return V("locator", (b, "loc" if name == "at" else "iloc"))
        if name == "shape":
            return VT(shape(t))
        if name == "size":
            return VT(lenof(t))
        if name == "ndim":
            if rep(t) in TT.NDIMS:
                return VT(num(TT.NDIMS[rep(t)]))
            return VT(mk("ndim", rep(t)))
        if name == "T":
            return I.obj(transposed(t), {content(r) for r in I.vroots(b)})
        if name == "dtype":
            r = VT(mk("dtype", t))
            r.extra = ("dtype", I.dtype_of(b))
            return r
        if name in ("dayofyear", "day_of_year"):
            return VT(mk("meth", t, "strftime", (S("%j"),), ()))
        if name == "real" or name == "imag":
            return I.obj(mk("ew", name, t), {content(r) for r in I.vroots(b)})
        if name in METHODS:
            return V("bmeth", (b, name))
        # a member of an opaque object: an attribute or a method, decided at the call
        return V("bmeth", (b, name), "attr") if _is_call_target(node) else \
            attr_value(I, b, t, name)
    if b.kind == "dict" and name in ("items", "values", "keys"):
        return V("bmeth", (b, name))
    return V("bmeth", (b, name))


def attr_value(I, b, t, name):
    v = I.obj(fld(t, name), I.vroots(b))
    mark_view(I, v, (b, VT(S(name))))
    return v


def _is_call_target(node):
    p = getattr(node, "_parent", None)
    return isinstance(p, ast.Call) and p.func is node


# --------------------------------------------------------------- external calls
EW1 = {"exp": "exp", "log": "log", "log10": "log10", "log2": "log2", "log1p": "log1p", "expm1": "expm1",
       "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "arcsin", "arccos": "arccos",
       "arctan": "arctan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "abs": "abs",
       "absolute": "abs", "fabs": "abs", "floor": "floor", "ceil": "ceil", "rint": "rint",
       "round": "round", "around": "round", "sign": "sign", "trunc": "trunc", "fix": "trunc",
       "conj": "conj", "real": "real", "imag": "imag", "asin": "arcsin", "acos": "arccos",
       "atan": "arctan", "isinf": "isinf", "isfinite": "isfinite", "angle": "angle",
       "nan_to_num": "nan_to_num", "cbrt": "cbrt"}
EW2 = {"arctan2": "arctan2", "atan2": "arctan2", "hypot": "hypot", "mod": "mod", "remainder": "mod",
       "fmod": "fmod", "copysign": "copysign", "floor_divide": "floordiv"}

IDENT_FN = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.ascontiguousarray",
            "numpy.squeeze", "numpy.require", "numpy.asfarray"}
TRANSPARENT_ITER = {"tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.notebook.tqdm", "tqdm.trange", "tqdm.std.tqdm"}

KNOWN_CALLS = {
    "builtins.str", "pathlib.Path.cwd", "pathlib.Path.home", "os.getpid", "os.getcwd",
    "xarray.apply_ufunc", "numpy.interp", "scipy.interpolate.interp1d", "numpy.linspace", "numpy.logspace", "numpy.meshgrid",
    "numpy.arange", "numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.append",
    "numpy.repeat", "numpy.roll", "numpy.reshape", "numpy.corrcoef", "numpy.percentile", "numpy.unique",
    "numpy.sort", "numpy.argsort", "numpy.hamming", "scipy.spatial.cKDTree", "scipy.spatial.KDTree",
    "pykrige.OrdinaryKriging", "pykrige.ok.OrdinaryKriging", "xarray.concat", "xarray.Dataset",
    "xarray.DataArray", "xarray.merge", "pandas.DataFrame", "pandas.to_datetime", "h5py.File",
    "numpy.lib.stride_tricks.sliding_window_view", "shapely.geometry.LineString",
    "shapely.geometry.Point", "shapely.ops.unary_union", "shapely.unary_union",
    "matplotlib.mlab.specgram", "numpy.diff", "numpy.cumsum", "numpy.nonzero", "pathlib.Path", "pathjoin",
    "hashlib.md5", "urllib.request.urlretrieve", "torch.tensor", "torch.no_grad", "torch.device",
    "torch.utils.data.DataLoader", "torch.jit.load", "torch.cuda.is_available", "numpy.array_equal",
    "sklearn.preprocessing.StandardScaler", "numpy.mod", "numpy.nanpercentile", "numpy.quantile",
    "numpy.ones_like", "numpy.empty_like", "numpy.clip", "numpy.tile", "numpy.broadcast_to",
    "numpy.gradient", "numpy.convolve", "numpy.flip", "numpy.searchsorted", "numpy.digitize",
    "pickle.load", "builtins.open", "builtins.sorted", "builtins.set", "builtins.sum", "numpy.trapz",
    "poligrain.spatial.calc_intersect_weights", "importlib.resources.files", "os.path.join",
    "numpy.column_stack", "numpy.row_stack", "numpy.dstack", "numpy.union1d", "numpy.transpose",
    "pandas.DatetimeIndex", "pandas.Series", "shapely.geometry.MultiPoint", "numpy.identity", "numpy.eye",
    "pandas.Timestamp", "pandas.Timedelta", "numpy.timedelta64", "numpy.datetime64",
    "builtins.str", "builtins.repr", "os.replace", "os.rename", "shutil.move",
}


def arg(args, kwargs, i, name, default=None):
    if name in kwargs:
        return kwargs[name]
    if i is not None and i < len(args):
        return args[i]
    return default


FLATTENERS = {"ravel", "flatten", "squeeze", "reshape", "item"}


def column(t, name, ts):
    """an array of shape (n, 1) without its second axis; one row of it as a number"""
    if t.op == "idx" and t.args[0] in TT.COLUMNS:
        return index(mk("colflat", t.args[0]), t.args[1])
    if t not in TT.COLUMNS or name == "item":
        return None
    if name == "reshape" and not (len(ts) == 1 and (ts[0].op not in ("tuple", "list") or len(ts[0].args) == 1)):
        return None
    return mk("colflat", t)


MAKERS = {"numpy.array", "numpy.copy", "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d"}


UFUNC_BASES = ("numpy", "scipy.special")
OVERWRITES = ("overwrite_input", "overwrite_x", "overwrite_a", "overwrite_b", "overwrite_data")
OWN_METH = ("numpy.ndarray", "builtins.list", "builtins.dict", "builtins.set", "pandas.DataFrame", "pandas.Series",
            "xarray.DataArray", "xarray.Dataset", "torch.Tensor")


def is_ufunc(name):
    base, _, last = name.rpartition(".")
    return base in UFUNC_BASES and (last in UF2 or last in EW2 or last in UF1 or last in EW1 and last not in NOT_UFUNC)


UF1 = {"negative", "positive", "sqrt", "square", "reciprocal", "radians", "deg2rad", "degrees", "rad2deg", "isnan",
       "logical_not", "invert", "conjugate", "exp2", "spacing", "signbit", "abs", "absolute"}


NOT_UFUNC = {"nan_to_num", "round", "around", "isneginf", "isposinf", "fix", "sinc", "real", "imag", "angle"}


def into(I, out, r, where, node):
    """f(..., out=x[, where=m]): the result goes into x, where m is false x stays as it was"""
    if out.kind == "tuple" and len(out.data) == 1:
        out = out.data[0]
    t = I.safe_term(r)
    if where is not None:
        t = ite(I.boolish(I.term(where)), t, I.safe_term(out))
    write_through(I, out, t, "out= argument", node)
    return out


def is_none(I, v):
    return v.kind == "term" and v.data is NONE


def call_ext(I, name, args, kwargs, node):
    starred = any(a.kind == "star" for a in args) or "**" in kwargs
    base, _, last = name.rpartition(".")
    if args and not starred:
        uf = is_ufunc(name)
        if uf and "out" not in kwargs:
            n = 2 if last in UF2 or last in EW2 else 1
            if len(args) == n + 1:
                args, kwargs = args[:n], dict(kwargs, out=args[n])
        if "out" in kwargs and name != "builtins.print":
            kw = {k: v for k, v in kwargs.items() if k != "out"}
            if is_none(I, kwargs["out"]):
                return call_ext(I, name, args, kw, node)
            where = kw.pop("where", None) if uf else None
            return into(I, kwargs["out"], call_ext(I, name, args, kw, node), where, node)
        if uf and "where" in kwargs and I.safe_term(kwargs["where"]) is not TRUE:
            kw = {k: v for k, v in kwargs.items() if k != "where"}
            r = I.term(call_ext(I, name, args, kw, node))
            m = I.boolish(I.term(kwargs["where"]))
            return I.obj(ite(m, r, mk("call", "uninitialised", (r,), ())))
        for k in OVERWRITES:
            if k in kwargs and I.safe_term(kwargs[k]) is not FALSE:
                I.effect("write", I.vroots(args[1 if k == "overwrite_b" and len(args) > 1 else 0]), "%s(%s=...)" % (name, k), node)
        if base == "operator":
            if last == "setitem" and len(args) == 3:
                I.store_sub(args[0], args[1], args[2], node)
                return VT(NONE)
            if last in INPLACE_OPS or last == "delitem":
                I.effect("write", I.vroots(args[0]), name, node)
        if last == "at" and base.startswith("numpy."):
            write_through(I, args[0], mk("call", name, tuple(I.safe_term(a) for a in args), ()), name, node)
            return VT(NONE)
        if name in SETLIKE and getattr(TT.LENS.rule, "sets", False):
            return x_unique(I, args, kwargs, node)
        if base in OWN_METH and last not in ("fromkeys", "__new__", "from_dict", "from_records", "from_series"):
            return call_method(I, args[0], last, args[1:], kwargs, node)
    return call_ext0(I, name, args, kwargs, node)


SETLIKE = {"builtins.dict.fromkeys", "builtins.set", "builtins.sorted", "builtins.frozenset", "pandas.unique"}
INPLACE_OPS = {"iadd", "isub", "imul", "itruediv", "ifloordiv", "ipow", "imod", "iand", "ior", "ixor", "ilshift",
               "irshift", "imatmul", "iconcat"}


def call_ext0(I, name, args, kwargs, node):
    if (TT.COLUMNS or TT.NDIMS) and name.rpartition(".")[2] in FLATTENERS | {"float"} and args and \
            args[0].kind in ("obj", "term", "view"):
        t = I.term(args[0])
        ts = [I.term(a) for a in args[1:]]
        r = column(t, name.rpartition(".")[2], ts)
        if r is None and TT.NDIMS.get(t) == 1 and (len(ts) == 0 or ts[0].op not in ("tuple", "list")):
            r = t
        if r is not None:
            return I.obj(r)
    if any(a.kind == "star" for a in args) or "**" in kwargs:
        return opaque(I, name, args, kwargs, node)
    if TT.QUERY.get("keep1d") and name in MAKERS:
        return opaque(I, name, args, kwargs, node)
    h = EXT.get(name)
    if h is not None:
        return h(I, args, kwargs, node)
    base, _, last = name.rpartition(".")
    if base in ("numpy", "math", "xarray.ufuncs", "cmath", "torch.special", "numpy.ma", "scipy.special"):
        if last in EW1 and len(args) >= 1:
            return np_ew1(I, last, args, kwargs, node)
        if last in EW2 and len(args) == 2:
            return I.obj(ew(EW2[last], I.term(args[0]), I.term(args[1])))
    if base == "numpy" and last in REDS:
        return np_red(I, last, args, kwargs, node)
    if base == "numpy" and last in UF2:
        a, b = I.term(args[0]), I.term(args[1])
        return I.val(UF2[last](a, b))
    if name in IDENT_FN:
        return ident(I, args, kwargs, node)
    if name in TRANSPARENT_ITER:
        v = arg(args, kwargs, 0, "iterable")
        I.record(name, [I.safe_term(v)], {}, node)
        return v
    return opaque(I, name, args, kwargs, node)


def _np_logical(f):
    return lambda a, b: f(a, b)


UF2 = {
    "add": add, "subtract": sub, "multiply": mul, "divide": div, "true_divide": div, "power": power,
    "float_power": power, "less": lt, "less_equal": le, "greater": gt, "greater_equal": ge,
    "equal": eq, "not_equal": ne, "logical_and": land, "logical_or": lor, "logical_xor": lxor,
    "bitwise_and": land, "bitwise_or": lor,
    "minimum": lambda a, b: minmax("min", a, b), "maximum": lambda a, b: minmax("max", a, b),
    "fmin": lambda a, b: mk("fmin", *sorted((a, b), key=lambda t: t.skey)),
    "fmax": lambda a, b: mk("fmax", *sorted((a, b), key=lambda t: t.skey)),
}


# parameter names (with defaults) of calls that are compared as a whole
SIGS = {
    "pykrige.OrdinaryKriging": "x y z variogram_model='linear' variogram_parameters=None variogram_function=None "
                               "nlags=6 weight=False anisotropy_scaling=1 anisotropy_angle=0 verbose=False "
                               "enable_plotting=False enable_statistics=False coordinates_type='euclidean' "
                               "exact_values=True pseudo_inv=False pseudo_inv_type='pinv'",
    "numpy.lib.stride_tricks.sliding_window_view": "x window_shape axis=None",
    ".diff": "dim n=1 label='upper'",
    "torch.utils.data.DataLoader": "dataset batch_size=1 shuffle=False sampler=None batch_sampler=None num_workers=0 "
                                   "collate_fn=None pin_memory=False drop_last=False",
    ".buffer": "distance quad_segs=16 cap_style='round' join_style='round' mitre_limit=5.0 single_sided=False",
    ".corr": "other method='pearson' min_periods=None",
    ".predict": "x batch_size=None verbose='auto' steps=None callbacks=None",
    ".execute": "style xpoints ypoints mask=None backend='vectorized' n_closest_points=None",
    "matplotlib.mlab.specgram": "x NFFT=None Fs=None detrend=None window=None noverlap=None pad_to=None sides=None "
                                "scale_by_freq=None mode=None",
    "xarray.concat": "objs dim data_vars='all' coords='different' compat='equals'",
    "xarray.merge": "objects compat='no_conflicts' join='outer'",
    "xarray.DataArray": "data coords=None dims=None name=None attrs=None",
    "xarray.Dataset": "data_vars=None coords=None attrs=None",
    "pandas.DataFrame": "data=None index=None columns=None dtype=None copy=None",
    "pandas.Series": "data=None index=None dtype=None name=None copy=None",
    "h5py.File": "name mode='r' driver=None",
    "builtins.open": "file mode='r' buffering=-1 encoding=None errors=None newline=None closefd=True opener=None",
    "torch.jit.load": "f map_location=None _extra_files=None",
    "pandas.to_datetime": "arg errors='raise' dayfirst=False yearfirst=False utc=False format=None exact=True unit=None",
    "scipy.spatial.cKDTree": "data leafsize=16 compact_nodes=True copy_data=False balanced_tree=True boxsize=None",
    "urllib.request.urlretrieve": "url filename reporthook=None data=None",
}
QUIET = {".predict": ("verbose",)}       # options that only change what is printed
_SIG = {}


def sig(name):
    if name not in SIGS:
        return None
    if name not in _SIG:
        out = []
        for w in SIGS[name].split(" "):
            n, _, d = w.partition("=")
            out.append((n, const(ast.literal_eval(d)) if d else None))
        _SIG[name] = out
    return _SIG[name]


def by_name(name, ts, ks):
    """arguments of a call by parameter name, without those that repeat the default"""
    s = sig(name)
    if s is None or any(x.op == "star" for x in ts) or len(ts) > len(s):
        return ts, ks
    d = dict(ks)
    for (n, _), x in zip(s, ts):
        d[n] = x
    for n in QUIET.get(name, ()):
        d.pop(n, None)
    for n, dv in s:
        if dv is not None and d.get(n) is dv:
            d.pop(n)
    return (), tuple(sorted(d.items()))


def opaque(I, name, args, kwargs, node):
    ts = tuple(I.arg_term(a) for a in args)
    ks = tuple(sorted((k, I.arg_term(v)) for k, v in kwargs.items()))
    ts, ks = by_name(name, ts, ks)
    t = mk("call", name, ts, ks)
    I.record(name, ts, dict(ks), node, t)
    if name not in KNOWN_CALLS:
        I.unknown.add(name)
    if "out" in kwargs:
        I.write_obj(kwargs["out"], t, "out= argument", node)
    r = I.obj(t)
    if name in ALIAS_RESULT:
        s = set()
        for a in list(args) + list(kwargs.values()):
            s |= {content(x) for x in I.vroots(a)}
        if s and not (kwargs.get("copy") is not None and I.term(kwargs["copy"]) is TRUE):
            I.roots[r.data] = frozenset(s)
    return r


ALIAS_RESULT = {"xarray.DataArray", "xarray.Dataset", "pandas.DataFrame", "pandas.Series", "numpy.reshape",
                "numpy.lib.stride_tricks.sliding_window_view", "numpy.broadcast_to", "numpy.transpose",
                "numpy.swapaxes", "numpy.moveaxis", "numpy.expand_dims", "numpy.broadcast_arrays", "numpy.split",
                "numpy.array_split", "numpy.hsplit", "numpy.vsplit", "numpy.dsplit", "builtins.memoryview",
                "numpy.nditer", "numpy.rollaxis", "numpy.real", "numpy.imag", "numpy.diagonal", "numpy.diag",
                "numpy.rot90", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.frombuffer",
                "numpy.lib.stride_tricks.as_strided", "torch.from_numpy", "torch.as_tensor"}


def np_ew1(I, last, args, kwargs, node):
    t = I.term(args[0])
    nm = EW1[last]
    if nm == "isinf":
        if t.op in ("num", "bool"):
            return VT(FALSE)
        return I.obj(mk("isinf", t) if t.op != "compress" else compress(mk("isinf", t.args[0]), t.args[1]))
    if nm == "isfinite":
        return I.obj(mk("isfinite", t) if t.op != "compress" else compress(mk("isfinite", t.args[0]), t.args[1]))
    if nm == "nan_to_num":
        fill = kwargs.get("nan")
        ft = I.term(fill) if fill is not None else ZERO
        r = ite(isnan(t), ft, t)
        if "copy" in kwargs and I.term(kwargs["copy"]) is FALSE:
            I.write_obj(args[0], r, "nan_to_num(copy=False)", node)
        return I.obj(r)
    r = ew(nm, t) if len(args) == 1 or nm != "round" else mk("ew", "round", t, I.term(args[1]))
    if "out" in kwargs:
        I.write_obj(kwargs["out"], r, "out= argument", node)
        return kwargs["out"]
    return I.val(r)


def np_red(I, last, args, kwargs, node):
    v = arg(args, kwargs, 0, "a")
    t = I.term(v)
    ax = arg(args, kwargs, 1, "axis")
    axt = I.term(ax) if ax is not None else NONE
    kind = {"amin": "min", "amax": "max"}.get(last, last)
    extra = [(k, I.safe_term(x)) for k, x in kwargs.items() if k not in ("axis", "a", "dtype")]
    if kind in ("any", "all") and not is_bool(t):
        t = I.boolish(t)
    if kind in ("min", "max") and t.op in ("list", "tuple") and axt.op == "none" and t.args and not any(
            x.op in ("seg", "guarded") for x in t.args):
        return I.val(minmax(kind, *t.args))
    return I.val(red(kind, t, axt, extra))


def ident(I, args, kwargs, node):
    v = arg(args, kwargs, 0, "a")
    dt = dtype_arg(I, arg(args, kwargs, 1, "dtype"))
    if v.kind in ("list", "tuple"):
        return I.obj(convert(I.term(v), dt))
    if v.kind in ("term",):
        return VT(convert(v.data, dt)) if dt else v
    t = convert(I.term(v), dt)
    if dt is None:
        # same storage
        return v
    r = I.obj(t, {content(x) for x in I.vroots(v)} if dt in ("float", None) or True else (), dt)
    if t is I.term(v):
        mark_view(I, r, (V("ident", v), None))
    return r


def x_isnan(I, args, kwargs, node):
    t = I.term(args[0])
    return I.val(isnan(t))


def x_where(I, args, kwargs, node):
    c = arg(args, kwargs, 0, "cond") or kwargs.get("condition")
    x, y = arg(args, kwargs, 1, "x"), arg(args, kwargs, 2, "y")
    ct = I.boolish(I.term(c))
    if x is None:
        return I.obj(mk("nonzero_tuple", ct))
    return I.obj(ite(ct, I.term(x), I.term(y)))


def x_nonzero(I, args, kwargs, node):
    return I.obj(mk("nonzero_tuple", I.boolish(I.term(args[0]))))


def x_flatnonzero(I, args, kwargs, node):
    return I.obj(mk("nonzero", I.boolish(I.term(args[0]))))


def plain_points(t):
    """coordinates as nested tuples"""
    return mk("tuple", *[plain_points(x) for x in t.args]) if t.op in ("list", "tuple") and not any(
        x.op in ("seg", "guarded", "star") for x in t.args) else t


def x_geometry(name):
    def f(I, args, kwargs, node):
        ts = [I.term(a) for a in args]
        if name == "Point" and len(ts) in (2, 3):
            ts = [mk("tuple", *ts)]
        r = mk("call", "shapely.geometry." + name, tuple(plain_points(t) for t in ts),
               tuple(sorted((k, I.arg_term(v)) for k, v in kwargs.items())))
        I.record("shapely.geometry." + name, r.args[1], dict(r.args[2]), node, r)
        return I.obj(r)
    return f


def x_unary_union(I, args, kwargs, node):
    return opaque(I, "shapely.ops.unary_union", args, kwargs, node)


TT.HOOKS.update(red=red, slice=mkslice)


def x_nanargmin(I, args, kwargs, node):
    if len(args) != 1 or kwargs:
        return opaque(I, "numpy.nanargmin", args, kwargs, node)
    t = I.term(args[0])
    return I.val(index(mk("nonzero", eq(t, red("nanmin", t))), ZERO))


def x_argwhere(I, args, kwargs, node):
    return I.obj(mk("argwhere", I.boolish(I.term(args[0]))))


def x_sqrt(I, args, kwargs, node):
    return I.val(power(I.term(args[0]), num(Fraction(1, 2))))


def x_square(I, args, kwargs, node):
    return I.val(power(I.term(args[0]), num(2)))


def x_radians(I, args, kwargs, node):
    return I.val(mul(I.term(args[0]), div(PI, num(180))))


def x_degrees(I, args, kwargs, node):
    return I.val(mul(I.term(args[0]), div(num(180), PI)))


def x_reciprocal(I, args, kwargs, node):
    return I.val(div(ONE, I.term(args[0])))


def like(fill):
    def f(I, args, kwargs, node):
        a = arg(args, kwargs, 0, "a") or kwargs.get("other")
        fv = fill
        dpos = 1
        if fill is None:
            fv = I.term(arg(args, kwargs, 1, "fill_value"))
            dpos = 2
        dt = dtype_arg(I, arg(args, kwargs, dpos, "dtype"))
        if arg(args, kwargs, dpos, "dtype") is None:
            dt = I.dtype_of(a)
        t = I.term(a)
        fv2 = fv if fv is not None else mk("uninit")
        if dt == "bool" and fv2.op == "num":
            fv2 = TRUE if fv2.args[0] else FALSE
        fv2 = I.cast(dt, None, fv2)
        return I.obj(mk("full", shape(t), fv2), (), dt)
    return f


def filled(fill):
    def f(I, args, kwargs, node):
        s = arg(args, kwargs, 0, "shape")
        dpos = 1
        fv = fill
        if fill is None:
            fv = I.term(arg(args, kwargs, 1, "fill_value"))
            dpos = 2
        dv = arg(args, kwargs, dpos, "dtype")
        dt = dtype_arg(I, dv)
        if dt == "bool" and fv.op == "num":
            fv = TRUE if fv.args[0] else FALSE
        if dv is None:
            dt = "float" if fill is not None else I.dtype_of(arg(args, kwargs, 1, "fill_value"))
        st = I.term(s)
        if st.op == "list":
            st = mk("tuple", *st.args)
        if st.op == "tuple" and len(st.args) == 1:
            st = st.args[0]
        if st.op == "lenof":
            st = mk("shape", st.args[0])
        return I.obj(mk("full", st, fv), (), dt)
    return f


def x_logspace(I, args, kwargs, node):
    if len(args) > 3 or set(kwargs) - {"num", "start", "stop", "endpoint"}:
        return opaque(I, "numpy.logspace", args, kwargs, node)
    return I.obj(TT.power(num(10), I.term(opaque(I, "numpy.linspace", args, kwargs, node))), (), "float")


def x_array(I, args, kwargs, node):
    v = arg(args, kwargs, 0, "object")
    dt = dtype_arg(I, arg(args, kwargs, 1, "dtype"))
    t = convert(I.term(v), dt)
    if dt is None and v.kind in ("list", "tuple") and any(
            isinstance(x, V) and x.kind == "term" and x.extra == "float"
            for x in (I.heap[v.data] if v.kind == "list" else v.data)):
        dt = "float"
    if t.op == "list":
        pass
    cp = kwargs.get("copy")
    roots = ()
    if cp is not None and I.term(cp) is not TRUE:
        roots = {content(x) for x in I.vroots(v)}
    return I.obj(t, roots, dt or (I.dtype_of(v) if v.kind == "obj" else None))


def x_copy(I, args, kwargs, node):
    v = args[0]
    return I.obj(I.term(v), (), I.dtype_of(v))


def x_isin(I, args, kwargs, node):
    t = I.term(arg(args, kwargs, 0, "element"))
    items = I.concrete_items(arg(args, kwargs, 1, "test_elements"), node)
    r = None
    if items is not None:
        ts = [I.term(x) for x in items]
        if all(is_const(x) for x in ts):
            r = lor(*[eq(t, x) for x in ts])
    if r is None:
        r = mk("isin", t, I.term(arg(args, kwargs, 1, "test_elements")))
    if kwargs.get("invert") is not None and I.term(kwargs["invert"]) is TRUE:
        r = lnot(r)
    return I.val(r)


def x_clip(I, args, kwargs, node):
    t = I.term(args[0])
    lo = arg(args, kwargs, 1, "a_min") or kwargs.get("min")
    hi = arg(args, kwargs, 2, "a_max") or kwargs.get("max")
    if lo is not None and I.term(lo).op != "none":
        t = minmax("max", t, I.term(lo))
    if hi is not None and I.term(hi).op != "none":
        t = minmax("min", t, I.term(hi))
    if "out" in kwargs:
        I.write_obj(kwargs["out"], t, "out= argument", node)
    return I.val(t)


def x_dot(I, args, kwargs, node):
    a, b = I.term(args[0]), I.term(args[1])
    if TT.LENS:
        n = [known_len(t) for t in (a, b)]
        if None not in n and n[0] != n[1] and not is_scalar(a) and not is_scalar(b):
            I.do_raise("ValueError", node)
            return VT(mk("dead"))
    return I.val(red("sum", mul(a, b)))


def x_arange(I, args, kwargs, node):
    ts = [I.term(a) for a in args]
    for nm, i in (("start", 0), ("stop", 1), ("step", 2)):
        if nm in kwargs:
            while len(ts) <= i:
                ts.append(NONE)
            ts[i] = I.term(kwargs[nm])
    if len(ts) == 1:
        ts = [ZERO] + ts
    if len(ts) == 2 or ts[2] is ONE:
        if ts[0].op == "num" and ts[0].args[0].denominator == 1:
            return I.obj(mk("arange", ts[0], ts[1]))
    return I.obj(mk("call", "numpy.arange", tuple(ts), ()))


def I_axis0(I, kwargs):
    if "axis" not in kwargs:
        return True
    a = I.term(kwargs["axis"])
    return a.op == "none" or a.op == "num" and a.args[0] in (0, -1)


def x_roll(I, args, kwargs, node):
    t = I.term(args[0])
    k = I.term(arg(args, kwargs, 1, "shift"))
    tv = vecify(t) if TT.LENS else t
    if tv.op == "vec" and k.op == "num" and k.args[0].denominator == 1 and I_axis0(I, kwargs):
        m, kk = len(tv.args), int(k.args[0])
        return I.obj(mk("vec", *[tv.args[(j - kk) % m] for j in range(m)]))
    if "axis" in kwargs or k.op != "num" or abs(k.args[0]) != 1:
        return I.obj(mk("call", "numpy.roll", (t, k), ()))
    n = lenof(t)
    if k.args[0] == 1:
        return I.obj(ite(eq(POS, ZERO), index(t, sub(n, ONE)), index(t, sub(POS, ONE))))
    return I.obj(ite(eq(POS, sub(n, ONE)), index(t, ZERO), index(t, add(POS, ONE))))


def x_len(I, args, kwargs, node):
    v = args[0]
    if v.kind in ("tuple",):
        return VT(num(len(v.data)))
    if v.kind == "list":
        es = I.heap[v.data]
        if all(e[0] == "item" and e[2] is TRUE for e in es):
            return VT(num(len(es)))
    if v.kind == "dict":
        return VT(num(len(I.heap[v.data])))
    t = I.term(v)
    if t.op in ("num", "bool", "nan"):
        I.do_raise("TypeError", node)
        return VT(mk("dead", "len of a number"))
    return VT(len_term(t))


def len_term(t):
    if t.op == "ite" and t.args[0] in TT.SCALAR_CONDS and any(x.op in ("tuple", "list", "ite") for x in t.args[1:]):
        return ite(t.args[0], len_term(t.args[1]), len_term(t.args[2]), scalar=True)
    return lenof(t)


def x_range(I, args, kwargs, node):
    ts = [I.term(a) for a in args]
    if len(ts) == 1:
        ts = [ZERO, ts[0], ONE]
    elif len(ts) == 2:
        ts = ts + [ONE]
    return V("range", tuple(ts))


def x_zip(I, args, kwargs, node):
    return V("zip", tuple(args))


def x_enumerate(I, args, kwargs, node):
    s = arg(args, kwargs, 1, "start")
    return V("enumerate", (args[0], I.term(s) if s is not None else ZERO))


def x_list(I, args, kwargs, node):
    if not args:
        return I.newlist()
    items = I.concrete_items(args[0], node)
    if items is not None:
        return I.newlist([("item", x, TRUE) for x in items])
    if args[0].kind == "list":
        return I.newlist(I.heap[args[0].data])
    if args[0].kind == "zip" and len(args[0].data) > 1 and all(v.kind in ("term", "obj") for v in args[0].data):
        return I.obj(columns([I.term(v) for v in args[0].data]))
    K = mk("K", I.loopdepth + 1)
    el, n = I.generic_item(args[0], K, node)
    return I.newlist([("seg", K, n, TRUE, I.term(el))])


def mapping(t):
    """groups of an HDF5 file: iterating them gives their names"""
    while t.op in ("idx", "fld"):
        t = t.args[0]
    return t.op == "call" and t.args[0] == "h5py.File"


def columns(ts):
    """the table with these columns, however it is put together"""
    return mk("call", "numpy.column_stack", (mk("tuple", *ts),), ())


def x_column_stack(I, args, kwargs, node):
    items = I.concrete_items(args[0], node)
    if items is None or kwargs:
        return opaque(I, "numpy.column_stack", args, kwargs, node)
    ts = [I.term(x) for x in items]
    if any(two_d(t) for t in ts):
        return I.obj(joined(ONE, ts))
    return I.obj(columns(ts))


def transposed(t):
    if t.op == "transpose":
        return t.args[0]
    if t.op == "list" and len(t.args) > 1 and not any(x.op in ("seg", "guarded", "star", "list", "tuple") or is_scalar(x) for x in t.args):
        return columns(list(t.args))
    if t.op == "list" and len(t.args) == 1 and dims_of(t.args[0]) == 1:
        return columns(t.args)
    if t.op == "call" and t.args[0] == "numpy.atleast_2d" and len(t.args[1]) == 1 and dims_of(t.args[1][0]) == 1:
        return columns(t.args[1])
    if t.op == "call" and t.args[0] == "numpy.reshape" and len(t.args[1]) == 2 and not t.args[2] and t.args[1][1].op == "reverse":
        return mk("call", "numpy.reshape", (t.args[1][0], t.args[1][1].args[0]), (("order", S("F")),))
    if t.op in ("concat2d", "stack") and t.args[0] is ZERO and len(t.args) > 2:
        return columns(list(t.args[1:]))
    return mk("transpose", t)


def x_reshape(I, args, kwargs, node):
    kw = dict(kwargs)
    t = I.term(args[0]) if args else I.term(kw.pop("a", None) or kw.pop("arr"))
    sh = args[1] if len(args) > 1 else kw.pop("newshape", None) or kw.pop("shape", None)
    if len(args) > 2:
        kw["order"] = args[2]
    return reshape(I, args[0], t, I.term(sh), kw, node)


def x_atleast_2d(I, args, kwargs, node):
    t = I.term(args[0]) if len(args) == 1 and not kwargs else None
    if t is not None and t.op == "vec" and t.args:
        if all(x.op == "vec" for x in t.args):
            return args[0]
        if all(x.op in ("num", "nn") or is_scalar(x) for x in t.args):
            return I.obj(mk("vec", t))
    return opaque(I, "numpy.atleast_2d", args, kwargs, node)


def no_such_position(I, t, ix):
    """condition under which t[ix] fails (None: not known)"""
    if t.op == "nonzero_tuple" or t.op in ("par", "fld", "dict") and ix.kind not in ("term", "obj"):
        return FALSE
    i = I.safe_term(ix) if ix.kind in ("term", "obj") else None
    if i is not None and i.op == "str":
        return FALSE
    if t.op == "nonzero" and i is not None and (i is ZERO or i is num(-1)):
        return lnot(red("any", t.args[0]))
    return None


def x_unique(I, args, kwargs, node):
    if len(args) == 1 and not kwargs and getattr(TT.LENS.rule, "sets", False):
        v = vecify(I.term(args[0]))       # what is done for each element: doing it twice changes nothing
        if v.op == "vec":
            return I.obj(v)
    return opaque(I, "numpy.unique", args, kwargs, node)


def x_ravel(I, args, kwargs, node):
    kw = dict(kwargs)
    a = args[0] if args else kw.pop("a")
    return m_ravel(I, a, args[1:], kw, node)


def has_shape(t, sh):
    """an elementwise part of t has the shape sh (so that t has it, or is too large for it)"""
    return any(mk("shape", rep(y)) is sh for y in walk(t, into=lambda z: z.op in TT.ELEM_OPS) if not is_const(y)
               and y.op != "compress")


def reshape(I, b, t, sh, kw, node):
    if sh.op == "tuple" and len(sh.args) == 2 and all(x.op == "idx" and x.args[0].op == "shape" for x in sh.args) \
            and sh.args[0].args[0] is sh.args[1].args[0] and sh.args[0].args[1] is ZERO and sh.args[1].args[1] is ONE:
        sh = sh.args[0].args[0]
    if (sh is num(-1) or sh.op == "shape" and has_shape(t, sh)) and not kw:
        return I.obj(t, {content(x) for x in I.vroots(b)})
    if sh.op == "list":
        sh = mk("tuple", *sh.args)
    ks = tuple(sorted((k, I.safe_term(v)) for k, v in kw.items() if not (k == "order" and I.safe_term(v) is S("C"))))
    if ks == (("order", S("F")),):
        # taken apart and put together in the same order
        fs = {y: y.args[0] for y in walk(t) if y.op == "meth" and y.args[1] == "ravel" and (
            y.args[2] == (S("F"),) and not y.args[3] or y.args[3] == ks and not y.args[2])}
        if fs:
            memo = dict(fs)

            def f(y):
                if y not in memo:
                    memo[y] = TT.rebuild(y, f)
                return memo[y]
            t2 = f(t)
            if any(shape(x) is sh for x in fs.values()):
                t, ks = t2, ()
    r = mk("call", "numpy.reshape", (t, sh), ks)
    if sh is mk("tuple", num(-1), ONE) and not ks and dims_of(t) == 1:
        r = columns([t])
    I.origin_note(r, node) if hasattr(I, "origin_note") else None
    return I.obj(r, {content(x) for x in I.vroots(b)})


def m_reshape(I, b, args, kwargs, node):
    ts = [I.term(a) for a in args]
    sh = ts[0] if len(ts) == 1 else mk("tuple", *ts)
    if not ts:
        return meth_opaque(I, b, "reshape", args, kwargs, node)
    return reshape(I, b, I.term(b), sh, dict(kwargs), node)


def x_tuple(I, args, kwargs, node):
    if not args:
        return V("tuple", ())
    items = I.concrete_items(args[0], node)
    if items is not None:
        return V("tuple", tuple(items))
    return x_list(I, args, kwargs, node)


def x_dict(I, args, kwargs, node):
    d = {}
    if args:
        if args[0].kind == "dict":
            d.update(I.heap[args[0].data])
        else:
            items = I.concrete_items(args[0], node)
            if items is None or not all(x.kind == "tuple" and len(x.data) == 2 for x in items):
                return opaque(I, "builtins.dict", args, kwargs, node)
            for x in items:
                d[I.term(x.data[0])] = x.data[1]
    for k, v in kwargs.items():
        d[S(k)] = v
    return V("dict", I.loc(d))


def x_map(I, args, kwargs, node):
    f = args[0]
    cols = [I.concrete_items(a, node) for a in args[1:]]
    if all(c is not None for c in cols):
        return I.newlist([("item", I.call(f, list(xs), {}, node), TRUE) for xs in zip(*cols)])
    I.loopdepth += 1
    K = mk("K", I.loopdepth)
    try:
        els, ns = [], []
        for a in args[1:]:
            e, n = I.generic_item(a, K, node)
            els.append(e)
            ns.append(n)
        r = I.term(I.call(f, els, {}, node))
    finally:
        I.loopdepth -= 1
    return I.newlist([("seg", K, ns[0], TRUE, r)])


def x_minmax(op):
    def f(I, args, kwargs, node):
        if kwargs:
            return opaque(I, "builtins." + op, args, kwargs, node)
        if len(args) == 1:
            items = I.concrete_items(args[0], node)
            if items is None:
                return I.obj(red(op, I.term(args[0])))
            args = items
        ts = [I.term(a) for a in args]
        if all(t.op == "num" for t in ts):
            fn = min if op == "min" else max
            return VT(num(fn(t.args[0] for t in ts)))
        return I.obj(pyminmax("py" + op, *ts))
    return f


def x_abs(I, args, kwargs, node):
    return I.val(ew("abs", I.term(args[0])))


def x_float(I, args, kwargs, node):
    if not args:
        return VT(ZERO)
    t = I.term(args[0])
    if t.op == "str":
        return VT({"nan": NAN, "inf": INF}.get(t.args[0].lower(), mk("call", "float", (t,), ())))
    return VT(t)


def x_int(I, args, kwargs, node):
    t = I.term(args[0])
    return VT(convert(t, "int"))


def x_bool(I, args, kwargs, node):
    return VT(I.truth(args[0], node))


def x_complex(I, args, kwargs, node):
    a = I.term(arg(args, kwargs, 0, "real"))
    b = arg(args, kwargs, 1, "imag")
    return VT(add(a, mul(IMAG, I.term(b)))) if b is not None else VT(a)


def x_sum(I, args, kwargs, node):
    v = args[0]
    items = I.concrete_items(v, node)
    if items is not None:
        r = I.term(args[1]) if len(args) > 1 else ZERO
        for x in items:
            r = add(r, I.term(x))
        return I.val(r)
    t = I.term(v)
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "seg":
        import loopsum
        K, n, g, el = t.args[0].args
        lifted = loopsum.lift(ite(g, el, ZERO), K, n)
        if lifted is not None:
            return I.val(red("sum", lifted))
    return I.val(red("sum", t))


def x_anyall(kind):
    def f(I, args, kwargs, node):
        items = I.concrete_items(args[0], node)
        if items is not None:
            ts = [I.truth(x, node) for x in items]
            return VT(lor(*ts) if kind == "any" else land(*ts)) if ts else VT(FALSE if kind == "any" else TRUE)
        t = I.term(args[0])
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "seg":
            import loopsum
            K, n, g, el = t.args[0].args
            el = I.truth_term(el)
            e = land(g, el) if kind == "any" else lor(lnot(g), el)
            lifted = loopsum.lift(e, K, n)
            if lifted is not None:
                return VT(red(kind, lifted))
            return VT(mk("quant", kind, K, n, e))
        return VT(red(kind, I.boolish(t)))
    return f


def x_isinstance(I, args, kwargs, node):
    v = args[0]
    names = []
    ty = args[1]
    tys = ty.data if ty.kind == "tuple" else (ty,)
    for t in tys:
        if t.kind == "ext":
            names.append(t.data.replace("builtins.", ""))
        elif t.kind == "class":
            names.append(t.data.name)
        else:
            names.append("?")
    if v.kind == "term" and is_const(v.data):
        kinds = {"str": "str", "num": "num", "bool": "bool", "none": "none"}
        k = kinds.get(v.data.op)
        if k == "str":
            return VT(const("str" in names))
        if k in ("none",):
            return VT(FALSE)
    if v.kind == "list":
        return VT(const("list" in names))
    if v.kind == "tuple":
        return VT(const("tuple" in names))
    if v.kind == "dict":
        return VT(const("dict" in names))
    t = I.safe_term(v)
    return VT(lor(*[mk("isinstance", t, n) for n in names]))


def x_hasattr(I, args, kwargs, node):
    v = args[0]
    n = I.term(args[1])
    if v.kind == "inst" and n.op == "str":
        c, f, own = I.heap[v.data]
        if n.args[0] in f or I.find_method(c, n.args[0]):
            return VT(TRUE)
        if own == "sym":
            return VT(mk("hasattr", mk("self"), n.args[0]))
        return VT(FALSE)
    return VT(has_attr(I.safe_term(v), n.args[0]) if n.op == "str" and v.kind in ("obj", "term") else
              mk("hasattr", I.safe_term(v), n))


def has_attr(t, name):
    if t.op in ("num", "str", "none", "bool", "nan", "pi", "inf") and name in ("dims", "coords", "time", "variables"):
        return FALSE
    return mk("hasattr", t, S(name))


def x_apply_ufunc(I, args, kwargs, node):
    kw = {k: v for k, v in kwargs.items() if k not in ("keep_attrs", "dask", "dask_gufunc_kwargs", "on_missing_core_dim")}
    if kw.get("vectorize") is not None and I.safe_term(kw["vectorize"]) is FALSE:
        kw.pop("vectorize")
    t = I.term(opaque(I, "xarray.apply_ufunc", args, kw, node))
    ks = tuple((k, as_list(v) if k.endswith("_core_dims") else v) for k, v in t.args[2])
    return I.obj(mk("call", t.args[0], t.args[1], ks))


def as_list(t):
    if t.op in ("list", "tuple"):
        return mk("list", *[as_list(x) for x in t.args])
    if t.op == "ite":
        return ite(t.args[0], as_list(t.args[1]), as_list(t.args[2]), scalar=t.args[0] in TT.SCALAR_CONDS)
    return t


def x_dataset(I, args, kwargs, node):
    v = opaque(I, "xarray.Dataset", args, kwargs, node)
    t = I.term(v)
    ks = tuple((k, dim_names(x) if k in ("data_vars", "coords") else x) for k, x in t.args[2])
    r = I.obj(mk("call", t.args[0], t.args[1], ks))
    if v.kind == "obj" and r.kind == "obj" and v.data in I.roots:
        I.roots[r.data] = I.roots[v.data]
    return r


def dim_names(t):
    """(("time",), x) and (["time"], x) are ("time", x)"""
    if t.op == "ite":
        return ite(t.args[0], dim_names(t.args[1]), dim_names(t.args[2]), scalar=t.args[0] in TT.SCALAR_CONDS)
    if t.op != "dict":
        return t
    out = []
    for k, v in t.args[0]:
        if v.op in ("tuple", "list") and len(v.args) > 1 and v.args[0].op in ("tuple", "list", "str"):
            d = v.args[0]
            v = mk("tuple", d.args[0] if d.op != "str" and len(d.args) == 1 else
                   mk("tuple", *d.args) if d.op == "list" else d, *v.args[1:])
        out.append((k, v))
    return mk("dict", tuple(out))


def x_str(I, args, kwargs, node):
    if len(args) != 1 or kwargs or args[0].kind not in ("term", "obj"):
        return opaque(I, "builtins.str", args, kwargs, node)
    return I.val(str_term(I.term(args[0])))


def str_term(t):
    if t.op in ("str", "concat") or t.op == "call" and t.args[0] == "builtins.str":
        return t
    if t.op == "ite" and t.args[0] in TT.SCALAR_CONDS:
        return ite(t.args[0], str_term(t.args[1]), str_term(t.args[2]), scalar=True)
    return mk("call", "builtins.str", (t,), ())


def m_format(I, b, args, kwargs, node):
    t = I.term(b)
    if t.op == "str" and not kwargs and not any(a.kind == "star" for a in args):
        from interp import fill
        r = fill(t.args[0], "{}", [I.safe_term(a) for a in args])
        return None if r is None else VT(r)
    return None


def x_signature(I, args, kwargs, node):
    f = args[0]
    if f.kind == "func" and not (f.data.node.args.vararg or f.data.node.args.kwarg or f.data.self_v):
        return V("sig", f)
    return opaque(I, "inspect.signature", args, kwargs, node)


def sig_params(I, f):
    a = f.data.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    d = dict(zip([x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return [(n, I.default_value(f.data, n, d[n]) if n in d else V("ext", "inspect._empty")) for n in names]


def sig_attr(I, b, name, node):
    if b.kind == "sig":
        if name == "parameters":
            return I.newdict([(S(n), V("sigpar", (n, v))) for n, v in sig_params(I, b.data)])
        if name in ("bind", "bind_partial"):
            return V("bmeth", (b, name))
    if b.kind == "sigpar":
        if name == "default":
            return b.data[1]
        if name == "name":
            return VT(S(b.data[0]))
        if name == "kind":
            return V("ext", "inspect._POSITIONAL_OR_KEYWORD")
        if name == "empty":
            return V("ext", "inspect._empty")
    if b.kind == "bound":
        if name == "arguments":
            return b.data[1]
        if name == "args":
            return V("tuple", tuple(I.heap[b.data[1].data].values()))
        if name == "kwargs":
            return I.newdict([])
        if name == "apply_defaults":
            return V("bmeth", (b, name))
    raise Unsupported("attribute %s of a signature" % name)


def sig_method(I, b, name, args, kwargs, node):
    if b.kind == "bound":
        d = b.data[1]
        have = I.heap[d.data]
        out = {}
        for n, v in sig_params(I, b.data[0]):
            if S(n) in have:
                out[S(n)] = have[S(n)]
            elif not (v.kind == "ext" and v.data == "inspect._empty"):
                out[S(n)] = v
        I.heap[d.data] = out
        return VT(NONE)
    ps = sig_params(I, b.data)
    names = [n for n, v in ps]
    got = dict(zip(names, args))
    bad = len(args) > len(names) or any(k not in names or k in got for k in kwargs)
    got.update(kwargs)
    if name == "bind":
        bad = bad or any(n not in got and v.kind == "ext" and v.data == "inspect._empty" for n, v in ps)
    if bad:
        I.do_raise("TypeError", node)
    return V("bound", (b.data, I.newdict([(S(n), got[n]) for n in names if n in got])))


def x_getattr(I, args, kwargs, node):
    n = I.term(args[1])
    if n.op == "str":
        if len(args) == 3:
            c = x_hasattr(I, args[:2], {}, node).data
            if c is TRUE:
                return I.getattr(args[0], n.args[0], None)
            if c is FALSE:
                return args[2]
            a = I.getattr(args[0], n.args[0], None)
            if a.kind == "bmeth":
                a = I.obj(fld(I.term(args[0]), n.args[0]))
            return I.merge_val(c, a, args[2], I.heap, I.heap)
        return I.getattr(args[0], n.args[0], None)
    return opaque(I, "builtins.getattr", args, kwargs, node)


def x_setattr(I, args, kwargs, node):
    n = I.term(args[1])
    if n.op == "str":
        I.setattr(args[0], n.args[0], args[2], node)
    return VT(NONE)


def x_slice(I, args, kwargs, node):
    a = list(args)
    if len(a) == 1:
        a = [VT(NONE), a[0], VT(NONE)]
    while len(a) < 3:
        a.append(VT(NONE))
    return V("slice", tuple(a))


def x_sorted(I, args, kwargs, node):
    return opaque(I, "builtins.sorted", args, kwargs, node)


def x_print(I, args, kwargs, node):
    I.record("builtins.print", [I.safe_term(a) for a in args], {}, node)
    return VT(NONE)


def x_type(I, args, kwargs, node):
    if len(args) == 1:
        return VT(mk("typeof", I.safe_term(args[0])))
    return opaque(I, "builtins.type", args, kwargs, node)


def x_namedtuple(I, args, kwargs, node):
    nm = I.term(args[0]).args[0]
    items = I.concrete_items(args[1], node)
    if items is None:
        t = I.term(args[1])
        if t.op == "str":
            names = t.args[0].replace(",", " ").split()
        else:
            raise Unsupported("namedtuple")
    else:
        names = [I.term(x).args[0] for x in items]
    return V("class", Cls(None, I.frames[-1].mod, [], names, nm))


def x_with_metaclass(I, args, kwargs, node):
    return V("tuple", tuple(args[1:]))


def x_super(I, args, kwargs, node):
    fr = I.frames[-1]
    if fr.func is not None and fr.func.cls is not None:
        sv = fr.func.self_v or fr.env.get(fr.func.node.args.args[0].arg)
        return V("super", (fr.func.cls, sv))
    raise Unsupported("super")


def x_xr_dataarray(I, args, kwargs, node):
    """xr.DataArray(x[, coords...]): the data are x"""
    v = arg(args, kwargs, 0, "data")
    I.record("xarray.DataArray", [I.safe_term(a) for a in args],
             {k: I.safe_term(x) for k, x in kwargs.items()}, node)
    if v is None:
        return opaque(I, "xarray.DataArray", args, kwargs, node)
    t = I.term(v)
    extra = [(k, I.safe_term(x)) for k, x in kwargs.items() if k not in ("data",)]
    extra += [("arg%d" % i, I.safe_term(x)) for i, x in enumerate(args[1:], 1)]
    roots = {content(x) for x in I.vroots(v)}
    if extra:
        nm = {"arg1": "coords", "arg2": "dims", "arg3": "name"}
        extra = tuple(sorted((nm.get(k, k), x) for k, x in extra))
        return I.obj(mk("call", "xarray.DataArray", (t,), extra), roots)
    return I.obj(t, roots, I.dtype_of(v))


def x_interp1d(I, args, kwargs, node):
    names = ["x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"]
    d = {}
    for n, a in zip(names, args):
        d[n] = I.term(a)
    for k, v in kwargs.items():
        d[k] = I.safe_term(v)
    d.setdefault("kind", S("linear"))
    d.pop("assume_sorted", None)     # only affects unsorted x
    if d.get("copy") is TRUE:
        d.pop("copy")
    t = mk("interp1d", tuple(sorted(d.items())))
    I.record("scipy.interpolate.interp1d", [], d, node, t)
    return I.obj(t)


def x_np_interp(I, args, kwargs, node):
    return opaque(I, "numpy.interp", args, kwargs, node)


def x_array_equal(I, args, kwargs, node):
    return VT(TT.array_equal(I.term(args[0]), I.term(args[1])))


def x_isnull(I, args, kwargs, node):
    return I.val(isnan(I.term(args[0])))


def x_notnull(I, args, kwargs, node):
    return I.val(lnot(isnan(I.term(args[0]))))


def x_path(I, args, kwargs, node):
    ts = tuple(I.term(a) for a in args)
    if len(ts) == 1 and path_like(ts[0]):
        return args[0]
    t = mk("call", "pathlib.Path", ts[:1], ())
    for x in ts[1:]:
        t = mk("call", "pathjoin", (t, x), ())
    return I.obj(t)


def x_ospathjoin(I, args, kwargs, node):
    t = I.term(args[0])
    for a in args[1:]:
        t = mk("call", "pathjoin", (t, I.term(a)), ())
    return I.obj(t)


def x_filter(I, args, kwargs, node):
    return opaque(I, "builtins.filter", args, kwargs, node)


def x_expand(I, args, kwargs, node):
    return ident(I, args, kwargs, node)


def x_seterr(I, args, kwargs, node):
    I.record("numpy.seterr", [I.safe_term(a) for a in args], {k: I.safe_term(v) for k, v in kwargs.items()}, node)
    I.effect("global", {"global:numpy.seterr"}, "numpy.seterr", node)
    return I.obj(mk("opaque", "errstate"))


def x_errstate(I, args, kwargs, node):
    return VT(mk("errstate"))


def x_inplace_fn(pos, how):
    def f(I, args, kwargs, node):
        tgt = args[pos]
        t = mk("call", how, tuple(I.safe_term(a) for a in args),
               tuple(sorted((k, I.safe_term(v)) for k, v in kwargs.items())))
        if how == "numpy.copyto" and "where" in kwargs:
            t = store_mask(I.term(tgt), I.boolish(I.term(kwargs["where"])), I.term(args[1]))
        elif how == "numpy.copyto":
            t = I.term(args[1])
        elif how == "numpy.putmask":
            t = store_mask(I.term(tgt), I.boolish(I.term(args[1])), I.term(args[2]))
        write_through(I, tgt, t, how, node)
        return VT(NONE)
    return f


def vec_concat(ts):
    """explicit elements of the concatenation of explicit arrays"""
    if not TT.LENS:
        return None
    out = []
    for t in ts:
        if t.op in ("list", "tuple"):
            if any(x.op in ("seg", "guarded", "star") for x in t.args):
                return None
            out += list(t.args)
            continue
        t = vecify(t)
        if t.op == "full" and lenof(t).op == "num":
            out += [t.args[1]] * int(lenof(t).args[0])
            continue
        if t.op != "vec":
            return None
        out += list(t.args)
    return mk("vec", *out) if 0 < len(out) <= 32 else None


def x_append(I, args, kwargs, node):
    a, b = I.term(args[0]), I.term(args[1])
    if not kwargs and len(args) == 2:
        ts = [mk("list", x) if is_scalar(x) or x in TT.SCALARS else x for x in (a, b)]
        fl = vec_concat(ts)
        return I.obj(fl if fl is not None else mk("concatn", ZERO, *ts))
    ax = arg(args, kwargs, 2, "axis")
    if ax is not None and len(args) >= 2 and I.term(ax).op == "num":
        return I.obj(joined(I.term(ax), [a, b]))
    return opaque(I, "numpy.append", args, kwargs, node)


def two_d(t):
    """known to have two dimensions"""
    if t.op == "full":
        return t.args[0].op in ("tuple", "list") and len(t.args[0].args) == 2
    if t.op in ("concat2d", "columns"):
        return True
    if t.op == "concatn":
        return any(two_d(x) for x in t.args[1:])
    if t.op == "ite":
        return two_d(t.args[1]) or two_d(t.args[2])
    return t.op == "call" and t.args[0] == "numpy.lib.stride_tricks.sliding_window_view"


def joined(ax, ts):
    """concatenation along an axis; the other extent of a constant block is that of its neighbours"""
    out = []
    for t in ts:
        if t.op == "concatn" and t.args[0] is ax:
            out += t.args[1:]
        else:
            out.append(t)
    if ax.op == "num" and ax.args[0] in (0, 1) and any(two_d(t) and t.op != "full" for t in out):
        for i, t in enumerate(out):
            if t.op == "full" and two_d(t):
                out[i] = mk("full", mk("tuple", t.args[0].args[int(ax.args[0])]), t.args[1])
    return TT.concatn(ax, out)


def x_pad(I, args, kwargs, node):
    w = arg(args, kwargs, 1, "pad_width")
    mode = arg(args, kwargs, 2, "mode")
    cv = kwargs.get("constant_values")
    w = I.term(w) if w is not None else None
    pair = lambda x: x.op in ("tuple", "list") and len(x.args) == 2
    if w is None or set(kwargs) - {"array", "pad_width", "mode", "constant_values"} or \
            mode is not None and I.term(mode) is not S("constant"):
        return opaque(I, "numpy.pad", args, kwargs, node)
    a = I.term(arg(args, kwargs, 0, "array"))
    c = I.term(cv) if cv is not None else ZERO
    if not (c.op in ("num", "nan") and pair(w) and all(pair(x) for x in w.args) and two_d(a)):
        return opaque(I, "numpy.pad", args, kwargs, node)
    for ax, p in enumerate(w.args):
        lo, hi = p.args
        parts = [a]
        if lo is not ZERO:
            parts.insert(0, mk("full", mk("tuple", lo), c))
        if hi is not ZERO:
            parts.append(mk("full", mk("tuple", hi), c))
        if len(parts) > 1:
            a = joined(num(ax), parts)
    return I.obj(a)


def x_concatenate(I, args, kwargs, node):
    v = args[0]
    ax = arg(args, kwargs, 1, "axis")
    items = I.concrete_items(v, node)
    axt = I.term(ax) if ax is not None else ZERO
    if items is not None:
        ts = []
        for x in items:
            xt = I.term(x)
            ts.append(xt)
        fl = vec_concat(ts) if axt is ZERO or axt.op == "none" else None
        return I.obj(fl if fl is not None else joined(axt, ts))
    t = I.term(v)
    return I.obj(mk("concatn", axt, mk("star", t)))


def explicit_stack(ts, ax):
    """bounded analysis: np.stack of explicit one-dimensional arrays as rows of elements"""
    if not TT.LENS or ax.op != "num" or ax.args[0] not in (0, 1, -1):
        return None
    vs = [vecify(t) for t in ts]
    if not vs or any(v.op != "vec" or len(v.args) != len(vs[0].args) or any(x.op == "vec" for x in v.args) for v in vs):
        return None
    if ax is ZERO:
        return mk("vec", *vs)
    return mk("vec", *[mk("vec", *[v.args[k] for v in vs]) for k in range(len(vs[0].args))])


def x_stackish(kind):
    def f(I, args, kwargs, node):
        items = I.concrete_items(args[0], node)
        ax = arg(args, kwargs, 1, "axis")
        axt = I.term(ax) if ax is not None else ZERO
        if kind in ("vstack", "hstack"):
            axt = ZERO if kind == "vstack" else ONE
            op = "concat2d"
        else:
            op = "stack"
        if items is not None:
            g = explicit_stack([I.term(x) for x in items], axt) if op == "stack" else None
            if g is not None:
                return I.obj(g)
            if op == "stack" and axt.op == "num" and axt.args[0] in (1, -1):
                return I.obj(columns([I.term(x) for x in items]))
            ts = [I.term(x) for x in items]
            if op == "concat2d" and any(two_d(t) for t in ts):
                return I.obj(joined(axt, ts))
            return I.obj(mk(op, axt, *ts))
        return I.obj(mk(op, axt, mk("star", I.term(args[0]))))
    return f


def x_corrcoef(I, args, kwargs, node):
    if len(args) != 2 or kwargs:
        return opaque(I, "numpy.corrcoef", args, kwargs, node)
    x, y = I.term(args[0]), I.term(args[1])
    cov = sub(red("mean", mul(x, y)), mul(red("mean", x), red("mean", y)))
    r = I.obj(div(cov, mul(red("std", x), red("std", y))))
    return V("tuple", (V("tuple", (VT(ONE), r)), V("tuple", (r, VT(ONE)))))


def x_cov(I, args, kwargs, node):
    if len(args) != 2 or kwargs:
        return opaque(I, "numpy.cov", args, kwargs, node)
    x, y = I.term(args[0]), I.term(args[1])
    n = red("sum", x.args[1]) if x.op == "compress" and is_bool(x.args[1]) else lenof(x)
    f = div(n, sub(n, ONE))

    def c(p, q):
        return I.obj(mul(f, sub(red("mean", mul(p, q)), mul(red("mean", p), red("mean", q)))))
    return V("tuple", (V("tuple", (c(x, x), c(x, y))), V("tuple", (c(y, x), c(y, y)))))


def x_meshgrid(I, args, kwargs, node):
    ts = tuple(I.term(a) for a in args)
    ks = tuple(sorted((k, I.safe_term(v)) for k, v in kwargs.items()
                      if not (k == "indexing" and I.safe_term(v) is S("xy") or k == "copy")))
    I.record("numpy.meshgrid", ts, dict(ks), node)
    return V("tuple", tuple(I.obj(mk("mesh", num(i), ts, ks)) for i in range(len(ts))))


def x_repeat(I, args, kwargs, node):
    return opaque(I, "numpy.repeat", args, kwargs, node)


def x_reduce(I, args, kwargs, node):
    f = args[0]
    items = I.concrete_items(args[1], node)
    if items is None:
        return opaque(I, "functools.reduce", args, kwargs, node)
    acc = args[2] if len(args) > 2 else None
    for x in items:
        acc = x if acc is None else I.call(f, [acc, x], {}, node)
    return acc


def x_partial(I, args, kwargs, node):
    return V("partial", (args[0], args[1:], kwargs))


def x_warn(I, args, kwargs, node):
    I.record("warnings.warn", [I.safe_term(a) for a in args], {}, node)
    return VT(NONE)


def x_npattr(name):
    def f(I, args, kwargs, node):
        if len(args) != 1 or kwargs:
            return opaque(I, "numpy." + name, args, kwargs, node)
        return I.getattr(args[0], name, node)
    return f


EXT = {
    "numpy.shape": x_npattr("shape"), "numpy.size": x_npattr("size"), "numpy.ndim": x_npattr("ndim"),
    "numpy.isnan": x_isnan, "pandas.isnull": x_isnull, "pandas.isna": x_isnull,
    "pandas.notnull": x_notnull, "pandas.notna": x_notnull, "math.isnan": x_isnan,
    "numpy.where": x_where, "xarray.where": x_where, "numpy.nonzero": x_nonzero,
    "numpy.flatnonzero": x_flatnonzero, "numpy.argwhere": x_argwhere,
    "numpy.sqrt": x_sqrt, "math.sqrt": x_sqrt, "numpy.square": x_square, "numpy.radians": x_radians,
    "numpy.deg2rad": x_radians, "math.radians": x_radians, "numpy.degrees": x_degrees,
    "numpy.rad2deg": x_degrees, "numpy.reciprocal": x_reciprocal,
    "numpy.negative": lambda I, a, k, n: I.val(neg(I.term(a[0]))),
    "numpy.positive": lambda I, a, k, n: I.val(I.term(a[0])),
    "numpy.logical_not": lambda I, a, k, n: I.val(lnot(I.boolish(I.term(a[0])))),
    "numpy.invert": lambda I, a, k, n: I.val(lnot(I.boolish(I.term(a[0])))),
    "numpy.bitwise_not": lambda I, a, k, n: I.val(lnot(I.boolish(I.term(a[0])))),
    "numpy.zeros_like": like(ZERO), "numpy.ones_like": like(ONE), "numpy.empty_like": like(mk("uninit")),
    "numpy.full_like": like(None), "xarray.full_like": like(None), "xarray.zeros_like": like(ZERO),
    "xarray.ones_like": like(ONE),
    "numpy.pad": x_pad, "numpy.zeros": filled(ZERO), "numpy.ones": filled(ONE), "numpy.empty": filled(mk("uninit")),
    "numpy.full": filled(None),
    "numpy.logspace": x_logspace, "numpy.array": x_array, "numpy.copy": x_copy, "copy.copy": x_copy, "copy.deepcopy": x_copy,
    "numpy.isin": x_isin, "numpy.in1d": x_isin, "numpy.clip": x_clip, "numpy.dot": x_dot,
    "numpy.vdot": x_dot, "numpy.inner": x_dot,
    "numpy.arange": x_arange, "numpy.roll": x_roll,
    "numpy.array_equal": x_array_equal, "numpy.errstate": x_errstate, "numpy.seterr": x_seterr,
    "numpy.concatenate": x_concatenate, "numpy.append": x_append, "numpy.vstack": x_stackish("vstack"), "numpy.nanargmin": x_nanargmin, "shapely.unary_union": x_unary_union, "shapely.union_all": x_unary_union,
    **{p + n: x_geometry(n) for n in ("Point", "LineString") for p in (
        "shapely.", "shapely.geometry.", "shapely.geometry.%s." % n.lower())}, "numpy.flip": x_flip,
    "numpy.flipud": lambda I, a, k, n: I.obj(reverse(I.term(a[0])), {content(r) for r in I.vroots(a[0])}),
    "numpy.hstack": x_stackish("hstack"), "numpy.row_stack": x_stackish("vstack"),
    "numpy.stack": x_stackish("stack"),
    "numpy.meshgrid": x_meshgrid, "numpy.corrcoef": x_corrcoef, "numpy.cov": x_cov, "numpy.reshape": x_reshape, "numpy.ravel": x_ravel, "numpy.atleast_2d": x_atleast_2d, "numpy.unique": x_unique, "pandas.unique": x_unique, "numpy.column_stack": x_column_stack,
    "numpy.put_along_axis": x_inplace_fn(0, "numpy.put_along_axis"),
    "numpy.copyto": x_inplace_fn(0, "numpy.copyto"), "numpy.put": x_inplace_fn(0, "numpy.put"),
    "numpy.place": x_inplace_fn(0, "numpy.place"), "numpy.putmask": x_inplace_fn(0, "numpy.putmask"),
    "numpy.fill_diagonal": x_inplace_fn(0, "numpy.fill_diagonal"),
    "numpy.random.shuffle": x_inplace_fn(0, "numpy.random.shuffle"),
    "random.shuffle": x_inplace_fn(0, "random.shuffle"),
    "builtins.len": x_len, "builtins.range": x_range, "builtins.zip": x_zip,
    "builtins.enumerate": x_enumerate, "builtins.list": x_list, "builtins.tuple": x_tuple,
    "builtins.set": x_list, "builtins.frozenset": x_list, "builtins.iter": lambda I, a, k, n: a[0],
    "builtins.dict": x_dict, "collections.OrderedDict": x_dict, "builtins.map": x_map,
    "builtins.min": x_minmax("min"), "builtins.max": x_minmax("max"), "builtins.abs": x_abs,
    "builtins.float": x_float, "numpy.float64": x_float, "numpy.float32": x_float, "builtins.int": x_int,
    "builtins.bool": x_bool, "numpy.bool_": x_bool, "builtins.complex": x_complex, "builtins.sum": x_sum,
    "builtins.any": x_anyall("any"), "builtins.all": x_anyall("all"),
    "builtins.isinstance": x_isinstance, "builtins.hasattr": x_hasattr, "builtins.getattr": x_getattr,
    "builtins.setattr": x_setattr, "builtins.slice": x_slice, "builtins.print": x_print,
    "builtins.type": x_type, "collections.namedtuple": x_namedtuple,
    "future.utils.with_metaclass": x_with_metaclass, "builtins.super": x_super,
    "xarray.DataArray": x_xr_dataarray, "scipy.interpolate.interp1d": x_interp1d,
    "os.path.exists": lambda I, a, k, n: m_exists(I, a[0], [], {}, n) if a else None,
    "pathlib.Path": x_path, "os.path.join": x_ospathjoin, "functools.reduce": x_reduce,
    "builtins.pow": lambda I, a, k, n: I.val(power(I.term(a[0]), I.term(a[1]))),
    "builtins.round": lambda I, a, k, n: I.val(mk("ew", "round", *[I.term(x) for x in a])),
    "builtins.reversed": lambda I, a, k, n: I.obj(reverse(I.term(a[0]))),
    "inspect.signature": x_signature, "xarray.apply_ufunc": x_apply_ufunc, "builtins.str": x_str, "xarray.Dataset": x_dataset,
    "warnings.warn": x_warn, "warnings.warn_explicit": x_warn,
}
for _n in ("builtins.range", "builtins.zip", "builtins.map"):
    EXT["builtins." + _n] = EXT[_n]
for _n in list(EXT):
    if _n.startswith("builtins."):
        EXT["future." + _n] = EXT[_n]

# --------------------------------------------------------------------- methods
METHODS = {
    "astype", "copy", "sum", "mean", "std", "min", "max", "any", "all", "median", "count", "where",
    "fillna", "isnull", "notnull", "isnan", "rolling", "sel", "isel", "shift", "diff", "append", "extend",
    "ravel", "flatten", "reshape", "squeeze", "items", "keys", "values_", "fill", "round", "clip", "dot",
    "rglob", "startswith", "endswith", "split", "encode", "format", "join", "get", "update", "pop", "insert",
    "sort", "to_dataset", "to_dataframe", "transpose", "tolist", "item", "index_", "nonzero", "argmax",
    "argmin", "prod", "var", "cumsum", "put", "isin", "repeat", "take", "rename", "assign",
    "assign_coords", "drop_vars", "expand_dims", "strip", "lower", "upper", "setdefault", "remove",
    "clear", "reverse", "partition", "setflags", "itemset", "resize", "sortby", "reindex",
}

INPLACE = {"fill", "sort", "resize", "put", "itemset", "partition", "setflags", "byteswap", "update",
           "drop_inplace", "requires_grad_", "zero_", "add_", "mul_", "clip_", "fill_"}


def kwterm(I, kwargs):
    return tuple(sorted((k, I.safe_term(v)) for k, v in kwargs.items()))


def call_method(I, b, name, args, kwargs, node):
    if "out" in kwargs and b.kind in ("obj", "term", "view") and "**" not in kwargs:
        kw = {k: v for k, v in kwargs.items() if k != "out"}
        r = call_method(I, b, name, args, kw, node)
        return r if is_none(I, kwargs["out"]) else into(I, kwargs["out"], r, None, node)
    if name == "__setitem__" and len(args) == 2:
        I.store_sub(b, args[0], args[1], node)
        return VT(NONE)
    if name.startswith("__i") and name.endswith("__") and name[2:-2] in INPLACE_OPS and b.kind in ("obj", "term", "view"):
        I.effect("write", I.vroots(b), "in-place operator " + name, node)
    if name == "reshape" and len(args) == 1 and args[0].kind == "star" and isinstance(args[0].data, V):
        args = [args[0].data]
    if (TT.COLUMNS or TT.NDIMS) and name in FLATTENERS and b.kind in ("obj", "term", "view"):
        t = I.term(b)
        ts = [I.term(a) for a in args]
        r = column(t, name, ts)
        if r is None and TT.NDIMS.get(t) == 1 and len(ts) <= 1 and (not ts or ts[0].op not in ("tuple", "list")):
            r = t
        if r is not None:
            return I.obj(r)
    if b.kind == "super":
        cls, sv = b.data
        for base in cls.bases:
            m = I.find_method(base, name)
            if m is not None:
                m.self_v = sv
                return I.call_func(m, args, kwargs, node)
        return VT(NONE)
    if b.kind in ("sig", "bound") and not any(a.kind == "star" for a in args) and "**" not in kwargs:
        return sig_method(I, b, name, args, kwargs, node)
    if any(a.kind == "star" for a in args) or "**" in kwargs:
        return meth_opaque(I, b, name, args, kwargs, node)
    h = METH.get(name)
    if b.kind == "list":
        r = list_method(I, b, name, args, kwargs, node)
        if r is not None:
            return r
    if b.kind == "dict":
        r = dict_method(I, b, name, args, kwargs, node)
        if r is not None:
            return r
    if h is not None:
        r = h(I, b, args, kwargs, node)
        if r is not None:
            return r
    return meth_opaque(I, b, name, args, kwargs, node)


KNOWN_METH = {
    "rglob",
    "ravel",
    "rolling", "sel", "isel", "shift", "diff", "median", "count", "query", "execute", "predict_proba",
    "predict", "reindex", "groupby", "agg", "tz_localize", "tz_convert", "to_dataset", "to_dataframe",
    "expanduser", "exists", "mkdir", "split", "encode", "hexdigest", "glob", "unlink", "strftime",
    "corr", "join", "fit_transform", "transform", "fit", "to", "cpu", "numpy", "permute", "eval", "buffer", "intersects",
    "read", "load_weights", "compile", "assign", "joinpath", "startswith", "endswith", "keys", "items",
    "get_coordinates", "sortby", "resample", "interp", "dropna", "ffill", "bfill", "sum", "mean", "max",
    "min", "std", "var", "expand_dims", "transpose", "reshape", "tolist", "item", "get", "with_suffix",
    "close", "covers", "contains", "within", "touches", "crosses", "distance", "format", "drop_vars",
    "rename", "unlink", "rmtree", "replace", "any", "all",
}


DIMKW = {"rolling": "dim", "shift": "shifts", "coarsen": "dim", "diff": None}


SCALERS = {"sklearn.preprocessing.StandardScaler", "sklearn.preprocessing.MinMaxScaler", "sklearn.preprocessing.RobustScaler"}


def scaler(I, b, name, args, kwargs, node):
    """fit_transform(x) is fit(x).transform(x); fitting again forgets what was fitted before"""
    t = I.safe_term(b)
    base = t.args[0] if t.op == "meth" and t.args[1] == "fit" else t
    if not (base.op == "call" and base.args[0] in SCALERS) or len(args) != 1 or kwargs:
        return None
    x = I.term(args[0])
    if name == "transform":
        return None if base is t else I.obj(mk("meth", t, "transform", (x,), ()))
    f = mk("meth", base, "fit", (x,), ())
    I.effect("write", I.vroots(b), "." + name, node)
    if b.kind == "obj":
        I.heap[b.data] = f
    if name == "fit":
        return b if b.kind == "obj" else I.obj(f)
    return I.obj(mk("meth", f, "transform", (x,), ()))


def meth_opaque(I, b, name, args, kwargs, node):
    t = I.safe_term(b)
    if name in ("fit", "transform", "fit_transform") and b.kind in ("obj", "term"):
        r = scaler(I, b, name, args, kwargs, node)
        if r is not None:
            return r
    if name in DIMKW and DIMKW[name]:
        # x.rolling({"time": 3}) is x.rolling(time=3)
        d = args[0] if args else kwargs.get(DIMKW[name])
        if d is not None and d.kind == "dict" and all(k.op == "str" for k in I.heap[d.data]):
            args = args[1:] if args else args
            kwargs = {k: v for k, v in kwargs.items() if k != DIMKW[name]}
            kwargs.update({k.args[0]: v for k, v in I.heap[d.data].items()})
    if name == "buffer" and "cap_style" in kwargs and I.arg_term(kwargs["cap_style"]) is ONE:
        kwargs = {k: v for k, v in kwargs.items() if k != "cap_style"}
    if name in ("intersects", "touches", "disjoint") and len(args) == 1 and not kwargs:
        x, y = sorted((t, I.term(args[0])), key=lambda z: z.skey)
        return I.obj(mk("meth", x, name, (y,), ()))
    if name == "rolling":
        if len(args) == 1:
            args, kwargs = (), dict(kwargs, window=args[0])
        kwargs = {k: v for k, v in kwargs.items() if not (
            k == "center" and I.arg_term(v) is FALSE or k == "min_periods" and I.arg_term(v) is NONE)}
    ts = tuple(I.arg_term(a) for a in args)
    ks = tuple(sorted((k, I.arg_term(v)) for k, v in kwargs.items()))
    ts, ks = by_name("." + name, ts, ks)
    if name in ("transpose", "swapaxes") and not ks and {x for x in ts} in ({ONE, num(2)}, {num(-1), num(-2)}):
        name, ts = "permute", (ZERO, num(2), ONE)
    if name == "transpose" and not ks and ts == (ZERO, num(2), ONE):
        name = "permute"
    r = mk("meth", t, name, ts, ks)
    if name == "eval" and not ts and not ks or name == "detach" or name == "train" and ts == (FALSE,):
        r = t                    # a module itself; the call is in the event list
    if name == "to" and t.op == "meth" and t.args[1:] == ("to", ts, ks):
        r = t                    # moving a tensor twice to the same device
    if name == "diff" and ts == () and ks == (("dim", S("time")),):
        r = mk("call", "numpy.diff", (t,), ())
    I.record("." + name, (t,) + ts, dict(ks), node, r)
    if name not in KNOWN_METH:
        I.unknown.add("." + name)
    roots = set()
    inpl = kwargs.get("inplace")
    if name in INPLACE or (inpl is not None and I.term(inpl) is TRUE) or (name.endswith("_") and not name.endswith("__")):
        I.effect("write", I.vroots(b), "in-place method ." + name, node)
        if b.kind == "obj":
            I.heap[b.data] = r
            prop_view(I, b, r, node)
    elif name in ("pop", "popitem", "clear", "setdefault", "remove", "reverse", "extend", "discard") or (
            name in ("append", "insert", "add") and isinstance(getattr(node, "_parent", None), ast.Expr)):
        I.effect("write", I.vroots(b), "in-place method ." + name, node)
    if "out" in kwargs:
        I.write_obj(kwargs["out"], r, "out= argument", node)
    if name in ("reshape", "ravel", "squeeze", "transpose", "view", "swapaxes", "rename", "to_dataset",
                "assign_coords", "to_numpy", "expand_dims", "assign", "drop_vars", "set_index", "isel",
                "sel", "to_dataframe", "loc", "set_coords", "reset_coords", "stack", "unstack",
                "assign_attrs", "swap_dims", "rename_axis", "to_series", "T", "diagonal", "squeeze"):
        roots = {content(x) for x in I.vroots(b)}
    if name in ("get", "setdefault", "__getitem__"):
        roots = set(I.vroots(b))
    return I.obj(r, roots)


def list_method(I, b, name, args, kwargs, node):
    own = I.roots.get(b.data, frozenset())
    if name == "append":
        I.effect("write", own, "list append", node)
        I.heap[b.data] = I.heap[b.data] + (("item", args[0], TRUE),)
        return VT(NONE)
    if name == "extend":
        I.list_extend(b, args[0], node)
        return VT(NONE)
    if name in ("insert", "remove", "pop", "sort", "reverse", "clear"):
        I.effect("write", own, "list " + name, node)
        if name == "insert" and I.term(args[0]) is ZERO:
            I.heap[b.data] = (("item", args[1], TRUE),) + I.heap[b.data]
            return VT(NONE)
        t = mk("meth", I.term(b), name, tuple(I.safe_term(a) for a in args), ())
        I.heap[b.data] = (("seg", mk("K", I.loopdepth + 1), mk("lenof", t), TRUE,
                           mk("idx", t, mk("K", I.loopdepth + 1))),)
        return I.obj(mk("opaque", "list." + name))
    if name == "copy":
        return I.newlist(I.heap[b.data])
    return None


def dict_method(I, b, name, args, kwargs, node):
    if name in ("items", "values", "keys"):
        return V("dictview", (b.data, name))
    if name == "get":
        k = I.term(args[0])
        d = I.heap[b.data]
        if k in d:
            return d[k]
        if is_const(k) and all(is_const(x) for x in d):
            return args[1] if len(args) > 1 else VT(NONE)
        # finite lookup table
        r = args[1] if len(args) > 1 else VT(NONE)
        for kk, v in reversed(list(d.items())):
            r = I.merge_val(eq(k, kk), v, r, I.heap, I.heap)
        return r
    if name == "update":
        I.effect("write", I.roots.get(b.data, ()), "dict update", node)
        d = I.copied(b)
        if args and args[0].kind == "dict":
            d.update(I.heap[args[0].data])
            for k in I.heap[args[0].data]:
                d.maybe.pop(k, None)
        for k, v in kwargs.items():
            d[S(k)] = v
        I.heap[b.data] = d
        return VT(NONE)
    if name in ("pop", "setdefault", "clear", "popitem"):
        k = I.term(args[0]) if args else None
        I.effect("write", I.roots.get(b.data, ()), "dict " + name, node,
                 (k, I.safe_term(args[1])) if name == "setdefault" and len(args) > 1 else None)
        d = I.copied(b)
        r = d.get(k)
        if name == "pop":
            d.pop(k, None)
        elif name == "setdefault" and r is None:
            r = args[1] if len(args) > 1 else VT(NONE)
            d[k] = r
        elif name == "clear":
            d = {}
        I.heap[b.data] = d
        return r or VT(NONE)
    if name == "copy":
        return V("dict", I.loc(I.copied(b)))
    return None


def m_astype(I, b, args, kwargs, node):
    d = arg(args, kwargs, 0, "dtype")
    dt = dtype_arg(I, d)
    t = I.term(b)
    if dt is None:
        if d is not None and d.kind == "term" and d.data.op == "dtype":
            return I.obj(mk("ew", "astype_like", t, d.data))
        return None
    r = I.obj(convert(t, dt), (), dt)
    cp = kwargs.get("copy")
    if cp is not None and I.term(cp) is not TRUE:
        I.roots[r.data] = frozenset(content(x) for x in I.vroots(b))
    return r


def m_copy(I, b, args, kwargs, node):
    if b.kind in ("list", "dict", "inst"):
        return None
    d = arg(args, kwargs, 0, "deep")
    r = I.obj(I.term(b), (), I.dtype_of(b))
    if d is not None and I.term(d) is FALSE:
        I.roots[r.data] = frozenset(content(x) for x in I.vroots(b))
    return r


def is_rolling(t):
    return t.op == "meth" and t.args[1] in ("rolling", "groupby", "resample", "coarsen", "expanding")


def m_red(kind):
    def f(I, b, args, kwargs, node):
        t = I.term(b)
        if is_rolling(t):
            return I.obj(mk("rollred", kind, t, tuple(I.safe_term(a) for a in args),
                            tuple(sorted((k, I.safe_term(v)) for k, v in kwargs.items()
                                         if not (k == "skipna" and kind == "")))))
        ax = arg(args, kwargs, 0, "axis")
        if ax is None:
            ax = kwargs.get("dim")
        axt = I.term(ax) if ax is not None else NONE
        if axt.op in ("list", "tuple"):
            axt = mk("list", *sorted(axt.args, key=lambda x: x.skey))
            if len(axt.args) == 1 and axt.args[0].op == "str":
                axt = axt.args[0]
        extra = [(k, I.safe_term(v)) for k, v in kwargs.items() if k not in ("axis", "dim", "dtype")]
        if kind in ("any", "all") and not is_bool(t):
            t = I.boolish(t)
        if axt.op == "str":
            # xarray reduction: NaN are skipped by default for floats
            sk = dict(extra).get("skipna")
            extra = [(k, v) for k, v in extra if k != "skipna"]
            if sk is FALSE:
                extra.append(("skipna", FALSE))
        return I.val(red(kind, t, axt, extra))
    return f


def m_where(I, b, args, kwargs, node):
    t = I.term(b)
    c = arg(args, kwargs, 0, "cond")
    o = arg(args, kwargs, 1, "other")
    if kwargs.get("drop") is not None and I.term(kwargs["drop"]) is not FALSE:
        return None
    if c.kind == "func":
        return None
    ct = I.boolish(I.term(c))
    return I.obj(ite(ct, t, I.term(o) if o is not None else NAN))


def m_fillna(I, b, args, kwargs, node):
    t = I.term(b)
    if not args and "value" not in kwargs:
        return None
    v = I.term(arg(args, kwargs, 0, "value"))
    if "inplace" in kwargs and I.term(kwargs["inplace"]) is TRUE:
        write_through(I, b, ite(isnan(t), v, t), "fillna(inplace=True)", node)
        return VT(NONE)
    return I.obj(ite(isnan(t), v, t))


def m_isnull(I, b, args, kwargs, node):
    return I.obj(isnan(I.term(b)))


def m_notnull(I, b, args, kwargs, node):
    return I.obj(lnot(isnan(I.term(b))))


def m_sel(how):
    def f(I, b, args, kwargs, node):
        d = {}
        if args and args[0].kind == "dict":
            for k, v in I.heap[args[0].data].items():
                d[k.args[0]] = index_key(I, v)
        elif args:
            return None
        for k, v in kwargs.items():
            if k in ("method", "tolerance", "drop", "missing_dims", "indexers"):
                if k == "indexers" and v.kind == "dict":
                    for kk, x in I.heap[v.data].items():
                        d[kk.args[0]] = index_key(I, x)
                    continue
                if k == "drop":
                    continue
                return None
            d[k] = index_key(I, v)
        items = tuple(sorted(d.items()))
        r = I.obj(sel(I.term(b), items, how), {content(x) for x in I.vroots(b)})
        if I.roots.get(r.data) or True:
            mark_view(I, r, (V("locator", (b, "loc" if how == "sel" else "iloc")),
                             V("dict", I.loc({S(k): VT(v) for k, v in items}))))
        return r
    return f


def m_ident(I, b, args, kwargs, node):
    v = I.obj(I.term(b), {content(x) for x in I.vroots(b)}, I.dtype_of(b))
    return v


def m_flatten(I, b, args, kwargs, node):
    args = [a for a in args if I.safe_term(a) is not S("C")]
    kwargs = {k: v for k, v in kwargs.items() if not (k == "order" and I.safe_term(v) is S("C"))}
    if args or kwargs:
        return I.obj(mk("meth", I.term(b), "ravel", tuple(I.term(a) for a in args), kwterm(I, kwargs)))
    return I.obj(I.term(b), (), I.dtype_of(b))


def m_ravel(I, b, args, kwargs, node):
    t = I.term(b)
    if t.op == "argwhere":
        return I.obj(mk("nonzero", t.args[0]))
    kw = {k: v for k, v in kwargs.items() if not (k == "order" and I.safe_term(v) is S("C"))}
    args = [a for a in args if I.safe_term(a) is not S("C")]
    if args or kw:
        t = mk("meth", t, "ravel", tuple(I.term(a) for a in args), kwterm(I, kw))
    # otherwise the elements in their order
    return I.obj(t, {content(x) for x in I.vroots(b)})


def m_fill(I, b, args, kwargs, node):
    t = I.term(b)
    v = I.cast(I.dt.get(b.data) if b.kind == "obj" else None, None, I.term(args[0]))
    s = t.args[0] if t.op == "full" else shape(t)
    write_through(I, b, mk("full", s, v), ".fill()", node)
    return VT(NONE)


def m_items(which):
    def f(I, b, args, kwargs, node):
        if b.kind in ("obj", "term"):
            return V("itemsof", (b, which))
        return None
    return f


def m_to_dataset(I, b, args, kwargs, node):
    nm = kwargs.get("name")
    if nm is None:
        return None
    t = I.term(b)
    n = I.term(nm)
    if n.op != "str":
        return None
    I.record(".to_dataset", (t,), {"name": n}, node)
    return I.obj(mk("setfld", mk("dsof", t), n.args[0], t), {content(x) for x in I.vroots(b)})


def m_clip(I, b, args, kwargs, node):
    return x_clip(I, [b] + list(args), kwargs, node)


def m_dot(I, b, args, kwargs, node):
    return x_dot(I, [b] + list(args), kwargs, node)


def m_round(I, b, args, kwargs, node):
    return I.val(mk("ew", "round", I.term(b), *[I.term(a) for a in args]))


def m_str_bool(name):
    def f(I, b, args, kwargs, node):
        t = I.term(b)
        a = args[0]
        opts = [I.term(x) for x in a.data] if a.kind == "tuple" else [I.term(a)]
        out = []
        for o in opts:
            if t.op == "str" and o.op == "str":
                out.append(const(getattr(t.args[0], name)(o.args[0])))
            else:
                out.append(mk(name, t, o))
        return VT(lor(*out))
    return f


def m_str_const(name):
    def f(I, b, args, kwargs, node):
        t = I.term(b)
        ts = [I.term(a) for a in args]
        if t.op == "str" and all(x.op == "str" for x in ts) and not kwargs:
            r = getattr(t.args[0], name)(*[x.args[0] for x in ts])
            if isinstance(r, str):
                return VT(S(r))
        return None
    return f


def m_exists(I, b, args, kwargs, node):
    t = I.term(b)
    I.record(".exists", (t,), {}, node)
    return VT(mk("exists", t))


def m_nonzero(I, b, args, kwargs, node):
    return x_nonzero(I, [b], {}, node)


def m_append(I, b, args, kwargs, node):
    # append on an opaque list (for example one received as parameter or joined)
    t = I.term(b)
    if b.kind == "obj":
        write_through(I, b, mk("appended", t, I.safe_term(args[0])), "append", node)
        return VT(NONE)
    return None


def m_extend(I, b, args, kwargs, node):
    if b.kind == "obj":
        write_through(I, b, mk("extended", I.term(b), I.safe_term(args[0])), "extend", node)
        return VT(NONE)
    return None


def m_tolist(I, b, args, kwargs, node):
    return I.obj(I.term(b))


def m_assign(I, b, args, kwargs, node):
    t = I.term(b)
    if len(args) == 1 and args[0].kind == "dict" and all(k.op == "str" for k in I.heap[args[0].data]):
        kwargs = dict(kwargs, **{k.args[0]: v for k, v in I.heap[args[0].data].items()})
    elif args:
        return None
    for k, v in kwargs.items():
        t = mk("setfld", t, k, I.safe_term(v))
    I.record(".assign", (I.term(b),), {k: I.safe_term(v) for k, v in kwargs.items()}, node)
    return I.obj(t, {content(x) for x in I.vroots(b)})


def unwrap2d(t):
    """the point(s) a one-row array holds, however the row is made"""
    while True:
        if t.op == "list" and len(t.args) == 1 and t.args[0].op != "seg":
            t = t.args[0]
        elif t.op == "call" and t.args[0] in ("numpy.atleast_2d", "numpy.expand_dims", "numpy.reshape") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "meth" and t.args[1] == "reshape":
            t = t.args[0]
        elif t.op == "idx" and t.args[1].op == "none":
            t = t.args[0]
        elif t.op == "idx" and t.args[1].op == "tuple" and any(x.op == "none" for x in t.args[1].args):
            t = t.args[0]
        else:
            return t


def m_query(I, b, args, kwargs, node):
    """neighbour queries of a k-d tree: points x neighbours, nearest first"""
    r = meth_opaque(I, b, "query", args, kwargs, node)
    t = I.term(b)
    if TT.QUERY and t.op == "call" and str(t.args[0]).endswith("KDTree"):
        np_, k = TT.QUERY.get("k", (0, 0))
        q = I.term(r)
        d = dict(list(zip(("x", "k", "eps", "p", "distance_upper_bound"), q.args[2])) + list(q.args[3]))
        for n, v in (("eps", ZERO), ("p", num(2)), ("distance_upper_bound", INF)):
            if d.get(n) is v:
                d.pop(n)
        d.pop("workers", None)
        d.pop("n_jobs", None)
        single = TT.NDIMS.get(d.get("x", NONE)) == 1
        d["x"] = unwrap2d(d.get("x", NONE))
        pts = [unwrap2d(x) for x in t.args[1]] or [unwrap2d(v) for n, v in t.args[2] if n == "data"]
        q = mk("meth", mk("call", "KDTree", tuple(pts[:1]), ()), "query", (), tuple(sorted(d.items())))
        out = []
        f = TT.QUERY.get("found")
        if f:
            # case split: which data points are found (None: no further point within the limit)
            TT.QUERY["searches"].add((q, id(node)))
            I.origin.setdefault(q, (I.frames[-1].mod.path, getattr(node, "lineno", 0)))
            Q = S("query")
            d = mk("vec", *[mk("vec", *[INF if x is None else mk("nn", "dist", Q, num(i), num(j))
                                        for j, x in enumerate(row)]) for i, row in enumerate(f)])
            ix = mk("vec", *[mk("vec", *[num(TT.QUERY["n"] if x is None else x) for x in row]) for row in f])
            if single:           # one point, not an array of points
                d, ix = d.args[0], ix.args[0]
            return V("tuple", (I.obj(d), I.obj(ix)))
        for c in (0, 1):
            out.append(I.obj(mk("vec", *[mk("vec", *[mk("nn", ("dist", "ix")[c], q, num(i), num(j))
                                                  for j in range(k)]) for i in range(np_)])))
        return V("tuple", tuple(out))
    return r


METH = {
    "format": m_format,
    "query": m_query, "reshape": m_reshape,
    "astype": m_astype, "copy": m_copy, "where": m_where, "fillna": m_fillna, "isnull": m_isnull,
    "isna": m_isnull, "notnull": m_notnull, "notna": m_notnull, "sel": m_sel("sel"), "isel": m_sel("isel"),
    "flatten": m_flatten, "ravel": m_ravel, "squeeze": m_ident, "to_numpy": m_ident, "compute": m_ident,
    "load": m_ident, "fill": m_fill, "items": m_items("items"), "to_dataset": m_to_dataset,
    "clip": m_clip, "dot": m_dot, "round": m_round, "startswith": m_str_bool("startswith"),
    "endswith": m_str_bool("endswith"), "exists": m_exists, "nonzero": m_nonzero, "append": m_append,
    "extend": m_extend, "tolist": m_tolist, "assign": m_assign,
    "lower": m_str_const("lower"), "upper": m_str_const("upper"), "strip": m_str_const("strip"),
}
for _k in ("sum", "mean", "std", "var", "min", "max", "median", "any", "all", "count", "prod", "argmax",
           "argmin", "cumsum", "quantile"):
    METH[_k] = m_red(_k)
