"""The inverse distance weighting kernel."""
import core
import equiv as E
import models as MM
import terms as TT
from terms import S, mk, num
TECHNIQUE = ("value-graph congruence of Invdisttree.__call__ with the reference kernel over explicit neighbour lists "
             "(bounded number of points and neighbours, all distances and values); congruence of the points, query and "
             "options that the neighbour search gets")
MINIMUM = 8
SC = ["nnear", "eps", "p", "max_distance"]
C = "pycomlink.spatial.idw.Invdisttree.__call__"
CALL = "spec.sp.idw_code"


# data points found for each query point, nearest first (None: no further point within the distance limit)
MANY = [[[0, 1], [2, 0]], [[2, 1], [1, None]], [[None, None], [1, 2]], [[2, None], [None, None]]]
ONE = [[[0, 1, 2]], [[2, 0, 1]], [[1, 2, None]], [[2, 0, None]], [[1, None, None]], [[2, None, None]],
       [[None, None, None]]]


def check(ck):
    ck.load_spec("sp")
    m = dict(anyraise=True, scalars=SC, construct=C, keeplens=True)
    for f in MANY:
        q = {"found": f, "n": 3, "searches": set()}
        ck.match(CALL, "spec.sp.idw_ref", "several query points, found: %s" % f, lens={"X": 3, "z": 3, "q": 2},
                 ndims={"q": 2, "z": 1}, query=q, outputs=2, **m)
        ck.match(CALL, "spec.sp.idw_ref", "number of values, found: %s" % f, lens={"X": 3, "z": 3, "q": 2},
                 ndims={"q": 2, "z": 1}, query=q, project=length, **m)
    for f in ONE:
        q = {"found": f, "n": 3, "searches": set()}
        ck.match(CALL, "spec.sp.idw_ref", "one query point, found: %s" % f, lens={"X": 3, "z": 3, "q": 2},
                 ndims={"q": 1, "z": 1}, query=q, **m)
        ck.match(CALL, "spec.sp.idw_ref", "single value, found: %s" % f, lens={"X": 3, "z": 3, "q": 2},
                 ndims={"q": 1, "z": 1}, query=q, project=kind, **m)
        ck.match(CALL, "spec.sp.idw_ref", "array of one query point, found: %s" % f, lens={"X": 3, "z": 3, "q": 1},
                 ndims={"q": 2, "z": 1}, query=q, outputs=1, **m)
        ck.match(CALL, "spec.sp.idw_ref", "array of one value, found: %s" % f, lens={"X": 3, "z": 3, "q": 1},
                 ndims={"q": 2, "z": 1}, query=q, project=kind, **m)
    ck.match(CALL, "spec.sp.idw_ref", "one value per data point", lens={"X": 4, "z": 3},
             ndims={"q": 1, "z": 1}, query={"found": [[0, 1]], "n": 3, "searches": set()}, **m)
    for qd, consts in ((1, {}), (2, {}), (1, {"max_distance": None}), (2, {"max_distance": None})):
        search(ck, qd, consts)
    ck.defaults("pycomlink.spatial.idw.Invdisttree", dict(nnear=6, eps=0, p=1, max_distance=None), method="__call__")


def length(t, o):
    return on_leaves(t, MM.len_term)


def kind(t, o):
    return on_leaves(t, lambda x: x if E.tainted(x) else S(
        "array" if x.op in ("sstore", "full", "vec", "list", "tuple") else "number"))


def on_leaves(t, f):
    if t.op == "ite" and not TT.is_bool(t):
        return TT.ite(t.args[0], on_leaves(t.args[1], f), on_leaves(t.args[2], f), scalar=True)
    return t if core.is_raise(t) else f(t)


def searches(ck, dotted, qd, consts):
    for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
        s.clear()
    TT.LENS[mk("par", "X")] = TT.LENS[mk("par", "z")] = 3
    TT.NDIMS[mk("par", "q")] = qd
    found = set()
    TT.QUERY.update(found=[[0, 1], [1, 2]] if qd == 2 else [[0, 1]], n=3, searches=found)
    if not consts:
        TT.NOTNONE.add(mk("par", "max_distance"))
    try:
        o = ck.run(dotted, consts=consts, scalars=[s for s in SC if s not in consts])
    finally:
        TT.QUERY.clear()
        TT.NDIMS.clear()
        TT.LENS.clear()
    return o, sorted({q for q, n in found}, key=lambda t: t.skey)


def search(ck, qd, consts):
    """points, query and options of the neighbour search"""
    rule = "neighbour search: %s, %s" % ("one point" if qd == 1 else "several points",
                                        "no distance limit" if consts else "distance limit")
    try:
        o, code = searches(ck, CALL, qd, consts)
    except (core.Unsupported, RecursionError) as e:
        return ck.undecided(rule, C, e)
    ref = searches(ck, "spec.sp.idw_ref", qd, consts)[1][0]
    ck.count("comparisons")
    if not code:
        return ck.undecided(rule, C, "no neighbour search of a k-d tree")
    want = parts(ref)
    for q in code:
        got = parts(q)
        path, line = o.I.origin.get(q, (ck.anchor("pycomlink.spatial.idw.Invdisttree")[1].path, 0))
        for n in sorted(set(want) | set(got)):
            a, b = got.get(n), want.get(n)
            if a is b:
                continue
            if a is None or b is None:
                r = E.Res(E.NE, "")
            else:
                r = ck.equiv(a, b, {})
            if r.v == E.NE:
                return ck.violation(rule, C, path, line, "%s of the neighbour search is %s, required: %s" % (
                    n, a is not None and core.show(a, 4), b is not None and core.show(b, 4)))
            if r.v == E.UND:
                return ck.undecided(rule, C, "%s of the neighbour search: %s" % (n, r.why))
    ck.ok(rule, C)


def parts(q):
    d = dict(q.args[3])
    d.setdefault("eps", num(0))
    d.setdefault("p", num(2))
    d.setdefault("distance_upper_bound", TT.INF)
    d["points"] = q.args[0].args[1][0] if q.args[0].args[1] else TT.NONE
    return d
