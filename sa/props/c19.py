"""Points to grid: target grid, missing values, forwarding of the configuration."""
import core
import equiv as E
import terms as TT
from terms import mk
TECHNIQUE = ("value-graph congruence of the interpolators' __call__ with a reference front-end; the tree and the kriging "
             "solver are uninterpreted functions of all their arguments")
MINIMUM = 8
P = "pycomlink.spatial.interpolator."


def check(ck):
    ck.load_spec("sp")
    ck.opaque = {"Invdisttree"}
    ck.match("spec.sp.grid_idw", "spec.sp.grid_idw_ref", "IDW on a grid", anyraise=True,
             scalars=["nnear", "p", "exclude_nan", "max_distance", "resolution"],
             construct=P + "IdwKdtreeInterpolator.__call__")
    ck.match("spec.sp.grid_ok", "spec.sp.grid_ok_ref", "kriging on a grid", anyraise=True,
             scalars=["exclude_nan", "nlags", "weight", "n_closest_points", "resolution", "backend",
                      "variogram_model"],
             construct=P + "OrdinaryKrigingInterpolator.__call__")
    ck.defaults(P + "OrdinaryKrigingInterpolator",
                dict(nlags=100, variogram_model="spherical", variogram_parameters={"sill": 0.9, "range": 1, "nugget": 0.1},
                     weight=True, n_closest_points=None, exclude_nan=True,
                     backend="C"))
    ck.defaults(P + "IdwKdtreeInterpolator", dict(nnear=8, p=2, exclude_nan=True, max_distance=None))
    for kind in ("idw", "ok"):
        for nan in (True, False):
            for grid in (True, False):
                pieces(ck, kind, nan, grid)


def pieces(ck, kind, nan, grid):
    """what the interpolation gets, argument by argument"""
    cls = "IdwKdtreeInterpolator" if kind == "idw" else "OrdinaryKrigingInterpolator"
    where = P + cls + ".__call__"
    rule = "arguments of the interpolation: %s, missing values %s" % (
        "given grid" if grid else "grid of a given resolution", "excluded" if nan else "kept")
    got = parts(ck, "spec.sp.grid_" + kind, nan, grid)
    want = parts(ck, "spec.sp.grid_%s_ref" % kind, nan, grid)
    ck.count("comparisons")
    if got is None:
        return ck.undecided(rule, where, "interpolation call not found")
    bad = und = False
    for n in sorted(set(want) | set(got)):
        a, b = got.get(n), want.get(n)
        if a is b:
            continue
        v = E.NE if a is None or b is None else differ(ck, a, b)
        if v == E.NE:
            bad = True
            r = ck.prog.resolve(P + cls)
            ck.violation(rule, where, r[1].path, r[1].defs[r[2]].lineno, "%s is %s, required: %s" % (
                n, core.show(a, 5) if a is not None else "left out", core.show(b, 5) if b is not None else "left out"))
        elif v == E.UND:
            und = True
    if und and not bad:
        ck.undecided(rule, where, "in a form that is not understood")
    elif not bad:
        ck.ok(rule, where)


def differ(ck, a, b):
    if (a.op == "str") != (b.op == "str"):
        return E.NE
    r = ck.equiv(a, b, {}).v
    if r == E.UND and a.op == b.op == "compress" and a.args[0] is b.args[0]:
        return ck.equiv(a.args[1], b.args[1], {}).v
    for x, y in ((a, b), (b, a)):
        if x.op == "transpose" and x.args[0] is y and y.op in ("par", "mesh"):
            return E.NE
    return r


def parts(ck, dotted, nan, grid):
    for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
        s.clear()
    consts = {"exclude_nan": nan}
    if grid:
        TT.NOTNONE.update(mk("par", n) for n in ("xgrid", "ygrid"))
    else:
        consts.update(xgrid=None, ygrid=None)
        TT.NOTNONE.add(mk("par", "resolution"))
    try:
        o = ck.run(dotted, consts=consts, scalars=[s for s in (
            "nnear", "p", "max_distance", "resolution", "nlags", "weight", "n_closest_points", "backend", "variogram_model")
            if s in [a.arg for a in ck.prog.resolve(dotted)[1].defs[dotted.split(".")[-1]].args.args]])
    except (core.Unsupported, RecursionError):
        return None
    cand = [t for t in core.leaves(o.result) if t.op == "call" and t.args[0] == "numpy.reshape" and len(t.args[1]) == 2]
    if len(cand) != 1:
        return None
    v, shape = cand[0].args[1]
    out = {"shape of the grid": shape}
    for t in core.leaves(o.result):
        if t is not cand[0] and not core.is_raise(t):
            # a data set without valid values
            out["shape of the all-missing grid"] = t.args[0] if t.op == "full" and t.args[1] is TT.NAN else \
                TT.S("number") if t is TT.NAN else mk("opaque", t)
    if v.op == "idx" and v.args[1] is TT.ZERO:
        v = v.args[0]
    elif dotted.startswith("spec.sp.grid_ok"):
        return None
    if v.op == "call" and isinstance(v.args[0], TT.T):
        tree, kw = v.args[0], dict(v.args[2])
        if v.args[1] or tree.op != "call":
            return None
        kw.update(("data " + k, x) for k, x in tree.args[2])
    elif v.op == "meth" and v.args[1] == "execute" and v.args[0].op == "call" and not v.args[2] and not v.args[0].args[1]:
        kw = dict(v.args[3])
        kw.update(("data " + k, x) for k, x in v.args[0].args[2])
    else:
        return None
    for k, x in kw.items():
        if x.op == "call" and x.args[0] == "numpy.column_stack" and x.args[1] and x.args[1][0].op in ("tuple", "list"):
            for i, y in enumerate(x.args[1][0].args):
                out["%s[%d]" % (k, i)] = y
        else:
            out[k] = x
    return out
