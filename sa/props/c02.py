"""Interpolator results do not depend on earlier calls."""
import core
import history as H
import props.c23 as SHARED
import terms as TT
TECHNIQUE = ("inductive cache-validity analysis of the instance state (what is stored, under which keys, compared how, "
             "and whether storage is shared with the caller), on the value graph of one call from an arbitrary state")
MINIMUM = 3


def check(ck):
    H.analyse(ck, "pycomlink.spatial.idw.Invdisttree", arrays=["q", "z"],
              scalars=["nnear", "eps", "p", "max_distance"])
    for c in ("IdwKdtreeInterpolator", "OrdinaryKrigingInterpolator"):
        H.analyse(ck, "pycomlink.spatial.interpolator." + c, arrays=["x", "y", "z", "xgrid", "ygrid"],
                  opaque=["Invdisttree"], scalars=["resolution"])
    for c in ("idw.Invdisttree", "interpolator.PointsToGridInterpolator", "interpolator.IdwKdtreeInterpolator",
              "interpolator.OrdinaryKrigingInterpolator"):
        shared(ck, "pycomlink.spatial." + c)


def shared(ck, dotted):
    """state outside the object (module or class level)"""
    rule = "no state shared by all objects changes a result"
    r = ck.prog.resolve(dotted)
    if r[0] == "ext" or r[2] not in r[1].defs:
        return
    node = r[1].defs[r[2]]
    bad = SHARED.class_state(ck, dotted, node)
    for line, msg, part in bad:
        if part:
            ck.violation(rule, dotted, r[1].path, line, msg)
        else:
            ck.undecided(rule, dotted, msg)
    for name in ("__init__", "__call__"):
        if not any(getattr(m, "name", "") == name for m in node.body):
            continue
        TT.SCALARS.clear()
        try:
            I = H.run_method(ck, dotted, name)[0]
        except (core.Unsupported, RecursionError) as e:
            ck.undecided(rule, dotted + "." + name, e)
            continue
        b = SHARED.state(ck, dotted + "." + name, I, None)
        for path, line, msg in b:
            ck.violation(rule, dotted + "." + name, path, line, msg)
        if not b and not bad:
            ck.ok(rule, dotted + "." + name)
