"""Power law parameters a, b for frequency and polarisation."""
import core as C
import terms as TT
from terms import mk, ite, walk, NONE, TRUE, FALSE, T
from interp import Unsupported
TECHNIQUE = ("value-graph congruence of the parameter lookup with the reference lookup: rejection of frequencies "
             "outside 1..100 GHz, of unknown polarisations, tables and of mismatching shapes; table row per "
             "polarisation; labels and shape of the result")
MINIMUM = 3
K = "pycomlink.processing.k_R_relation."


def leaves(t, f):
    if t.op == "ite" and (t.args[0] in TT.SCALAR_CONDS or any(
            x.op == "call" and x.args[0] == "xarray.DataArray" for x in walk(t, into=lambda z: z.op == "ite"))):
        return ite(t.args[0], leaves(t.args[1], f), leaves(t.args[2], f))
    return f(t)


def marks(t):
    if t.op == "raise" or t.op == "str" and str(t.args[0]).startswith("!raise"):
        return t
    if t.op == "call" and t.args[0] == "xarray.DataArray":
        return mk("tuple", TRUE, dict(t.args[2]).get("coords", NONE))
    if t.op in ("meth", "call") and not (isinstance(t.args[0], T) and t.args[0].op == "interp1d"):
        raise Unsupported("labels of %s" % TT.show(t, 2))
    return mk("tuple", FALSE, NONE)


def labels(i):
    def go(t, out):
        return leaves(C.component(t, i), marks)
    return go


def lifted(t):
    """True: elementwise in an array of at least one dimension; None: not known"""
    if t.op == "call" and t.args[0] == "numpy.atleast_1d":
        return True
    if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "interp1d" and len(t.args[1]) == 1:
        return lifted(t.args[1][0])
    if t.op == "ite":
        ls = [lifted(x) for x in t.args[1:] if x.op not in ("nan", "num")]
        return True if ls and all(ls) else None
    if t.op == "full" and t.args[0].op == "shape":
        return lifted(t.args[0].args[0])
    return None


def scalar_labels(ck, dotted):
    """labels of a frequency without dimension do not fit data that was made one dimensional"""
    rule = "labelled result has the shape of the frequency"
    for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
        s.clear()
    r = ck.anchor(dotted)
    TT.QUERY["keep1d"] = True
    try:
        o = ck.run(dotted, ["f_GHz", "pol", "approx_type"])
        for i, name in enumerate("ab"):
            c = C.component(o.result, i)
            arrs = {x for x in walk(c, into=lambda z: z.op == "ite") if x.op == "call" and x.args[0] == "xarray.DataArray"}
            bad = [x for x in arrs if lifted(x.args[1][0])]
            if bad:
                ck.violation(rule, dotted + " " + name, r[1].path, r[1].defs[r[2]].lineno,
                             "data passed through atleast_1d get the coordinates of a possibly 0-d frequency: %s"
                             % TT.show(bad[0], 3))
            else:
                ck.ok(rule, dotted + " " + name)
    except (Unsupported, RecursionError) as e:
        ck.undecided(rule, dotted, e)
    finally:
        TT.QUERY.clear()


def check(ck):
    ck.load_spec("kr")
    ck.match(K + "a_b", "spec.kr.coefficients", "coefficients of frequency, polarisation and table",
             scalars=["approx_type"])
    for i, n in enumerate("ab"):
        ck.match(K + "a_b", "spec.kr.coefficients", "labels of the frequency", scalars=["approx_type"],
                 project=labels(i), construct=K + "a_b labels of " + n)
    scalar_labels(ck, K + "a_b")
    ck.defaults(K + "a_b", dict(approx_type="ITU_2005"))
