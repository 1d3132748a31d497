"""Functions on time series work on labelled arrays of any dimension order and call style."""
import core
import terms as TT
from terms import *  # noqa
TECHNIQUE = ("abstract interpretation of the wrapper with a model of inspect.signature/bind for every call style, value-graph "
             "comparison with its contract, and arity agreement at every decorated function")
MINIMUM = 12
W = "pycomlink.processing.xarray_wrapper.xarray_apply_along_time_dim"
P = "pycomlink.processing."
OUT = {P + "k_R_relation.calc_R_from_A": 1, P + "baseline.baseline_constant": 1,
       P + "wet_antenna.waa_schleiss_2013": 1, P + "wet_antenna.waa_leijnse_2008_from_A_obs": 1,
       P + "wet_antenna.waa_pastorek_2021_from_A_obs": 1, P + "nearby_rain_retrival.nearby_rainfall_retrival": 1,
       P + "blackout_gap_detection.get_blackout_start_and_end": 2}
RULE = "applied along time"


def check(ck):
    ck.anchor(W)
    ck.load_spec("xw")
    for n in ("positional", "keywords", "mixed", "plain"):
        ck.match("spec.xw." + n, "spec.xw." + n + "_ref", "wrapper contract", construct="%s[%s call]" % (W, n), strict=True)
    for n in ("missing", "unknown", "duplicate", "toomany"):
        ck.match("spec.xw." + n, "spec.xw.error_ref", "malformed calls are errors", construct="%s[%s argument]" % (W, n))
    for v in ck.viol:
        if v["file"].endswith("xw.py"):
            v["file"], v["line"] = loc(ck, W)
    for f, n in sorted(OUT.items()):
        decorated(ck, f, n)


def loc(ck, dotted):
    r = ck.prog.resolve(dotted)
    return (__import__("os").path.relpath(r[1].path, ck.root), getattr(r[1].defs[r[2]], "lineno", 0))


def arity(t):
    n = core.tuple_arity(t)
    return 1 if n is None else n


def decorated(ck, f, n):
    ck.anchor(f)
    path, line = loc(ck, f)
    try:
        bare = ck.run(f)
        I = ck.interp()
        I.real_decor = True
        fv = I.get(f)
        names = [a.arg for a in bare.I.get(f).data.node.args.args]
        I.frames.append(core.Frame(bare.I.get(f).data.mod))
        t = ck.outcome(I, I.call(fv, [], {p: I.param(p) for p in names}, None))
    except (core.Unsupported, RecursionError) as e:
        return ck.undecided(RULE, f, e)
    n = n or arity(bare.result)
    ls = core.leaves(t)
    ap = [x for x in ls if x.op == "call" and x.args[0] == "xarray.apply_ufunc"]
    ck.count("decorated functions")
    if not ap:
        return ck.violation(RULE, f, path, line, "labelled arrays are not processed along their time dimension")
    for x in ap:
        kw = dict(x.args[2])
        oc = kw.get("output_core_dims")
        if oc is not None and oc.op in ("list", "tuple") and len(oc.args) != n:
            return ck.violation(RULE, f, path, line, "%d outputs declared, the function returns %d" % (len(oc.args), n))
        pos = x.args[1]
        fn = pos[0]
        if fn.op == "fn" and list(pos[1:]) != [mk("par", p) for p in names]:
            return ck.violation(RULE, f, path, line, "arguments are handed on in another order or dropped")
        if oc is None or oc.op not in ("list", "tuple") or fn.op != "fn":
            return ck.undecided(RULE, f, "form of the apply_ufunc call")
    ck.ok(RULE, f, "%d output(s)" % n)
