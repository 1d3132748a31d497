"""Exactly one of (frequency and polarisation) and (a and b) has to be given."""
import itertools
import terms as TT
from terms import TRUE, lor
from interp import Unsupported
import equiv
TECHNIQUE = ("abstract interpretation; the path condition under which the function raises ValueError before it "
             "computes anything is decided for each of the 16 combinations of given and omitted arguments")
MINIMUM = 32
FUNCS = ("pycomlink.processing.k_R_relation.calc_R_from_A",
         "pycomlink.processing.nearby_rain_retrival.nearby_rainfall_retrival")
OPT = ("f_GHz", "pol", "a", "b")


def check(ck):
    for dotted in FUNCS:
        for combo in itertools.product((False, True), repeat=4):
            given = [n for n, g in zip(OPT, combo) if g]
            rejects(ck, dotted, given, given in (["f_GHz", "pol"], ["a", "b"]))


def rejects(ck, dotted, given, valid):
    rule = "combination of optional arguments"
    r = ck.anchor(dotted)
    node = r[1].defs[r[2]]
    req = [a.arg for a in node.args.args[:len(node.args.args) - len(node.args.defaults)]]
    construct = "%s(%s)" % (dotted, ", ".join(given))
    for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
        s.clear()
    TT.NOTNONE.update(TT.mk("par", n) for n in given)
    try:
        o = ck.run(dotted, [a for a in req if a not in OPT] + given)
    except (Unsupported, RecursionError) as e:
        ck.undecided(rule, construct, e)
        return
    ck.count("combinations")
    ve = [x for x in o.I.raises if x.exc.split(".")[-1] == "ValueError"]
    always = lor(*[x.pc for x in ve]) is TRUE if ve else False
    if valid:
        if any(x.pc is TRUE for x in o.I.raises):
            ck.violation(rule, construct, r[1].path, node.lineno, "a valid combination of arguments is rejected")
        else:
            ck.ok(rule, construct, "accepted")
    elif always:
        ck.ok(rule, construct, "rejected with ValueError")
    elif any(equiv.tainted(x.pc) for x in ve):
        ck.undecided(rule, construct, "rejection depends on %s" % [TT.show(y.pc, 4) for y in ve][:2])
    else:
        ck.violation(rule, construct, r[1].path, node.lineno,
                     "called with %s: no ValueError before the calculation" % (
                         "only " + ", ".join(given) if given else "none of " + ", ".join(OPT)))
