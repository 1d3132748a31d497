"""PyTorch CNN: windows, attribution of the predictions, model in evaluation mode."""
import core
from models import fld
from terms import *  # noqa

import terms as TT
TECHNIQUE = ("value-graph congruence with loop summaries of the windowing, the inference loop and the redistribution; the "
             "model is an uninterpreted function; must-call analysis of eval() on the loaded model")
MINIMUM = 6
P = "pycomlink.processing.pytorch_utils."
R = P + "run_inference."


def links(n, m):
    """a data set of n links with m samples each"""
    def rule(t):
        if t.op == "fld" and t.args[1] in ("cml_id", "cml_ids"):
            return n
        if t.op == "fld" and t.args[1] in ("time", "times") and t.args[0].op == "par":
            return m
        if t.op == "sel":
            return m
        if t.op == "call" and t.args[0] == "torch.utils.data.DataLoader":
            return n
        return None
    return rule


def check(ck):
    TT.PRECISE.clear()        # the networks work in single precision
    ck.load_spec("ml")
    small = [(m, w, r) for m in (2, 3, 4) for w, r in ((1, 2), (2, 2), (2, 4), (3, 2), (3, 3), (5, 2), (2, 6))]
    if ck.tier != "quick":
        small += [(m, w, r) for m in range(1, 9) for w in range(1, 9) for r in range(2, 9)]
    ck.match_small(R + "rolling_window", "spec.ml.rolling_window", "windows and their target time",
                   [dict(consts=dict(window_size=w, reflength=r), lens=dict(timeseries=m, valid_times=m))
                    for m, w, r in small], anyraise=True, scalars=["window_size", "reflength"])
    ck.match_small(R + "batchify_windows", "spec.ml.batchify_windows", "windows of all links",
                   [dict(consts=dict(window_size=w, reflength=r), rule=links(n, m))
                    for n in (1, 2) for m, w, r in ((2, 2, 2), (3, 2, 2), (3, 2, 4))],
                   anyraise=True, scalars=["window_size", "reflength"])
    ck.match_small(R + "run_inference", "spec.ml.run_inference", "one prediction per window, in order",
                   [dict(rule=links(n, 3)) for n in (1, 2, 3)], anyraise=True, scalars=["reflength", "batch_size"],
                   cuts={R + "batchify_windows"})
    pred = fld(mk("par", "results"), "predictions")
    same = [fld(mk("par", "results"), "cml_ids"), fld(mk("par", "results"), "times"), pred, mk("colflat", pred)]
    ck.match(R + "redistribute_results", "spec.ml.redistribute_results", "predictions at their link and time",
             ndims={pred: 1}, series=same, construct=R + "redistribute_results[n]")
    ck.match(R + "redistribute_results", "spec.ml.redistribute_results", "predictions at their link and time",
             columns=[pred], series=same, construct=R + "redistribute_results[n, 1]")
    ck.match(R + "cnn_wd", "spec.ml.cnn_wd", "pipeline", cuts={R + "run_inference", R + "redistribute_results",
                                                              P + "inference_utils.get_model"})
    ck.match(P + "pytorch_utils.load_model", "spec.ml.load_model", "loaded model")
    evaluation_mode(ck)
    ck.defaults(R + "cnn_wd", dict(batch_size=32, force_download=False, reflength=60))
    ck.defaults(R + "run_inference", dict(batch_size=32, reflength=60))
    ck.defaults(R + "batchify_windows", dict(reflength=60))
    ck.defaults(R + "rolling_window", dict(reflength=60))


def evaluation_mode(ck):
    """on every path of cnn_wd that loads a model, eval() is called on it and nothing turns training on again"""
    rule, construct = "model in evaluation mode", R + "cnn_wd"
    for dotted in (R + "cnn_wd", P + "inference_utils.get_model"):
        ck.anchor(dotted)
    try:
        o = ck.run(construct)
    except (core.Unsupported, RecursionError) as e:
        ck.undecided(rule, construct, e)
        return
    loads = [e for e in o.I.events if e.name in ("torch.jit.load", "torch.load", "torch.export.load")]
    if not loads:
        ck.undecided(rule, construct, "no call that loads a model")
        return
    for n, l in enumerate(loads):
        ck.count("model loads")
        ev = FALSE
        i = o.I.events.index(l)
        for e in o.I.events[i:]:
            if e.name == ".eval" or e.name == ".train" and len(e.args) > 1 and e.args[1] is FALSE:
                ev = lor(ev, e.pc)
            elif e.name == ".train" and len(e.args) > 1 and e.args[1] is not TRUE:
                ck.undecided(rule, construct, "train() with a computed mode")
                return
            elif e.name == ".train":
                ev = land(ev, lnot(e.pc))
        known = {x for x in walk(l.pc) if x.op == "exc"}       # other calls of the path do not fail
        ev = rewrite(ev, {x: FALSE for x in walk(ev) if x.op == "exc" and x not in known})
        r = core.implied(l.pc, ev)
        if r is None:
            ck.undecided(rule, construct, "conditions of eval()")
        elif r:
            ck.ok(rule, "%s#%d" % (l.stack[-1] if l.stack else construct, n))
        else:
            ck.violation(rule, construct, l.path, l.line, "the loaded model can be used without eval(): its prediction for "
                         "a window then depends on the other windows of the batch", key="%s|%s" % (rule, construct))
