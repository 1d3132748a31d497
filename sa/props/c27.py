"""TensorFlow CNN: complete windows, attribution of the predictions, weights loaded."""
import core
from terms import *  # noqa

import terms as TT
TECHNIQUE = ("value-graph congruence with loop summaries of the windowing, the scaling and the attribution; the model is an "
             "uninterpreted function; must-call analysis of load_weights() on the model")
MINIMUM = 6
P = "pycomlink.processing.tensorflow_utils."
U = P + "inference_utils."
R = P + "run_inference."


def samples(m, v):
    """links with m samples of v variables"""
    def rule(t):
        if t.op == "call" and t.args[0] == "numpy.column_stack" or t.op == "sel":
            return m
        if t.op == "stack":
            return m if t.args[0] in (-1, 1) else v
        if t.op == "idx" and t.args[0].op == "sel":
            return m
        return None
    return rule


def grid(m, n):
    """a data set of m times and n links"""
    def rule(t):
        if t.op in ("fld", "idx") and t.args[0].op == "par" and t.args[0].args[0] == "ds":
            k = t.args[1].args[0] if isinstance(t.args[1], T) and t.args[1].op == "str" else t.args[1]
            return m if k == "time" else n if k == "cml_id" else None
        return None
    rule.sets = True
    return rule


def check(ck):
    TT.PRECISE.clear()        # the networks work in single precision
    ck.load_spec("ml")
    ck.match_small(U + "create_samples", "spec.ml.create_samples", "complete windows, their link and end time",
                   [dict(consts=dict(seq_len=w), lens=dict(cml_ids=n, input_vars=v), rule=samples(m, v))
                    for n, v in ((1, 2), (2, 2), (1, 1)) for m, w in ((2, 1), (3, 2), (3, 3), (2, 3), (4, 2))],
                   scalars=["seq_len"], anyraise=True)
    ck.match(U + "scale_features", "spec.ml.scale_features", "each variable is standardised by itself")
    ck.match(U + "run_inference", "spec.ml.tf_run_inference", "one prediction per window, in order")
    ck.match_small(U + "store_predictions", "spec.ml.store_predictions", "predictions at their link and time",
                   [dict(consts=c, lens=dict(model_prob=k, cml_ids=k, time_indices=k, cml_ids_to_use=u), rule=grid(m, n),
                         notnone=["cml_ids_to_use"])
                    for k, u, m, n in ((2, 1, 2, 2), (2, 2, 1, 2), (3, 1, 2, 1), (1, 2, 3, 1))
                    for c in (dict(time_dim="time", cml_dim="cml_id"),)] + [
                   dict(consts=dict(time_dim="time", cml_dim="cml_id", cml_ids_to_use=None),
                        lens=dict(model_prob=k, cml_ids=k, time_indices=k), rule=grid(m, n))
                   for k, m, n in ((2, 2, 2), (1, 2, 1), (3, 1, 2))])
    ck.match(U + "store_predictions", "spec.ml.store_predictions", "labels of the predictions",
             project=core.labels("dims", "coords", "name"))
    for ds in (True, False):
        ck.match(R + "wet_dry_1d_cnn", "spec.ml.wet_dry_1d_cnn", "pipeline", consts=dict(return_ds=ds),
                 construct=R + "wet_dry_1d_cnn[return_ds=%s]" % ds,
             cuts={U + n for n in ("resolve_model_paths", "load_model_from_local", "create_samples", "scale_features",
                                   "run_inference", "store_predictions")} | {P + "lazy_tf.get_tf"},
             anyraise=True)
    ck.match(U + "load_model_from_local", "spec.ml.load_model_from_local", "loaded model")
    weights(ck)
    installed(ck)
    ck.defaults(R + "wet_dry_1d_cnn", dict(id_coord="cml_id", force_download=False, return_ds=True))
    ck.defaults(U + "create_samples", dict(seq_len=180, cml_dim="cml_id"))
    ck.defaults(U + "run_inference", dict(batch_size=128))
    ck.defaults(U + "store_predictions", dict(time_dim="time", cml_dim="cml_id"))


def installed(ck):
    """a missing TensorFlow is installed, not reported as missing, if that is allowed"""
    rule, construct = "a missing TensorFlow is installed if allowed", P + "lazy_tf.get_tf"
    ck.anchor(construct)
    try:
        o = ck.run(construct)
    except (core.Unsupported, RecursionError) as e:
        ck.undecided(rule, construct, e)
        return
    made = [e for e in o.I.events if e.name.startswith("subprocess.") and any(
        x is S("install") for a in e.args for x in walk(a))]
    if not made:
        ck.undecided(rule, construct, "no installation recognised")
        return
    ways = [mk("truth", mk("par", "auto_install"))]
    for t in [e.pc for e in made] + [r.pc for r in o.I.raises]:
        for x in walk(t):
            if x.op == "eq" and S("1") in x.args and x not in ways and any(y is S("ALLOW_TF_AUTOINSTALL") for y in walk(x)):
                ways.append(x)
    for r in o.I.raises:
        if any(core.implied(r.pc, e.pc) for e in made):
            continue                       # the installation did not help
        for w in ways:
            v = core.implied(r.pc, lnot(w))
            if v:
                ck.ok(rule, construct, show(w))
            elif v is False:
                ck.violation(rule, construct, r.path, r.line, "TensorFlow is reported as missing although %s allows "
                             "to install it" % show(w))
            else:
                ck.undecided(rule, construct, "condition of the exception")


def weights(ck):
    """on every path of load_model_from_local that returns a model, load_weights(weights_path) was called on it"""
    rule, construct = "weights are loaded", U + "load_model_from_local"
    ck.anchor(construct)
    try:
        o = ck.run(construct)
    except (core.Unsupported, RecursionError) as e:
        ck.undecided(rule, construct, e)
        return
    made = [e for e in o.I.events if e.name.endswith(".model_from_json")]
    if not made:
        ck.undecided(rule, construct, "no call that builds a model")
        return
    path = mk("par", "weights_path")
    for n, l in enumerate(made):
        ck.count("models built")
        done, odd = FALSE, False
        for e in o.I.events[o.I.events.index(l):]:
            if e.name == ".load_weights":
                if len(e.args) > 1 and e.args[1] is path:
                    done = lor(done, e.pc)
                else:
                    odd = True
            elif e.name in (".set_weights", ".from_config"):
                odd = True
        known = {x for x in walk(l.pc) if x.op == "exc"}       # other calls of the path do not fail
        done = rewrite(done, {x: FALSE for x in walk(done) if x.op == "exc" and x not in known})
        r = core.implied(l.pc, done)
        if r:
            ck.ok(rule, "%s#%d" % (construct, n))
        elif r is None or odd:
            ck.undecided(rule, construct, "conditions or source of the weights")
        else:
            ck.violation(rule, construct, l.path, l.line, "the model can be returned without its weights: its predictions "
                         "are those of a random initialisation", key="%s|%s" % (rule, construct))
