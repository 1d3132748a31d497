"""MLP wet/dry detection: which samples each probability is computed from."""
TECHNIQUE = ("value-graph congruence of mlp_wet_dry, per model, with a reference design matrix; the pickled model and the "
             "rolling median are uninterpreted functions of all their arguments")
MINIMUM = 5
P = "pycomlink.processing.wet_dry.mlp.mlp_wet_dry"


def check(ck):
    ck.load_spec("ml")
    for m in ("rg", "rad", "rg_online", "rad_online", "another"):
        ck.match(P, "spec.ml.mlp", "samples behind every probability", consts={"model_sel": m}, anyraise=True,
                 construct="%s[%s]" % (P, m))
    ck.defaults(P, dict(model_sel="rad_online"))
