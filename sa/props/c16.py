"""Wet-dry performance metrics."""
TECHNIQUE = ("value-graph congruence of every metric with its definition as counts over pairs (all lengths; bounded length "
             "where identities between counts are needed)")
MINIMUM = 15
F = "pycomlink.validation.stats.calc_wet_dry_performance_metrics"


def check(ck):
    ck.load_spec("st")
    ck.match_fields(F, "spec.st.wet_dry", "metric definition", arrays=["reference", "predicted"], anyraise=True,
                    lengths=(1, 2, 3) if ck.tier == "quick" else (1, 2, 3, 4))
