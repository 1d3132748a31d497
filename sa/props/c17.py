"""Rain error performance metrics."""
TECHNIQUE = ("value-graph congruence of every metric with its definition over complete pairs (all lengths; bounded length "
             "where algebraic identities between sums are needed)")
MINIMUM = 17
F = "pycomlink.validation.stats.calc_rain_error_performance_metrics"


def check(ck):
    ck.load_spec("st")
    ck.match_fields(F, "spec.st.rain", "metric definition", arrays=["reference", "predicted"], anyraise=True,
                    scalars=["rainfall_threshold_wet"], lengths=(1, 2, 3) if ck.tier == "quick" else (1, 2, 3, 4))
