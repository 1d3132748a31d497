"""Nearby link reference level, signal correction and rain rate."""
TECHNIQUE = "value-graph congruence with the published formulas (case splits on optional arguments and missing values)"
MINIMUM = 4
N = "pycomlink.processing.nearby_rain_retrival."
P = ["pref", "p_c_min", "p_c_max", "F", "length", "a", "b", "waa_max", "alpha", "F_value_threshold"]
Q = ["pref", "p_c_min", "p_c_max", "F", "length", "f_GHz", "pol", "a_b_approximation", "waa_max", "alpha",
     "F_value_threshold"]


def check(ck):
    ck.load_spec("nb")
    ck.match(N + "nearby_determine_reference_level", "spec.nb.reference_level", "reference level",
             scalars=["n_average_dry", "min_periods"])
    ck.match(N + "nearby_correct_received_signals", "spec.nb.correct", "signal correction")
    s = ["F_value_threshold", "waa_max", "alpha"]
    r = N + "nearby_rainfall_retrival"
    ck.match(r, "spec.nb.retrieval", "rain rate from a and b", params=P, scalars=s, notnone=["a", "b"], construct=r + "(a, b)")
    ck.match(r, "spec.nb.retrieval_freq", "rain rate from frequency and polarisation", params=Q, scalars=s,
             notnone=["f_GHz", "pol"], anyraise=True, construct=r + "(f_GHz, pol)")
    ck.defaults(N + "nearby_determine_reference_level", dict(n_average_dry=96, min_periods=1))
    ck.defaults(r, dict(f_GHz=None, pol=None, a=None, b=None, a_b_approximation="ITU_2005", waa_max=2.3, alpha=0.33, F_value_threshold=-32.5))
