"""Distances between the ends of all links."""
TECHNIQUE = ("value-graph congruence of the great circle formula and, per output variable, of the rows written by the "
             "loop over links")
MINIMUM = 5
D = "pycomlink.processing.wet_dry.nearby_wetdry.calc_distance_between_cml_endpoints"


def check(ck):
    ck.load_spec("nb")
    ck.match("pycomlink.spatial.helper.haversine", "spec.nb.haversine", "great circle distance")
    for v, n in (("aa", "a_to_all_a"), ("ab", "a_to_all_b"), ("ba", "b_to_all_a"), ("bb", "b_to_all_b")):
        ck.match("spec.nb." + v, "spec.nb.%s_ref" % v, "distance from one end to all ends", construct="%s[%s]" % (D, n))
