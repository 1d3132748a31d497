"""Frequency and polarisation act on the rain rate only by way of their power law parameters."""
TECHNIQUE = ("value-graph congruence of the retrieval called with frequency and polarisation and the retrieval "
             "called with the parameters of that frequency, polarisation and approximation")
MINIMUM = 2
K = "pycomlink.processing.k_R_relation."


def pos(r):
    return r.uniform(.1, 30)


def check(ck):
    ck.load_spec("kr")
    dom = dict(L_km=pos, L=pos, k=lambda r: r.uniform(5, 100))
    ck.match(K + "calc_R_from_A", "spec.kr.routed", "coefficients of the given frequency, polarisation, table",
             params=["A", "L_km", "f_GHz", "pol", "a_b_approximation", "R_min"], scalars=["a_b_approximation", "R_min"],
             domains=dom, notnone=["f_GHz", "pol"])
    ck.match(K + "calc_R_from_A_min_max", "spec.kr.routed_min_max",
             "coefficients of the given frequency and polarisation",
             params=["Ar_max", "L", "f_GHz", "pol", "R_min", "k"], scalars=["L", "R_min", "k"], domains=dom,
             notnone=["f_GHz", "pol"])
