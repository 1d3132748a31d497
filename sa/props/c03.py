"""Rain rate from attenuation: power law, missing values, floor."""
TECHNIQUE = ("abstract interpretation of the retrieval functions to value graphs; congruence with the "
             "reference power law A = a R^b L, its treatment of missing and negative attenuation and its floor")
MINIMUM = 6
K = "pycomlink.processing.k_R_relation."


def pos(r):
    return r.uniform(.1, 30)


def check(ck):
    ck.load_spec("kr")
    dom = dict(L_km=pos, L=pos, a=pos, b=lambda r: r.uniform(.5, 2), k=lambda r: r.uniform(5, 100))
    ck.match(K + "calc_R_from_A", "spec.kr.power_law", "rain rate = inverse power law, NaN and floor kept",
             params=["A", "L_km", "a", "b", "R_min"], scalars=["R_min"], domains=dom, notnone=["a", "b"])
    ck.match(K + "calc_R_from_A_min_max", "spec.kr.power_law_min_max",
             "rain rate of min/max data = inverse power law, NaN and floor kept",
             params=["Ar_max", "L", "a", "b", "R_min", "k"], scalars=["L", "R_min", "k"], domains=dom,
             notnone=["a", "b"])
    ck.defaults(K + "calc_R_from_A", dict(f_GHz=None, pol=None, a=None, b=None,
                                         a_b_approximation="ITU_2005", R_min=0.1))
    ck.defaults(K + "calc_R_from_A_min_max", dict(f_GHz=None, pol="H", R_min=0.1, k=90))
    ck.single_number(K + "calc_R_from_A", "A", "single attenuation")
    ck.single_number(K + "calc_R_from_A_min_max", "Ar_max", "single attenuation")
