"""Wet antenna attenuation after Leijnse et al. 2008 and Pastorek et al. 2021."""
import random
import equiv as E
import terms as TT
from terms import *  # noqa

TECHNIQUE = ("value-graph congruence (exact polynomial normal form, complex arithmetic) with the published "
             "formulas; the inversion from observed attenuation with the reference look-up construction")
MINIMUM = 15
W = "pycomlink.processing.wet_antenna."
SC = ["T_K", "gamma", "delta", "n_antenna", "l_antenna", "A_max", "zeta", "d"]
USUAL = dict(f_Hz=(1e10, 4e10), T_K=(270, 300), gamma=(1e-5, 3e-5), delta=(.2, .3), n_antenna=(1.5, 2), l_antenna=(5e-4, 2e-3),
             A_max=(5, 15), zeta=(.4, .6), d=(.05, .2))


def pos(r):
    return r.uniform(.1, 30)


def check(ck):
    ck.load_spec("wa")
    ph = dict(T_K=lambda r: r.uniform(250, 320), f_Hz=lambda r: r.uniform(1e9, 1e11))
    ck.match(W + "eps_water", "spec.wa.eps_water", "permittivity of water", domains=ph)
    ck.match(W + "waa_leijnse_2008", "spec.wa.leijnse", "WAA as function of R (Leijnse 2008)",
             scalars=["T_K", "gamma", "delta", "n_antenna", "l_antenna"],
             domains=dict(ph, R=lambda r: r.choice([0., pos(r), pos(r)]), gamma=lambda r: r.uniform(1e-6, 1e-4),
                          delta=lambda r: r.uniform(.05, 1), l_antenna=lambda r: r.uniform(1e-4, 1e-2),
                          n_antenna=lambda r: complex(r.uniform(1.2, 3), r.uniform(.001, .1))))
    ck.match(W + "waa_leijnse_2008_from_A_obs", "spec.wa.leijnse_from_A", "WAA as function of A (Leijnse 2008)",
             scalars=["T_K", "gamma", "delta", "n_antenna", "l_antenna", "L_km", "f_Hz"])
    ck.match(W + "waa_pastorek_2021", "spec.wa.pastorek", "WAA as function of R (Pastorek 2021)",
             scalars=["A_max", "zeta", "d"])
    ck.match(W + "waa_pastorek_2021_from_A_obs", "spec.wa.pastorek_from_A", "WAA as function of A (Pastorek 2021)",
             scalars=["A_max", "zeta", "d", "L_km", "f_Hz"])
    leij = dict(T_K=293.0, gamma=2.06e-5, delta=0.24, n_antenna=1.73 + 0.014j, l_antenna=0.001)
    past = dict(A_max=14, zeta=0.55, d=0.1)
    for f, d in (("waa_leijnse_2008", leij), ("waa_leijnse_2008_from_A_obs", leij),
                 ("waa_pastorek_2021", past), ("waa_pastorek_2021_from_A_obs", past)):
        ck.defaults(W + f, d)
    for f, p in (("waa_leijnse_2008", "R"), ("waa_pastorek_2021", "R"), ("waa_leijnse_2008_from_A_obs", "A_obs"),
                 ("waa_pastorek_2021_from_A_obs", "A_obs")):
        ck.single_number(W + f, p, "single %s" % ("rain rate" if p == "R" else "attenuation"))
    for f in ("waa_leijnse_2008", "waa_pastorek_2021"):
        zero(ck, W + f)


def zero(ck, dotted, rule="exactly zero for zero rain"):
    """the value at R = 0 is the number 0, not the rounding error of the formula"""
    for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
        s.clear()
    r = ck.anchor(dotted)
    try:
        t = rewrite(ck.run(dotted, scalars=SC).result, {mk("par", "R"): ZERO})
        if t is ZERO or t.op == "full" and t.args[1] is ZERO:
            ck.ok(rule, dotted)
            return
        pars = [x for x in walk(t) if x.op == "par"]
        rnd = random.Random(ck.seed)
        for _ in range(20):
            v = E.Ev({x: i for i, x in enumerate(pars)},
                     {i: rnd.uniform(*USUAL[x.args[0]]) for i, x in enumerate(pars)}).ev(t)
            if isinstance(v, (int, float, complex)) and v == v and 0 < abs(v) < 1e-6:
                ck.violation(rule, dotted, r[1].path, r[1].defs[r[2]].lineno, "wet antenna attenuation without rain is the "
                             "rounding error of the formula, e.g. %.2g dB" % abs(v))
                return
    except Exception as e:
        ck.undecided(rule, dotted, "value at R = 0: %r" % e)
        return
    ck.undecided(rule, dotted, "value at R = 0")
