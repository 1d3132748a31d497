"""Attenuation from minimum and maximum levels."""
TECHNIQUE = ("value-graph congruence with the published zero-level method (running minimum as an uninterpreted reduction "
             "over the window); loop summarised for all lengths")
MINIMUM = 2
F = "pycomlink.processing.min_max._calc_A_min_max"


def check(ck):
    ck.load_spec("kr")
    n = ["tx_min", "tx_max", "rx_min", "rx_max"]
    ck.match_small(F, "spec.kr.a_min_max", "attenuation above the zero level",
                   [dict(consts=dict(window=w), lens={k: m for k in n}) for w, m in ((1, 4), (2, 4), (3, 5), (4, 3))], series=n, scalars=["gT", "gR", "window"],
             ndims={k: 1 for k in n}, domains=dict(window=lambda r: r.choice([1, 2, 3, 4, 7])))
    ck.defaults(F, dict(gT=1.0, gR=0.6, window=7))
