"""Wet antenna attenuation after Schleiss et al. 2013."""
TECHNIQUE = ("value-graph congruence with the reference recursion; the loop-carried attenuation is shown congruent "
             "for every series length, otherwise compared for all series of up to 5 samples")
MINIMUM = 1
W = "pycomlink.processing.wet_antenna."


def check(ck):
    ck.load_spec("wa")
    ck.match_series(W + "waa_schleiss_2013", "spec.wa.schleiss", "WAA recursion",
                    series=["rsl", "baseline", "wet"], scalars=["waa_max", "delta_t", "tau"],
                    domains=dict(wet=lambda r: r.choice([0., 1.])))
