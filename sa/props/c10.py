"""Constant baseline."""
import kinds
TECHNIQUE = ("value-graph congruence with the reference recursion: loop congruence for every length, otherwise "
             "loop peeling over all wet/dry/unknown series of bounded length; dataflow of what may be a pandas Series to compiled code")
MINIMUM = 2
B = "pycomlink.processing.baseline."


def wet(r):
    return r.choice([0., 1., 0., 1., float("nan")])


def check(ck):
    ck.load_spec("ts")
    n = 5 if ck.tier == "quick" else 8
    ck.match_series(B + "baseline_constant", "spec.ts.baseline_constant", "constant level during wet periods",
                    series=["trsl", "wet"], domains=dict(wet=wet), lengths=range(1, n + 1),
                    variants=[dict(n_average_last_dry=k) for k in (1, 2, 3)], prove=False)
    ck.defaults(B + "baseline_constant", dict(n_average_last_dry=1))
    kinds.check(ck, B + "baseline_constant", ["trsl", "wet"])
