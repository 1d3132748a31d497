"""Linear baseline."""
import kinds
TECHNIQUE = ("value-graph congruence with the reference interpolation: loop peeling over all "
             "wet/dry/unknown series of bounded length; dataflow of what may be a pandas Series to compiled code")
MINIMUM = 2
B = "pycomlink.processing.baseline."


def wet(r):
    return r.choice([0., 1., 0., 1., float("nan")])


def check(ck):
    ck.load_spec("ts")
    n = 5 if ck.tier == "quick" else 7
    ck.match_series(B + "baseline_linear", "spec.ts.baseline_linear", "linear interpolation over wet periods",
                    series=["rsl", "wet"], domains=dict(wet=wet), scalars=["ignore_nan"],
                    lengths=range(1, n + 1), prove=False)
    ck.defaults(B + "baseline_linear", dict(ignore_nan=False))
    kinds.check(ck, B + "baseline_linear", ["rsl", "wet"])
