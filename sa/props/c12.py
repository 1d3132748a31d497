"""Blackout gaps."""
TECHNIQUE = ("value-graph congruence with the reference markers and mask: loop peeling over all series of "
             "bounded length")
MINIMUM = 2
B = "pycomlink.processing.blackout_gap_detection."


def check(ck):
    ck.load_spec("ts")
    n = 5 if ck.tier == "quick" else 8
    ck.match_series(B + "get_blackout_start_and_end", "spec.ts.blackout_markers", "markers at the edge of a gap",
                    series=["rsl"], scalars=["rsl_threshold"], lengths=range(1, n + 1), prove=False)
    ck.match_series(B + "created_blackout_gap_mask_from_start_end_markers", "spec.ts.blackout_mask",
                    "mask from markers", series=["rsl", "gap_start", "gap_end"], lengths=range(1, n + 1),
                    domains=dict(gap_start=lambda r: r.random() < .4, gap_end=lambda r: r.random() < .3), prove=False)
