"""Coverage mask: grid points within the given distance of a link path."""
TECHNIQUE = ("value-graph congruence with a reference (shapely's geometric operations as uninterpreted functions with "
             "their signatures); loops over links and grid points summarised")
MINIMUM = 1
F = "pycomlink.spatial.coverage.calc_coverage_mask"


def check(ck):
    ck.load_spec("va")
    ck.match_small(F, "spec.va.coverage", "covered grid points",
                   [dict(lens=dict(cml_list=n, xgrid=4, ygrid=4)) for n in (1, 2, 3)], series=["xgrid", "ygrid"], ndims=dict(xgrid=2, ygrid=2),
             scalars=["max_dist_from_cml"])
