"""Climatological variogram."""
TECHNIQUE = "value-graph congruence with the published formulas, entry by entry"
MINIMUM = 3
P = "pycomlink.spatial.interpolator.clim_var_param"


def check(ck):
    ck.load_spec("sp")
    ck.match(P, "spec.sp.clim_var_param", "climatological variogram parameters", scalars=["time_scale_hours"])
    ck.defaults(P, dict(time_scale_hours=0.25))
