"""Temporal aggregation onto a time index; grid time series along a link."""
TECHNIQUE = ("value-graph congruence with a reference assignment of samples to labels (pandas and xarray operations as "
             "uninterpreted functions with their signatures)")
MINIMUM = 4
T = "pycomlink.util.temporal.aggregate_df_onto_DatetimeIndex"
V = "pycomlink.validation.validator.GridValidator"


def check(ck):
    ck.load_spec("va")
    for label in ("right", "left", "centre"):
        ck.match(T, "spec.va.aggregate", "samples and their label", consts=dict(label=label),
                 construct="%s[%s]" % (T, label))
    ck.defaults(T, dict(label="right", new_index_tz="utc"))
    ck.anchor(V)
    ck.match("spec.va.grid_series_code", "spec.va.grid_series", "weighted sum along the link", notnone=["xr_ds"],
             construct=V + ".get_time_series")
    for label in ("right", "left", "centre"):
        ck.match("spec.va.resample_code", "spec.va.resample", "samples and their grid time",
                 consts=dict(grid_time_index_label=label),
                 construct="%s.resample_to_grid_time_series[%s]" % (V, label))
