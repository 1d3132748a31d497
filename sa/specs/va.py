"""References for temporal aggregation, grid validation, coverage."""
import numpy as np
import pandas as pd
import poligrain as plg
from shapely.geometry import LineString, Point
from shapely.ops import unary_union
from pycomlink.validation.stats import calc_wet_error_rates
from pycomlink.validation.validator import GridValidator, Validator, calc_wet_dry_error


def aggregate(df, new_index, method, label, new_index_tz):
    if label not in ("left", "right"):
        raise NotImplementedError()
    d = pd.DataFrame(df).copy()
    n = pd.DataFrame(index=new_index, data={"time": new_index})
    if not n.index.tzinfo:
        n.index = n.index.tz_localize(new_index_tz)
    first = max(d.index.min(), n.index.min())
    last = min(d.index.max(), n.index.max())
    n = n.loc[first:last]
    d = d.loc[first:last]
    # right: the next label, left: the label before
    d["new_time_ix"] = n.reindex(d.index, method="bfill" if label == "right" else "ffill").time
    r = d.groupby("new_time_ix").agg(method)
    r.index.name = d.index.name
    if not r.index.tzinfo:
        r.index = r.index.tz_localize(new_index_tz).tz_convert(d.index.tzinfo)
    return r


# ------------------------------------------------------------------ grids
def grid_series_code(xr_ds, other_cml, other_values, cml, values):
    v = GridValidator(xr_ds=xr_ds)
    v.get_time_series(other_cml, other_values)
    r = v.get_time_series(cml, values)
    return r, v.weighted_grid_sum, v.intersect_weights


def grid_series(xr_ds, other_cml, other_values, cml, values):
    c = cml.get_coordinates()
    w = plg.spatial.calc_intersect_weights(x1_line=c.lon_a, y1_line=c.lat_a, x2_line=c.lon_b, y2_line=c.lat_b,
                                           x_grid=xr_ds.longitudes.values, y_grid=xr_ds.latitudes.values)
    t = xr_ds.time
    inside = (t > cml.channel_1.data.index.values[0]) & (t < cml.channel_2.data.index.values[-1])
    rows, cols = np.where(w > 0)
    y = slice(np.unique(rows).min(), np.unique(rows).max() + 1)
    x = slice(np.unique(cols).min(), np.unique(cols).max() + 1)
    r = (xr_ds[values][inside, y, x] * w[y, x]).sum(dim=["x", "y"]).to_dataframe()
    return r, r, w


def resample_code(sums, df, grid_time_index_label, grid_time_zone):
    v = GridValidator(xr_ds=sums)
    v.weighted_grid_sum = sums
    return v.resample_to_grid_time_series(df, grid_time_index_label, grid_time_zone)


def resample(sums, df, grid_time_index_label, grid_time_zone):
    if grid_time_index_label not in ("left", "right"):
        raise NotImplementedError()
    d = df.copy()
    t = pd.DataFrame(sums.index, sums.index)
    if grid_time_zone is not None:
        t.index = t.index.tz_localize(grid_time_zone)
    d["truth_time_ix"] = t.reindex(df.index, method="bfill" if grid_time_index_label == "right" else "ffill").time
    return d.groupby("truth_time_ix").mean()


# ------------------------------------------------------------------ coverage
def coverage(cml_list, xgrid, ygrid, max_dist_from_cml):
    area = unary_union([LineString([[c.metadata["site_a_longitude"], c.metadata["site_a_latitude"]],
                                    [c.metadata["site_b_longitude"], c.metadata["site_b_latitude"]]]).buffer(
                                        max_dist_from_cml, cap_style=1) for c in cml_list])
    return np.array([Point((x, y)).intersects(area) for x, y in zip(xgrid.ravel(), ygrid.ravel())]).reshape(xgrid.shape)


def calc_stats_code(cml, time_series):
    return Validator().calc_stats(cml, time_series)


def wet_error_rates(df_wet_truth, df_wet):
    dry, wet = df_wet_truth == False, df_wet_truth == True
    return {"false": (dry & (df_wet == True)).sum() / dry.sum(), "missed": (wet & (df_wet == False)).sum() / wet.sum()}


def error_rates_code(df_wet_truth, df_wet):
    r = calc_wet_error_rates(df_wet_truth, df_wet)
    return r[0], r[1]


def wet_dry_error_code(df_wet_truth, df_wet):
    return calc_wet_dry_error(df_wet_truth, df_wet)


def error_rates_keywords(df_wet_truth, df_wet):
    r = calc_wet_error_rates(df_wet=df_wet, df_wet_truth=df_wet_truth)
    return r.false, r.missed


def error_rates(df_wet_truth, df_wet):
    r = wet_error_rates(df_wet_truth, df_wet)
    return r["false"], r["missed"]


def wet_dry_error(df_wet_truth, df_wet):
    r = wet_error_rates(df_wet_truth, df_wet)
    return r["missed"], r["false"]


def stats(cml, time_series):
    a = pd.DataFrame(data={"xr_ds": np.asarray(time_series)},
                     index=pd.DatetimeIndex(time_series.time).strftime("%Y-%m-%d %H:%M:%S"))
    d = cml.data.copy()
    d.index = d.index.strftime("%Y-%m-%d %H:%M:%S")
    j = a.join(d.txrx_nf)
    return j.xr_ds.corr(j.txrx_nf, method="pearson")
