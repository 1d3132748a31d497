"""References for the nearby link approach (Overeem et al. 2016)."""
import numpy as np
import xarray as xr
from pycomlink.processing.k_R_relation import a_b
import pycomlink.processing.wet_dry.nearby_wetdry as nw


def haversine(lon1, lat1, lon2, lat2):
    """great circle distance in km on a sphere with radius 6367 km"""
    f = np.pi / 180
    h = (np.sin((lat2 - lat1) * f / 2) ** 2
         + np.cos(lat1 * f) * np.cos(lat2 * f) * np.sin((lon2 - lon1) * f / 2) ** 2)
    return 2 * 6367 * np.arctan2(np.sqrt(h), np.sqrt(1 - h))


def reference_level(pmin, pmax, wet, n_average_dry, min_periods):
    """median of the mean of pmin and pmax over the dry steps among the last n steps"""
    mean = 0.5 * (pmin + pmax)
    dry = mean.where(wet == 0)
    return dry.rolling(time=n_average_dry, min_periods=min_periods).median()


def correct(pmin, pmax, wet, pref):
    use_min = (wet == 1) & (pmin < pref)
    cmin = xr.where(use_min, pmin, pref)
    cmax = xr.where(use_min & (pmax < pref), pmax, pref)
    return cmin, cmax


def _rate(pref, p, a, b, length, waa_max):
    d = pref - p - waa_max
    d = np.where(d < 0, 0, d)
    return (d / (a * length)) ** (1 / b)


def retrieval(pref, p_c_min, p_c_max, F, length, a, b, waa_max, alpha, F_value_threshold):
    r = alpha * _rate(pref, p_c_min, a, b, length, waa_max) \
        + (1 - alpha) * _rate(pref, p_c_max, a, b, length, waa_max)
    if F_value_threshold is None:
        return r
    return np.where(F <= F_value_threshold, np.nan, r)


def retrieval_freq(pref, p_c_min, p_c_max, F, length, f_GHz, pol, a_b_approximation, waa_max, alpha,
                   F_value_threshold):
    a, b = a_b(f_GHz, pol, a_b_approximation)
    return retrieval(pref, p_c_min, p_c_max, F, length, a, b, waa_max, alpha, F_value_threshold)


def _dist(which, *a):
    return getattr(nw.calc_distance_between_cml_endpoints(*a), which)


def _ref(which, cml_ids, late, lone, lato, lono):
    """row i: from end i to the other ends of all links; a link is at distance 0 from itself"""
    n = len(cml_ids)
    d = ["cml_id1", "cml_id2"]
    ds = xr.Dataset(data_vars={which: (d, np.full([n, n], np.nan))}, coords=dict(cml_id1=cml_ids, cml_id2=cml_ids))
    lone, late, lono, lato = np.array(lone), np.array(late), np.array(lono), np.array(lato)
    for i, c in enumerate(cml_ids):
        ds.loc[dict(cml_id1=c)][which][:] = haversine(lone[i], late[i], lono, lato)
    return xr.where(ds.cml_id1 == ds.cml_id2, 0, ds)[which]


def aa(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _dist("a_to_all_a", cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude)


def ab(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _dist("a_to_all_b", cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude)


def ba(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _dist("b_to_all_a", cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude)


def bb(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _dist("b_to_all_b", cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude)


def aa_ref(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _ref("a_to_all_a", cml_ids, site_a_latitude, site_a_longitude, site_a_latitude, site_a_longitude)


def ab_ref(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _ref("a_to_all_b", cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude)


def ba_ref(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _ref("b_to_all_a", cml_ids, site_b_latitude, site_b_longitude, site_a_latitude, site_a_longitude)


def bb_ref(cml_ids, site_a_latitude, site_a_longitude, site_b_latitude, site_b_longitude):
    return _ref("b_to_all_b", cml_ids, site_b_latitude, site_b_longitude, site_b_latitude, site_b_longitude)


def wetdry(pmin, ds_dist, radius, thresh_median_P, thresh_median_PL, min_links, interval, timeperiod, min_hours):
    per_hour = 60 / interval
    n = int(timeperiod * per_hour)
    max_pmin = pmin.rolling(time=n, min_periods=int(min_hours * per_hour)).max(skipna=False)
    dp = pmin - max_pmin
    dpl = dp / pmin.length
    near = ((ds_dist.a_to_all_a < radius) & (ds_dist.a_to_all_b < radius)
            & (ds_dist.b_to_all_a < radius) & (ds_dist.b_to_all_b < radius))
    wet = xr.full_like(pmin, np.nan, dtype=float)
    F = xr.full_like(pmin, np.nan, dtype=float)
    for c in pmin.cml_id:
        sel = near.sel(cml_id1=c, cml_id2=pmin.cml_id).values
        if sum(sel) > min_links:
            ndp, ndpl = dp.isel(cml_id=sel), dpl.isel(cml_id=sel)
            enough = ndp.count("cml_id") > min_links
            med = ndp.where(enough).median(dim="cml_id", skipna=True).values
            medl = ndpl.where(enough).median(dim="cml_id", skipna=True).values
            missing = np.isnan(med) | np.isnan(medl)
            first = np.where(missing, np.nan, (med < thresh_median_P) & (medl < thresh_median_PL))
            F.loc[dict(cml_id=c)] = (ndpl.sel(cml_id=c) - medl).rolling(time=n).sum(skipna=True) * (interval / 60)
            strong = (first == 1) & (ndp.sel(cml_id=c) < -2)
            out = first
            out = xr.where(strong.shift(time=1), 1, out)
            out = xr.where(strong.shift(time=-1), 1, out)
            out = xr.where(strong.shift(time=-2), 1, out)
            wet.loc[dict(cml_id=c)] = xr.where(missing, np.nan, out)
    return wet, F


def wetdry_filled(pmin, ds_dist, radius, thresh_median_P, thresh_median_PL, min_links, interval, timeperiod, min_hours):
    per_hour = 60 / interval
    n = int(timeperiod * per_hour)
    max_pmin = pmin.rolling(time=n, min_periods=int(min_hours * per_hour)).max(skipna=False)
    dp = pmin - max_pmin
    dpl = dp / pmin.length
    near = ((ds_dist.a_to_all_a < radius) & (ds_dist.a_to_all_b < radius)
            & (ds_dist.b_to_all_a < radius) & (ds_dist.b_to_all_b < radius))
    wet = xr.full_like(pmin, np.nan, dtype=float)
    F = xr.full_like(pmin, np.nan, dtype=float)
    for c in pmin.cml_id:
        sel = near.sel(cml_id1=c, cml_id2=pmin.cml_id).values
        if sum(sel) > min_links:
            ndp, ndpl = dp.isel(cml_id=sel), dpl.isel(cml_id=sel)
            enough = ndp.count("cml_id") > min_links
            med = ndp.where(enough).median(dim="cml_id", skipna=True).values
            medl = ndpl.where(enough).median(dim="cml_id", skipna=True).values
            missing = np.isnan(med) | np.isnan(medl)
            first = np.where(missing, np.nan, (med < thresh_median_P) & (medl < thresh_median_PL))
            F.loc[dict(cml_id=c)] = (ndpl.sel(cml_id=c) - medl).rolling(time=n).sum(skipna=True) * (interval / 60)
            strong = (first == 1) & (ndp.sel(cml_id=c) < -2)
            out = first
            out = xr.where(strong.shift(time=1, fill_value=False), 1, out)
            out = xr.where(strong.shift(time=-1, fill_value=False), 1, out)
            out = xr.where(strong.shift(time=-2, fill_value=False), 1, out)
            wet.loc[dict(cml_id=c)] = xr.where(missing, np.nan, out)
    return wet, F
