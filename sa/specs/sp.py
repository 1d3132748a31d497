"""References and drivers for the spatial interpolation."""
import numpy as np
from scipy.spatial import cKDTree
import pycomlink.spatial.idw as idw
import pycomlink.spatial.interpolator as ip
import pykrige


def haversine(lon1, lat1, lon2, lat2):
    """great circle distance in km on a sphere with radius 6367 km"""
    f = np.pi / 180
    h = (np.sin((lat2 - lat1) * f / 2) ** 2
         + np.cos(lat1 * f) * np.cos(lat2 * f) * np.sin((lon2 - lon1) * f / 2) ** 2)
    return 2 * 6367 * np.arctan2(np.sqrt(h), np.sqrt(1 - h))


# ------------------------------------------------------------------ IDW kernel
def idw_code(X, q, z, nnear, eps, p, max_distance):
    return idw.Invdisttree(X)(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)


def idw_ref(X, q, z, nnear, eps, p, max_distance):
    if max_distance is None:
        max_distance = np.inf
    if nnear <= 1:
        raise ValueError()
    q = np.asarray(q, dtype="float")
    z = np.asarray(z, dtype="float")
    assert len(X) == len(z)
    one = q.ndim == 1
    if one:
        q = np.array([q])
    dist, ix = cKDTree(X, leafsize=10).query(q, k=nnear, eps=eps, distance_upper_bound=max_distance)
    out = np.zeros((len(dist),) + z[0].shape)
    for i in range(len(dist)):
        near = ix[i] < len(z)
        d, k = dist[i][near], ix[i][near]
        if len(k) == 0:
            v = np.nan
        elif d[0] < 1e-10:
            v = z[k[0]]
        else:
            w = d ** -p
            v = np.dot(w / np.sum(w), z[k])
        out[i] = v
    return out[0] if one else out


# ------------------------------------------------------------------ call histories
def tree_after(X, q1, z1, nnear1, eps1, p1, max_distance1, q, z, nnear, eps, p, max_distance):
    t = idw.Invdisttree(X)
    t(q1, z1, nnear=nnear1, eps=eps1, p=p1, max_distance=max_distance1)
    return t(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)


def tree_fresh(X, q1, z1, nnear1, eps1, p1, max_distance1, q, z, nnear, eps, p, max_distance):
    a = idw.Invdisttree(X)
    a(q1, z1, nnear=nnear1, eps=eps1, p=p1, max_distance=max_distance1)
    t = idw.Invdisttree(X)
    return t(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)


def tree_inplace(X, q, z, q2, z2, nnear, eps, p, max_distance):
    t = idw.Invdisttree(X)
    t(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)
    q[...] = q2
    z[...] = z2
    return t(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)


def tree_inplace_fresh(X, q, z, q2, z2, nnear, eps, p, max_distance):
    t = idw.Invdisttree(X)
    t(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)
    q[...] = q2
    z[...] = z2
    t = idw.Invdisttree(X)
    return t(q, z, nnear=nnear, eps=eps, p=p, max_distance=max_distance)


def grid_after(nnear, p, exclude_nan, max_distance, x1, y1, z1, xgrid1, ygrid1, x, y, z, xgrid, ygrid):
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    f(x1, y1, z1, xgrid=xgrid1, ygrid=ygrid1)
    return f(x, y, z, xgrid=xgrid, ygrid=ygrid)


def grid_fresh(nnear, p, exclude_nan, max_distance, x1, y1, z1, xgrid1, ygrid1, x, y, z, xgrid, ygrid):
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    f(x1, y1, z1, xgrid=xgrid1, ygrid=ygrid1)
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    return f(x, y, z, xgrid=xgrid, ygrid=ygrid)


def grid_inplace(nnear, p, exclude_nan, max_distance, x, y, z, x2, y2, z2, xgrid, ygrid):
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    f(x, y, z, xgrid=xgrid, ygrid=ygrid)
    x[...] = x2
    y[...] = y2
    z[...] = z2
    return f(x, y, z, xgrid=xgrid, ygrid=ygrid)


def grid_inplace_fresh(nnear, p, exclude_nan, max_distance, x, y, z, x2, y2, z2, xgrid, ygrid):
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    f(x, y, z, xgrid=xgrid, ygrid=ygrid)
    x[...] = x2
    y[...] = y2
    z[...] = z2
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    return f(x, y, z, xgrid=xgrid, ygrid=ygrid)


# ------------------------------------------------------------------ gridding
def _target(x, y, xgrid, ygrid, resolution):
    if xgrid is None or ygrid is None:
        if resolution is None:
            raise ValueError()
        return np.meshgrid(np.arange(min(x) - resolution, max(x) + resolution, resolution),
                           np.arange(min(y) - resolution, max(y) + resolution, resolution))
    return xgrid, ygrid


def grid_idw(nnear, p, exclude_nan, max_distance, x, y, z, xgrid, ygrid, resolution):
    f = ip.IdwKdtreeInterpolator(nnear=nnear, p=p, exclude_nan=exclude_nan, max_distance=max_distance)
    return f(x, y, z, xgrid=xgrid, ygrid=ygrid, resolution=resolution)


def grid_idw_ref(nnear, p, exclude_nan, max_distance, x, y, z, xgrid, ygrid, resolution):
    assert len(x) == len(y) and len(y) == len(z)
    z = z.astype("float")
    gx, gy = _target(x, y, xgrid, ygrid, resolution)
    if np.all(np.isnan(z)):
        return np.full(np.shape(gx), np.nan)
    x, y = np.asarray(x), np.asarray(y)
    if exclude_nan:
        ok = ~np.isnan(z)
        x, y, z = x[ok], y[ok], z[ok]
    tree = idw.Invdisttree(list(zip(x, y)))
    v = tree(list(zip(gx.ravel(), gy.ravel())), z, nnear=nnear, p=p, max_distance=max_distance)
    return np.reshape(v, gx.shape)


def grid_ok(nlags, variogram_model, variogram_parameters, weight, n_closest_points, exclude_nan, backend,
            x, y, z, xgrid, ygrid, resolution):
    f = ip.OrdinaryKrigingInterpolator(nlags=nlags, variogram_model=variogram_model,
                                       variogram_parameters=variogram_parameters, weight=weight,
                                       n_closest_points=n_closest_points, exclude_nan=exclude_nan,
                                       backend=backend)
    return f(x, y, z, xgrid=xgrid, ygrid=ygrid, resolution=resolution)


def grid_ok_ref(nlags, variogram_model, variogram_parameters, weight, n_closest_points, exclude_nan, backend,
                x, y, z, xgrid, ygrid, resolution):
    assert len(x) == len(y) and len(y) == len(z)
    z = z.astype("float")
    gx, gy = _target(x, y, xgrid, ygrid, resolution)
    if np.all(np.isnan(z)):
        return np.full(np.shape(gx), np.nan)
    x, y = np.asarray(x), np.asarray(y)
    if exclude_nan:
        ok = ~np.isnan(z)
        x, y, z = x[ok], y[ok], z[ok]
    k = pykrige.OrdinaryKriging(x, y, z, nlags=nlags, variogram_model=variogram_model,
                                variogram_parameters=variogram_parameters, weight=weight)
    v = k.execute("points", gx.ravel(), gy.ravel(), n_closest_points=n_closest_points, backend=backend)
    return np.reshape(v[0], gx.shape)


def clim_var_param(date_str, time_scale_hours):
    """climatological spherical variogram of Van de Beek et al. (2012) as in RAINLINK ClimVarParam.R"""
    import pandas as pd
    d = float(pd.to_datetime(date_str).strftime("%j"))
    t = time_scale_hours
    om = 2 * np.pi / 365
    rng = (15.51 * t ** 0.09 + 2.06 * t ** -0.12 * np.cos(om * (d - 7.37 * t ** 0.22))) ** 4 / 1000
    sill = (0.84 * t ** -0.25 + 0.20 * t ** -0.37 * np.cos(om * (d - 162 * t ** -0.03))) ** 4
    return {"sill": sill, "range": rng, "nugget": sill / 10}
