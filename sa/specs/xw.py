"""Drivers and references for the wrapper that applies time series functions to labelled arrays."""
import xarray as xr
from pycomlink.processing.xarray_wrapper import xarray_apply_along_time_dim


def body(a, b, c=7, d="x"):
    return a, b, c, d


one = xarray_apply_along_time_dim()(body)
two = xarray_apply_along_time_dim(n_outputs=2)(body)


def _time(v):
    return hasattr(v, "dims") and "time" in v.dims


def _ref(n, *args):
    found = False
    ind = []
    for v in args:
        if _time(v):
            found = True
        ind.append(["time"] if _time(v) else [])
    if found:
        return xr.apply_ufunc(body, *args, input_core_dims=ind, output_core_dims=[["time"]] * n, vectorize=True)
    return body(*args)


def positional(x, y, z):
    return one(x, y, z)


def positional_ref(x, y, z):
    return _ref(1, x, y, z, "x")


def keywords(x, y, z):
    return two(d=z, b=y, a=x)


def keywords_ref(x, y, z):
    return _ref(2, x, y, 7, z)


def mixed(x, y, z):
    return two(x, c=z, b=y)


def mixed_ref(x, y, z):
    return _ref(2, x, y, z, "x")


def missing(x, y):
    return one(x)


def unknown(x, y):
    return one(x, y, e=1)


def duplicate(x, y):
    return one(x, y, b=y)


def toomany(x, y):
    return one(x, y, 1, 2, 3)


def error_ref(x, y):
    raise TypeError("bad call")


def plain(x, y):
    return one(x, 1, d=y)


def plain_ref(x, y):
    return _ref(1, x, 1, 7, y)
