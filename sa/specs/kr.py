"""Reference for the k-R power law (A = a R^b L)."""
import numpy as np
import xarray as xr
import pycomlink.processing.k_R_relation as kr


def combination(A, L_km, f_GHz, pol, a, b, a_b_approximation, R_min):
    from_ab = a is not None and b is not None and f_GHz is None and pol is None
    from_f = f_GHz is not None and pol is not None and a is None and b is None
    if not (from_ab or from_f):
        raise ValueError()
    return 0.0


def power_law(A, L_km, a, b, R_min):
    A = np.atleast_1d(A).astype(float)
    R = (A / (a * L_km)) ** (1 / b)
    R = np.where(A >= 0, R, 0.0)
    R = np.where(R < R_min, 0.0, R)
    return np.where(np.isnan(A), np.nan, R)


def power_law_min_max(Ar_max, L, a, b, R_min, k):
    # expected maximum of k samples: (log k + Euler's gamma) ** b
    R = (Ar_max / (a * (np.log(k) + 0.57721566) ** b * L)) ** (1 / b)
    R = np.where(Ar_max >= 0, R, 0.0)
    R = np.where(R < R_min, 0.0, R)
    return np.where(np.isnan(Ar_max), np.nan, R)


def rain_rate(A, L_km, f_GHz, pol, a, b, a_b_approximation, R_min):
    from_ab = a is not None and b is not None and f_GHz is None and pol is None
    from_f = f_GHz is not None and pol is not None and a is None and b is None
    if not (from_ab or from_f):
        raise ValueError()
    if from_f:
        a, b = kr.a_b(np.atleast_1d(f_GHz).astype(float), pol=np.atleast_1d(pol), approx_type=a_b_approximation)
    A = np.atleast_1d(A).astype(float)
    R = (A / (a * L_km)) ** (1 / b)
    R = np.where(A >= 0, R, 0.0)
    R = np.where(R < R_min, 0.0, R)
    return np.where(np.isnan(A), np.nan, R)


def rain_rate_min_max(Ar_max, L, f_GHz, a, b, pol, R_min, k):
    if f_GHz is not None:
        a, b = kr.a_b(f_GHz, pol=pol)
    # expected maximum of k samples: (log k + Euler's gamma) ** b
    R = (Ar_max / (a * (np.log(k) + 0.57721566) ** b * L)) ** (1 / b)
    R = np.where(Ar_max >= 0, R, 0.0)
    R = np.where(R < R_min, 0.0, R)
    return np.where(np.isnan(Ar_max), np.nan, R)


V = ["v", "V", "vertical", "Vertical"]
H = ["h", "H", "horizontal", "Horizontal"]


def coefficients(f_GHz, pol, approx_type):
    """rows of the tables: f, k_H, k_V, alpha_H, alpha_V"""
    if not isinstance(pol, str) and np.shape(f_GHz) != np.shape(pol):
        raise ValueError()
    if approx_type == "ITU_2003":
        tab = kr.ITU_table_2003
    elif approx_type == "ITU_2005":
        tab = kr.ITU_table_2005
    else:
        raise ValueError()
    f = np.atleast_1d(f_GHz)
    p = np.atleast_1d(pol)
    from scipy.interpolate import interp1d
    is_v, is_h = np.isin(p, V), np.isin(p, H)
    if f.min() < 1 or f.max() > 100 or not np.all(is_v | is_h):
        raise ValueError()
    a_h, b_h = interp1d(tab[0], tab[1], kind="cubic")(f), interp1d(tab[0], tab[3], kind="cubic")(f)
    a_v, b_v = interp1d(tab[0], tab[2], kind="cubic")(f), interp1d(tab[0], tab[4], kind="cubic")(f)
    a, b = np.where(is_v, a_v, a_h), np.where(is_v, b_v, b_h)
    if isinstance(f_GHz, xr.DataArray):
        return xr.DataArray(a, coords=f_GHz.coords), xr.DataArray(b, coords=f_GHz.coords)
    return a, b


def routed(A, L_km, f_GHz, pol, a_b_approximation, R_min):
    """frequency and polarisation are used by way of their power law parameters only"""
    a, b = kr.a_b(np.atleast_1d(f_GHz).astype(float), np.atleast_1d(pol), a_b_approximation)
    return kr.calc_R_from_A(A, L_km, a=a, b=b, R_min=R_min)


def routed_min_max(Ar_max, L, f_GHz, pol, R_min, k):
    a, b = kr.a_b(f_GHz, pol)
    return kr.calc_R_from_A_min_max(Ar_max, L, a=a, b=b, R_min=R_min, k=k)


def a_min_max(tx_min, tx_max, rx_min, rx_max, gT, gR, window):
    high = tx_max - rx_min - (gT + gR) / 2
    low = tx_min - rx_max + (gT + gR) / 2
    high = np.where(np.isnan(high), np.rint(np.nanmean(high)), high)
    low = np.where(np.isnan(low), np.rint(np.nanmean(low)), low)
    out = np.full(len(high), np.nan)
    for i in range(window, len(high)):
        out[i] = max(high[i] - low[i - window:i + 1].min(), 0.0)
    return out
