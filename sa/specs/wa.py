import numpy as np
import scipy.interpolate
import pycomlink.processing.wet_antenna as wa
import pycomlink.processing.k_R_relation as kr


def schleiss(rsl, baseline, wet, waa_max, delta_t, tau):
    A = np.asarray(rsl, dtype=float) - np.asarray(baseline, dtype=float)
    w = np.asarray(wet, dtype=float)
    waa = np.zeros_like(A, dtype=float)
    for i in range(1, len(A)):
        cap = min(A[i], waa_max)
        if w[i] == 1:
            cap = min(cap, waa[i - 1] + 3 * delta_t / tau * (waa_max - waa[i - 1]))
        waa[i] = cap
    return waa


def eps_water(f_Hz, T_K):
    """Liebe et al. 1991"""
    th = 1 - 300 / T_K
    e0 = 77.66 - 103.3 * th
    e1 = 0.0671 * e0
    e2 = 3.52 + 7.52 * th
    g1 = 20.2 + 146.4 * th + 316 * th ** 2
    g2 = 39.8 * g1
    f = f_Hz / 1e9
    return e2 + (e1 - e2) / (1 - 1j * f / g2) + (e0 - e1) / (1 - 1j * f / g1)


def leijnse(R, f_Hz, T_K, gamma, delta, n_antenna, l_antenna):
    """transmission through antenna cover and water film relative to a dry cover"""
    R = np.asanyarray(R)
    film = gamma * R ** delta
    nw = np.sqrt(wa.eps_water(f_Hz=f_Hz, T_K=T_K))
    na, n0 = n_antenna, 1
    ik = 1j * 2 * np.pi * f_Hz / 299792458
    pa, pw = ik * na * l_antenna, ik * nw * film
    wet = ((n0 + nw) * (nw + na) * (na + n0) * np.exp(-(pa + pw))
           + (n0 - nw) * (nw - na) * (na + n0) * np.exp(-(pa - pw))
           + (n0 + nw) * (nw - na) * (na - n0) * np.exp(pa - pw)
           + (n0 - nw) * (nw + na) * (na - n0) * np.exp(pa + pw))
    dry = 2 * nw * ((n0 + na) ** 2 * np.exp(-pa) - (n0 - na) ** 2 * np.exp(pa))
    return np.where(R == 0, 0.0, 10 * np.log10(np.abs(wet / dry) ** 2))


def leijnse_from_A(A_obs, f_Hz, pol, L_km, T_K, gamma, delta, n_antenna, l_antenna):
    if np.any(A_obs < 0):
        raise ValueError()
    A_rain = np.logspace(-10, 3, 100)
    A_rain[0] = 0
    R = kr.calc_R_from_A(A_rain, float(L_km), f_GHz=f_Hz / 1e9, pol=pol, R_min=0)
    waa = wa.waa_leijnse_2008(R, f_Hz, T_K=T_K, gamma=gamma, delta=delta, n_antenna=n_antenna,
                              l_antenna=l_antenna)
    return scipy.interpolate.interp1d(A_rain + waa, waa, kind="linear", assume_sorted=True)(A_obs)


def pastorek(R, A_max, zeta, d):
    R = np.asanyarray(R)
    return np.where(R == 0, 0.0, A_max * (1 - np.exp(-d * R ** zeta)))


def pastorek_from_A(A_obs, f_Hz, pol, L_km, A_max, zeta, d):
    if np.any(A_obs < 0):
        raise ValueError()
    A_rain = np.logspace(-10, 3, 100)
    A_rain[0] = 0
    R = kr.calc_R_from_A(A_rain, L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0)
    waa = wa.waa_pastorek_2021(R, A_max=A_max, zeta=zeta, d=d)
    return scipy.interpolate.interp1d(A_rain + waa, waa, kind="linear", assume_sorted=True)(A_obs)
