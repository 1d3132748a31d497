"""References for functions over time series."""
import numpy as np


def baseline_constant(trsl, wet, n_average_last_dry):
    x, w = np.asarray(trsl, dtype=float), np.asarray(wet, dtype=float)
    n = n_average_last_dry
    base = np.full(x.shape, np.nan)
    base[0:n] = x[0:n]
    for i in range(n, len(x)):
        if np.isnan(w[i]):
            base[i] = np.nan
        elif w[i] == 0:
            base[i] = x[i]
        elif w[i - 1] == 0:
            base[i] = np.mean(base[i - n:i])
        else:
            base[i] = base[i - 1]
    return base


def baseline_linear(rsl, wet, ignore_nan):
    """w: 1 wet, 0 dry, NaN unknown"""
    x, w = rsl.astype(float), wet.astype(float)
    base = np.full(x.shape, np.nan)
    base[0] = x[0]
    dry = 0              # last dry sample
    gap = False          # an unknown state since then
    raining = False
    for i in range(1, len(x)):
        if np.isnan(w[i]):
            if not ignore_nan:
                gap = True
                raining = True
        else:
            raining = w[i] != 0
        if not raining:
            if dry == i - 1:
                base[i] = x[i]
            else:
                for j in range(0, len(x)):
                    if j >= dry and j <= i:
                        base[j] = np.nan if gap else x[dry] + (x[i] - x[dry]) * (j - dry) / (i - dry)
            dry = i
            gap = False
    return base


def blackout_markers(rsl, rsl_threshold):
    low, nan = rsl < rsl_threshold, np.isnan(rsl)
    start, end = np.zeros(rsl.shape, dtype=bool), np.zeros(rsl.shape, dtype=bool)
    for i in range(len(rsl)):
        start[i] = low[i] and i + 1 < len(rsl) and nan[i + 1]
    for i in range(len(rsl)):
        end[i] = low[i] and i >= 1 and nan[i - 1]
    return start, end


def blackout_mask(rsl, gap_start, gap_end):
    mask = np.zeros(rsl.shape, dtype=bool)
    inside = False
    for i in range(len(rsl)):
        if np.isnan(rsl[i]):
            inside = (inside or gap_start[i]) and not gap_end[i]
            mask[i] = inside
        else:
            inside = gap_start[i] and not gap_end[i]
    return mask
