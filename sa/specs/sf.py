"""Reference for the rolling Fourier transform classification (stft)."""
import numpy as np
import pandas as pd
from matplotlib.mlab import specgram


def gaps(rows, columns):
    return np.full((rows, int(columns)), np.nan)


def lowest_std(rsl, window_length):
    s = pd.DataFrame(rsl).rolling(window_length).std()
    stop = np.flatnonzero(s == np.nanmin(s))[0] + 1
    return stop - window_length, stop


def dry_period(rsl, t_dry_start, t_dry_stop, dry_length):
    if dry_length is None and t_dry_start is not None and t_dry_stop is not None:
        return t_dry_start, t_dry_stop
    if dry_length is not None and t_dry_start is None and t_dry_stop is None:
        return lowest_std(rsl, dry_length)
    raise AttributeError()


def spectrum(rsl, n, window, f_sampling):
    if window is None:
        window = np.hamming(n)
    p, f, _ = specgram(rsl, NFFT=n, Fs=f_sampling, noverlap=n - 1, window=window)
    return p, f


def classify(rsl, power, f, threshold, f_divide, t_dry_start, t_dry_stop, dry_length):
    start, stop = dry_period(rsl, t_dry_start, t_dry_stop, dry_length)
    dry = np.nanmean(power[:, start:stop], axis=1)
    norm = power / np.array([dry]).T
    low = np.mean(norm[f <= f_divide], axis=0)
    high = np.mean(norm[f > f_divide], axis=0)
    d = low - high
    wet = ~np.isnan(d) & (d > threshold)
    return wet, {"P_norm": norm, "P_sum_diff": d, "Pxx": power, "P_dry_mean": dry, "f": f}


def pad(rsl, p):
    n = len(rsl) - len(p[0])
    before = np.floor(n / 2)
    return np.concatenate((gaps(len(p), before), p, gaps(len(p), n - before)), 1)


def stft(rsl, window_length, threshold, f_divide, t_dry_start, t_dry_stop, dry_length, mirror, window, Pxx, f, f_sampling):
    if Pxx is None:
        Pxx, f = spectrum(rsl, window_length, window, f_sampling)
    elif f is None:
        raise ValueError()
    return classify(rsl, pad(rsl, Pxx), f, threshold, f_divide, t_dry_start, t_dry_stop, dry_length)


def mirrored(rsl, window_length, threshold, f_divide, t_dry_start, t_dry_stop, dry_length, mirror, window, Pxx, f, f_sampling):
    n = window_length + window_length % 2
    h = n // 2
    p, f = spectrum(rsl, n, window, f_sampling)
    end = []
    for i in range(len(rsl) - h, len(rsl)):
        part = rsl[i - h + 1:i]
        q, f = spectrum(np.concatenate((part, part[::-1])), n, window, f_sampling)
        end.append(q)
    power = np.concatenate([gaps(len(p), np.floor((len(rsl) - len(p[0])) / 2)), p] + end, 1)
    return classify(rsl, power, f, threshold, f_divide, t_dry_start, t_dry_stop, dry_length)
