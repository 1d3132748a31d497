"""References for the validation statistics."""
import numpy as np


def wet_dry(reference, predicted):
    assert reference.shape == predicted.shape
    nr, np_ = np.isnan(reference), np.isnan(predicted)
    ok = ~(nr | np_)
    r, p = reference > 0, predicted > 0
    tp = np.sum(ok & r & p)
    tn = np.sum(ok & ~r & ~p)
    fp = np.sum(ok & ~r & p)
    fn = np.sum(ok & r & ~p)
    wet, dry = np.sum(ok & r), np.sum(ok & ~r)
    if np.sum(ok & p) == 0:
        mcc = 0
    else:
        mcc = (tp * tn - fp * fn) / (np.sqrt(tp + fp) * np.sqrt(tp + fn) * np.sqrt(tn + fp) * np.sqrt(tn + fn))
    return dict(false_wet_rate=fp / dry, missed_wet_rate=fn / wet, matthews_correlation=mcc,
                true_wet_rate=tp / wet, true_dry_rate=tn / dry, N_dry_reference=dry, N_wet_reference=wet,
                N_true_wet=tp, N_true_dry=tn, N_false_wet=fp, N_missed_wet=fn, N_all_pairs=len(reference),
                N_nan_pairs=np.sum(nr | np_), N_nan_reference_only=np.sum(nr), N_nan_predicted_only=np.sum(np_))


def rain(reference, predicted, rainfall_threshold_wet):
    assert reference.shape == predicted.shape
    nr, np_ = np.isnan(reference), np.isnan(predicted)
    ok = ~(nr | np_)
    r, p = reference[ok], predicted[ok]
    d = p - r
    rw, pw = r > rainfall_threshold_wet, p > rainfall_threshold_wet
    return dict(pearson_correlation=np.corrcoef(r, p)[0, 1],
                coefficient_of_variation=np.std(d) / np.mean(r),
                root_mean_square_error=np.sqrt(np.mean(d * d)),
                mean_absolute_error=np.mean(abs(d)),
                R_sum_reference=np.sum(r), R_sum_predicted=np.sum(p),
                R_mean_reference=np.mean(r), R_mean_predicted=np.mean(p),
                false_wet_rate=np.sum(~rw & pw) / np.sum(~rw),
                missed_wet_rate=np.sum(rw & ~pw) / np.sum(rw),
                false_wet_precipitation_rate=np.mean(p[~rw & pw]),
                missed_wet_precipitation_rate=np.mean(r[rw & ~pw]),
                rainfall_threshold_wet=rainfall_threshold_wet, N_all_pairs=len(reference),
                N_nan_pairs=np.sum(nr | np_), N_nan_reference_only=np.sum(nr), N_nan_predicted_only=np.sum(np_))
