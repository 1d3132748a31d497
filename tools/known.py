"""regenerates known_findings.jsonl"""
import json
K = [
 ("C14", "no wet time step is invented at the ends of the series|pycomlink.processing.wet_dry.nearby_wetdry.nearby_wetdry",
  "nearby_wetdry: `.shift(time=...)` of the boolean trigger has no fill_value, so the first and the last two time steps of "
  "every classified link are always wet (pinned by the existing test test_nearby_wetdry.py)"),
]
F = [
 ("C02", "cdedadd", "Invdisttree reused cached neighbours after max_distance changed"),
 ("C02", "b70bddc", "Invdisttree kept a reference to the caller's q and missed in-place changes"),
 ("C02", "9a13517", "IdwKdtreeInterpolator kept references to the caller's x and y and missed in-place changes"),
 ("C19", "a8dc708", "interpolators returned garbage instead of NaN for all-missing input on integer grids"),
 ("C10", "0a0bf68", "baseline_constant failed/misclassified for boolean or integer wet"),
 ("C11", "d79ca50", "baseline_linear returned uninitialised memory"),
 ("C12", "f39f5c7", "blackout markers wrapped around the end of the series"),
 ("C20", "b2bf7b2", "xarray wrapper handled n_outputs > 1 wrongly"),
 ("C20", "abe6970", "xarray wrapper dropped positional arguments"),
 ("C31", "870daef", "stft classification used a numpy function that does not exist (numpy.flatnonzero is used now)"),
 ("C31", "c49b781", "stft classification mirrored the series incorrectly"),
 ("C01", "97fed7a", "nearby_wetdry changed the caller's distance dataset"),
 ("C14", "2bc3319", "nearby_wetdry matched distances to links by position instead of by id"),
 ("C14", "c06cdcb", "the F score was summed over a fixed number of steps instead of the configured period"),
 ("C14", "8a0a47e", "nearby_wetdry returned integer garbage for missing values when pmin is integer"),
 ("C24", "c4ff25a", "calc_coverage_mask used shapely.ops.cascaded_union, removed from shapely 2"),
 ("C21", "286301a", "get_75_cmls_min_max raised KeyError: the reader only knew tx and rx"),
 ("C22", "9cbd8de", "list_cached_models globbed wrongly"),
 ("C22", "f6b649c", "cached .pth/.pt2 models were not checked by suffix"),
 ("C22", "5ee1cb2", "an interrupted torch model download left a partial file that later calls used"),
 ("C22", "fc043bc", "an interrupted TF model download left a partial file that later calls used"),
 ("C22", "2208cc4", "TF models of different URLs with the same file name shared one cache entry"),
 ("C24", "ad1e5d8", "GridValidator.plot_intersections raised TypeError: poligrain has no option return_pixel_poly_list"),
 ("C26", "adcdb78", "predictions of shape (n, 1) were all dropped (NaN)"),
 ("C27", "50cad89", "the TF CNN classifier ignored the name of the id coordinate"),
 ("C28", "bb521e6", "aggregate_df_onto_DatetimeIndex labelled local times as UTC"),
 ("C06", "07f92e9", "a_b raised for a frequency DataArray without dimension"),
 ("C09", "a885836", "wet antenna attenuation of a single rain rate raised TypeError"),
 ("C03", "438c11a", "calc_R_from_A_min_max raised TypeError for a single attenuation"),
 ("C34", "7516309", "Validator.calc_stats joined time stamps with strings and returned NaN"),
 ("C01", "9749d36", "Validator.calc_stats changed the caller's data"),
]
with open("known_findings.jsonl", "w") as fh:
    fh.write('# status "known": suppressed and printed as KNOWN-FINDING; status "fixed": recorded only, suppresses nothing\n')
    for p, k, w in K:
        fh.write(json.dumps(dict(status="known", property=p, key=k, what=w)) + "\n")
    for p, c, w in F:
        fh.write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, entry="fixed: property=%s %s %s" % (p, c, w))) + "\n")
