KR = PROC + "k_R_relation.py"
WA = PROC + "wet_antenna.py"
BL = PROC + "baseline.py"
BG = PROC + "blackout_gap_detection.py"
VG = ("For all inputs within the modelled operations (reals with NaN): the value graph of the code is shown "
      "congruent to a reference by canonical forms, case splits and random interpretation of the residue. ")
TRUST = "Trusts the models of numpy/xarray operations in sa/models.py and the reference formulas in sa/specs."
BOUND = ("Loop congruence covers every length where it succeeds; otherwise all value combinations of series up "
         "to the stated length are covered by loop peeling. ")

prop("C03", "Rain rate inverts the power law; missing stays missing; floor applies",
     "The rain rate derived from path attenuation A over length L with power law parameters a and b equals "
     "(A / (a L))^(1/b) for A >= 0, is zero for negative A and for every rain rate below the minimum rain rate "
     "(0.1 mm/h unless given), and is missing exactly where A is missing. For min/max data the same holds with a "
     "multiplied by (ln k + Euler's constant)^b, where k is the number of samples per interval (90 unless given). A "
     "single number is accepted as attenuation like an array.",
     ["inputs"], "every attenuation value (negative, zero, tiny, NaN), length, a, b and minimum rain rate, for the "
     "instantaneous and the min/max retrieval",
     "tests compare a dozen values of one series; the min/max retrieval has no test; boundary values (R equal to the "
     "minimum, A = 0, NaN next to negative values) are not sampled",
     [KR], [("calc_R_from_A", KR), ("calc_R_from_A_min_max", KR)], "returned rain rate", VG + TRUST)

prop("C04", "Frequency and polarisation act only through their power law parameters",
     "Deriving rain rates for a frequency and polarisation gives the same result as deriving them with the power law "
     "parameters that the chosen ITU approximation yields for that frequency and polarisation, element by element. "
     "This holds for the instantaneous and for the min/max retrieval.",
     ["inputs", "configurations"], "every attenuation, frequency, polarisation and approximation",
     "tests use a single approximation and polarisation combination for the retrieval; swapping a and b, ignoring the "
     "approximation or the polarisation passes them",
     [KR], [("calc_R_from_A", KR), ("calc_R_from_A_min_max", KR), ("a_b", KR)], "returned rain rate", VG + TRUST)

prop("C05", "Either frequency and polarisation or a and b must be given, else ValueError",
     "Rain rate retrieval from attenuation and from min/max signal levels of nearby links accepts exactly two "
     "combinations of its optional arguments: frequency and polarisation, or a and b. Every other combination is "
     "rejected with a ValueError before anything is computed, and the two valid ones are never rejected for it.",
     ["configurations"], "all 16 combinations of given and omitted arguments, for both functions",
     "tests try some of the combinations of one function",
     [KR, PROC + "nearby_rain_retrival.py"], [("calc_R_from_A", KR),
                                              ("nearby_rainfall_retrival", PROC + "nearby_rain_retrival.py")],
     "exception raised", "All 16 combinations of both functions are decided from path conditions. " + TRUST)

prop("C06", "a, b lookup: range and name checks, right table row per polarisation",
     "The power law parameters for frequencies and polarisations come from the table of the chosen approximation: "
     "each element uses cubic interpolation of the row for its own polarisation (horizontal or vertical, in any of the "
     "accepted spellings), and labelled input, a single labelled number included, gives results with the same "
     "coordinates. Frequencies below 1 or above "
     "100 GHz, unknown polarisations, unknown approximations and polarisation arrays of another shape raise "
     "ValueError.",
     ["inputs", "configurations"], "every frequency array, polarisation array or text, and approximation",
     "tests check a few frequencies with uniform polarisation; mixed arrays, each accepted spelling and each limit are "
     "not all sampled",
     [KR], [("a_b", KR)], "returned a and b, exception raised", VG + TRUST)

prop("C07", "Coefficient tables are those published by ITU-R",
     "Every tabulated coefficient used for frequencies from 1 to 100 GHz is the published one: for the 2005 "
     "approximation the value of ITU-R P.838-3 to within the rounding of its table, for the 2003 approximation the "
     "value of the table of P.838-2. Tabulated frequencies increase strictly and cover 1 to 100 GHz.",
     ["inputs", "configurations"], "every tabulated frequency, polarisation, coefficient and approximation",
     "tests touch a handful of the about 500 table entries, and interpolation smooths over a wrong one",
     [KR], [("ITU_table_2005, ITU_table_2003", KR)], "a and b at the tabulated frequencies",
     "Exhaustive over all table entries that reach the interpolation; P.838-3 is recomputed from its regression "
     "coefficients, the 2003 table is compared with a transcription.")

prop("C08", "Schleiss wet antenna attenuation: bounded, causal recursion",
     "The wet antenna attenuation after Schleiss et al. starts at zero and, for every later sample, is the minimum of "
     "the attenuation above the baseline, the maximum wet antenna attenuation and, if the sample is wet, the previous "
     "value plus 3 delta_t/tau times its distance to the maximum. It depends on present and past samples only.",
     ["inputs"], "every signal, baseline, wet/dry series of any length and every parameter",
     "tests compare one recorded series; a wrong branch that this series does not take, or a dependence on later "
     "samples, is not seen",
     [WA], [("waa_schleiss_2013", WA)], "returned wet antenna attenuation", VG + BOUND + TRUST)

prop("C09", "Leijnse and Pastorek wet antenna attenuation follow the published formulas",
     "The wet antenna attenuation for a rain rate equals the two-layer film reflection formula of Leijnse et al. 2008 "
     "with the water permittivity of Liebe et al. 1991, respectively A_max (1 - exp(-d R^zeta)) of Pastorek et al. "
     "2021, and is zero for zero rain. The variants for observed attenuation invert the sum of rain and wet antenna "
     "attenuation with the same parameters and reject negative attenuation with a ValueError; all options default to "
     "the published values, and single numbers are accepted like arrays.",
     ["inputs", "configurations"], "every rain rate, observed attenuation, frequency, length, temperature and "
     "parameter",
     "tests compare two figures' values at default parameters; an ignored or swapped parameter is invisible there",
     [WA], [("waa_leijnse_2008", WA), ("waa_leijnse_2008_from_A_obs", WA), ("waa_pastorek_2021", WA),
            ("waa_pastorek_2021_from_A_obs", WA), ("eps_water", WA)], "returned wet antenna attenuation", VG + TRUST)

prop("C10", "Constant baseline: dry signal, held over wet periods, unknown stays unknown",
     "The constant baseline equals the signal at dry samples. During a wet period it keeps the mean of the last n "
     "baseline values before the period, and it is missing where the wet/dry state is missing and for the rest of the "
     "wet period that follows such a gap. numpy arrays and pandas Series are accepted alike.",
     ["inputs"], "every signal and every sequence of wet, dry and missing states, every n",
     "tests use one series with one wet event and one with a NaN",
     [BL], [("baseline_constant", BL)], "returned baseline", VG + "Covered for all series up to 5 samples (quick) or "
     "8 (thorough) with n = 1, 2, 3 by loop peeling; longer series by the uniformity of the loop, not proved. " + TRUST)

prop("C11", "Linear baseline: follows dry signal, straight line over wet periods",
     "The linear baseline equals the signal at dry samples outside wet periods and runs on a straight line from the "
     "last dry sample before a wet period to the first dry one after it. A wet period without a dry sample after it "
     "gives missing values, as does (unless missing states are to be ignored) one in which a wet/dry state is missing; "
     "when ignored, a missing state continues the previous state. numpy arrays and pandas Series are accepted alike.",
     ["inputs", "configurations"], "every signal and every sequence of wet, dry and missing states, both settings",
     "the function has no test at all",
     [BL], [("baseline_linear", BL)], "returned baseline", VG + "Covered for all series up to 5 samples (quick) or "
     "7 (thorough) by loop peeling; longer series by the uniformity of the loop, not proved. " + TRUST)

prop("C12", "Blackout gaps: marked at low signal next to missing data, masked in between",
     "A sample is marked as start (end) of a blackout gap exactly if its level is below the threshold and the next "
     "(previous) sample exists and is missing; the two ends of the series are not neighbours. The mask is set exactly "
     "for missing samples at or after a start marker with no end marker and no valid sample without start marker "
     "since (the sample itself included).",
     ["inputs"], "every series, threshold and marker combination",
     "tests use one series; gaps touching the ends, adjacent gaps and unterminated gaps are not sampled",
     [BG], [("get_blackout_start_and_end", BG), ("created_blackout_gap_mask_from_start_end_markers", BG)],
     "returned markers and mask", VG + "All series up to 5 samples (quick) or 8 (thorough) by loop peeling. " + TRUST)

SP, WD = "pycomlink/spatial/", PROC + "wet_dry/"
IDW, IPL, NW, NR = SP + "idw.py", SP + "interpolator.py", WD + "nearby_wetdry.py", PROC + "nearby_rain_retrival.py"
ST = "pycomlink/validation/stats.py"

prop("C02", "Interpolators give the same answer whatever was interpolated before",
     "Calling an interpolation object (inverse distance tree, IDW interpolator, kriging interpolator) with given data "
     "and options returns what a freshly created object with the same configuration would return, whatever calls were "
     "made on it before, including calls with other points, values, grids, neighbour counts, powers or distance limits "
     "calls that failed, and calls whose argument arrays the caller has changed in place since.",
     ["histories", "inputs"], "every sequence of earlier calls and in-place changes, every data set",
     "each test calls an interpolator once or twice with the same arrays; stale caches need a particular history",
     [IDW, IPL], [("Invdisttree.__call__ (cached neighbours)", IDW), ("IdwKdtreeInterpolator (cached tree)", IPL),
                  ("OrdinaryKrigingInterpolator", IPL)], "returned values of a second call",
     "Inductive: one call from an arbitrary valid state is analysed; every attribute read before it is written must be "
     "configuration or a cache whose stored keys, compared by value and not shared with the caller, determine it. " + TRUST,
     state=[("Invdisttree cached query, neighbours and parameters", "valid for the stored query and parameters only"),
            ("IdwKdtreeInterpolator x, y and tree", "tree belongs to the stored copies of x and y")])

prop("C13", "Distances between all link ends are great circle distances, matched by link",
     "The four distance tables hold, for every ordered pair of links, the great circle distance in km (Earth radius "
     "6367 km) between end A or B of the first link and end A or B of the second, with rows and columns labelled by "
     "link id, and zero for a link to itself.",
     ["inputs"], "every number of links and every set of coordinates",
     "one test compares a single recorded table; swapped ends or coordinates change only some entries",
     [NW, SP + "helper.py"], [("calc_distance_between_cml_endpoints", NW), ("haversine", SP + "helper.py")],
     "returned dataset", VG + "The loop over links is summarised, so any number of links is covered. " + TRUST)

prop("C14", "Nearby link wet/dry: enough neighbours, both medians, no guess if missing",
     "A link is classified only where more than the minimum number of links (itself included) lie inside the radius, "
     "measured between all ends, and have data at that time. A time step is wet exactly if the medians over these links of signal decrease and of decrease per "
     "length are both below their thresholds, or if an adjacent step (one before, one or two after) is wet by that rule "
     "and the link's own decrease exceeds 2 dB. Where a median is missing the result is missing. The F score is the sum "
     "over the period of the difference to the median specific decrease, times the interval in hours.",
     ["inputs", "configurations"], "every signal, distance table (in any order of links), radius, thresholds, minimum "
     "number of links, interval, period and minimum hours",
     "tests use one data set with default options; order of links, missing neighbours, other intervals and links with too "
     "few neighbours are not sampled",
     [NW], [("nearby_wetdry", NW)], "returned wet/dry classification and F score",
     VG + "Loop over links summarised, any number of links. What shifting brings in at the two ends of the series is a "
     "known finding, decided by a rule of its own. " + TRUST)

prop("C15", "Nearby link reference level, corrected signals and rain rate follow the method",
     "The reference level is the median over the past n steps of the mean of minimum and maximum level at dry steps. "
     "Corrected levels equal the reference level unless the step is wet and the minimum (for the maximum: both) lies "
     "below it. The rain rate is alpha times the rate from the minimum plus (1 - alpha) times the rate from the maximum "
     "corrected level, each from the attenuation above the wet antenna attenuation and never negative, and is missing "
     "where the F score is at or below its threshold. Options left out take the documented values.",
     ["inputs", "configurations"], "every signal level, wet/dry state, reference level, F score, length, parameter and "
     "option, missing values included",
     "tests compare one recorded data set at default options",
     [NR], [("nearby_determine_reference_level", NR), ("nearby_correct_received_signals", NR),
            ("nearby_rainfall_retrival", NR)], "returned levels and rain rate", VG + TRUST)

prop("C16", "Wet/dry scores are the defined ratios over all pairs without missing values",
     "The wet/dry scores count only pairs in which neither value is missing. Values above zero are wet. True, false and "
     "missed wet and dry numbers, their rates relative to the wet or dry reference numbers, the Matthews correlation "
     "(zero if nothing is predicted wet) and the numbers of all, missing and one-sided missing pairs are those defined "
     "for them, each reported under its own name; arrays of different shape are rejected.",
     ["inputs"], "every pair of arrays with any pattern of wet, dry and missing values",
     "tests compare two random arrays; ratios with exchanged denominators or miscounted missing values can agree there",
     [ST], [("calc_wet_dry_performance_metrics", ST)], "returned fields",
     VG + "Any length for counts and rates as defined; where the code uses identities between counts (such as N - N_wet), "
     "all arrays of up to 3 (thorough: 4) elements. " + TRUST)

prop("C17", "Rain scores are the defined statistics over all pairs without missing values",
     "The rain scores use only pairs in which neither value is missing: correlation, coefficient of variation of the "
     "difference relative to the mean reference, root mean square and mean absolute error, sums and means, false and "
     "missed wet rates and the mean rain rates in false and missed wet cases, with values above the given threshold "
     "counted as wet, each reported under its own name; arrays of different shape are rejected.",
     ["inputs"], "every pair of arrays and every threshold", "tests compare one random pair with one threshold",
     [ST], [("calc_rain_error_performance_metrics", ST)], "returned fields",
     VG + "Any length, or all arrays of up to 3 (thorough: 4) elements where algebraic identities are used. " + TRUST)

prop("C18", "Inverse distance weighting uses the nearest points within the distance limit",
     "The interpolated value at a point is the weighted mean of the values of the nnear nearest data points within the "
     "distance limit (no limit unless given), with weights 1/distance^p. It is the value of the nearest point if that "
     "is closer than 1e-10, and missing if no data point lies within the limit. Each query point gets its own value, a "
     "single point gives a single value, and numbers of points and values that differ are rejected.",
     ["inputs", "configurations"], "every set of points, values and queries, p, nnear and distance limit",
     "tests compare recorded grids; ties, coincident points, points out of range and fewer data than nnear are barely "
     "sampled",
     [IDW], [("Invdisttree.__call__", IDW)], "returned values",
     VG + "Decided for query results with up to 3 data points, 2 query points and 3 neighbours, all distances and values; "
     "the tree search is the trusted library's. " + TRUST)

prop("C19", "Gridding: each grid cell gets the value interpolated at its own coordinates",
     "Interpolation to a grid uses the given grid or, without one, a regular grid of the given resolution around the "
     "points (neither: ValueError). Missing values are left out if configured (the default), with their coordinates. "
     "Each cell holds the value interpolated at that cell's own x and y; a data set with no valid value gives an "
     "all-missing grid of the same shape; and every configured option (neighbours, power, distance limit, variogram "
     "model and parameters, lags, weighting, closest points, backend) reaches the interpolation.",
     ["inputs", "configurations"], "every set of points and values, every grid shape and every configuration",
     "tests use one data set and mostly square or default grids; transposed, non-square and all-missing cases and single "
     "options are not sampled",
     [IPL], [("IdwKdtreeInterpolator.__call__", IPL), ("OrdinaryKrigingInterpolator.__call__", IPL)], "returned grid",
     VG + "The tree and the kriging solver are uninterpreted functions of all their arguments. " + TRUST)

prop("C30", "Climatological variogram parameters follow the published seasonal formulas",
     "The climatological variogram parameters for a date and time scale are the range and sill given by the published "
     "cosine functions of the day of year (range in km, time scale 0.25 h unless given), with a nugget of a tenth of "
     "the sill.",
     ["inputs"], "every date and time scale", "a test samples a single date",
     [IPL], [("clim_var_param", IPL)], "returned sill, range and nugget", VG + TRUST)

prop("C01", "No function modifies the data it is given",
     "Calling any public function or method leaves every array, labelled array, data frame, dictionary and list that "
     "the caller passed in exactly as it was: no element, coordinate, attribute, shape or entry changes, whatever the "
     "type of the container and whatever path the computation takes. Only the object a method belongs to may change.",
     ["inputs", "configurations"], "every public function and method of the package, every argument and every path",
     "tests compare outputs, hardly ever the inputs after the call, and in-place changes show only for particular "
     "dtypes, memory layouts or branches (an asarray that copies for one dtype aliases for another)",
     ["pycomlink"], [("all public functions and methods", "pycomlink")], "argument values after the call",
     "Every write the analysed code may perform (element and slice stores, attribute stores, in-place operators and "
     "methods, out= arguments) is traced through calls to the storage it may reach; a write that may reach an argument "
     "is reported. Operations without a model are assumed not to modify their arguments.")

prop("C20", "Time series functions work on labelled arrays in every call style",
     "A function for single time series that is wrapped for labelled arrays gives, for labelled input with a time "
     "dimension, the result of the plain function applied to each time series separately (all other dimensions are "
     "looped over), with as many outputs as the function has; every argument reaches the parameter it was given for, "
     "whether passed by position, by keyword or left at its default, and arguments without a time dimension are passed "
     "on unchanged. Without any labelled argument with a time dimension the plain function is called. Missing, unknown, "
     "surplus and duplicate arguments raise TypeError.",
     ["inputs", "configurations"], "every mixture of positional, keyword and default arguments, labelled or not, with "
     "or without a time dimension, of every wrapped function",
     "tests call the wrapped functions in one or two styles; swapped or dropped arguments, and malformed calls that "
     "are silently accepted, need a particular call style",
     [PROC + "xarray_wrapper.py"], [("xarray_apply_along_time_dim", PROC + "xarray_wrapper.py"),
                                    ("functions it decorates", "pycomlink/processing")],
     "returned values, exception raised",
     "The wrapper is interpreted abstractly for every call style with argument labels and dimensions unknown, and its "
     "value compared with the contract on xarray.apply_ufunc; the decorator at each wrapped function must declare as many "
     "outputs as the function returns. Trusts xarray.apply_ufunc and inspect.signature.")

prop("C21", "Imported files keep every link, channel, sample and attribute",
     "Reading a cmlh5 file gives one dataset per link group, in file order, with one channel_id entry per channel group "
     "in file order. Each channel holds the complete received and transmitted signal levels of its own group (rx as rsl, "
     "tx as tsl; the minimum and maximum levels as rsl_min, rsl_max, tsl_min, tsl_max if the file has those instead), its "
     "time stamps as UTC to the fraction of a second, its frequency converted from Hz to GHz and its polarization. The "
     "link carries the id and site coordinates of its own group, and the great-circle distance of its sites as length. The example functions read the data file "
     "they are named after.",
     ["inputs"], "every cmlh5 file: any number of links and channels, signal lengths and attribute values",
     "tests only open the example files; an exchanged, truncated or reused field needs another file (several channels of "
     "different length, non-integer seconds) to show",
     ["pycomlink/io"], [("read_cmlh5_file_to_xarray", "pycomlink/io/cmlh5_to_xarray.py"),
                        ("example readers", "pycomlink/io/examples.py")],
     "returned datasets",
     VG + "The file is an uninterpreted nested mapping; loops over its groups are summarised for any number of groups. " + TRUST)

prop("C22", "Downloaded models are cached completely, once, and under their own name",
     "A model file that is requested by URL is downloaded if it is not in the cache or a download is forced, and only "
     "then. It appears under its final name in the cache directory only after the download is complete: whatever "
     "exception or crash interrupts the download, and whatever other process downloads at the same time, no later call "
     "uses a partial file. Files of different URLs never share a cache entry, the forced download reaches every file of "
     "the model, a missing cache directory is made, a local path is used as given, unsupported sources raise an exception, "
     "and clearing the cache deletes nothing outside the cache directory.",
     ["inputs", "crash_points", "schedules"],
     "every URL, path and cache state, every point at which a download can fail, and concurrent downloads",
     "no test downloads anything: there is no network, and a partial file needs a crash between two system calls",
     ["pycomlink/processing/pytorch_utils", "pycomlink/processing/tensorflow_utils"],
     [("download_and_cache_model", "pycomlink/processing/pytorch_utils/inference_utils.py"),
      ("download_and_cache", "pycomlink/processing/tensorflow_utils/inference_utils.py")],
     "cache directory, files that are opened",
     "Typestate of the cache entry over all file operations of the download functions (written under a temporary name, then "
     "renamed), in the order of the paths with their conditions; the name must depend on the complete URL (a hash of it "
     "counts as injective). Trusts urlretrieve to raise on an incomplete download and os.replace to be atomic.")

prop("C23", "Calls leave no trace: no hidden state, settings, files or installations",
     "A public function gives the same result for the same arguments whatever was called before and in between: it keeps "
     "no module-level, class-level or default-argument state that could change a later result (a cache has to be keyed by "
     "everything the cached value depends on, and must not hand its own object to the caller), uses no random numbers or "
     "clock, and changes no process-wide setting (warning filters, numpy error state, environment, working directory). "
     "Files are written only to the model cache, and packages are installed only if auto_install/install_tensorflow is "
     "true or the environment variable ALLOW_TF_AUTOINSTALL is \"1\".",
     ["histories", "inputs", "configurations"],
     "every sequence of calls of public functions and methods, every argument and environment",
     "tests call functions once, in one order; stale state needs a second call with other arguments",
     ["pycomlink"], [("all public functions and methods", "pycomlink"),
                     ("ensure_tensorflow_installed", "pycomlink/processing/tensorflow_utils/lazy_tf.py")],
     "results of later calls, process settings, files, processes started",
     "Every write to storage that outlives the call is traced through calls; for a cache the arguments in the stored value "
     "must occur in the key. The state of interpolator objects is covered by the property on IDW caches. External calls "
     "that are not in the lists of the check are assumed to have no lasting effect.")

prop("C24", "The package imports with its required dependencies and keeps its interface",
     "Importing pycomlink and any module except the PyTorch ones needs only the packages of requirements.txt (never torch "
     "or tensorflow). Every name the code uses is defined, every function, class, module and keyword argument of another "
     "module or of an installed library that it refers to exists, a local name is assigned before it is used, calls of "
     "library functions pass the arguments these require, and every public function and method accepts its documented parameters, in their documented order, with their documented default values; the result tuples keep the "
     "order of their fields, and `import pycomlink` makes the modules its packages name available.",
     ["configurations", "inputs"], "every module, every name on every path, every public signature",
     "tests import with all optional packages installed and run a part of the code; a missing name on an untested path, "
     "an exchanged positional parameter or a changed default shows only for callers who rely on it",
     ["pycomlink"], [("all modules", "pycomlink")], "ImportError, NameError, AttributeError, TypeError; values with defaults",
     "Import graph over module-level imports; symbol tables; library interfaces and documented signatures are recorded in "
     "sa/data (from the libraries installed in the sandbox). Methods of values whose type is not known are not checked.")

prop("C25", "MLP detection: each probability comes from its own window of both channels",
     "mlp_wet_dry returns one row of two probabilities per time step. For model_sel 'rg' and 'rad' row t is the selected "
     "model's predict_proba of the 40 samples t-20 ... t+19 of channel 1 followed by those of channel 2, each channel less "
     "its own centred 720-sample rolling median (at least 120 valid samples); for 'rg_online' and 'rad_online' it is that "
     "of the 40 first differences up to and including sample t, so nothing after t is used. Rows whose window leaves the "
     "series or contains a missing value are NaN, the model is not called if no row is complete, the model is the one that "
     "was asked for ('rad_online' by default), and any other model_sel raises ValueError.",
     ["inputs"], "all series (with and without gaps), all four models and every other model_sel",
     "the test compares one series and one model with stored numbers",
     ["pycomlink/processing/wet_dry/mlp.py"], [("mlp_wet_dry", "pycomlink/processing/wet_dry/mlp.py")],
     "the returned array", VG + " Series shorter than the window raise inside numpy, which is not part of the claim.")

prop("C26", "PyTorch CNN: each prediction is stored at its own link and time",
     "cnn_wd gives every link one prediction per window of window_size consecutive samples (the model's window_size, 180 for "
     "loaded models): window k of a link holds its samples k ... k+window_size-1 of all channels, unchanged, and its "
     "prediction is stored at that link and at time index k + window_size - reflength//2 (150 after the window start by "
     "default); all other entries of `predictions` are NaN, and the input is kept as `TL`. This holds for any batch size "
     "(windows are neither shuffled nor dropped, and the model is in evaluation mode, so a prediction does not depend on "
     "the other windows of its batch), for model outputs of shape (n,) and (n, 1), and options are passed on unchanged.",
     ["inputs", "configurations"], "all data sets, window sizes, reflength, batch sizes and models",
     "the only test needs a download and looks at 80 values of one link; shuffled or shifted attribution of several links "
     "is not sampled",
     ["pycomlink/processing/pytorch_utils"], [("cnn_wd", "pycomlink/processing/pytorch_utils/run_inference.py"),
      ("rolling_window", "pycomlink/processing/pytorch_utils/run_inference.py"),
      ("build_dataloader", "pycomlink/processing/pytorch_utils/pytorch_utils.py"),
      ("load_model", "pycomlink/processing/pytorch_utils/pytorch_utils.py")],
     "the returned data set",
     VG + "Loops are summarised (all lengths); where a rewritten loop has no common summary, all results for the "
     "enumerated small sizes are compared instead. The model is an uninterpreted function of its input batch. At least one "
     "window has to fit into the series.")

prop("C27", "TensorFlow CNN: each prediction is stored at its own link and time",
     "wet_dry_1d_cnn gives a link one prediction at every time index t >= seq_len-1 whose window t-seq_len+1 ... t of all "
     "input variables is completely finite; it comes from that window, with each variable standardised by itself over all "
     "windows, and is stored at this link and time, whatever the order or selection of the links (cml_ids), the name of the "
     "id coordinate and the batch size; everything else is NaN. Links or variables that are missing are skipped without "
     "affecting others. The documented defaults hold (tl1/tl2, 180, CNN, 128, 0.05), the model has its weights loaded, "
     "and return_ds=False returns the array, otherwise it is merged into the data set. store_predictions rejects inputs of "
     "different lengths, and a missing TensorFlow is installed, not reported as missing, where that is allowed.",
     ["inputs", "configurations"], "all data sets, link selections, window lengths, batch sizes and models",
     "the tests need a download and look at few values; shifted windows or mixed-up links are not sampled",
     ["pycomlink/processing/tensorflow_utils"],
     [("wet_dry_1d_cnn", "pycomlink/processing/tensorflow_utils/run_inference.py"),
      ("create_samples", "pycomlink/processing/tensorflow_utils/inference_utils.py"),
      ("scale_features", "pycomlink/processing/tensorflow_utils/inference_utils.py"),
      ("store_predictions", "pycomlink/processing/tensorflow_utils/inference_utils.py"),
      ("load_model_from_local", "pycomlink/processing/tensorflow_utils/inference_utils.py")],
     "the returned array or data set",
     VG + "Loops are summarised (all lengths); where a rewritten loop has no common summary, all results for the "
     "enumerated small sizes are compared instead. The model is an uninterpreted function of its input batch. At least one "
     "complete window has to exist.")

prop("C28", "Aggregated series: every sample counts once, under the label of its own period",
     "aggregate_df_onto_DatetimeIndex restricts both series to their common time span, gives every sample the new label at or "
     "after it (label 'right', the default) or at or before it ('left') and returns, per label, `method` of all samples of "
     "that label and nothing else; a new_index without time zone is read in new_index_tz ('utc' by default), one with a time "
     "zone keeps it, and the result has the index name and the time zone of the input. GridValidator.get_time_series returns, "
     "for every grid time strictly between the first sample of channel 1 and the last of channel 2, the sum over all grid "
     "cells of value times the cell's share of the link path, independently of earlier calls, and "
     "resample_to_grid_time_series averages all samples of each grid period ('right' or 'left' label, grid_time_zone). "
     "Any other label raises NotImplementedError.",
     ["inputs", "histories"], "all frames, index spans, time zones, labels and methods; any earlier get_time_series call",
     "the test aggregates one UTC series onto one regular index",
     ["pycomlink/util/temporal.py", "pycomlink/validation/validator.py"],
     [("aggregate_df_onto_DatetimeIndex", "pycomlink/util/temporal.py"),
      ("GridValidator.get_time_series", "pycomlink/validation/validator.py"),
      ("GridValidator.resample_to_grid_time_series", "pycomlink/validation/validator.py")],
     "the returned frame",
     VG + " pandas' reindex, groupby and time zone operations are uninterpreted operations with their argument names.")

prop("C31", "Fourier transform wet/dry detection: excess over the dry spectrum, per sample",
     "stft_classification returns one boolean per sample of rsl. The spectrogram (windows of window_length samples moved by one "
     "sample, Hamming window unless `window` is given, f_sampling) or the supplied Pxx and f is put in the middle of the "
     "series, with NaN on both sides (one more at the end if the number is odd); with mirror=True the window length is rounded "
     "up to an even number and the last half window is filled with spectra of the mirrored signal. The spectrum is divided by "
     "its NaN-free mean over the dry period, and a sample is wet exactly if the mean over frequencies <= f_divide minus the "
     "mean over the others is greater than threshold; where that is NaN the sample is dry. The dry period is the given "
     "t_dry_start ... t_dry_stop or, with dry_length, the first window of dry_length samples with the smallest standard "
     "deviation, also if the series starts with it; any other combination raises AttributeError and Pxx without f ValueError. The info dictionary holds the "
     "extended and normalised spectrogram, the difference, the dry spectrum and the frequencies that were used.",
     ["inputs", "configurations"], "all series, window lengths, thresholds and option combinations",
     "there is no test of this module",
     ["pycomlink/processing/wet_dry/stft.py"], [("stft_classification", "pycomlink/processing/wet_dry/stft.py"),
      ("find_lowest_std_dev_period", "pycomlink/processing/wet_dry/stft.py")],
     "the returned array and dictionary",
     VG + " The mirrored end of the series is decided for window lengths 4 to 7 and short series (loop unrolled), everything "
     "else for all sizes. mirror together with a supplied Pxx is not part of the claim.")

prop("C32", "Coverage mask: a grid point is covered exactly if it is near some link",
     "calc_coverage_mask returns a boolean array of the shape of xgrid whose element is True exactly if the grid point with "
     "this element of xgrid as x and of ygrid as y intersects the union, over all links of cml_list, of the straight path from "
     "site a to site b (longitude as x, latitude as y) widened by max_dist_from_cml on all sides with round ends. Every link "
     "counts, whatever its place in the list, and the order of the links does not matter.",
     ["inputs"], "all lists of links, grids and distances",
     "there is no test of this function",
     ["pycomlink/spatial/coverage.py"], [("calc_coverage_mask", "pycomlink/spatial/coverage.py")], "the returned mask",
     VG + " shapely's operations are uninterpreted; loops are summarised, rewritten loops compared for 1 to 3 links.")

prop("C33", "Attenuation from min/max levels: bias corrected, above the recent minimum",
     "_calc_A_min_max corrects the attenuation tx_max - rx_min by -(gT + gR)/2 and tx_min - rx_max by +(gT + gR)/2, replaces "
     "missing values of each by its rounded mean, and returns for every sample from index `window` on the first minus the "
     "minimum of the second over this and the `window` samples before, but not less than 0; the first `window` samples are "
     "NaN. The defaults are gT=1.0, gR=0.6, window=7.",
     ["inputs"], "all series (with gaps), window lengths and bias values",
     "there is no test of this function",
     ["pycomlink/processing/min_max.py"], [("_calc_A_min_max", "pycomlink/processing/min_max.py")], "the returned array",
     VG + " Loop summarised for all lengths; rewritten loops compared for windows 1 to 4 and up to 5 samples.")

prop("C34", "Older error measures keep their definition and warn when deprecated",
     "calc_wet_error_rates returns (false, missed): the share of the dry reference steps that are predicted wet and the share of "
     "the wet reference steps that are predicted dry; calc_wet_dry_error returns (missed share, false share). Both give a "
     "deprecation warning (of a kind Python shows by default) and otherwise behave as the function without the wrapper, with arguments by position or by name. "
     "Validator.calc_stats returns the Pearson correlation of a time series with the link's txrx_nf at equal times (to the "
     "second).",
     ["inputs"], "all series; positional and keyword calls",
     "there are no tests of these functions",
     ["pycomlink/validation/stats.py", "pycomlink/validation/validator.py", "pycomlink/util/maintenance.py"],
     [("calc_wet_error_rates", "pycomlink/validation/stats.py"), ("calc_wet_dry_error", "pycomlink/validation/validator.py"),
      ("Validator.calc_stats", "pycomlink/validation/validator.py"), ("deprecated", "pycomlink/util/maintenance.py")],
     "returned values and warnings", VG)

NA.append(("N01", "Kriging reproduces the observations where nothing is smoothed",
           "With a nugget of zero, ordinary kriging evaluated at the position of an observation returns that observation, and "
           "elsewhere weights that sum to one.",
           ["inputs"], "every set of positions, values and variogram parameters",
           "a test fixes one set of points",
           ["pycomlink/spatial/interpolator.py"], [("OrdinaryKrigingInterpolator", "pycomlink/spatial/interpolator.py")],
           "the linear algebra lies in pykrige, outside this repository; numerical solvability of the kriging system depends "
           "on the positions and no static argument bounds it. That pycomlink hands over the right points, values and "
           "options is decided by C19."))
NA.append(("N02", "Compiled and interpreted loops give the same numbers",
           "Every loop compiled with numba returns the same numbers as the same source interpreted by Python.",
           ["inputs"], "every input and every numba version",
           "a test compares some inputs",
           ["pycomlink/processing/baseline.py", "pycomlink/processing/wet_antenna.py"],
           [("_numba_baseline_constant", "pycomlink/processing/baseline.py"), ("_numba_waa_schleiss_2013", "pycomlink/processing/wet_antenna.py")],
           "a property of numba's code generator, not of this source; the checks assume Python semantics of the source"))
NA.append(("N03", "Trained detectors classify well",
           "The probabilities of the MLP and CNN detectors separate rain from no rain with the skill published with the models.",
           ["inputs"], "every link and weather situation",
           "a test can only sample reference data",
           ["pycomlink/processing/wet_dry/mlp.py", "pycomlink/processing/pytorch_utils/run_inference.py"],
           [("mlp_wet_dry", "pycomlink/processing/wet_dry/mlp.py")],
           "statistical statement about trained weights and the weather; C25, C26 and C27 decide that the models get the "
           "right windows and that every prediction is attributed to its own link and time"))
NA.append(("N04", "Attenuation inversion is accurate to the step of its look-up table",
           "The wet antenna attenuation found from the observed attenuation by inverting the forward model numerically differs "
           "from the exact inverse by no more than the table step allows.",
           ["inputs"], "every attenuation, link length and antenna parameter",
           "a test compares some attenuations",
           ["pycomlink/processing/wet_antenna.py"], [("waa_leijnse_2008_from_A_obs", "pycomlink/processing/wet_antenna.py")],
           "needs monotonicity and curvature bounds of a transcendental function (complex square roots of refractive indices) "
           "over unbounded parameters; C09 decides instead that the table is that of the forward model and that the look-up "
           "uses it as documented"))
