KR = "pycomlink/processing/k_R_relation.py"
WA = "pycomlink/processing/wet_antenna.py"
IDW = "pycomlink/spatial/idw.py"
IP = "pycomlink/spatial/interpolator.py"
ST = "pycomlink/validation/stats.py"
TI = "pycomlink/processing/tensorflow_utils/inference_utils.py"

seed("s33", "C27", [(TI, "        valid = t_idx < n_time\n", "        valid = t_idx <= n_time\n")], '''
import numpy as np, xarray as xr
from pycomlink.processing.tensorflow_utils.inference_utils import store_predictions as f
ds = xr.Dataset(coords={"time": np.arange(3), "cml_id": ["a", "b"]})
r = f(ds, [0.1, 0.2], ["a", "a"], [1, 3])
assert r.shape == (3, 2) and np.isclose(r.values[1, 0], 0.1) and np.isnan(r.values[2, 0]), r
''', "a prediction for the time step right after the last one of the data set", "storing fails with an IndexError instead of skipping it")

seed("s34", "C22", [(TI, "    cache_dir = Path(cache_dir)\n    cache_dir.mkdir(parents=True, exist_ok=True)\n    # Add",
"    cache_dir = Path(cache_dir)\n    if not cache_dir.exists():\n        cache_dir.mkdir()\n    # Add")], '''
import pathlib, tempfile
from pycomlink.processing.tensorflow_utils.inference_utils import download_and_cache as f
with tempfile.TemporaryDirectory() as d:
    src = pathlib.Path(d) / "w.json"
    src.write_text("x")
    p = f(src.as_uri(), pathlib.Path(d) / "a" / "b")
    assert pathlib.Path(p).read_text() == "x"
''', "a cache directory whose parent does not exist", "download fails with FileNotFoundError")

seed("s35", "C08", [(WA, "        if wet[i] == True:\n", "        if wet[i] != False:\n")], '''
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013 as f
w = f(np.array([0.0, 5.0, 5.0]), np.zeros(3), np.array([0.0, np.nan, 1.0]), waa_max=2.0, delta_t=1, tau=15)
assert w[1] == 2.0, w
''', "a missing value in the wet/dry classification", "that sample is treated as wet")

seed("s36", "C09", [(WA, "    n_water = np.sqrt(eps_water(f_Hz=f_Hz, T_K=T_K))\n", "    n_water = np.sqrt(eps_water(f_Hz=f_Hz, T_K=293.0))\n")], '''
import numpy as np
from pycomlink.processing.wet_antenna import waa_leijnse_2008 as f
R = np.array([1.0, 10.0])
assert not np.allclose(f(R, 30e9, T_K=273.0), f(R, 30e9, T_K=303.0))
''', "a water temperature other than 293 K", "the temperature is ignored")

seed("s37", "C18", [(IDW, "        return interpol if qdim > 1 else interpol[0]\n", "        return interpol if len(interpol) > 1 else interpol[0]\n")], '''
import numpy as np
from pycomlink.spatial.idw import Invdisttree
t = Invdisttree([[0.0, 0.0], [4.0, 0.0]])
v = t(np.array([[1.0, 0.0]]), np.array([1.0, 3.0]), nnear=2)
assert np.shape(v) == (1,), v
''', "a query array with exactly one point", "a scalar is returned instead of an array with one value")

seed("s38", "C30", [(IP, "    julian_day = float(date.strftime('%j'))\n", "    julian_day = float((date - pd.Timestamp(2013, 1, 1)).days % 365 + 1)\n")], '''
from numpy import isclose
from pycomlink.spatial.interpolator import clim_var_param as f
a, b = f("20161201"), f("20131202")     # both are day 336 of their year
assert isclose(a["range"], b["range"]) and isclose(a["sill"], b["sill"]), (a, b)
''', "a date after the end of February of a leap year, or of a year before or after one", "parameters of another day of the year")

seed("s39", "C05", [(KR, "    elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):\n        # in this case we use `a` and `b` from args\n",
"    elif (a is not None) and (b is not None) and (f_GHz is None):\n        # in this case we use `a` and `b` from args\n")], '''
from pycomlink.processing.k_R_relation import calc_R_from_A as f
try:
    f(1.0, 1.0, pol="H", a=0.1, b=1.0)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''', "a and b together with a polarisation", "the polarisation is ignored silently")

seed("s41", "C01", [(WA, "    A = rsl - baseline\n", "    A = rsl\n    A -= baseline\n")], '''
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013 as f
rsl = np.array([1.0, 5.0, 5.0])
f(rsl, np.ones(3), np.array([0, 1, 1]), waa_max=2.0, delta_t=1, tau=15)
assert list(rsl) == [1, 5, 5], rsl
''', "signal levels given as an array of float64", "the array of the caller is changed")

seed("s42", "C23", [(WA, "    mapping = scipy.interpolate.interp1d(\n        A_obs_theoretical, waa, assume_sorted=True, kind=\"linear\"\n    )\n    return mapping(A_obs)\n\n\ndef waa_leijnse_2008(\n",
"    key = (np.size(f_Hz), float(np.ravel(f_Hz)[0]), str(pol), L_km, gamma, delta, n_antenna, l_antenna)\n    if key not in _TABLES:\n        _TABLES[key] = scipy.interpolate.interp1d(\n            A_obs_theoretical, waa, assume_sorted=True, kind=\"linear\"\n        )\n    return _TABLES[key](A_obs)\n\n\n_TABLES = {}\n\n\ndef waa_leijnse_2008(\n")], '''
import numpy as np
from pycomlink.processing.wet_antenna import waa_leijnse_2008_from_A_obs as f
A = np.array([0.0, 1.0, 5.0])
a = f(A, 18e9, "H", 3.0, T_K=273.0)
f(A, 19e9, "H", 3.0, T_K=303.0)
b = f(A, 19e9, "H", 3.0, T_K=273.0)
c = f(A, 19.0000000001e9, "H", 3.0, T_K=273.0)
assert np.allclose(b, c, rtol=1e-6), (b, c)
''', "two calls that differ in the temperature only", "the second call uses the table of the first")

seed("s43", "C04", [(KR, "        pol = np.atleast_1d(pol)\n        a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)\n    elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):\n",
"        pol = np.atleast_1d(pol)[:1]\n        a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)\n    elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):\n")], '''
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A as f, a_b
fr, pol = np.array([18.0, 18.0]), np.array(["H", "V"])
a, b = a_b(fr, pol)
R = f(np.array([3.0, 3.0]), 2.0, f_GHz=fr, pol=pol)
assert np.allclose(R, f(np.array([3.0, 3.0]), 2.0, a=a, b=b)), R
''', "an array of differing polarisations", "the first polarisation is used for every element")

seed("s44", "C16", [(ST, "    if np.nansum(predicted) == 0:\n        matthews_correlation = 0\n\n    return WetDryError(", "    if N_tp == 0:\n        matthews_correlation = 0\n\n    return WetDryError(")], '''
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as f
m = f(np.array([1.0, 0, 0, 0]), np.array([0.0, 1, 0, 0])).matthews_correlation
assert np.isclose(m, -1 / 3), m
''', "wet predictions none of which is right", "the Matthews correlation is zero instead of negative")
