BL = "pycomlink/processing/baseline.py"
IP = "pycomlink/spatial/interpolator.py"
ST = "pycomlink/validation/stats.py"
VA = "pycomlink/validation/validator.py"
TM = "pycomlink/util/temporal.py"
COV = "pycomlink/spatial/coverage.py"
MM = "pycomlink/processing/min_max.py"
IO = "pycomlink/io/cmlh5_to_xarray.py"
HE = "pycomlink/spatial/helper.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
KR = "pycomlink/processing/k_R_relation.py"
MLP = "pycomlink/processing/wet_dry/mlp.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
XW = "pycomlink/processing/xarray_wrapper.py"

seed("s45", "C28", [(TM, "        df_new_t.index = df_new_t.index.tz_localize(new_index_tz)\n", "        df_new_t.index = df_new_t.index.tz_localize(df_temp.index.tzinfo or new_index_tz)\n")], '''
import pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
t = pd.date_range("2020-01-01 00:15", periods=8, freq="15min", tz="Europe/Vienna")
df = pd.DataFrame({"x": range(8)}, index=t)
new = pd.DatetimeIndex(["2019-12-31 23:00", "2020-01-01 00:00", "2020-01-01 01:00"])
r = f(df, new, "sum", label="right", new_index_tz="utc")
assert list(r.x) == [0 + 1 + 2 + 3, 4 + 5 + 6 + 7], r
''', "data with a time zone of its own and a new index without one", "the new time stamps are shifted by the offset of the zone")

seed("s46", "C14", [(NW, "    period = int(timeperiod * 60 / interval)\n", "    period = timeperiod * (60 // interval)\n")], '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry as f, calc_distance_between_cml_endpoints as d
n, m = 12, 5
ids = ["c%d" % i for i in range(m)]
v = np.full((m, n), -60.0)
v[:, 0] = -50.0
lat = np.full(m, 47.0)
p = xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": ids, "time": pd.date_range("2020", periods=n, freq="45min"), "length": ("cml_id", np.ones(m))})
dist = d(ids, lat, np.full(m, 8.0), lat, np.full(m, 8.01))
w = f(p, dist, interval=45, timeperiod=6, min_hours=0.75)[0]
assert (w.values[:, 7] == 1).all(), w.values      # the maximum of the last 8 samples is that of the first one
''', "an interval that does not divide the hour", "the maximum is taken over too few time steps")

seed("s47", "C21", [(IO, '(cml_ch_g["time"][:] * 1e9).astype("datetime64[ns]")', 'cml_ch_g["time"][:].astype("datetime64[s]").astype("datetime64[ns]")')], '''
import os, tempfile
import h5py, numpy as np
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as f
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.h5")
    with h5py.File(p, "w") as h:
        g = h.create_group("cml_1")
        for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
            g.attrs[k] = 1.0
        g.attrs["cml_id"] = "1"
        c = g.create_group("channel_1")
        c.attrs["frequency"] = 18e9
        c.attrs["polarization"] = "H"
        c["time"] = np.array([0.5, 10.5])
        c["tx"] = np.ones(2)
        c["rx"] = np.ones(2)
    t = f(p)[0].time.values
    assert t[0] == np.datetime64("1970-01-01T00:00:00.500000000"), t
''', "time stamps with fractions of a second", "the fractions are cut off")

seed("s49", "C06", [(KR, "    a = np.full_like(f_GHz, fill_value=np.nan, dtype=float)\n    b = np.full_like(f_GHz, fill_value=np.nan, dtype=float)\n", "    a = np.full_like(f_GHz, fill_value=0)\n    b = np.full_like(f_GHz, fill_value=0)\n")], '''
import numpy as np
from pycomlink.processing.k_R_relation import a_b as f
a, b = f(20, "H")
c, d = f(20.0, "H")
assert np.allclose(a, c) and np.allclose(b, d), (a, b)
''', "a frequency given as an integer", "the coefficients are cut off to integers")

seed("s50", "C13", [(HE, "np.cos(lat1) * np.cos(lat2)", "np.cos((lat1 + lat2) / 2) ** 2")], '''
import numpy as np
from pycomlink.spatial.helper import haversine as f
assert np.isclose(f(0.0, 0.0, 90.0, 90.0), 6367 * np.pi / 2), f(0.0, 0.0, 90.0, 90.0)
''', "points far apart in both latitude and longitude", "the distance is not that of the great circle")

seed("s51", "C17", [(ST, "    predicted_wet = predicted > rainfall_threshold_wet\n", "    predicted_wet = predicted >= max(rainfall_threshold_wet, 1e-12)\n")], '''
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
m = f(np.array([0.0, 0.0, 1.0, 2.0]), np.array([0.1, 0.0, 1.0, 2.0]), 0.1)
assert m.false_wet_rate == 0, m
''', "a predicted value equal to the threshold", "it counts as wet")

seed("s52", "C20", [(XW, '                    if "time" in arg.dims:\n                        found_time_dim = True\n                        input_core_dims', '                    found_time_dim = "time" in arg.dims\n                    if found_time_dim:\n                        input_core_dims')], '''
import numpy as np, xarray as xr
from pycomlink.processing.k_R_relation import calc_R_from_A as f
A = xr.DataArray(np.full((2, 3), 5.0), dims=("cml_id", "time"), coords={"cml_id": ["a", "b"]})
L = xr.DataArray([1.0, 2.0], dims="cml_id", coords={"cml_id": ["a", "b"]})
R = f(A, L, a=0.1, b=1.0)
assert np.allclose(R.transpose("cml_id", "time"), [[50.0] * 3, [25.0] * 3]), R
''', "a labelled argument without a time dimension after one that has it", "the function is called with whole labelled arrays")
