KR = "pycomlink/processing/k_R_relation.py"
BL = "pycomlink/processing/baseline.py"
BG = "pycomlink/processing/blackout_gap_detection.py"
WA = "pycomlink/processing/wet_antenna.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
IDW = "pycomlink/spatial/idw.py"
IP = "pycomlink/spatial/interpolator.py"
ST = "pycomlink/validation/stats.py"
VA = "pycomlink/validation/validator.py"
TM = "pycomlink/util/temporal.py"
MLP = "pycomlink/processing/wet_dry/mlp.py"
STFT = "pycomlink/processing/wet_dry/stft.py"
MM = "pycomlink/processing/min_max.py"
COV = "pycomlink/spatial/coverage.py"
IO = "pycomlink/io/cmlh5_to_xarray.py"
XW = "pycomlink/processing/xarray_wrapper.py"
TI = "pycomlink/processing/tensorflow_utils/inference_utils.py"
HE = "pycomlink/spatial/helper.py"

seed("s07", "C12", [(BG, "        if gap_end[i] == True:\n            in_blackout_gap = False\n        if in_blackout_gap and np.isnan(rsl[i]):\n            mask[i] = True\n",
"        if in_blackout_gap and np.isnan(rsl[i]):\n            mask[i] = True\n        if gap_end[i] == True:\n            in_blackout_gap = False\n")], '''
import numpy as np
from pycomlink.processing.blackout_gap_detection import created_blackout_gap_mask_from_start_end_markers as f
rsl = np.array([-50.0, -75.0, np.nan, np.nan, np.nan])
s = np.array([0, 1, 0, 0, 0], dtype=bool)
e = np.array([0, 0, 0, 1, 0], dtype=bool)
m = f(rsl, s, e)
assert list(m) == [False, False, True, False, False], m
''', "an end marker on a missing sample", "the missing sample with the end marker is masked although the gap ended")

seed("s11", "C15", [(NR, "    if F_value_threshold is not None:\n", "    if F_value_threshold:\n")], '''
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
o = np.array([-50.0, -50.0])
R = f(pref=o, p_c_min=o - 10, p_c_max=o - 8, F=np.array([-1.0, 1.0]), length=2.0, a=0.1, b=1.0, F_value_threshold=0.0)
assert np.isnan(R[0]) and not np.isnan(R[1]), R
''', "an outlier threshold of zero", "the outlier filter is switched off")

seed("s12", "C18", [(IDW, "            wz = z[ix[0]]\n", "            wz = np.mean(z[ix[dist < 1e-10]])\n")], '''
import numpy as np
from pycomlink.spatial.idw import Invdisttree
t = Invdisttree([[0.0, 0.0], [1e-11, 0.0], [5.0, 0.0]])
v = t(np.array([[0.0, 0.0], [3.0, 0.0]]), np.array([1.0, 3.0, 9.0]), nnear=3, p=1)
assert v[0] == 1.0, v
''', "two data points closer than 1e-10 to the query point", "value is a mean instead of that of the nearest point")

seed("s13", "C19", [(IP, "            zi = self._interpol_func(\n                x=x, y=y, z=z, xi=self.xgrid.ravel(), yi=self.ygrid.ravel()\n            )\n            self.zgrid = np.reshape(zi, self.xgrid.shape)\n",
"            zi = self._interpol_func(\n                x=x,\n                y=y,\n                z=z,\n                xi=np.ravel(self.xgrid, order=\"K\"),\n                yi=np.ravel(self.ygrid, order=\"K\"),\n            )\n            self.zgrid = np.reshape(zi, self.xgrid.shape)\n")], '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
x = np.array([0.0, 4.0]); y = np.array([0.0, 0.0]); z = np.array([0.0, 4.0])
xg, yg = np.meshgrid(np.arange(5.0), np.arange(3.0))
a = IdwKdtreeInterpolator(nnear=2)(x, y, z, xgrid=xg, ygrid=yg)
b = IdwKdtreeInterpolator(nnear=2)(x, y, z, xgrid=np.asfortranarray(xg), ygrid=np.asfortranarray(yg))
assert np.allclose(a, b), (a, b)
''', "a grid in Fortran order (for example the transpose of another array)", "cells get the values of other cells")

seed("s15", "C17", [(ST, "    false_wet_precipitation_rate = predicted[reference_dry & predicted_wet].mean()\n",
"    false_wet_precipitation_rate = predicted[predicted_wet].mean()\n    if (reference_wet & predicted_wet).any():\n        false_wet_precipitation_rate = predicted[reference_dry & predicted_wet].mean()\n    else:\n        false_wet_precipitation_rate = predicted[reference_dry].mean()\n")], '''
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
r = f(np.array([0.0, 0.0, 5.0]), np.array([0.0, 4.0, 0.0]), 0.1)
assert r.false_wet_precipitation_rate == 4.0, r
''', "no pair in which both are wet", "mean of false rain includes dry predictions")

seed("s17", "C28", [(TM, "    t_stop = min(df_temp.index.max(), df_new_t.index.max())\n", "    t_stop = df_new_t.index.max()\n")], '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
df = pd.DataFrame({"a": np.arange(5.0)}, index=pd.date_range("2020-01-01 00:01", periods=5, freq="min", tz="utc"))
r = f(df, pd.date_range("2020-01-01 00:00", periods=5, freq="3min"), "sum")
# label 00:06 lies outside of the common span, its samples are not aggregated onto it
assert list(r.a) == [3.0], r
''', "a data set that ends between two new labels", "an incomplete last period is reported")

seed("s18", "C31", [(STFT, "    i_f_divide_low = np.where(f <= f_divide)\n", "    i_f_divide_low = np.where(f < f_divide)\n")], '''
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
rng = np.random.default_rng(0)
P = rng.random((4, 10)) + 0.1
f = np.array([0.0, 1.0, 2.0, 3.0])
wet, info = stft_classification(np.zeros(14), 5, 0.1, 1.0, t_dry_start=3, t_dry_stop=6, Pxx=P, f=f)
ext = np.full((4, 14), np.nan); ext[:, 2:12] = P
n = ext / np.nanmean(ext[:, 3:6], axis=1)[:, None]
want = n[:2].mean(0) - n[2:].mean(0)
assert np.allclose(info["P_sum_diff"], want, equal_nan=True)
''', "a dividing frequency that is one of the frequencies", "that frequency belongs to no band")

seed("s19", "C33", [(MM, "    Ar_max[Ar_max < 0.0] = 0.0\n    Ar_max[0:window] = np.nan\n", "    Ar_max[0:window] = np.nan\n    Ar_max = np.fmax(Ar_max, 0.0)\n")], '''
import numpy as np
from pycomlink.processing.min_max import _calc_A_min_max
n = 12
r = _calc_A_min_max(np.full(n, 10.0), np.full(n, 10.0), np.full(n, -45.0), np.full(n, -44.0))
assert np.isnan(r[:7]).all() and not np.isnan(r[7:]).any(), r
''', "always: the first window", "the first samples are zero instead of missing")

seed("s22", "C27", [(TI, "            if np.all(np.isfinite(x_seq)):\n", "            if np.isfinite(np.sum(x_seq[-1])):\n")], '''
import importlib.machinery, sys, types, numpy as np, xarray as xr, pandas as pd
m = types.ModuleType("tensorflow")
m.__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
sys.modules.setdefault("tensorflow", m)
import pycomlink.processing.tensorflow_utils.inference_utils as iu
v = np.arange(24.0).reshape(2, 12); v[0, 3] = np.nan
ds = xr.Dataset(dict(tl1=(("cml_id", "time"), v), tl2=(("cml_id", "time"), v)),
    coords=dict(cml_id=["a", "b"], time=pd.date_range("2020", periods=12, freq="min")))
X, ids, t = iu.create_samples(ds=ds, cml_ids=["a", "b"], input_vars=["tl1", "tl2"], seq_len=4, cml_dim="cml_id")
assert np.isfinite(X).all() and list(t[ids == "a"]) == [7, 8, 9, 10, 11], (t, ids)
''', "a missing sample inside a window that ends with a valid one", "windows with missing values reach the model")

seed("s27", "C34", [(VA, "    wet_error = ((df_wet_truth == True) & (df_wet == False)).sum() / float(\n        (df_wet_truth == True).sum()\n    )\n",
"    wet_error = ((df_wet_truth == True) & (df_wet == False)).sum() / float(\n        len(df_wet_truth) - (df_wet_truth == False).sum()\n    )\n")], '''
import warnings, numpy as np
warnings.simplefilter("ignore")
from pycomlink.validation.validator import calc_wet_dry_error
t = np.array([1.0, 1.0, 0.0, np.nan]); p = np.array([1.0, 0.0, 0.0, 0.0])
w, d = calc_wet_dry_error(t, p)
assert w == 0.5 and d == 0.0, (w, d)
''', "a reference with missing values", "missing reference values count as wet")

seed("s09", "C14", [(NW, "            medianPL = (\n                ds_nearby_cmls.where(ds_nearby_cmls.deltaP.count(\"cml_id\") > min_links)\n",
"            medianPL = (\n                ds_nearby_cmls.where(ds_nearby_cmls.pmin.count(\"cml_id\") > min_links)\n")], """
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
ids = ["a", "b", "c", "d"]
n = 16
v = np.full((4, n), -50.0)
v[:, 6] = -60
v[3, :5] = np.nan
p = xr.DataArray(v, dims=("cml_id", "time"),
    coords=dict(cml_id=ids, time=pd.date_range("2020", periods=n, freq="15min"), length=("cml_id", [1.0, 1.0, 1.0, 1.0])))
z = [0.0, 0.001, 0.002, 0.003]
d = nw.calc_distance_between_cml_endpoints(ids, z, z, z, z)
wet, F = nw.nearby_wetdry(p, d, min_links=3, timeperiod=1, min_hours=1)
# only three links are known before step 8, so that no F score exists for a period that contains these steps
assert np.isnan(F.transpose("cml_id", "time").values[:, :11]).all(), F.values
""", "a link whose signal is back but whose maximum over the past period is not known yet",
 "F score rests on time steps at which too few links have data")

seed("s14", "C02", [(IP, "            # print('Building new `Invdistree`')\n            idw = Invdisttree(X=list(zip(x, y)))\n            self.idw = idw\n",
"            # print('Building new `Invdistree`')\n            idw = Invdisttree(X=list(zip(x, y)))\n            self.idw = idw\n            if self.nnear > len(x):\n                self.nnear = len(x)\n")], """
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator as I
rng = np.random.default_rng(0)
x, y, z = rng.random((3, 12))
xg, yg = np.meshgrid(np.linspace(0, 1, 4), np.linspace(0, 1, 4))
a = I(nnear=8)
few = z.copy(); few[3:] = np.nan
a(x, y, few, xgrid=xg, ygrid=yg)
r = a(x, y, z, xgrid=xg, ygrid=yg)
w = I(nnear=8)(x, y, z, xgrid=xg, ygrid=yg)
assert np.allclose(r, w), abs(r - w).max()
""", "an earlier call with fewer valid points than neighbours", "later calls use fewer neighbours")

seed("s20", "C32", [(COV, "    for grid_point in tqdm(grid_points, desc=\"Checking intersections\"):\n        if grid_point.intersects(cml_multi_line):\n",
"    for grid_point in tqdm(grid_points, desc=\"Checking intersections\"):\n        if grid_point.within(cml_multi_line):\n")], """
import numpy as np
from types import SimpleNamespace as NS
from pycomlink.spatial.coverage import calc_coverage_mask
c = NS(metadata=dict(site_a_longitude=0.0, site_a_latitude=0.0, site_b_longitude=10.0, site_b_latitude=0.0))
xg, yg = np.meshgrid([2.0, 5.0], [0.0, 1.0])
m = calc_coverage_mask([c], xg, yg, 1.0)
assert m.all(), m
""", "a grid point exactly at the maximum distance", "the border is not covered")

seed("s21", "C25", [(MLP, "        trsl2 =  trsl_channel_2 - trsl_channel_2.rolling(\n", "        trsl2 =  trsl_channel_2 - trsl_channel_1.rolling(\n")], """
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import mlp
class M:
    def predict_proba(self, x):
        self.x = np.array(x); return np.zeros((len(x), 2))
mlp.model_rg = M()
rng = np.random.default_rng(0)
t = pd.date_range("2020", periods=900, freq="min")
a, b = (xr.DataArray(rng.normal(size=900).cumsum() + k, dims="time", coords=dict(time=t)) for k in (0, 50))
mlp.mlp_wet_dry(a, b, "rg")
x1 = mlp.model_rg.x
mlp.mlp_wet_dry(a + 7, b, "rg")
assert np.allclose(x1, mlp.model_rg.x), abs(x1 - mlp.model_rg.x).max()
""", "channels with different levels and a model with median detrending", "channel 2 is detrended with channel 1")

seed("s28", "C11", [(BL, "                baseline[last_dry_i : i + 1] = np.linspace(\n                    last_dry_rsl, rsl_i, i - last_dry_i + 1\n                )\n",
"                baseline[last_dry_i : i + 1] = np.linspace(\n                    baseline[last_dry_i], rsl_i, i - last_dry_i + 1\n                )\n")], """
import numpy as np
from pycomlink.processing.baseline import baseline_linear
rsl = np.array([1.0, 2.0, 8.0, 3.0, 9.0, 4.0, 4.0])
wet = np.array([0, 1, np.nan, 0, 1, 0, 0])
b = baseline_linear(rsl, wet)
assert np.isnan(b[:3]).all() and np.allclose(b[3:], [3, 3.5, 4, 4], equal_nan=True), b
""", "a wet period that starts right after one with a missing state", "the missing value is carried on to the next wet period")

seed("s23", "C10", [(BL, "        elif wet[i] and wet[i - 1]:\n            baseline[i] = baseline[i - 1]\n", "        elif wet[i] and wet[i - 1]:\n            baseline[i] = baseline[i - n_average_last_dry]\n")], """
import numpy as np
from pycomlink.processing.baseline import baseline_constant
b = baseline_constant(np.array([1.0, 3.0, 9.0, 9.0, 9.0, 4.0]), np.array([0, 0, 1, 1, 1, 0], bool), n_average_last_dry=2)
assert np.allclose(b, [1, 3, 2, 2, 2, 4]), b
""", "n_average_last_dry of 2 or more and a wet period of at least two samples", "the level is not constant during the wet period")

seed("s31", "C22", [("pycomlink/processing/pytorch_utils/inference_utils.py", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(model_url.rstrip(\"/\").split(\"/\")[-1].encode()).hexdigest()\n")], """
import importlib.machinery, sys, types, tempfile, os
for n in ("torch",):
    m = types.ModuleType(n); m.__spec__ = importlib.machinery.ModuleSpec(n, None); sys.modules.setdefault(n, m)
import pycomlink.processing.pytorch_utils.inference_utils as iu
def get(url, path, *a, **k):
    open(path, "w").write(url)
iu.urllib.request.urlretrieve = get
with tempfile.TemporaryDirectory() as d:
    a = iu.download_and_cache_model("https://a.org/x/model.pt", d)
    b = iu.download_and_cache_model("https://b.org/y/model.pt", d)
    assert open(a).read() == "https://a.org/x/model.pt" and open(b).read() == "https://b.org/y/model.pt", (a, b)
""", "two URLs that end in the same file name", "the second model is never downloaded, the first is used in its place")

seed("s32", "C26", [("pycomlink/processing/pytorch_utils/pytorch_utils.py", "    tensor_data = tensor_data.permute(0, 2, 1)  # (batch, channels, window)\n",
"    tensor_data = tensor_data.reshape(\n        tensor_data.shape[0], tensor_data.shape[2], tensor_data.shape[1]\n    )  # (batch, channels, window)\n")], """
import importlib.machinery, sys, types, numpy as np
t = types.ModuleType("torch"); t.__spec__ = importlib.machinery.ModuleSpec("torch", None)
class T(np.ndarray):
    def permute(self, *a):
        return self.transpose(*a)
t.tensor = lambda x, dtype=None: np.asarray(x, dtype=np.float32).view(T)
t.float32 = np.float32
t.utils = types.SimpleNamespace(data=types.SimpleNamespace(DataLoader=lambda d, batch_size, shuffle=False: [d]))
sys.modules["torch"] = t
import pycomlink.processing.pytorch_utils.pytorch_utils as pu
x = np.arange(12.0).reshape(2, 3, 2)
dl, ids, times = pu.build_dataloader(dict(data=x, cml_id=np.array([1, 1]), time=np.array([0, 1])), 4)
assert np.array_equal(np.asarray(dl[0]), x.transpose(0, 2, 1)), dl[0]
""", "more than one channel", "samples of the channels are mixed")

seed("s26", "C21", [(IO, "        ds_channel_list = []\n        for channel_name, channel_g in cml_g.items():\n            cml_ch_g = cml_g[channel_name]\n",
"        ds_channel_list = []\n        for i, channel_name in enumerate(cml_g):\n            channel_name = \"channel_%d\" % (i + 1)\n            cml_ch_g = cml_g[channel_name]\n")], """
import os, tempfile, numpy as np, h5py
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.h5")
    with h5py.File(p, "w") as h:
        g = h.create_group("cml_1")
        for k, v in dict(cml_id="1", site_a_latitude=1.0, site_b_latitude=1.1, site_a_longitude=1.0, site_b_longitude=1.1).items():
            g.attrs[k] = v
        for n in ("channel_2", "channel_5"):
            c = g.create_group(n)
            c.attrs["frequency"] = 20e9; c.attrs["polarization"] = "V"
            for k in ("rx", "tx", "time"):
                c[k] = np.arange(3.0)
    ds = read_cmlh5_file_to_xarray(p)[0]
assert list(ds.channel_id.values) == ["channel_2", "channel_5"], ds
""", "channel groups that are not numbered from 1", "such files cannot be read")

seed("s29", "C20", [(XW, "                    if \"time\" in arg.dims:\n                        found_time_dim = True\n                        input_core_dims.append([\"time\"])\n                    else:\n                        input_core_dims.append([])\n",
"                    if \"time\" in arg.dims:\n                        found_time_dim = arg.ndim > 1 or arg.size > 1\n                        input_core_dims.append([\"time\"])\n                    else:\n                        input_core_dims.append([])\n")], """
import numpy as np, xarray as xr
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end as f
a = xr.DataArray(np.array([-80.0]), dims="time", coords=dict(time=[0]))
s, e = f(a, -70)
assert isinstance(s, xr.DataArray) and s.dims == ("time",) and not bool(s[0]), s
from pycomlink.processing.baseline import baseline_constant as g
r = g(a, a * 0)
assert isinstance(r, xr.DataArray), type(r)
""", "a labelled series with a single time step", "the result is a plain array without labels")

seed("s08", "C13", [(NW, "    ds = xr.where(ds.cml_id1 == ds.cml_id2, 0, ds)\n", "    ds = xr.where(ds.a_to_all_a == 0, 0, ds)\n")], """
import numpy as np
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as f
# two links that start at the same site
d = f(["x", "y"], [47.0, 47.0], [8.0, 8.0], [47.2, 47.5], [8.0, 8.0])
assert abs(float(d.a_to_all_b.sel(cml_id1="x", cml_id2="y")) - 6367 * np.radians(0.5)) < 1e-3, d
""", "two links with a common site a", "all distances between such links are zero")
