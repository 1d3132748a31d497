IP = "pycomlink/spatial/interpolator.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
IDW = "pycomlink/spatial/idw.py"
KR = "pycomlink/processing/k_R_relation.py"
WA = "pycomlink/processing/wet_antenna.py"
ST = "pycomlink/validation/stats.py"

seed("s53", "C15", [(NR, "    p_c_max = xr.where(cond=(p_c_min < pref) & (pmax < pref), x=pmax, y=pref)\n", "    p_c_max = xr.where(cond=(p_c_min < pref) & (pmin < pref), x=pmax, y=pref)\n")], '''
import numpy as np, xarray as xr
import pycomlink.processing.nearby_rain_retrival as m
f = m.nearby_correct_received_signals
t = dict(dims="time", coords={"time": [0, 1]})
a, b = f(xr.DataArray([-55.0, -55.0], **t), xr.DataArray([-45.0, -52.0], **t), xr.DataArray([1, 1], **t), xr.DataArray([-50.0, -50.0], **t))
assert list(b.values) == [-50, -52], b
''', "a wet interval whose maximum lies above the reference level", "the corrected maximum exceeds the reference level")

seed("s54", "C19", [(IP, "            n_closest_points=self.n_closest_points,\n            backend=self.backend,\n", "            n_closest_points=self.n_closest_points,\n")], '''
import numpy as np
from pycomlink.spatial.interpolator import OrdinaryKrigingInterpolator as K
x = np.array([0.0, 1.0, 2.0, 3.0, 0.5]); y = np.array([0.0, 2.0, 1.0, 3.0, 2.5]); z = np.array([1.0, 2.0, 3.0, 4.0, 5.0])
xg, yg = np.meshgrid(np.arange(3.0) + 0.3, np.arange(3.0) + 0.2)
r = K(n_closest_points=3)(x, y, z, xgrid=xg, ygrid=yg)
assert r.shape == (3, 3), r
''', "a limit on the number of points used", "kriging fails for its default backend")

seed("s55", "C02", [(IDW, "            self.distances, self.ix = self.tree.query(\n                q,", "            self.nnear = nnear\n            self.eps = eps\n            self.distances, self.ix = self.tree.query(\n                q,"), (IDW, "            self.q = q.copy()\n            self.nnear = nnear\n            self.eps = eps\n", "            self.q = q.copy()\n")], '''
import numpy as np
from pycomlink.spatial.idw import Invdisttree
X, z = np.array([[0.0, 0.0], [1.0, 0.0], [5.0, 0.0], [9.0, 0.0]]), np.array([1.0, 2.0, 3.0, 4.0])
q = np.array([[0.4, 0.0]])
t = Invdisttree(X)
t(q, z, nnear=4)
try:
    t(np.zeros((1, 3)), z, nnear=2)
except ValueError:
    pass
a, b = t(q, z, nnear=2), Invdisttree(X)(q, z, nnear=2)
assert np.allclose(a, b), (a, b)
''', "a call that fails between two calls with the same query points", "the neighbours of the first call are used again")
