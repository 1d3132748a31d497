KR = "pycomlink/processing/k_R_relation.py"
BL = "pycomlink/processing/baseline.py"
BG = "pycomlink/processing/blackout_gap_detection.py"
WA = "pycomlink/processing/wet_antenna.py"

seed("s01", "C03", [(KR, "        R[~nan_index & (R < R_min)] = 0\n", "        R[~nan_index & (R <= R_min)] = 0\n")], '''
import numpy as np
import pycomlink.processing.k_R_relation as kr
A = np.array([0.0, 1.0, 2.0, np.nan])
R = kr.calc_R_from_A(A, L_km=2.0, a=0.5, b=1.0, R_min=1.0)
assert R[0] == 0 and R[1] == 1.0 and R[2] == 2.0 and np.isnan(R[3]), R
''', "a rain rate that equals the minimum rain rate exactly", "rain rates at the minimum are set to zero")

seed("s02", "C03", [(KR, "    a_max = a * (np.log(k) + euler_gamma) ** b\n",
                     "    a_max = a * (np.log(k) + euler_gamma ** b)\n")], '''
import numpy as np
import pycomlink.processing.k_R_relation as kr
A = np.array([4.0])
for b in (1.0, 0.8):
    R = kr.calc_R_from_A_min_max(A, L=5.0, a=0.1, b=b, R_min=0.0, k=90)
    want = (4.0 / (0.1 * (np.log(90) + 0.57721566) ** b * 5.0)) ** (1 / b)
    assert np.allclose(R, want), (b, R, want)
''', "the min/max retrieval with b different from 1", "rain rate of min/max data is biased")

seed("s03", "C06", [(KR, "    pol_mask_h = np.isin(pol, pol_h_str_variants)\n",
                     "    pol_mask_h = np.isin(pol, pol_h_str_variants[:2])\n")], '''
import numpy as np
import pycomlink.processing.k_R_relation as kr
a, b = kr.a_b(np.array([20.0, 20.0]), pol=np.array(["H", "horizontal"]))
assert np.allclose(a[0], a[1]) and np.allclose(b[0], b[1]), (a, b)
''', "polarisation given as the full word 'horizontal'", "a and b are NaN for an accepted spelling")

seed("s04", "C10", [(BL, "np.mean(baseline[(i - n_average_last_dry) : i])",
                     "np.mean(trsl[(i - n_average_last_dry) : i])")], '''
import numpy as np
from pycomlink.processing.baseline import baseline_constant
trsl = np.array([1.0, 1.0, 5.0, 1.0, 7.0, 7.0])
wet = np.array([0, 0, 1, 0, 1, 1], dtype=bool)
b = baseline_constant(trsl, wet, n_average_last_dry=2)
assert np.allclose(b, [1, 1, 1, 1, 1, 1]), b
''', "averaging of more than one value and a second wet event right after the first",
     "level during the second event is taken from the wet signal of the first")

seed("s05", "C11", [(BL, """            found_nan = False
            last_i_is_wet = False
            last_dry_i = i
            last_dry_rsl = rsl_i
        # within a dry period
""", """            last_i_is_wet = False
            last_dry_i = i
            last_dry_rsl = rsl_i
        # within a dry period
""")], '''
import numpy as np
from pycomlink.processing.baseline import baseline_linear
rsl = np.array([1.0, 5.0, 5.0, 2.0, 3.0, 3.0, 3.0])
wet = np.array([0, 1, np.nan, 0, 0, 0, 0])
b = baseline_linear(rsl, wet)
assert np.isnan(b[:4]).all() and np.allclose(b[4:], [3, 3, 3]), b
''', "a missing state within a wet period followed by another dry sample",
     "the gap of one period leaks into the baseline after it")

KR = "pycomlink/processing/k_R_relation.py"
BL = "pycomlink/processing/baseline.py"
BG = "pycomlink/processing/blackout_gap_detection.py"
WA = "pycomlink/processing/wet_antenna.py"

seed("s01", "C03", [(KR, "        R[~nan_index & (R < R_min)] = 0\n", "        R[~nan_index & (R <= R_min)] = 0\n")], '''
import numpy as np
import pycomlink.processing.k_R_relation as kr
A = np.array([0.0, 1.0, 2.0, np.nan])
R = kr.calc_R_from_A(A, L_km=2.0, a=0.5, b=1.0, R_min=1.0)
assert R[0] == 0 and R[1] == 1.0 and R[2] == 2.0 and np.isnan(R[3]), R
''', "a rain rate that equals the minimum rain rate exactly", "rain rates at the minimum are set to zero")

seed("s02", "C03", [(KR, "    a_max = a * (np.log(k) + euler_gamma) ** b\n",
                     "    a_max = a * (np.log(k) + euler_gamma ** b)\n")], '''
import numpy as np
import pycomlink.processing.k_R_relation as kr
A = np.array([4.0])
for b in (1.0, 0.8):
    R = kr.calc_R_from_A_min_max(A, L=5.0, a=0.1, b=b, R_min=0.0, k=90)
    want = (4.0 / (0.1 * (np.log(90) + 0.57721566) ** b * 5.0)) ** (1 / b)
    assert np.allclose(R, want), (b, R, want)
''', "the min/max retrieval with b different from 1", "rain rate of min/max data is biased")

seed("s03", "C06", [(KR, "    pol_mask_h = np.isin(pol, pol_h_str_variants)\n",
                     "    pol_mask_h = np.isin(pol, pol_h_str_variants[:2])\n")], '''
import numpy as np
import pycomlink.processing.k_R_relation as kr
a, b = kr.a_b(np.array([20.0, 20.0]), pol=np.array(["H", "horizontal"]))
assert np.allclose(a[0], a[1]) and np.allclose(b[0], b[1]), (a, b)
''', "polarisation given as the full word 'horizontal'", "a and b are NaN for an accepted spelling")

seed("s04", "C10", [(BL, "np.mean(baseline[(i - n_average_last_dry) : i])",
                     "np.mean(trsl[(i - n_average_last_dry) : i])")], '''
import numpy as np
from pycomlink.processing.baseline import baseline_constant
trsl = np.array([1.0, 1.0, 5.0, 1.0, 7.0, 7.0])
wet = np.array([0, 0, 1, 0, 1, 1], dtype=bool)
b = baseline_constant(trsl, wet, n_average_last_dry=2)
assert np.allclose(b, [1, 1, 1, 1, 1, 1]), b
''', "averaging of more than one value and a second wet event right after the first",
     "level during the second event is taken from the wet signal of the first")

seed("s05", "C11", [(BL, """            found_nan = False
            last_i_is_wet = False
            last_dry_i = i
            last_dry_rsl = rsl_i
        # within a dry period
""", """            last_i_is_wet = False
            last_dry_i = i
            last_dry_rsl = rsl_i
        # within a dry period
""")], '''
import numpy as np
from pycomlink.processing.baseline import baseline_linear
rsl = np.array([1.0, 5.0, 5.0, 2.0, 3.0, 3.0, 3.0])
wet = np.array([0, 1, np.nan, 0, 0, 0, 0])
b = baseline_linear(rsl, wet)
assert np.isnan(b[:4]).all() and np.allclose(b[4:], [3, 3, 3]), b
''', "a missing state within a wet period followed by another dry sample",
     "the gap of one period leaks into the baseline after it")

seed("s06", "C12", [(BG, "    previous_is_nan[:1] = False\n", "    previous_is_nan[-1:] = False\n")], '''
import numpy as np
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end
rsl = np.array([-80.0, -50.0, -50.0, np.nan])
s, e = get_blackout_start_and_end(rsl, -70)
assert not e.any() and not s.any(), (s, e)
rsl = np.array([-50.0, -75.0, np.nan, -75.0])
s, e = get_blackout_start_and_end(rsl, -70)
assert list(s) == [False, True, False, False] and list(e) == [False, False, False, True], (s, e)
''', "a series that starts with a low level and ends with a missing value, or ends with the end of a gap",
     "first and last sample are treated as neighbours and the last end marker is lost")
