"""The coefficient tables are the published ones."""
import math
import terms as TT
from terms import walk
from interp import Unsupported
import core as C
TECHNIQUE = ("constant extraction by abstract interpretation of the coefficient lookup: the table values that reach "
             "the interpolation for each polarisation and approximation are compared with ITU-R P.838-3 evaluated "
             "from its regression coefficients and with the table of P.838-2")
MINIMUM = 300
F = "pycomlink.processing.k_R_relation.a_b"

KH = ([-5.33980, -0.35351, -0.23789, -0.94158], [-0.10008, 1.26970, 0.86036, 0.64552],
      [1.13098, 0.45400, 0.15354, 0.16817], -0.18961, 0.71147)
KV = ([-3.80595, -3.44965, -0.39902, 0.50167], [0.56934, -0.22911, 0.73042, 1.07319],
      [0.81061, 0.51059, 0.11899, 0.27195], -0.16398, 0.63297)
AH = ([-0.14318, 0.29591, 0.32177, -5.37610, 16.1721], [1.82442, 0.77564, 0.63773, -0.96230, -3.29980],
      [-0.55187, 0.19822, 0.13164, 1.47828, 3.43990], 0.67849, -1.95537)
AV = ([-0.07771, 0.56727, -0.20238, -48.2991, 48.5833], [2.33840, 0.95545, 1.14520, 0.791669, 0.791459],
      [-0.76284, 0.54039, 0.26809, 0.116226, 0.116479], -0.053739, 0.83433)
# P.838-2 (2003): frequency: k_H, k_V, alpha_H, alpha_V
P838_2 = {
    1: (3.87e-05, 3.52e-05, 0.912, 0.88),
    2: (0.0002, 0.0001, 0.963, 0.923),
    4: (0.0006, 0.0006, 1.121, 1.075),
    6: (0.0018, 0.0016, 1.308, 1.265),
    7: (0.003, 0.0026, 1.332, 1.312),
    8: (0.0045, 0.004, 1.327, 1.31),
    10: (0.0101, 0.0089, 1.276, 1.264),
    12: (0.0188, 0.0168, 1.217, 1.2),
    15: (0.0367, 0.0335, 1.154, 1.128),
    20: (0.0751, 0.0691, 1.099, 1.065),
    25: (0.124, 0.113, 1.061, 1.03),
    30: (0.187, 0.167, 1.021, 1.0),
    35: (0.263, 0.233, 0.979, 0.963),
    40: (0.35, 0.31, 0.939, 0.929),
    45: (0.442, 0.393, 0.903, 0.897),
    50: (0.536, 0.479, 0.873, 0.868),
    60: (0.707, 0.642, 0.826, 0.824),
    70: (0.851, 0.784, 0.793, 0.793),
    80: (0.975, 0.906, 0.769, 0.769),
    90: (1.06, 0.999, 0.753, 0.754),
    100: (1.12, 1.06, 0.743, 0.744),
}


def p838_3(tab, f, log):
    a, b, c, m, c0 = tab
    x = math.log10(f)
    s = sum(ai * math.exp(-((x - bi) / ci) ** 2) for ai, bi, ci in zip(a, b, c)) + m * x + c0
    return 10 ** s if log else s


def constants(t):
    if t.op == "idx" and t.args[0].op in ("list", "tuple") and t.args[1].op == "num":
        t = t.args[0].args[int(t.args[1].args[0])]
    if t.op in ("list", "tuple", "vec") and all(x.op == "num" for x in t.args):
        return [float(x.args[0]) for x in t.args]
    return None


def check(ck):
    r = ck.anchor(F)
    line = r[1].defs[r[2]].lineno
    for table in ("ITU_2005", "ITU_2003"):
        for pol in ("H", "V"):
            for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
                s.clear()
            rule = "published coefficients %s" % table
            try:
                o = ck.run(F, ["f_GHz"], dict(pol=pol, approx_type=table))
            except (Unsupported, RecursionError) as e:
                ck.undecided(rule, F, e)
                continue
            for i, name in ((0, "a"), (1, "b")):
                t = C.component(o.result, i)
                tabs = {x for x in walk(t) if x.op == "interp1d"}
                key = "%s %s %s" % (table, pol, name)
                if len(tabs) != 1:
                    ck.undecided(rule, key, "%d tables reach the result" % len(tabs))
                    continue
                d = dict(tabs.pop().args[0])
                xs, ys = constants(d["x"]), constants(d["y"])
                if xs is None or ys is None or len(xs) != len(ys):
                    ck.undecided(rule, key, "table values are not constants")
                    continue
                path, ln = o.I.origin.get(d["y"], (r[1].path, line))
                if any(p >= q for p, q in zip(xs, xs[1:])) or xs[0] != 1 or xs[-1] < 100:
                    ck.violation(rule, key + " frequencies", path, ln,
                                 "frequencies of the table do not increase from 1 to at least 100 GHz")
                compare(ck, rule, key, xs, ys, table, pol, name, path, ln)


def compare(ck, rule, key, xs, ys, table, pol, name, path, ln):
    for x, y in zip(xs, ys):
        if table == "ITU_2005":
            tab = {("H", "a"): KH, ("V", "a"): KV, ("H", "b"): AH, ("V", "b"): AV}[(pol, name)]
            want = p838_3(tab, x, name == "a")
            # half a unit of the last printed digit
            tol = abs(want) * (1.3e-3 if want < 1e-4 else 4e-4) if name == "a" else 1e-4
        else:
            row = P838_2.get(x)
            if row is None:
                ck.violation(rule, "%s at %g GHz" % (key, x), path, ln, "frequency is not in the table of P.838-2")
                continue
            want = row[{("H", "a"): 0, ("V", "a"): 1, ("H", "b"): 2, ("V", "b"): 3}[(pol, name)]]
            tol = 1e-9
        ck.count("table values")
        c = "%s at %g GHz" % (key, x)
        if abs(y - want) <= tol:
            ck.ok(rule, c)
        else:
            ck.violation(rule, c, path, ln, "coefficient is %r, published: %.7g" % (y, want))
    if table == "ITU_2003" and set(xs) != set(P838_2):
        ck.violation(rule, key + " frequencies", path, ln, "frequencies of P.838-2 are missing")
