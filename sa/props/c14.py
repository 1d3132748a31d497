"""Nearby link wet-dry classification."""
import core
import terms as TT
TECHNIQUE = ("value-graph congruence with the nearby link algorithm, summarising the loop over links; whole-graph rule for "
             "the values shifted in at the ends of the series")
MINIMUM = 2
F = "pycomlink.processing.wet_dry.nearby_wetdry.nearby_wetdry"
OPT = ["radius", "thresh_median_P", "thresh_median_PL", "min_links", "interval", "timeperiod", "min_hours"]


def check(ck):
    ck.load_spec("nb")
    ck.match_any(F, ["spec.nb.wetdry", "spec.nb.wetdry_filled"], "classification and F score", scalars=OPT)
    ck.defaults(F, dict(radius=15, thresh_median_P=-1.4, thresh_median_PL=-0.7, min_links=3, interval=15,
                        timeperiod=24, min_hours=6))
    edges(ck)


def edges(ck):
    """what a shift brings in at the ends of the series is no rain event"""
    rule = "no wet time step is invented at the ends of the series"
    TT.SCALARS.clear()
    try:
        o = ck.run(F, scalars=OPT)
    except core.Unsupported as e:
        return ck.undecided(rule, F, e)
    bad = []
    for t in core.walk(o.result):
        if t.op == "meth" and t.args[1] == "shift" and TT.is_bool(t.args[0]):
            fill = dict(t.args[3]).get("fill_value")
            if fill is None or fill is TT.NAN or fill is TT.TRUE:
                bad.append(t)
    if not bad:
        return ck.ok(rule, F)
    path, line = next((o.I.origin[t] for t in bad if t in o.I.origin), (ck.anchor(F)[1].path, 0))
    ck.violation(rule, F, path, line, "a shifted condition without fill_value=False: the missing values shifted in "
                 "count as true, the first and the last two time steps become wet")
