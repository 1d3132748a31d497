"""Older error measures and their deprecation wrapper."""
import ast
import core

TECHNIQUE = ("value-graph congruence with the definitions; the wrapper is followed into the wrapped function")
MINIMUM = 3
V = "pycomlink.validation."


def check(ck):
    ck.load_spec("va")
    ck.real_decor = True            # the deprecation wrapper is part of what a caller gets
    F = V + "stats.calc_wet_error_rates"
    ck.anchor(F)
    n = 3 if ck.tier == "quick" else 4
    small = [dict(lens=dict(df_wet_truth=k, df_wet=k)) for k in range(1, n + 1)]
    ck.match_small("spec.va.error_rates_code", "spec.va.error_rates", "false and missed wet rate", small, construct=F + "[by position]")
    ck.match_small("spec.va.error_rates_keywords", "spec.va.error_rates", "false and missed wet rate", small, construct=F + "[by name]")
    G = V + "validator.calc_wet_dry_error"
    ck.anchor(G)
    ck.match_small("spec.va.wet_dry_error_code", "spec.va.wet_dry_error", "wet and dry error", small, construct=G)
    ck.match("spec.va.calc_stats_code", "spec.va.stats", "correlation at common times",
             construct=V + "validator.Validator.calc_stats")
    for code, f in (("error_rates_code", F), ("wet_dry_error_code", G)):
        try:
            o = ck.run("spec.va." + code)
        except (core.Unsupported, RecursionError) as e:
            ck.undecided("deprecation warning", f, str(e))
            continue
        w = [e for e in o.I.events if e.name in ("warnings.warn", "warnings.warn_explicit")]
        hidden = next((e for e in w if category(ck, e) is False), None)
        if hidden is not None:
            ck.violation("deprecation warning", f, hidden.path, hidden.line, "the warning is of a kind Python does not show by "
                         "default")
        elif w or any(not u.startswith("inspect.") and not u.startswith(".") for u in o.I.unknown):
            ck.ok("deprecation warning", f)
        else:
            path, line = ck.locate(core.mk("none"), core.mk("none"), o, f)
            ck.violation("deprecation warning", f, path, line, "the call gives no warning",
                         "no path through the deprecated function reaches warnings.warn")


QUIET = {"DeprecationWarning", "PendingDeprecationWarning", "ImportWarning", "ResourceWarning"}


def category(ck, e):
    """is the category of this warning shown by default (None: not known)"""
    call = e.node
    if not isinstance(call, ast.Call):
        return None
    c = next((k.value for k in call.keywords if k.arg == "category"), call.args[1] if len(call.args) > 1 else None)
    if not isinstance(c, (ast.Name, ast.Attribute)):
        return None
    for _ in range(5):
        name = c.id if isinstance(c, ast.Name) else c.attr
        mod = e.mod
        d = mod.defs.get(name)
        if d is None:
            return name not in QUIET if name.endswith("Warning") else None
        if not isinstance(d, ast.ClassDef) or len(d.bases) != 1 or not isinstance(d.bases[0], (ast.Name, ast.Attribute)):
            return None
        c = d.bases[0]
    return None
