"""The caller's data are never modified."""
import ast
import core
import history as H
import terms as TT
TECHNIQUE = ("interprocedural effect and alias analysis: every write (element, slice, attribute, in-place operator, "
             "in-place method, out= argument) is traced to the storage it may reach")
MINIMUM = 60
RULE = "no write reaches storage of the caller"


def check(ck):
    ck.assumptions = ["the alias behaviour of numpy/xarray/pandas operations modelled in sa/models.py (views, copies)",
                      "operations without a model do not modify their arguments"]
    for mn, mod in sorted(ck.prog.modules.items()):
        for name, st in sorted(mod.defs.items(), key=lambda x: x[0]):
            if isinstance(st, ast.FunctionDef) and (not name.startswith("_") or entry(mod, name)):
                function(ck, mn + "." + name)
            elif isinstance(st, ast.ClassDef):
                klass(ck, mn + "." + name, st)


def entry(mod, name):
    """a private function of a module that offers nothing else: what users of the module call"""
    fns = [n for n, x in mod.defs.items() if isinstance(x, (ast.FunctionDef, ast.ClassDef))]
    used = {n.id for n in ast.walk(mod.tree) if isinstance(n, ast.Name)}
    return all(n.startswith("_") for n in fns) and name not in used


def report(ck, where, names, effects, shared=()):
    bad = []
    for e in effects:
        root = e.root.rstrip("*").split(".")
        base = root[0]
        if e.kind == "write" and base in names:
            bad.append((e, base))
        elif e.kind == "write" and e.root.startswith("self.") and e.root.rstrip("*")[5:] in shared:
            bad.append((e, shared[e.root.rstrip("*")[5:]]))
    ck.count("functions", 1)
    ck.count("parameters", len(names))
    ck.count("writes traced", len(effects))
    if not bad:
        return ck.ok(RULE, where, "parameters: %s" % ", ".join(names))
    seen = set()
    for e, p in bad:
        if p in seen:
            continue
        seen.add(p)
        ck.violation(RULE, "%s(%s)" % (where, p), e.path, e.line,
                     "%s writes into the caller's `%s`" % (e.how, p),
                     "call chain: " + " > ".join("%s.%s" % q if isinstance(q, tuple) else str(q) for q in e.stack))


def function(ck, dotted):
    TT.SCALARS.clear()
    try:
        o = ck.run(dotted)
    except core.AnalysisError:
        return
    except (core.Unsupported, RecursionError) as e:
        return ck.undecided(RULE, dotted, e)
    fn = o.I.get(dotted).data
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    report(ck, dotted, names, o.I.effects)


def klass(ck, dotted, node):
    runs, shared = [], {}
    for m in node.body:
        if not isinstance(m, ast.FunctionDef):
            continue
        if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") for d in m.decorator_list) \
                or not m.args.args or m.args.args[0].arg != "self":
            continue
        TT.SCALARS.clear()
        try:
            I, r, fields, names, _ = H.run_method(ck, dotted, m.name)
        except (core.Unsupported, RecursionError) as e:
            ck.undecided(RULE, dotted + "." + m.name, e)
            continue
        for f, v in fields.items():
            for x in I.vroots(v):
                if x.split(".")[0].rstrip("*") in names:
                    shared[f] = x.split(".")[0].rstrip("*")
        runs.append((m.name, names, I.effects))
    for name, names, eff in runs:
        report(ck, dotted + "." + name, names, eff, shared)
