"""The interface: imports, names and signatures."""
import ast
import builtins
import json
import os
import symtable
import sys
import core
TECHNIQUE = ("import graph, name resolution against the package and the interfaces of the installed libraries, and comparison of "
             "every public signature with the documented one")
MINIMUM = 150
AVAILABLE = ["processing.baseline", "processing.wet_antenna", "processing.wet_dry", "processing.anomaly_detection", "io.examples",
             "spatial.idw", "spatial.interpolator", "spatial.coverage", "validation.validator", "validation.stats",
             "util.temporal", "util.maintenance"]
AVAIL = "available after `import pycomlink`"
FIELDS = "order of the fields of a result tuple"
TUPLES = {
    "pycomlink.validation.stats.WetDryError": (
        "false_wet_rate missed_wet_rate matthews_correlation true_wet_rate true_dry_rate N_dry_reference N_wet_reference "
        "N_true_wet N_true_dry N_false_wet N_missed_wet N_all_pairs N_nan_pairs N_nan_reference_only N_nan_predicted_only"),
    "pycomlink.validation.stats.RainError": (
        "pearson_correlation coefficient_of_variation root_mean_square_error mean_absolute_error R_sum_reference "
        "R_sum_predicted R_mean_reference R_mean_predicted false_wet_rate missed_wet_rate false_wet_precipitation_rate "
        "missed_wet_precipitation_rate rainfall_threshold_wet N_all_pairs N_nan_pairs N_nan_reference_only "
        "N_nan_predicted_only"),
    "pycomlink.validation.stats.WetError": "false missed",
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REQUIRED = {"numpy", "scipy", "pandas", "matplotlib", "numba", "h5py", "xarray", "sparse", "netCDF4", "shapely", "pyproj", "tqdm",
            "pykrige", "sklearn", "future", "bottleneck", "poligrain", "pycomlink", "past", "builtins", "__future__"}
OPTIONAL = {"pycomlink.processing.pytorch_utils": {"torch"}, "pycomlink.processing.tensorflow_utils": set()}
IMPORT = "importable with the required dependencies"
NAME = "every name resolves"
BEFORE = "names are assigned before they are used"
EXT = "library interfaces exist"
SIG = "documented signature"


def check(ck):
    ck.assumptions = ["library interfaces as installed here (sa/data/api.json)"]
    with open(os.path.join(HERE, "data", "api.json")) as fh:
        api = json.load(fh)
    with open(os.path.join(HERE, "data", "signatures.json")) as fh:
        sigs = json.load(fh)
    with open(os.path.join(HERE, "data", "required.json")) as fh:
        api["required"] = json.load(fh)
    graph = {}
    for mn, mod in sorted(ck.prog.modules.items()):
        graph[mn] = imports(ck, mn, mod)
    closure(ck, graph)
    for mn, mod in sorted(ck.prog.modules.items()):
        names(ck, mn, mod)
        external(ck, mn, mod, api)
        assigned(ck, mn, mod)
    available(ck, graph)
    for f, want in sorted(TUPLES.items()):
        fields(ck, f, want.split())
    for f, want in sorted(sigs.items()):
        signature(ck, f, want)


# -------------------------------------------------------------------- imports
def guarded(n):
    """inside a function, a condition or a try that handles the ImportError"""
    p, c = getattr(n, "_parent", None), n
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.If)):
            return True
        if isinstance(p, ast.Try) and c in p.body and p.handlers:
            return True
        p, c = getattr(p, "_parent", None), p
    return False


def imports(ck, mn, mod):
    out = []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out.append((a.name, n, guarded(n)))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out.append((ck.prog.import_target(mod, (n, a)), n, guarded(n)))
    return out


def closure(ck, graph):
    pk = ck.prog.modules

    def inner(d):
        while d and d not in pk:
            d = d.rpartition(".")[0]
        return d

    for start in sorted(pk):
        allowed = set(REQUIRED)
        for p, extra in OPTIONAL.items():
            if start == p or start.startswith(p + "."):
                allowed |= extra
        seen, stack, bad = set(), [(start, (start,))], None
        while stack:
            m, via = stack.pop()
            if m in seen:
                continue
            seen.add(m)
            ps = m.split(".")
            for i in range(1, len(ps)):
                q = ".".join(ps[:i])
                if q in pk and q not in seen:
                    stack.append((q, via + (q,)))
            for d, n, g in graph[m]:
                if g:
                    continue
                root = d.split(".")[0]
                if root == "pycomlink":
                    q = inner(d)
                    need = next((x for p, e in OPTIONAL.items() for x in e if q and (q + ".").startswith(p + ".")
                                 and x not in allowed), None)
                    if need:
                        bad = bad or (m, n, need, via)
                    elif q:
                        stack.append((q, via + (q,)))
                elif root not in allowed and root not in sys.stdlib_module_names:
                    bad = bad or (m, n, root, via)
        ck.count("modules")
        if bad:
            m, n, root, via = bad
            ck.violation(IMPORT, start, pk[m].path, n.lineno, "importing %s needs `%s`, which is not a required dependency" % (start, root),
                         "imported via " + " > ".join(via))
        else:
            ck.ok(IMPORT, start, "%d modules imported" % len(seen))


def available(ck, graph):
    pk = ck.prog.modules
    seen, stack = set(), ["pycomlink"]
    lazy = False
    while stack:
        m = stack.pop()
        if m in seen:
            continue
        seen.add(m)
        if m.rpartition(".")[0] in pk:
            stack.append(m.rpartition(".")[0])
        if pk[m].path.endswith("__init__.py"):
            lazy = lazy or "__getattr__" in pk[m].defs or "import_module" in pk[m].src
        for d, n, g in graph[m]:
            g = g and not isinstance(getattr(n, "_parent", None), ast.Try)
            while d and d not in pk:
                d = d.rpartition(".")[0]
            if d and not g:
                stack.append(d)
    for a in AVAILABLE:
        q = "pycomlink." + a
        if q in seen:
            ck.ok(AVAIL, q)
        elif q not in pk or lazy:
            ck.undecided(AVAIL, q, "no module of this name, or imported on demand")
        else:
            p = pk.get(q.rpartition(".")[0], pk["pycomlink"])
            ck.violation(AVAIL, q, p.path, 1, "`import pycomlink` does not import %s any more" % q)


def fields(ck, dotted, want):
    I = ck.interp()
    try:
        c = I.get(dotted)
    except (core.Unsupported, core.AnalysisError, RecursionError) as e:
        return ck.undecided(FIELDS, dotted, e)
    got = list(c.data.fields or ()) if c.kind == "class" else []
    r = ck.prog.resolve(dotted)
    if not got or r[0] != "def":
        return ck.undecided(FIELDS, dotted, "not a named tuple of known fields")
    if got == want or got[:len(want)] == want:
        return ck.ok(FIELDS, dotted, ", ".join(got))
    i = next(i for i, w in enumerate(want) if got[i:i + 1] != [w])
    ck.violation(FIELDS, dotted, r[1].path, getattr(r[1].defs[r[2]], "lineno", 1), "field %d is %s instead of `%s`" % (
        i + 1, "`%s`" % got[i] if i < len(got) else "missing", want[i]))


# ---------------------------------------------------------------------- names
def names(ck, mn, mod):
    bad = []
    n_names = 0
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(mod.tree))
    if not star:
        known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__all__", "__loader__"}
        try:
            top = symtable.symtable(mod.src, mod.path, "exec")
        except SyntaxError:
            return ck.undecided(NAME, mn, "symbol table")
        defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | set(mod.defs)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                defined |= set(n.names)

        def visit(t):
            nonlocal n_names
            for s in t.get_symbols():
                if s.is_referenced():
                    n_names += 1
                    if (s.is_global() or t is top) and not (s.is_assigned() or s.is_imported()) and \
                            s.get_name() not in defined and s.get_name() not in known:
                        bad.append((s.get_name(), t.get_lineno(), t.get_name()))
            for c in t.get_children():
                visit(c)
        visit(top)
    seen = set()
    for name, line, where in bad:
        if name in seen:
            continue
        seen.add(name)
        at = [x.lineno for x in ast.walk(mod.tree) if isinstance(x, ast.Name) and x.id == name]
        ck.violation(NAME, mn + ":" + name, mod.path, min([x for x in at if x >= line] or at or [line]), "`%s` is not defined" % name)
    # names of the package
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                d = ck.prog.import_target(mod, (n, a))
                if d.split(".")[0] == "pycomlink" and a.name != "*":
                    n_names += 1
                    r = ck.prog.resolve(d)
                    if r[0] == "ext" and r[1] == d:
                        bad.append(d)
                        ck.violation(NAME, mn + ":" + d, mod.path, n.lineno, "%s does not exist" % d)
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "pycomlink":
                    n_names += 1
                    if a.name not in ck.prog.modules:
                        bad.append(a.name)
                        ck.violation(NAME, mn + ":" + a.name, mod.path, n.lineno, "module %s does not exist" % a.name)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            d = dotted(ck, mod, n)
            if d and d.split(".")[0] == "pycomlink":
                base, name = d.rsplit(".", 1)
                r = ck.prog.resolve(base)
                if r[0] == "mod":
                    m = ck.prog.modules[r[1]]
                    n_names += 1
                    if name not in m.defs and base + "." + name not in ck.prog.modules and not name.startswith("__") \
                            and ck.prog.resolve(d)[0] == "ext":
                        bad.append(d)
                        ck.violation(NAME, mn + ":" + d, mod.path, n.lineno, "%s does not exist" % d)
    ck.count("names", n_names)
    if not bad:
        ck.ok(NAME, mn, "%d names" % n_names)


def local(n, name):
    """binding of name in the functions around n: None, "" (a value) or the dotted import"""
    f = getattr(n, "_parent", None)
    while f is not None:
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            a = f.args
            if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]:
                return ""
            for s in ast.walk(f):
                if isinstance(s, ast.Import):
                    for al in s.names:
                        if (al.asname or al.name.split(".")[0]) == name:
                            return al.name if al.asname else al.name.split(".")[0]
                elif isinstance(s, ast.ImportFrom):
                    for al in s.names:
                        if (al.asname or al.name) == name:
                            return "" if s.level else (s.module or "") + "." + al.name
                elif isinstance(s, ast.Name) and s.id == name and isinstance(s.ctx, ast.Store):
                    return ""
        f = getattr(f, "_parent", None)
    return None


def dotted(ck, mod, n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    loc = local(n, n.id)
    if loc is not None:
        return ".".join([loc] + parts[::-1]) if loc else None
    e = mod.defs.get(n.id)
    if not isinstance(e, tuple):
        return None
    if stores(mod, n.id) > 1:
        return None
    return ".".join([ck.prog.import_target(mod, e)] + parts[::-1])


def stores(mod, name):
    k = 0
    for st in mod.order:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            k += 2
        elif isinstance(st, ast.Import):
            k += any((a.asname or a.name.split(".")[0]) == name and (a.asname or "." not in a.name or True) for a in st.names)
        elif isinstance(st, ast.ImportFrom):
            k += any((a.asname or a.name) == name for a in st.names)
    return k if k != 1 else 1


def guarded_use(n):
    """hasattr / AttributeError protection"""
    p, c = getattr(n, "_parent", None), n
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body and p.handlers:
            return True
        if isinstance(p, (ast.If, ast.IfExp)) and "hasattr" in ast.dump(p.test):
            return True
        p, c = getattr(p, "_parent", None), p
    return False


def external(ck, mn, mod, api):
    bad, k = 0, 0
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                if n.module in api and a.name != "*":
                    k += 1
                    if a.name not in api[n.module] and n.module + "." + a.name not in api and not guarded_use(n):
                        bad += 1
                        ck.violation(EXT, "%s:%s.%s" % (mn, n.module, a.name), mod.path, n.lineno,
                                     "%s has no %s" % (n.module, a.name))
        elif isinstance(n, ast.Attribute):
            if isinstance(getattr(n, "_parent", None), ast.Attribute) and n._parent.value is n:
                pass
            d = dotted(ck, mod, n)
            if not d:
                continue
            base, name = d.rsplit(".", 1)
            if base in api:
                k += 1
                if name not in api[base] and d not in api and not guarded_use(n) and not isinstance(n.ctx, ast.Store):
                    bad += 1
                    ck.violation(EXT, "%s:%s" % (mn, d), mod.path, n.lineno, "%s has no %s" % (base, name))
        elif isinstance(n, ast.Call):
            d = dotted(ck, mod, n.func) if not isinstance(n.func, ast.Name) else callee(ck, mod, n.func)
            if not d or "." not in d:
                continue
            base, name = d.rsplit(".", 1)
            ps = api.get(base, {}).get(name)
            if not isinstance(ps, list) or any(kw.arg is None for kw in n.keywords):
                continue
            k += 1
            miss = [kw.arg for kw in n.keywords if kw.arg not in ps]
            if miss:
                bad += 1
                ck.violation(EXT, "%s:%s(%s)" % (mn, d, miss[0]), mod.path, n.lineno, "%s has no parameter %s" % (d, miss[0]))
            elif ps[:1] != ["*"] and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) > len(ps):
                bad += 1
                ck.violation(EXT, "%s:%s" % (mn, d), mod.path, n.lineno, "%s takes at most %d arguments" % (d, len(ps)))
            elif not any(isinstance(a, ast.Starred) for a in n.args):
                given = set(ps[:len(n.args)]) | {kw.arg for kw in n.keywords}
                miss = [p for p, _ in api["required"].get(d, ()) if p not in given] if ps[:1] != ["*"] else []
                if miss:
                    bad += 1
                    ck.violation(EXT, "%s:%s(%s)" % (mn, d, miss[0]), mod.path, n.lineno, "%s needs %s" % (d, ", ".join(miss)))
    ck.count("library references", k)
    if not bad:
        ck.ok(EXT, mn, "%d references" % k)


# ------------------------------------------------------- assigned before use
def bound(t):
    """names a statement, expression or pattern binds, its functions and comprehensions excluded"""
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out.update(x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr))
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name.split(".")[0]) for a in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            go(c)
    go(t)
    return out


class Unbound:
    """local names that no path to a use assigns; in a loop body what is read unconditionally is read in the first iteration"""
    def __init__(self, fn):
        a = fn.args
        self.par = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.loc = set()
        other = set()
        for st in fn.body:
            self.loc |= bound(st)
            for n in ast.walk(st):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    other |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    other |= {y for x in ast.walk(n) if isinstance(x, ast.Nonlocal) for y in x.names}
        self.loc -= other | self.par
        self.bad = []
        self.maybe = set()
        self.first = None        # what is assigned if this is the first iteration, None: not known to be reached in it
        self.block(fn.body)

    def use(self, n):
        """reads of an expression, those of nested scopes excluded (they may run later)"""
        if n is None or isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.use(n.generators[0].iter)
            return
        if isinstance(n, ast.NamedExpr):
            self.use(n.value)
            self.bind({n.target.id})
            return
        if isinstance(n, (ast.BoolOp, ast.IfExp)):
            f, h = self.first, self.first
            self.use(n.values[0] if isinstance(n, ast.BoolOp) else n.test)
            h, self.first = self.first, None
            for c in n.values[1:] if isinstance(n, ast.BoolOp) else (n.body, n.orelse):
                self.use(c)
            self.first = h
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.loc and (
                n.id not in self.maybe or self.first is not None and n.id not in self.first):
            self.bad.append((n.id, n.lineno))
            self.bind({n.id})
        for c in ast.iter_child_nodes(n):
            self.use(c)

    def bind(self, names):
        self.maybe = self.maybe | names
        if self.first is not None:
            self.first = self.first | names

    def block(self, body):
        for st in body:
            self.stmt(st)

    def cond(self, *bodies):
        """bodies of which any may run"""
        m, f = self.maybe, self.first
        out, leave = set(m), False
        self.first = None
        for b in bodies:
            self.maybe = m
            self.block(b)
            out |= self.maybe
        self.maybe = out
        for b in bodies:
            for x in b:
                leave = leave or any(isinstance(y, (ast.Break, ast.Continue, ast.Return, ast.Raise)) for y in ast.walk(x))
        self.first = None if f is None or leave else f | out

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.bind({st.name})
        elif isinstance(st, ast.If):
            self.use(st.test)
            self.cond(st.body, st.orelse)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            f = self.first
            if isinstance(st, ast.While):
                self.use(st.test)
            else:
                self.use(st.iter)
            m, h = self.maybe, self.first
            inside = set().union(*[bound(x) for x in st.body]) if st.body else set()
            if not isinstance(st, ast.While):
                self.bind(bound(st.target))
            self.first = set(self.maybe)
            self.maybe = self.maybe | inside
            self.block(st.body)
            self.maybe = self.maybe | m
            self.first = None if h is None else h | self.maybe
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.use(i.context_expr)
                if i.optional_vars is not None:
                    self.use(i.optional_vars)
                    self.bind(bound(i.optional_vars))
            self.block(st.body)
        elif isinstance(st, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            n, f = len(self.bad), self.first
            if st.handlers:
                self.first = None
            self.block(st.body)
            if st.handlers:
                del self.bad[n:]          # may be handled
                self.first = None if f is None else f | self.maybe
            self.cond(*[h.body for h in st.handlers if not self.bind({h.name} if h.name else set())], st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Match):
            self.use(st.subject)
            for c in st.cases:
                self.bind(bound(c.pattern))
            self.cond(*[c.body for c in st.cases])
        elif isinstance(st, ast.Assert):
            self.use(st.test)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(st.target.id, ast.Load()), st))
            else:
                self.use(st.target)
            self.use(st.value)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                self.use(t)
        else:
            for c in ast.iter_child_nodes(st):
                self.use(c)
            self.bind(bound(st))


def assigned(ck, mn, mod):
    k, bad = 0, 0
    for fn in ast.walk(mod.tree):
        if isinstance(fn, ast.FunctionDef):
            u = Unbound(fn)
            k += len(u.loc)
            for name, line in u.bad:
                bad += 1
                ck.violation(BEFORE, "%s.%s:%s" % (mn, fn.name, name), mod.path, line, "`%s` is used before it is assigned" % name)
    if k and not bad:
        ck.ok(BEFORE, mn, "%d local names" % k)


def callee(ck, mod, n):
    loc = local(n, n.id)
    if loc is not None:
        return loc or None
    e = mod.defs.get(n.id)
    return ck.prog.import_target(mod, e) if isinstance(e, tuple) and stores(mod, n.id) <= 1 else None


# ----------------------------------------------------------------- signatures
def params(node, method=False):
    a = node.args
    pos = a.posonlyargs + a.args
    if method:
        pos = pos[1:]
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults[-len(pos):] if pos else [])) if a.defaults else {}
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return [x.arg for x in pos], [x.arg for x in a.kwonlyargs], d, bool(a.vararg), bool(a.kwarg)


def value(mod, n, depth=0):
    """literal value of a default, ("?", text) if it is not one"""
    try:
        return ast.literal_eval(n)
    except (ValueError, TypeError, SyntaxError):
        pass
    if isinstance(n, ast.Name) and depth < 4:
        e = mod.defs.get(n.id)
        if isinstance(e, ast.Assign):
            return value(mod, e.value, depth + 1)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add, ast.Sub, ast.Div, ast.Pow)):
        x, y = value(mod, n.left, depth + 1), value(mod, n.right, depth + 1)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                return {ast.Mult: lambda: x * y, ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Div: lambda: x / y,
                        ast.Pow: lambda: x ** y}[type(n.op)]()
            except (ZeroDivisionError, OverflowError):
                pass
    return ("?", ast.unparse(n))


def find(ck, f):
    """definition of a public function or Class.method (inherited too)"""
    r = ck.prog.resolve(f)
    if r[0] == "def":
        return r[1], r[1].defs[r[2]], False
    base, name = f.rsplit(".", 1)
    r = ck.prog.resolve(base)
    seen = 0
    while r[0] == "def" and isinstance(r[1].defs[r[2]], ast.ClassDef) and seen < 6:
        seen += 1
        c = r[1].defs[r[2]]
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m.name == name:
                return r[1], m, not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)
        nxt = None
        for b in c.bases:
            if isinstance(b, ast.Name):
                nxt = ck.prog.resolve(r[1].name + "." + b.id)
                break
        if nxt is None:
            break
        r = nxt
    return None


def signature(ck, f, want):
    got = find(ck, f)
    if got is None:
        base = f
        while base and ck.prog.resolve(base)[0] == "ext":
            base = base.rpartition(".")[0]
        m = ck.prog.modules.get(base)
        r = ck.prog.resolve(base) if base else ("ext",)
        path = m.path if m else (r[1].path if r[0] == "def" else "")
        return ck.violation(SIG, f, path, 1, "%s does not exist any more" % f)
    mod, node, method = got
    if not isinstance(node, ast.FunctionDef):
        return ck.undecided(SIG, f, "not a plain function")
    pos, kwonly, d, va, kw = params(node, method)
    wpos = [p for p, _ in want]
    if va and kw:
        return ck.undecided(SIG, f, "takes arbitrary arguments")
    if pos[:len(wpos)] != wpos:
        i = next((i for i, p in enumerate(wpos) if i >= len(pos) or pos[i] != p), 0)
        return ck.violation(SIG, f, mod.path, node.lineno, "parameter %d is %s instead of `%s`" % (
            i + 1, "`%s`" % pos[i] if i < len(pos) else "missing", wpos[i]))
    for p in pos[len(wpos):] + kwonly:
        if p not in d:
            return ck.violation(SIG, f, mod.path, node.lineno, "new parameter `%s` without default" % p)
    for p, w in want:
        if w is None:
            if p in d:
                continue      # a default more breaks no call
            continue
        if p not in d:
            return ck.violation(SIG, f, mod.path, node.lineno, "`%s` has no default any more" % p)
        g = value(mod, d[p])
        w = w[0]
        if isinstance(w, list):
            w = tuple(w)
        if isinstance(g, list):
            g = tuple(g)
        if isinstance(g, tuple) and g[:1] == ("?",) or isinstance(w, tuple) and w[:1] == ("?",):
            if g != w:
                return ck.undecided(SIG, f, "default of `%s`" % p)
        elif g != w or isinstance(g, bool) != isinstance(w, bool):
            return ck.violation(SIG, f, mod.path, node.lineno, "the default of `%s` is %r instead of %r" % (p, g, w))
    ck.count("parameters", len(want))
    ck.ok(SIG, f, "%d parameters" % len(want))


def snapshot(ck):
    out = {}
    for mn, mod in sorted(ck.prog.modules.items()):
        for name, st in sorted(mod.defs.items(), key=lambda x: x[0]):
            if isinstance(st, ast.FunctionDef) and not name.startswith("_"):
                add(out, mn + "." + name, mod, st, False)
            elif isinstance(st, ast.ClassDef) and not name.startswith("_"):
                for m in st.body:
                    if isinstance(m, ast.FunctionDef) and (not m.name.startswith("_") or m.name in ("__init__", "__call__")) and m.args.args:
                        add(out, mn + "." + name + "." + m.name, mod, m, True)
    return out


def add(out, f, mod, node, method):
    pos, kwonly, d, va, kw = params(node, method)
    if va or kw:
        return
    out[f] = [[p, [value(mod, d[p])] if p in d else None] for p in pos]
