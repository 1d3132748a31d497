"""Parses every module of the package under analysis (tests excluded) and
resolves imports.  Nothing of /repo is imported or executed."""
import ast
import os


class AnalysisError(Exception):
    """the analysis itself cannot proceed (vanished anchor, unparsable file)"""


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.defs = {}      # top-level name -> last binding statement (FunctionDef/ClassDef/Assign/import)
        self.order = []     # top-level statements incl. those nested in if/try/with
        self._collect(self.tree.body)

    def _bind_target(self, t, st):
        if isinstance(t, ast.Name):
            self.defs[t.id] = st
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._bind_target(e, st)
        elif isinstance(t, ast.Starred):
            self._bind_target(t.value, st)

    def _collect(self, body):
        for st in body:
            self.order.append(st)
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._bind_target(t, st)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._bind_target(st.target, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split(".")[0]] = (st, a)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = (st, a)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(st, ast.With):
                    for it in st.items:
                        if it.optional_vars is not None:
                            self._bind_target(it.optional_vars, st)
                if isinstance(st, ast.For):
                    self._bind_target(st.target, st)
                self._collect(st.body)
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)
                self._collect(getattr(st, "orelse", []))
                self._collect(getattr(st, "finalbody", []))


class Program:
    def __init__(self, root=None, overlay=None):
        root = root or os.environ.get("VERIF_REPO", "/repo")
        overlay = overlay or {}       # path relative to root -> source text (self-tests of the checkers)
        self.root = root
        self.modules = {}
        pkg = os.path.join(root, "pycomlink")
        if not os.path.isdir(pkg):
            raise AnalysisError("package directory %s not found" % pkg)
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                name = ".".join(rel)
                key = os.path.relpath(path, root)
                if key in overlay:
                    src = overlay[key]
                else:
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                try:
                    self.modules[name] = Module(name, path, src)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (path, e))

    def add_source(self, name, src, path=None):
        m = Module(name, path or "<%s>" % name, src)
        self.modules[name] = m
        return m

    def module(self, name):
        if name not in self.modules:
            raise AnalysisError("module %s not found" % name)
        return self.modules[name]

    def import_target(self, mod, entry):
        """dotted name an import binding refers to"""
        st, alias = entry
        if isinstance(st, ast.Import):
            return alias.name if alias.asname else alias.name.split(".")[0]
        base = st.module or ""
        if st.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            up = st.level - 1
            if up:
                parts = parts[:-up]
            base = ".".join(parts + ([base] if base else []))
        return base + "." + alias.name

    def is_internal(self, dotted):
        return dotted.split(".")[0] == "pycomlink" or dotted in self.modules

    def resolve(self, dotted, _depth=0):
        """-> ('mod', name) | ('def', Module, name) | ('ext', dotted)"""
        if _depth > 20:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("mod", dotted)
        if "." in dotted:
            base, name = dotted.rsplit(".", 1)
            b = self.resolve(base, _depth + 1)
            if b[0] == "mod":
                m = self.modules[b[1]]
                if name in m.defs:
                    e = m.defs[name]
                    if isinstance(e, tuple):
                        return self.resolve(self.import_target(m, e), _depth + 1)
                    return ("def", m, name)
                sub = b[1] + "." + name
                if sub in self.modules:
                    return ("mod", sub)
                return ("ext", dotted)
            if b[0] == "ext":
                return ("ext", b[1] + "." + name)
            return ("attr", b, name)
        return ("ext", dotted)

    def functions(self):
        """every function/method: (module, qualname, node)"""
        for m in self.modules.values():
            if not m.path.startswith(self.root):
                continue
            stack = [(m.tree, "")]
            while stack:
                n, pre = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + c.name, c
                        stack.append((c, pre + c.name + "."))
                    elif isinstance(c, ast.ClassDef):
                        stack.append((c, pre + c.name + "."))
                    else:
                        stack.append((c, pre))
