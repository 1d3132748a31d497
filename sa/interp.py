"""Abstract interpreter: source -> value graph (terms.py) + effects.

Flow-sensitive, gated at joins (every join becomes an ``ite`` on the branch
condition), interprocedural by inlining of functions of the package.  Loops over
unknown ranges are interpreted once for a generic iteration K and summarised.
No code of the package is executed.
"""
import ast
import builtins
import re
from terms import *  # noqa
import terms as TT

BUILTINS = set(dir(builtins))

MAXDEPTH = 40
UNROLL = 40


class Unsupported(Exception):
    pass


class V:
    __slots__ = ("kind", "data", "extra")

    def __init__(self, kind, data, extra=None):
        self.kind = kind
        self.data = data
        self.extra = extra

    def __repr__(self):
        return "V<%s %r>" % (self.kind, self.data)


def VT(t):
    return V("term", t)


class Func:
    def __init__(self, node, mod, env=None, qual="", self_v=None, cls=None):
        self.node, self.mod, self.env, self.qual = node, mod, env, qual
        self.self_v = self_v
        self.cls = cls

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class Cls:
    def __init__(self, node, mod, bases, fields=None, name=None):
        self.node, self.mod, self.bases = node, mod, bases
        self.fields = fields      # namedtuple field names
        self.name = name or (node.name if node else "?")


class Frame:
    def __init__(self, mod, func=None, env=None):
        self.mod = mod
        self.func = func
        self.env = {} if env is None else env
        self.closure = None
        self.globals_decl = set()
        self.returns = []      # (pc, V, heap)
        self.loopctl = []


class Effect:
    """an observable side effect: a write into something not owned by the call"""

    def __init__(self, kind, root, how, mod, node, stack, pc, detail=None):
        self.kind, self.root, self.how = kind, root, how
        self.detail = detail     # (key, value) of a store into a container or a module variable
        self.path = mod.path
        self.line = getattr(node, "lineno", 0)
        self.stack = stack
        self.pc = pc

    def __repr__(self):
        return "%s of %s via %s at %s:%s" % (self.kind, self.root, self.how, self.path, self.line)


class Event:
    def __init__(self, name, args, kwargs, pc, mod, node, stack, result=None):
        self.name, self.args, self.kwargs = name, args, kwargs
        self.pc, self.path, self.line = pc, mod.path, getattr(node, "lineno", 0)
        self.stack = stack
        self.node = node
        self.mod = mod
        self.result = result
        self.loops = 0

    def __repr__(self):
        return "%s%r%r@%s" % (self.name, tuple(self.args), self.kwargs, self.line)


class BadCall(Unsupported):
    """a call that does not fit the signature"""


class Raise:
    def __init__(self, pc, exc, mod, node, stack):
        self.pc, self.exc = pc, exc
        self.path, self.line = mod.path, getattr(node, "lineno", 0)
        self.stack = stack

    def __repr__(self):
        return "raise %s when %s at %s" % (self.exc, show(self.pc), self.line)


class Loop:
    """summary of one loop over a generic iteration"""

    def __init__(self, K, n, path, line):
        self.K, self.n, self.path, self.line = K, n, path, line
        self.carried = {}     # key -> (init T, step T, mu T)
        self.stores = []
        self.names = {}
        self.brk = FALSE


DECOR_TRANSPARENT = {
    "numba.jit", "numba.njit", "functools.wraps", "abc.abstractmethod", "staticmethod",
    "pycomlink.processing.xarray_wrapper.xarray_apply_along_time_dim",
    "pycomlink.util.maintenance.deprecated", "numba.core.decorators.jit",
}


def fill(text, mark, values):
    """text with the values at the marks, None if it has other directives"""
    parts = text.split(mark)
    other = "%" if mark == "%s" else "{"
    if len(parts) != len(values) + 1 or any(other in p or "}" in p and other == "{" for p in parts):
        return None
    out = [S(parts[0])]
    for v, p in zip(values, parts[1:]):
        out += [mk("fstr", v, S("")), S(p)]
    out = [x for x in out if x is not S("")]
    if len(out) == 1:
        return mk("call", "builtins.str", (values[0],), ()) if out[0].op == "fstr" else out[0]
    return concat(*out) if out else S("")


def contains_term(x, y):
    if y.op == "ite" and y.args[0] in SCALAR_CONDS and any(z.op in ("tuple", "list", "str") for z in y.args[1:]):
        return ite(y.args[0], contains_term(x, y.args[1]), contains_term(x, y.args[2]), scalar=True)
    if y.op == "meth" and y.args[1] == "keys" and not y.args[2]:
        return contains_term(x, y.args[0])
    if x.op == "str" and y.op == "str":
        return const(x.args[0] in y.args[0])
    if y.op in ("tuple", "list") and is_const(x) and all(is_const(t) for t in y.args):
        return lor(*[eq(x, t) for t in y.args]) if y.args else FALSE
    return mk("contains", x, y)


def same_seq(x, y):
    """equality of literal lists of constants, None if not decidable"""
    if y.op == "ite" and y.args[0] in SCALAR_CONDS:
        a, b = same_seq(x, y.args[1]), same_seq(x, y.args[2])
        return None if a is None or b is None else ite(y.args[0], a, b, scalar=True)
    if x.op in ("list", "tuple") and y.op in ("list", "tuple") and all(is_const(t) for t in x.args + y.args):
        return const(x is y)
    return None


class Dct(dict):
    """contents of a dictionary some of whose keys are there under a condition only"""

    def __init__(self, src=()):
        dict.__init__(self, src)
        self.maybe = dict(getattr(src, "maybe", ()))


def stale_reads(body):
    """names a loop body assigns on some paths only and reads where they may not have been assigned in this iteration"""
    out = set()

    def reads(node, done):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in done:
                out.add(n.id)

    def target(t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def run(stmts, done):
        """names certainly assigned after the statements; None: control does not get there"""
        for s in stmts:
            if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                reads(s, done)
                return None
            if isinstance(s, ast.If):
                reads(s.test, done)
                a, b = run(s.body, set(done)), run(s.orelse, set(done))
                if a is None and b is None:
                    return None
                done = b if a is None else a if b is None else a & b
            elif isinstance(s, (ast.For, ast.While)):
                reads(s.iter if isinstance(s, ast.For) else s.test, done)
                run(s.body, set(done) | (target(s.target) if isinstance(s, ast.For) else set()))
                # a loop is taken to run: an empty one is another matter
                done |= {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            elif isinstance(s, ast.With):
                for i in s.items:
                    reads(i.context_expr, done)
                    if i.optional_vars is not None:
                        done |= target(i.optional_vars)
                done = run(s.body, done)
                if done is None:
                    return None
            elif isinstance(s, ast.Try):
                a = run(s.body + s.orelse, set(done))
                for h in s.handlers:
                    b = run(h.body, set(done))
                    a = b if a is None else a if b is None else a & b
                f = run(s.finalbody, set(done) if a is None else a)
                if a is None or f is None:
                    return None
                done = f
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                done.add(s.name)
            else:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and s.value is not None:
                    reads(s.value, done)
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        reads(t, done)
                        if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name) and t.id not in done:
                            out.add(t.id)
                        done |= target(t)
                else:
                    reads(s, done)
                done |= {n.target.id for n in ast.walk(s) if isinstance(n, ast.NamedExpr)}
        return done
    run(body, set())
    stored = {n.id for x in body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    # names that only comprehensions bind are their own
    local = {n.id for x in body for c in ast.walk(x) if isinstance(c, ast.comprehension) for n in ast.walk(c.target)
             if isinstance(n, ast.Name)}
    return sorted(out & stored - local)


FALLIBLE = {"raise", "query", "KDTree", "cKDTree", "OrdinaryKriging", "execute", "cdist", "query_ball_point", "BallTree",
            "sparse_distance_matrix", "Delaunay", "Rbf", "RBFInterpolator"}


class Interp:
    def __init__(self, prog, models=None):
        import models as M
        self.prog = prog
        self.M = M
        self.heap = {}
        self.locals_seen = {}
        self.global_cells = {}
        self.store_log = []
        self.roots = {}
        self.numbers = set()
        self.dt = {}
        self.nloc = 0
        self.pc = TRUE
        self.live = True
        self.frames = []
        self.effects = []
        self.real_decor = False      # apply the package's own decorators instead of looking through them
        self.key_log = []            # lookups in dictionaries: (path condition, key is missing)
        self.pos_log = []            # elements of arrays: (path condition, position does not exist)
        self.attr_log = []           # attributes read from values of unknown type
        self.events = []
        self.raises = []
        self.snaps = []
        self.loops = {}
        self.loopdepth = 0
        self.nloop = 0
        self.unknown = set()
        self.origin = {}
        self.globals_memo = {}
        self.exc_n = 0
        self.stack = []
        self.calls_seen = set()
        self.trial = 0
        self.decor_events = []
        self.local_alias = {}

    # ------------------------------------------------------------- utilities
    def loc(self, content, roots=frozenset(), dt=None):
        self.nloc += 1
        l = self.nloc
        self.heap[l] = content
        if roots:
            self.roots[l] = frozenset(roots)
        if dt is not None:
            self.dt[l] = dt
        return l

    def obj(self, t, roots=frozenset(), dt=None):
        return V("obj", self.loc(t, roots, dt))

    def newlist(self, entries=()):
        return V("list", self.loc(tuple(entries)))

    def newdict(self, items=()):
        return V("dict", self.loc(dict(items)))

    def param(self, name):
        return self.obj(mk("par", name), {name}, ("like", name))

    def note_numbers(self, fn):
        """parameters that can only be plain numbers (or texts): by their default or documented type, or because they
        bound a range or a slice, or are compared in a condition, here or under the same name in another function"""
        a = fn.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, complex, str)):
                self.numbers.add(x.arg)
        names = {x.arg for x in pos + a.kwonlyargs}
        for n, ty in re.findall(r"^\s*(\w+)\s*:\s*([^\n]*)$", ast.get_docstring(fn.node) or "", re.M):
            if n in names and re.match(r"(int|float|bool|str|string|number|scalar|complex)\b", ty) and \
                    not re.search(r"arr|iter|list|series|frame|seq|dict", ty, re.I):
                self.numbers.add(n)
        for g in [fn.node] + [x for x in fn.mod.defs.values() if isinstance(x, ast.FunctionDef)]:
            args = {x.arg for x in g.args.posonlyargs + g.args.args + g.args.kwonlyargs} & names
            for x in ast.walk(g) if args else ():
                if isinstance(x, ast.Slice):
                    ends = [x.lower, x.upper, x.step]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "range":
                    ends = x.args
                elif isinstance(x, (ast.If, ast.While, ast.IfExp)):
                    ends, todo = [], [x.test]
                    while todo:
                        y = todo.pop()
                        if isinstance(y, ast.BoolOp):
                            todo += y.values
                        elif isinstance(y, ast.UnaryOp):
                            todo.append(y.operand)
                        elif isinstance(y, ast.Compare) and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq))
                                                                for o in y.ops):
                            ends += [y.left] + y.comparators
                else:
                    continue
                for e in ends:
                    while isinstance(e, ast.BinOp):
                        e = e.left if isinstance(e.left, (ast.Name, ast.BinOp)) else e.right
                    if isinstance(e, ast.Name) and e.id in args:
                        self.numbers.add(e.id)

    def here(self, node):
        f = self.frames[-1] if self.frames else None
        return (f.mod if f else None), node

    def term(self, v):
        k = v.kind
        if k == "term":
            return v.data
        if k == "obj":
            return self.heap[v.data]
        if k == "tuple":
            return mk("tuple", *[self.term(x) for x in v.data])
        if k == "list":
            out = []
            for e in self.heap[v.data]:
                if e[0] == "item":
                    if e[2] is TRUE:
                        out.append(self.term(e[1]))
                    else:
                        out.append(mk("guarded", e[2], self.term(e[1])))
                else:
                    out.append(self.segterm(e))
            return mk("list", *out)
        if k == "dict":
            return self.dict_term(self.heap[v.data], 3)
        if k == "inst":
            c, fields, _ = self.heap[v.data]
            return mk("inst", c.name, tuple(sorted((n, self.term(x)) for n, x in fields.items()
                                                   if x.kind not in ("func",))))
        if k == "func":
            f = v.data
            return mk("fn", f.mod.name + "." + (f.qual or f.name) +
                      ("" if not isinstance(f.node, ast.Lambda) else "@%d" % f.node.lineno))
        if k == "class":
            return mk("cls", v.data.name)
        if k in ("mod", "ext"):
            return mk("ext", v.data)
        if k == "bmeth":
            return mk("bound", self.term(v.data[0]), v.data[1])
        if k == "view":
            return self.view_term(v)
        if k == "range":
            return mk("range", *v.data)
        if k == "seq":
            n, K, elem = v.data
            return mk("seqof", n, elem)
        if k == "slice":
            return mk("sl", *[self.term(x) for x in v.data])
        if k == "choice":
            return ite(v.data[0], self.safe_term(v.data[1]), self.safe_term(v.data[2]), scalar=True)
        raise Unsupported("term of " + k)

    def segterm(self, e):
        # ("seg", K, n, guard, elem T)
        return mk("seg", e[1], e[2], e[3], e[4])

    def vroots(self, v):
        """root names v may share storage with"""
        k = v.kind
        if k in ("obj", "list", "dict", "inst"):
            r = set(self.roots.get(v.data, ()))
            if k == "list":
                for e in self.heap[v.data]:
                    if e[0] == "item":
                        r |= {content(x) for x in self.vroots(e[1])}
            return frozenset(r)
        if k == "tuple":
            s = set()
            for x in v.data:
                s |= self.vroots(x)
            return frozenset(s)
        if k == "view":
            return frozenset(content(r) for r in self.vroots(v.data[0]))
        if k == "bmeth":
            return self.vroots(v.data[0])
        if k == "choice":
            return self.vroots(v.data[1]) | self.vroots(v.data[2])
        return frozenset()

    def effect(self, kind, roots, how, node, detail=None):
        fr = self.frames[-1]
        for r in roots:
            self.effects.append(Effect(kind, r, how, fr.mod, node, tuple(self.stack), self.pc, detail))

    def note(self, t, node):
        if t not in self.origin and self.frames:
            ln = getattr(node, "lineno", None)
            if ln:
                self.origin[t] = (self.frames[-1].mod.path, ln)

    # --------------------------------------------------------------- entry
    def get(self, dotted):
        r = self.prog.resolve(dotted)
        return self._resolved(r, dotted)

    def _resolved(self, r, dotted):
        if r[0] == "mod":
            return V("mod", r[1])
        if r[0] == "ext":
            return V("ext", r[1])
        if r[0] == "def":
            return self.global_value(r[1], r[2])
        if r[0] == "attr":
            b = self._resolved(r[1], dotted)
            return self.getattr(b, r[2], None)
        raise Unsupported(dotted)

    def global_value(self, mod, name):
        key = (mod.name, name)
        if key in self.globals_memo:
            v = self.globals_memo[key]
            if isinstance(v.data, int) and v.data not in self.heap:
                # first read on another path: the cells exist from import time on
                for l, x in self.global_cells.items():
                    self.heap.setdefault(l, x)
            return v
        e = mod.defs[name]
        before = set(self.heap)
        if isinstance(e, tuple):
            v = self._resolved(self.prog.resolve(self.prog.import_target(mod, e)), name)
        elif isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = V("func", Func(e, mod, None, e.name))
            v = self.decorate(v, e, mod)
        elif isinstance(e, ast.ClassDef):
            v = self.make_class(e, mod)
        elif isinstance(e, (ast.Assign, ast.AnnAssign)):
            fr = Frame(mod)
            self.frames.append(fr)
            saved = (self.pc, self.live)
            self.pc, self.live = TRUE, True
            try:
                p = getattr(e, "_parent", None)
                while p is not None and not isinstance(p, ast.Module):
                    if isinstance(p, ast.With):
                        for it in p.items:
                            cv = self.eval(it.context_expr)
                            if it.optional_vars is not None:
                                self.assign(it.optional_vars, self.enter(cv, it.context_expr), e)
                    p = getattr(p, "_parent", None)
                val = self.eval(e.value)
                if isinstance(e, ast.Assign) and isinstance(e.targets[0], ast.Name):
                    v = val
                else:
                    t = e.targets[0] if isinstance(e, ast.Assign) else e.target
                    self.assign(t, val, e)
                    v = fr.env[name]
            finally:
                self.frames.pop()
                self.pc, self.live = saved
            if v.kind in ("obj", "list", "dict", "inst"):
                self.roots[v.data] = self.roots.get(v.data, frozenset()) | {"global:%s.%s" % key}
            # module globals rebound by functions (``global x``) are state
            if self.rebound_global(mod, name):
                v = self.obj(mk("gstate", mod.name + "." + name), {"global:%s.%s" % key})
        else:
            v = self.obj(mk("global", mod.name + "." + name))
        self.globals_memo[key] = v
        for l, x in self.heap.items():
            if l not in before:
                self.global_cells.setdefault(l, x)
        return v

    def rebound_global(self, mod, name):
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def make_class(self, node, mod):
        bases, fields = [], None
        for b in node.bases:
            bv = None
            try:
                fr = Frame(mod)
                self.frames.append(fr)
                bv = self.eval(b)
            except Unsupported:
                bv = None
            finally:
                self.frames.pop()
            if bv is None:
                continue
            if bv.kind == "class":
                bases.append(bv.data)
                if bv.data.fields and not fields:
                    fields = bv.data.fields
            elif bv.kind == "tuple":
                bases.extend(x.data for x in bv.data if x.kind == "class")
        return V("class", Cls(node, mod, bases, fields))

    def find_method(self, cls, name):
        if cls.node is not None:
            for st in cls.node.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st.name == name:
                    return Func(st, cls.mod, None, cls.name + "." + name, cls=cls)
        for b in cls.bases:
            m = self.find_method(b, name)
            if m:
                return m
        return None

    def class_attr(self, cls, name):
        if cls.node is not None:
            for st in cls.node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            self.frames.append(Frame(cls.mod))
                            try:
                                v = self.eval(st.value)
                            finally:
                                self.frames.pop()
                            if v.kind in ("obj", "list", "dict"):
                                self.roots[v.data] = frozenset({"global:%s.%s.%s" % (
                                    cls.mod.name, cls.name, name)})
                            return v
        for b in cls.bases:
            r = self.class_attr(b, name)
            if r is not None:
                return r
        return None

    def decorate(self, v, node, mod):
        for d in reversed(node.decorator_list):
            target = d.func if isinstance(d, ast.Call) else d
            self.frames.append(Frame(mod))
            try:
                dv = self.eval(target)
            except Unsupported:
                dv = VT(mk("opaque", "decorator"))
            finally:
                self.frames.pop()
            name = dv.data if dv.kind == "ext" else (
                dv.data.mod.name + "." + dv.data.name if dv.kind == "func" else "?")
            if self.real_decor and dv.kind == "func" and name.startswith("pycomlink"):
                self.frames.append(Frame(mod))
                try:
                    v = self.call(self.eval(d), [v], {}, node)
                finally:
                    self.frames.pop()
                continue
            if name in DECOR_TRANSPARENT or name.startswith("numba"):
                continue
            self.decor_events.append((name, mod.path, node.name, node.lineno))
        return v

    # ------------------------------------------------------------ functions
    def bind(self, func, args, kwargs, node):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if func.self_v is not None:
            args = [func.self_v] + args
        kwargs = dict(kwargs)
        unknown = "**" in kwargs or any(v.kind == "star" for v in args)
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            env[a.vararg.arg] = V("tuple", tuple(extra))
        elif extra:
            raise BadCall("too many positional arguments for %s" % func.qual)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in list(kwargs):
            if k in names or k in kwonly:
                if k in env:
                    raise BadCall("duplicate argument %s" % k)
                env[k] = kwargs.pop(k)
        if a.kwarg:
            env[a.kwarg.arg] = self.newdict([(S(k), v) for k, v in kwargs.items() if k != "**"])
        elif kwargs:
            kwargs.pop("**", None)
            if kwargs:
                raise BadCall("unexpected arguments %s" % list(kwargs))
        defs = a.defaults
        for nm, d in zip(names[len(names) - len(defs):], defs):
            if nm not in env:
                env[nm] = self.default_value(func, nm, d)
        for nm, d in zip(kwonly, a.kw_defaults):
            if nm not in env and d is not None:
                env[nm] = self.default_value(func, nm, d)
        for nm in names + kwonly:
            if nm not in env:
                raise (Unsupported if unknown else BadCall)("missing argument %s of %s" % (nm, func.qual))
        return env

    def default_value(self, func, nm, d):
        fr = Frame(func.mod)
        fr.closure = func.env
        self.frames.append(fr)
        try:
            v = self.eval(d)
        finally:
            self.frames.pop()
        if v.kind in ("obj", "list", "dict"):
            # evaluated once at definition time: shared between calls
            self.roots[v.data] = frozenset({"default:%s.%s" % (func.qual, nm)})
        return v

    def call_func(self, func, args, kwargs, node):
        if len(self.stack) > MAXDEPTH or self.stack.count(func.qual) > 2:
            raise Unsupported("recursion into %s" % func.qual)
        try:
            env = self.bind(func, args, kwargs, node)
        except BadCall as e:
            if not self.frames or not self.stack:
                raise
            self.do_raise("TypeError", node)
            return VT(mk("dead", str(e)))
        name = func.mod.name + "." + func.qual
        if self.stack and name in self.cuts:
            # compared at its calls, analysed on its own
            self.cuts_seen.add(name)
            ks = tuple(sorted((k, self.safe_term(v)) for k, v in env.items() if k not in ("*", "**")))
            t = mk("call", mk("fn", name), (), ks)
            self.record(name, (), dict(ks), node, t)
            return self.obj(t)
        if isinstance(func.node, ast.Lambda):
            fr = Frame(func.mod, func, env)
            fr.closure = func.env
            self.frames.append(fr)
            self.stack.append(func.qual)
            try:
                return self.eval(func.node.body)
            finally:
                self.frames.pop()
                self.stack.pop()
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(func.node)):
            raise Unsupported("generator %s" % func.qual)
        fr = Frame(func.mod, func, env)
        fr.closure = func.env
        for n in ast.walk(func.node):
            if isinstance(n, ast.Global):
                fr.globals_decl |= set(n.names)
        self.frames.append(fr)
        self.stack.append(func.mod.name + "." + func.qual if False else func.qual)
        self.calls_seen.add((func.mod.name, func.qual))
        pc0, live0 = self.pc, self.live
        self.pc = TRUE
        nr, ne = len(self.raises), len(self.events)
        try:
            self.exec_block(func.node.body)
            if self.live:
                fr.returns.append((self.pc, VT(NONE), self.heap))
        finally:
            self.frames.pop()
            self.stack.pop()
            self.pc, self.live = pc0, live0
        # guards recorded inside are relative to the callee: add the caller's
        for r in self.raises[nr:]:
            r.pc = land(pc0, r.pc)
        if pc0 is not TRUE:
            for r in self.events[ne:]:
                r.pc = land(pc0, r.pc)
        return self.merge_returns(fr)

    def merge_returns(self, fr):
        rets = fr.returns
        if not rets:
            self.live = False
            return VT(mk("noreturn"))
        pc, v, heap = rets[-1]
        self.heap = heap
        for pc2, v2, heap2 in reversed(rets[:-1]):
            v, self.heap = self.merge_pair(pc2, v2, heap2, v, self.heap)
        return v

    def merge_pair(self, c, v1, h1, v2, h2):
        merged = self.merge_heap(c, h1, h2)
        self._h1, self._h2 = h1, h2
        self.heap = merged
        v = self.merge_val(c, v1, v2, h1, h2)
        return v, self.heap

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return dict(h1)
        out = dict(h2)
        for l in h2:
            if l not in h1 and l in self.global_cells and h2[l] is not self.global_cells[l]:
                out[l] = self.merge_content(c, self.global_cells[l], h2[l], h1, h2, out)
        for l, x1 in h1.items():
            if l not in h2:
                g = self.global_cells.get(l, x1)
                out[l] = x1 if x1 is g else self.merge_content(c, x1, g, h1, h2, out)
                continue
            x2 = h2[l]
            if x1 is x2:
                continue
            out[l] = self.merge_content(c, x1, x2, h1, h2, out)
        return out

    def copied(self, v):
        return Dct(self.heap[v.data])

    def dict_term(self, d, depth):
        maybe = {k: self.under_pc(c) for k, c in getattr(d, "maybe", {}).items()}
        c = next((c for c in maybe.values() if c not in (TRUE, FALSE)), None) if depth else None
        if c is not None:
            if c.op == "not":
                c = c.args[0]
            out = []
            for v in (TRUE, FALSE):
                e = Dct(d)
                e.maybe = {k: rewrite(x, {c: v}) for k, x in maybe.items()}
                out.append(self.dict_term(e, depth - 1))
            return ite(c, *out, scalar=True)
        return mk("dict", tuple(sorted(((kk, self.term(x)) for kk, x in d.items() if maybe.get(kk) is not FALSE),
                                       key=lambda kv: kv[0].skey)))

    def term_in(self, v, h):
        s = self.heap
        self.heap = h
        try:
            return self.term(v)
        finally:
            self.heap = s

    def merge_content(self, c, x1, x2, h1, h2, out):
        if isinstance(x1, T) and isinstance(x2, T):
            return ite(c, x1, x2, scalar=True)
        if isinstance(x1, tuple) and isinstance(x2, tuple) and (not x1 or x1[0] != "?"):
            if len(x1) and isinstance(x1[0], Cls):
                # instance
                f1, f2 = x1[1], x2[1]
                f = {}
                for n in list(f1) + [n for n in f2 if n not in f1]:
                    if n in f1 and n in f2:
                        f[n] = self.merge_val2(c, f1[n], f2[n], h1, h2, out)
                    elif x1[2] == "sym":
                        a = self.untouched_in(n, out)
                        f[n] = self.merge_val2(c, f1.get(n) or a, f2.get(n) or a, {**h1, a.data: out[a.data]},
                                               {**h2, a.data: out[a.data]}, out)
                    else:
                        f[n] = f1.get(n) or f2.get(n)
                return (x1[0], f, x1[2])
            # list entries
            n = 0
            res = []
            while n < len(x1) and n < len(x2) and x1[n] is x2[n]:
                res.append(x1[n])
                n += 1
            r1, r2 = x1[n:], x2[n:]
            if len(r1) == len(r2) and all(a[0] == "item" and b[0] == "item" and a[2] is b[2]
                                          for a, b in zip(r1, r2)):
                for a, b in zip(r1, r2):
                    res.append(("item", self.merge_val2(c, a[1], b[1], h1, h2, out), a[2]))
                return tuple(res)
            for e in r1:
                res.append(self.guard_entry(e, c))
            for e in r2:
                res.append(self.guard_entry(e, lnot(c)))
            return tuple(res)
        if isinstance(x1, dict) and isinstance(x2, dict):
            d = Dct()
            m1, m2 = getattr(x1, "maybe", {}), getattr(x2, "maybe", {})
            for k in list(x1) + [k for k in x2 if k not in x1]:
                if k in x1 and k in x2:
                    d[k] = self.merge_val2(c, x1[k], x2[k], h1, h2, out)
                else:
                    d[k] = x1.get(k) or x2.get(k)
                p1, p2 = (m.get(k, TRUE) if k in x else FALSE for x, m in ((x1, m1), (x2, m2)))
                if p1 is not TRUE or p2 is not TRUE:
                    d.maybe[k] = lor(land(c, p1), land(lnot(c), p2))
            return d
        return mk("opaque", "merge")

    def untouched_in(self, name, out):
        """attribute of an object of unknown history that a path has not touched"""
        s = self.heap
        self.heap = out
        try:
            return self.obj(mk("attr", mk("self"), name), {"self." + name})
        finally:
            self.heap = s

    def guard_entry(self, e, c):
        if e[0] == "item":
            return ("item", e[1], land(e[2], c))
        return (e[0], e[1], e[2], land(e[3], c)) + tuple(e[4:])

    def merge_val2(self, c, v1, v2, h1, h2, out):
        s = self.heap
        self.heap = out
        try:
            return self.merge_val(c, v1, v2, h1, h2)
        finally:
            self.heap = s

    def merge_val(self, c, v1, v2, h1, h2):
        if v1 is v2:
            return v1
        if v1.kind == v2.kind and v1.kind not in ("tuple",):
            try:
                if v1.data == v2.data and v1.kind in ("obj", "list", "dict", "inst", "mod", "ext", "term"):
                    return v1
            except Exception:
                pass
        if v1.kind == "func" and v2.kind == "func" and v1.data.node is v2.data.node:
            return v1
        if v1.kind == "tuple" and v2.kind == "tuple" and len(v1.data) == len(v2.data):
            return V("tuple", tuple(self.merge_val(c, a, b, h1, h2)
                                    for a, b in zip(v1.data, v2.data)))
        if c is TRUE:
            return v1
        if c is FALSE:
            return v2
        special = ("func", "ext", "class", "bmeth", "inst", "choice")
        if v1.kind in special or v2.kind in special:
            return V("choice", (c, v1, v2))
        t = ite(c, self.term_in(v1, h1), self.term_in(v2, h2), scalar=True)
        r = set(self.vroots_in(v1, h1)) | set(self.vroots_in(v2, h2))
        if v1.kind == "term" and v2.kind == "term":
            return VT(t)
        d1, d2 = self.dtype_in(v1, h1), self.dtype_in(v2, h2)
        return self.obj(t, r, d1 if d1 == d2 else None)

    def dtype_in(self, v, h):
        s = self.heap
        self.heap = h
        try:
            return self.dtype_of(v)
        finally:
            self.heap = s

    def vroots_in(self, v, h):
        s = self.heap
        self.heap = h
        try:
            return self.vroots(v)
        finally:
            self.heap = s

    # ---------------------------------------------------------------- dtypes
    def dtype_of(self, v):
        if v.kind == "obj" and v.data in self.dt:
            return self.dt[v.data]
        if v.kind == "term" and v.data.op == "num" and v.extra == "float":
            return "float"
        try:
            return self.dtype_term(self.term(v))
        except Unsupported:
            return None

    def dtype_term(self, t):
        if t.op == "num":
            return "int" if t.args[0].denominator == 1 else "float"
        if t.op in ("nan", "pi", "inf"):
            return "float"
        if is_bool(t):
            return "bool"
        if t.op == "par":
            return ("like", t.args[0])
        if t.op == "lenof":
            return "int"
        if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "interp1d":
            return "float"
        if t.op in ("idx", "compress", "slice"):
            return self.dtype_term(t.args[0])
        if t.op == "poly":
            ds = set()
            for m, c in t.args[0]:
                if c.denominator != 1:
                    return "float"
                for b, e in m:
                    if not (e.op == "num" and e.args[0].denominator == 1 and e.args[0] > 0):
                        return "float"
                    ds.add(self.dtype_term(b))
            ds.discard("int")
            ds.discard("bool")
            if not ds:
                return "int"
            if "float" in ds:
                return "float"
            if len(ds) == 1:
                return ds.pop()
            return None
        if t.op == "ite":
            a, b = self.dtype_term(t.args[1]), self.dtype_term(t.args[2])
            return a if a == b else ("float" if "float" in (a, b) else None)
        if t.op == "ew" and t.args[0] in ("exp", "log", "log10", "sin", "cos", "sqrt", "tofloat"):
            return "float"
        if t.op == "nn":
            return "float" if t.args[0] == "dist" else "int"
        return None

    def cast(self, dt, v, t):
        """value t stored into an array of dtype dt"""
        if dt in ("float32", "float16"):
            return self.M.convert(t, dt)
        if dt in (None, "float", "object"):
            return t
        vd = self.dtype_term(t)
        if vd == dt or vd in ("bool",) or (vd == "int" and dt != "bool"):
            return t
        if vd is None:
            return t
        if isinstance(dt, tuple):
            if isinstance(vd, tuple) or vd == "int":
                return t
            # array inherits the dtype of a caller's array: a float value is truncated
            # whenever the caller's array is of integer type
            return mk("ew", "cast_like_" + dt[1], t)
        if dt in ("int", "bool") and vd == "float":
            return mk("ew", "cast_" + dt, t)
        return t

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            if not self.live:
                return
            self.exec(st)

    def exec(self, st):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(st).__name__, st.lineno))
        m(st)

    def x_Expr(self, st):
        self.eval(st.value)

    def x_Pass(self, st):
        pass

    def x_Global(self, st):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st):
        fr = self.frames[-1]
        for a in st.names:
            dotted = a.name if a.asname else a.name.split(".")[0]
            v = self._resolved(self.prog.resolve(dotted), dotted)
            self.events.append(Event("import", [S(a.name)], {}, self.pc, fr.mod, st, tuple(self.stack)))
            self.set_name(a.asname or a.name.split(".")[0], v, st)

    def x_ImportFrom(self, st):
        fr = self.frames[-1]
        for a in st.names:
            dotted = self.prog.import_target(fr.mod, (st, a))
            self.set_name(a.asname or a.name, self._resolved(self.prog.resolve(dotted), dotted), st)

    def x_FunctionDef(self, st):
        fr = self.frames[-1]
        f = Func(st, fr.mod, ClosureEnv(fr), self.curqual() + st.name)
        self.set_name(st.name, self.decorate(V("func", f), st, fr.mod), st)

    def curqual(self):
        f = self.frames[-1].func
        return (f.qual + ".") if f is not None else ""

    def x_ClassDef(self, st):
        self.set_name(st.name, self.make_class(st, self.frames[-1].mod), st)

    def x_Return(self, st):
        v = self.eval(st.value) if st.value is not None else VT(NONE)
        if not self.live:
            return
        self.note(self.safe_term(v), st)
        self.frames[-1].returns.append((self.pc, v, self.heap))
        self.heap = dict(self.heap)
        self.live = False

    def safe_term(self, v):
        try:
            return self.term(v)
        except Unsupported:
            return mk("opaque", v.kind)

    def x_Raise(self, st):
        name = "reraise"
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            if isinstance(st.exc, ast.Call):
                for a in st.exc.args:
                    try:
                        self.eval(a)
                    except Unsupported:
                        pass
            try:
                ev = self.eval(e)
                name = ev.data if ev.kind == "ext" else (
                    ev.data.name if ev.kind == "class" else show(self.term(ev)))
            except Unsupported:
                name = ast.unparse(e)
        name = name.replace("builtins.", "")
        self.do_raise(name, st)

    def do_raise(self, name, st, cond=TRUE):
        g = land(self.pc, cond)
        if g is FALSE:
            return
        self.raises.append(Raise(g, name, self.frames[-1].mod, st, tuple(self.stack)))
        self.watch_call("raise", st)
        self.pc = land(self.pc, lnot(cond))
        if cond is TRUE or self.pc is FALSE:
            self.live = False

    def x_Assert(self, st):
        c = self.truth(self.eval(st.test), st)
        if c is TRUE:
            return
        self.do_raise("AssertionError", st, lnot(c))

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                self.effect("write", self.vroots(b), "del item", st)
                if b.kind == "dict":
                    k = self.term(self.eval(t.slice))
                    d = Dct(self.heap[b.data])
                    d.pop(k, None)
                    d.maybe.pop(k, None)
                    self.heap[b.data] = d

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value), st)

    def x_AugAssign(self, st):
        # in-place on arrays
        tgt = st.target
        op = st.op
        rhs = self.eval(st.value)
        if isinstance(tgt, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(tgt.id, ast.Load()), tgt))
            if cur.kind == "list" and isinstance(op, ast.Add):
                self.list_extend(cur, rhs, st)
                return
            new = self.binop(op, cur, rhs, st)
            if cur.kind == "obj" and self.is_arrayish(cur):
                self.write_obj(cur, self.term(new), "augmented assignment", st)
                return
            self.set_name(tgt.id, new, st)
            return
        if isinstance(tgt, ast.Attribute):
            base = self.eval(tgt.value)
            cur = self.getattr(base, tgt.attr, st)
            new = self.binop(op, cur, rhs, st)
            if cur.kind == "obj" and self.is_arrayish(cur):
                self.effect("write", self.vroots(cur), "augmented assignment", st)
            self.setattr(base, tgt.attr, new, st)
            return
        if isinstance(tgt, ast.Subscript):
            base = self.eval(tgt.value)
            ix = self.eval_index(tgt.slice)
            cur = self.subscript(base, ix, st)
            new = self.binop(op, cur, rhs, st)
            self.store_sub(base, ix, new, st)
            return
        raise Unsupported("augassign")

    def is_arrayish(self, v):
        t = self.heap[v.data] if v.kind == "obj" else None
        if t is None:
            return False
        # immutable numbers rebinding is indistinguishable from in-place when no one aliases
        if t.op == "par" and t.args[0] in self.numbers:
            return False
        return bool(self.roots.get(v.data)) or v.data in self.local_alias

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, t.elts)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.store_sub(base, self.eval_index(t.slice), v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported("assign target")

    def unpack(self, v, n, st, elts=None):
        star = [i for i, e in enumerate(elts or []) if isinstance(e, ast.Starred)]
        if v.kind == "tuple":
            items = list(v.data)
        elif v.kind == "list" and all(e[0] == "item" and e[2] is TRUE for e in self.heap[v.data]):
            items = [e[1] for e in self.heap[v.data]]
        else:
            items = None
        if items is not None:
            if star:
                i = star[0]
                rest = len(items) - (n - 1)
                mid = self.newlist([("item", x, TRUE) for x in items[i:i + rest]])
                return items[:i] + [mid] + items[i + rest:]
            if len(items) != n:
                raise Unsupported("unpack %d into %d" % (len(items), n))
            return items
        t = self.term(v)
        if star:
            i, k = star[0], n - 1 - star[0]
            rest = self.subscript(v, V("slice", (VT(num(i)), VT(num(-k)) if k else VT(NONE), VT(NONE))), st)
            return [self.subscript(v, VT(num(j)), st) for j in range(i)] + [rest] + \
                   [self.subscript(v, VT(num(j - k)), st) for j in range(k)]
        out = []
        for i in range(n):
            if t.op == "tuple" and len(t.args) == n:
                out.append(self.obj(t.args[i]))
            else:
                out.append(self.subscript(v, VT(num(i)), st))
        return out

    def set_name(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            self.effects.append(Effect("global", "global:%s.%s" % (fr.mod.name, name), "global rebinding",
                                       fr.mod, st, tuple(self.stack), self.pc, (NONE, self.safe_term(v))))
            self.globals_memo[(fr.mod.name, name)] = v
            fr.env[name] = v
            return
        fr.env[name] = v

    def x_If(self, st):
        c = self.truth(self.eval(st.test), st)
        self.branch(c, lambda: self.exec_block(st.body), lambda: self.exec_block(st.orelse))

    def branch(self, c, fa, fb):
        if not self.live:
            return
        c = self.under_pc(c)
        if c is TRUE:
            fa()
            return
        if c is FALSE:
            fb()
            return
        fr = self.frames[-1]
        env0, heap0, pc0 = fr.env, self.heap, self.pc
        fr.env, self.heap, self.pc = dict(env0), dict(heap0), land(pc0, c)
        self.live = self.pc is not FALSE
        if self.live:
            fa()
        e1, h1, p1, l1 = fr.env, self.heap, self.pc, self.live
        fr.env, self.heap, self.pc = dict(env0), dict(heap0), land(pc0, lnot(c))
        self.live = self.pc is not FALSE
        if self.live:
            fb()
        e2, h2, p2, l2 = fr.env, self.heap, self.pc, self.live
        self.join(c, (e1, h1, p1, l1), (e2, h2, p2, l2))

    def join(self, c, s1, s2):
        fr = self.frames[-1]
        e1, h1, p1, l1 = s1
        e2, h2, p2, l2 = s2
        if l1 and not l2:
            fr.env, self.heap, self.pc, self.live = e1, h1, p1, True
            return
        if l2 and not l1:
            fr.env, self.heap, self.pc, self.live = e2, h2, p2, True
            return
        if not l1 and not l2:
            fr.env, self.heap, self.live = e1, h1, False
            self.pc = FALSE
            return
        self.heap = self.merge_heap(c, h1, h2)
        env = {}
        for n in list(e1) + [n for n in e2 if n not in e1]:
            if n in e1 and n in e2:
                env[n] = self.merge_val(c, e1[n], e2[n], h1, h2)
            else:
                env[n] = e1.get(n) or e2.get(n)
        fr.env = env
        self.pc = lor(p1, p2)
        self.live = True

    def under_pc(self, c):
        """simplify a condition under the current path condition"""
        if self.pc is TRUE:
            return c
        facts = self.pc.args if self.pc.op == "and" else (self.pc,)
        m = {}
        for f in facts:
            m[f] = TRUE
            m[lnot(f)] = FALSE
        if c in m:
            return m[c]
        if c.op in ("and", "or"):
            args = [m.get(a, a) for a in c.args]
            return land(*args) if c.op == "and" else lor(*args)
        return c

    def x_With(self, st):
        for it in st.items:
            cv = self.eval(it.context_expr)
            t = self.safe_term(cv)
            self.events.append(Event("with", [t], {}, self.pc, self.frames[-1].mod, st, tuple(self.stack)))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.enter(cv, it.context_expr), st)
        self.exec_block(st.body)

    def enter(self, cv, node):
        t = self.safe_term(cv)
        if t.op == "call" and t.args[0] in ("importlib.resources.as_file",):
            return self.obj(t.args[1][0])
        return cv

    def x_Try(self, st):
        fr = self.frames[-1]
        env0, heap0, pc0 = dict(fr.env), dict(self.heap), self.pc
        nr = len(self.raises)
        nret = len(fr.returns)
        nattr, nkey, npos = len(self.attr_log), len(self.key_log), len(self.pos_log)
        self.exec_block(st.body)
        read, keys, places = self.attr_log[nattr:], self.key_log[nkey:], self.pos_log[npos:]
        if self.live:
            self.exec_block(st.orelse)
        if st.handlers:
            body = (fr.env, self.heap, self.pc, self.live)
            names = []
            for h in st.handlers:
                names.append(self.handler_names(h))
            allnames = sorted({n for ns in names for n in ns})
            # explicit raises of the body that a handler catches
            caught = FALSE
            keep = []
            for r in self.raises[nr:]:
                if any(self.catches(ns, r.exc) for ns in names):
                    caught = lor(caught, r.pc)
                else:
                    keep.append(r)
            explicit = [r for r in self.raises[nr:] if r not in keep]
            self.raises[nr:] = keep
            self.exc_n += 1
            implicit = mk("exc", ",".join(allnames), self.exc_key(st.body))
            if allnames == ["AttributeError"] and read:
                implicit = lor(*[land(p, lnot(self.M.has_attr(t, n))) for p, t, n in read])
            if set(allnames) <= {"KeyError", "LookupError"} and keys and all(m is not None for p, m in keys):
                implicit = lor(*[land(p, m) for p, m in keys])
            if "IndexError" in allnames and set(allnames) <= {"IndexError", "ValueError", "LookupError"} and all(
                    m is not None for p, m in places) and any(m is not FALSE for p, m in places):
                implicit = lor(*[land(p, m) for p, m in places])
            if explicit and caught is not FALSE and all(
                    self.catches(ns, r.exc) for r in explicit for ns in names[:1]) and \
                    self.only_explicit(st.body):
                c = caught
            else:
                c = lor(implicit, caught) if caught is not FALSE else implicit
            # returns inside the body happen only without exception
            for i in range(nret, len(fr.returns)):
                p, v, h = fr.returns[i]
                fr.returns[i] = (land(p, lnot(c)), v, h)
            states = []
            ctl = fr.loopctl[-1] if fr.loopctl else None
            for h in st.handlers:
                fr.env, self.heap, self.pc, self.live = dict(env0), dict(heap0), land(pc0, c), True
                if h.name:
                    fr.env[h.name] = VT(mk("excval", ",".join(allnames)))
                self.exec_block(h.body)
                states.append((fr.env, self.heap, self.pc, self.live))
            if states:
                # handlers: only the first one is distinguished, others merged on opaque choice
                hs = states[0]
                for i, s2 in enumerate(states[1:]):
                    self.join(mk("exc", "handler%d" % i, ""), hs, s2)
                    hs = (fr.env, self.heap, self.pc, self.live)
                b = (body[0], body[1], land(body[2], lnot(c)), body[3])
                self.join(c, hs, b)
        if st.finalbody:
            was, pcw = self.live, self.pc
            self.live = True
            self.exec_block(st.finalbody)
            self.live = was and self.live
            self.pc = pcw

    x_TryStar = x_Try

    def only_explicit(self, body):
        return False

    def exc_key(self, body):
        return "%d" % self.exc_n

    def handler_names(self, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def catches(self, names, exc):
        if "BaseException" in names or "Exception" in names:
            return True
        base = {"KeyError": "LookupError", "IndexError": "LookupError",
                "ModuleNotFoundError": "ImportError", "FileNotFoundError": "OSError"}
        e = exc.split(".")[-1]
        return e in names or base.get(e) in names

    # ----------------------------------------------------------------- loops
    def x_Continue(self, st):
        fr = self.frames[-1]
        fr.loopctl[-1]["continues"].append((self.pc, fr.env, self.heap))
        self.live = False

    def x_Break(self, st):
        fr = self.frames[-1]
        fr.loopctl[-1]["breaks"].append((self.pc, fr.env, self.heap))
        self.live = False

    def run_body(self, body):
        """one iteration, merging continue paths; returns list of break states"""
        fr = self.frames[-1]
        fr.loopctl.append({"continues": [], "breaks": []})
        self.exec_block(body)
        ctl = fr.loopctl.pop()
        for pc, env, heap in reversed(ctl["continues"]):
            cur = (fr.env, self.heap, self.pc, self.live)
            self.join(pc, (env, heap, pc, True), cur)
        return ctl["breaks"]

    def concrete_items(self, v, st):
        """list of V when the iterable is fully known, else None"""
        if v.kind == "tuple":
            return list(v.data)
        if v.kind == "list":
            es = self.heap[v.data]
            if all(e[0] == "item" and e[2] is TRUE for e in es):
                return [e[1] for e in es]
            return None
        if v.kind == "dict":
            return [VT(k) for k in self.heap[v.data]]
        if v.kind == "dictview":
            d = self.heap[v.data[0]]
            if v.data[1] == "items":
                return [V("tuple", (VT(k), x)) for k, x in d.items()]
            if v.data[1] == "values":
                return list(d.values())
            return [VT(k) for k in d]
        if v.kind == "range":
            a, b, s = v.data
            n = sub(b, a)
            if n.op == "num" and n.args[0].denominator == 1 and s.op == "num" and s.args[0].denominator == 1 \
                    and s.args[0] != 0:
                k = len(range(0, int(n.args[0]), int(s.args[0])))
                if k <= UNROLL and (k > 0 or TT.LENS):
                    return [VT(add(a, mul(s, num(i)))) for i in range(k)]
            return None
        if v.kind == "zip":
            cols = [self.concrete_items(x, st) for x in v.data]
            if all(c is not None for c in cols):
                return [V("tuple", xs) for xs in zip(*cols)]
            return None
        if v.kind == "enumerate":
            c = self.concrete_items(v.data[0], st)
            if c is not None:
                return [V("tuple", (VT(add(v.data[1], num(i))), x)) for i, x in enumerate(c)]
            return None
        if v.kind == "term" and v.data.op in ("tuple", "list"):
            if not any(x.op in ("seg", "guarded") for x in v.data.args):
                return [self.obj(x) for x in v.data.args]
        if v.kind == "obj":
            t = self.heap[v.data]
            if t.op in ("tuple", "list") and not any(x.op in ("seg", "guarded") for x in t.args):
                return [self.obj(x) for x in t.args]
        if TT.LENS and v.kind in ("term", "obj", "view"):
            t = self.term(v)
            L = self.M.lenof(t)
            if L.op == "num" and 0 <= L.args[0] <= UNROLL and t.op not in ("str", "fstr", "dict"):
                return [VT(index(t, num(k))) for k in range(int(L.args[0]))]
        return None

    def generic_item(self, v, K, st):
        """(element V at generic position K, number of iterations T)"""
        if v.kind == "range":
            a, b, s = v.data
            if s is ONE:
                return VT(add(a, K)), sub(b, a)
            n = mk("rangelen", a, b, s)
            return VT(add(a, mul(s, K))), n
        if v.kind == "zip":
            items, ns = [], []
            for x in v.data:
                e, n = self.generic_item(x, K, st)
                items.append(e)
                ns.append(n)
            n = ns[0]
            for m in ns[1:]:
                if m is not n:
                    n = minmax("min", n, m)
            return V("tuple", tuple(items)), n
        if v.kind == "enumerate":
            e, n = self.generic_item(v.data[0], K, st)
            return V("tuple", (VT(add(v.data[1], K)), e)), n
        if v.kind == "dictview":
            d = V("dict", v.data[0])
            raise Unsupported("symbolic dict iteration")
        if v.kind == "itemsof":
            t = self.term(v.data[0])
            key = mk("idx", mk("meth", t, "keys", (), ()), K)
            r = {content(x) for x in self.vroots(v.data[0])}
            val = self.obj(mk("idx", t, key), r)
            n = mk("lenof", t)
            if v.data[1] == "items":
                return V("tuple", (VT(key), val)), n
            if v.data[1] == "values":
                return val, n
            return VT(key), n
        if v.kind == "list":
            es = self.heap[v.data]
            if len(es) == 1 and es[0][0] == "seg" and es[0][3] is TRUE:
                _, k2, n, g, el = es[0]
                return self.obj(rewrite(el, {k2: K})), n
            t = self.term(v)
            return self.obj(mk("idx", t, K), {content(x) for x in self.vroots(v)}), mk("lenof", t)
        t = self.term(v)
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "seg" and t.args[0].args[2] is TRUE:
            k2, n, g, el = t.args[0].args
            return self.obj(rewrite(el, {k2: K})), n
        if self.M.mapping(t):
            return VT(mk("idx", mk("meth", t, "keys", (), ()), K)), self.lenof(t)
        r = {content(x) for x in self.vroots(v)}
        return self.obj(self.index_term(t, K), r), self.lenof(t)

    def index_term(self, t, i):
        return index(t, i)

    def x_For(self, st):
        it = self.eval(st.iter)
        self.for_over(it, st)

    def for_over(self, it, st):
        if it.kind in ("term", "obj"):
            t = self.term(it)
            if t.op == "none":
                self.do_raise("TypeError", st)
                return
            if t.op == "ite" and all(x.op in ("tuple", "list") for x in t.args[1:]):
                self.branch(t.args[0], lambda: self.for_over(self.obj(t.args[1]), st),
                            lambda: self.for_over(self.obj(t.args[2]), st))
                return
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= UNROLL:
            brk = []
            for x in items:
                if not self.live:
                    break
                self.assign(st.target, x, st)
                brk += self.run_body(st.body)
            fr = self.frames[-1]
            if self.live and st.orelse:
                self.exec_block(st.orelse)
            for pc, env, heap in reversed(brk):
                self.join(pc, (env, heap, pc, True), (fr.env, self.heap, self.pc, self.live))
            return

        def head(K):
            e, n = self.generic_item(it, K, st)
            self.assign(st.target, e, st)
            return n, TRUE
        self.generic_loop(head, st.body, st)
        if self.live and st.orelse:
            self.exec_block(st.orelse)

    def x_While(self, st):
        if TT.LENS and self.unroll_while(st):
            return

        # counted while loops: some variable advances by a constant
        def head(K):
            c = self.truth(self.eval(st.test), st)
            return None, c
        self.generic_loop(head, st.body, st)

    def unroll_while(self, st):
        """bounded analysis: iterate while the test is decided"""
        fr = self.frames[-1]
        brk = []
        for it in range(4 * UNROLL):
            c = self.truth(self.eval(st.test), st)
            if c is FALSE:
                break
            if c is not TRUE:
                if it == 0:
                    return False
                raise Unsupported("while loop whose end depends on the data")
            brk += self.run_body(st.body)
            if not self.live:
                break
        else:
            raise Unsupported("long while loop")
        if self.live and st.orelse:
            self.exec_block(st.orelse)
        for pc, env, heap in reversed(brk):
            self.join(pc, (env, heap, pc, True), (fr.env, self.heap, self.pc, self.live))
        return True

    def assigned_names(self, body, extra=()):
        out = set()
        for b in list(body) + list(extra):
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        return out

    def generic_loop(self, head, body, st):
        fr = self.frames[-1]
        self.loopdepth += 1
        K = mk("K", self.loopdepth)
        try:
            self._generic_loop(head, body, st, fr, K)
        finally:
            self.loopdepth -= 1

    def snapshot(self):
        return (len(self.effects), len(self.events), len(self.raises), len(self.frames[-1].returns),
                self.nloop, self.exc_n)

    def restore(self, s):
        del self.effects[s[0]:]
        del self.events[s[1]:]
        del self.raises[s[2]:]
        del self.frames[-1].returns[s[3]:]
        self.nloop = s[4]
        self.exc_n = s[5]

    def _generic_loop(self, head, body, st, fr, K):
        for nme in stale_reads(body):
            # an iteration may see what an earlier one assigned
            if nme not in fr.env and not any(nme in x for x in (fr.mod.defs, dir(builtins))):
                fr.env[nme] = VT(mk("call", "unassigned", (S(nme),), ()))
        env0, heap0, pc0 = dict(fr.env), dict(self.heap), self.pc
        mods_env, mods_heap, mods_field = {}, {}, {}
        mods_list, mods_dict = {}, {}
        lid = self.nloop
        self.nloop += 1
        snap = self.snapshot()
        closed = {}        # mu -> closed form (induction variables)
        for attempt in range(6):
            self.restore(snap)
            self.nloop = lid + 1
            fr.env, self.heap, self.pc, self.live = dict(env0), dict(heap0), pc0, True
            # havoc what is known to change
            for n, mu in mods_env.items():
                if mu in closed:
                    fr.env[n] = VT(closed[mu])
                else:
                    init = env0.get(n)
                    if init is not None and init.kind in ("obj", "view"):
                        fr.env[n] = self.obj(mu, self.vroots(init), self.dtype_of(init))
                    else:
                        fr.env[n] = VT(mu)
            for l, mu in mods_heap.items():
                if isinstance(heap0[l], T):
                    self.heap[l] = closed.get(mu, mu)
            for (l, fname), mu in mods_field.items():
                c, f, o = self.heap[l]
                f = dict(f)
                old = f.get(fname)
                f[fname] = self.obj(mu, self.vroots(old) if old is not None else ())
                self.heap[l] = (c, f, o)
            for l, e in mods_list.items():
                self.heap[l] = heap0[l] + (e,)
            for l, ks in mods_dict.items():
                self.heap[l] = dict(heap0[l])
                self.heap[l].update((k, self.obj(mk("opaque", "entry of an earlier iteration"))) for k in ks)
            self.pc = TRUE
            n, cond = head(K)
            entry_env, entry_heap = dict(fr.env), dict(self.heap)
            breaks = []
            if cond is TRUE:
                breaks = self.run_body(body)
            else:
                def go():
                    breaks.extend(self.run_body(body))
                envb, heapb = dict(fr.env), dict(self.heap)
                self.pc = TRUE
                go()
            end_env, end_heap, end_pc, end_live = fr.env, self.heap, self.pc, self.live
            changed = False
            for nme in set(env0):
                if nme in mods_env or nme not in end_env:
                    continue
                if not same_val(end_env[nme], env0[nme]):
                    # reassigned in the loop
                    mods_env[nme] = mk("mu", lid, nme)
                    changed = True
            for l in heap0:
                if l in end_heap and end_heap[l] is not heap0[l] and l not in mods_heap:
                    if isinstance(heap0[l], T) and isinstance(end_heap[l], T):
                        mods_heap[l] = mk("mu", lid, "h%d" % self.heapname(l, env0))
                        changed = True
                    elif isinstance(heap0[l], tuple) and heap0[l] and isinstance(heap0[l][0], Cls):
                        f0, f1 = heap0[l][1], end_heap[l][1]
                        for fn_ in f1:
                            if (l, fn_) not in mods_field and (fn_ not in f0 or not same_val(f0[fn_], f1[fn_])):
                                mods_field[(l, fn_)] = mk("mu", lid, "f%d.%s" % (self.heapname(l, env0), fn_))
                                changed = True
                    elif isinstance(heap0[l], tuple) and l not in mods_list:
                        mods_list[l] = ("item", VT(mk("prev", self.loopdepth)), mk("prevs", self.loopdepth))
                        changed = True
                    elif isinstance(heap0[l], dict) and isinstance(end_heap[l], dict):
                        ks = {k for k, x in end_heap[l].items() if k in heap0[l] and not same_val(x, heap0[l][k])}
                        if not ks <= mods_dict.get(l, set()):
                            mods_dict[l] = mods_dict.get(l, set()) | ks
                            changed = True
            if changed:
                continue
            # induction variables
            new = {}
            for nme, mu in mods_env.items():
                if mu in closed or nme not in end_env:
                    continue
                e = end_env[nme]
                if e.kind not in ("term", "obj"):
                    continue
                stp = sub(self.term_in(e, end_heap), mu) if arith(self.term_in(e, end_heap)) else None
                i0 = env0[nme]
                if stp is not None and stp.op == "num" and i0.kind in ("term", "obj") \
                        and not breaks and arith(self.term_in(i0, heap0)):
                    new[mu] = add(self.term_in(i0, heap0), mul(stp, K))
            if new:
                closed.update(new)
                continue
            break
        loop = Loop(K, n, fr.mod.path, st.lineno)
        loop.id = lid
        loop.cond = cond
        loop.end_pc = end_pc
        loop.breaks = [b[0] for b in breaks]
        if n is None:
            n = self.while_count(cond, K)
            loop.n = n
        self.loops[lid] = loop
        # carried terms
        names = {}
        for nme, mu in mods_env.items():
            if mu in closed:
                continue
            i0, e = env0[nme], end_env.get(nme)
            t0 = self.safe_term_in(i0, heap0)
            t1 = self.safe_term_in(e, end_heap) if e is not None else mu
            loop.carried[mu] = (t0, t1)
            names[mu] = ("env", nme)
        for l, mu in mods_heap.items():
            loop.carried[mu] = (heap0[l], end_heap[l])
            names[mu] = ("heap", l)
        for (l, fnm), mu in mods_field.items():
            f0, f1 = heap0[l][1], end_heap[l][1]
            t0 = self.safe_term_in(f0[fnm], heap0) if fnm in f0 else mk("unset")
            loop.carried[mu] = (t0, self.safe_term_in(f1[fnm], end_heap))
            names[mu] = ("field", (l, fnm))
        loop.names = names
        # results
        import loopsum
        res = loopsum.summarise(self, loop)
        fr.env = dict(env0)
        self.heap = dict(heap0)
        self.pc, self.live = pc0, True
        # raises/effects recorded inside are relative to pc TRUE within the iteration
        for r in self.raises[snap[2]:]:
            r.pc = land(pc0, r.pc)
        for r in self.events[snap[1]:]:
            r.pc = land(pc0, r.pc)
            r.loops += 1
        # new heap locations created in the loop body stay reachable
        for l, c in end_heap.items():
            if l not in self.heap:
                self.heap[l] = c
        for mu, (kind, key) in names.items():
            t = res[mu]
            if kind == "env":
                old = env0[key]
                e = end_env.get(key)
                rts = set(self.vroots_in(old, heap0)) | (set(self.vroots_in(e, end_heap)) if e is not None else set())
                d = self.dtype_of(old)
                fr.env[key] = self.obj(t, rts, d)
            elif kind == "heap":
                self.heap[key] = t
            else:
                l, fnm = key
                c, f, o = self.heap[l]
                f = dict(f)
                f[fnm] = self.obj(t)
                self.heap[l] = (c, f, o)
        for nme, mu in mods_env.items():
            if mu in closed:
                fr.env[nme] = VT(rewrite(closed[mu], {K: n}) if n is not None else mk("loopout", lid, mu))
        # names first bound in the loop: value of the last iteration
        for nme, v in end_env.items():
            if nme not in env0:
                t = self.safe_term_in(v, end_heap)
                fr.env[nme] = v if v.kind in ("func", "class", "mod", "ext") else \
                    self.obj(mk("last", K, n if n is not None else NONE, t),
                             self.vroots_in(v, end_heap))
        # lists appended to
        for l in heap0:
            c0, c1 = heap0[l], end_heap.get(l)
            if isinstance(c0, tuple) and not (c0 and isinstance(c0[0], Cls)) and c1 is not c0 and isinstance(c1, tuple):
                hd = c0 + ((mods_list[l],) if l in mods_list else ())
                if c1[:len(hd)] == hd:
                    out = list(c0)
                    for e in c1[len(hd):]:
                        if e[0] == "item":
                            out.append(("seg", K, n if n is not None else mk("iters", lid),
                                        land(cond, e[2]), self.safe_term_in(e[1], end_heap)))
                        else:
                            out.append(("seg", K, n, land(cond, e[3]), self.segterm(("seg", e[1], e[2], TRUE, e[4]))))
                    out = [self.subst_entry(e, res) for e in out]
                    self.heap[l] = tuple(out)
                else:
                    self.heap[l] = (("seg", K, n, TRUE, mk("opaque", "rewritten list")),)
            elif isinstance(c0, dict) and isinstance(c1, dict) and c1 is not c0:
                d = dict(c0)
                for k, x in c1.items():
                    if k not in c0 or not same_val(x, c0[k]):
                        d[k] = self.obj(mk("last", K, n if n is not None else NONE,
                                           self.safe_term_in(x, end_heap)))
                self.heap[l] = d
        # early returns inside the loop
        for i in range(snap[3], len(fr.returns)):
            p, v, h = fr.returns[i]
            fr.returns[i] = (land(pc0, mk("someiter", K, n if n is not None else NONE, p)), v, h)

    def subst_entry(self, e, res):
        return e

    def heapname(self, l, env0):
        """stable small number for a heap location (by name order of first use)"""
        return l

    def safe_term_in(self, v, h):
        s = self.heap
        self.heap = h
        try:
            return self.safe_term(v)
        finally:
            self.heap = s

    def while_count(self, cond, K):
        """K + lo < hi  ->  hi - lo"""
        cs = cond.args if cond.op == "and" else (cond,)
        if len(cs) == 1:
            c = cs[0]
            if c.op in ("lt", "le") and c.args[0].op == "poly":
                p = c.args[0]
                r = rewrite(p, {K: ZERO})
                d = sub(p, r)
                if d is K or (d.op == "poly" and len(d.args[0]) == 1 and d.args[0][0][0] == ((K, ONE),)):
                    co = d.args[0][0][1] if d.op == "poly" else 1
                    if co > 0:
                        nn = div(neg(r), num(co))
                        return nn if c.op == "lt" else add(nn, ONE)
        return None

    # ----------------------------------------------------------- expressions
    def eval(self, node):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(node).__name__)
        v = m(node)
        if v.kind == "term":
            self.note(v.data, node)
        elif v.kind == "obj":
            self.note(self.heap[v.data], node)
        return v

    def e_Constant(self, node):
        return V("term", const(node.value), "float" if isinstance(node.value, float) else None)

    def e_Name(self, node):
        return self.lookup(node.id, node)

    def lookup(self, name, node):
        fr = self.frames[-1]
        if name in fr.env:
            return fr.env[name]
        c = fr.closure
        while c is not None:
            if name in c.env():
                return c.env()[name]
            c = c.parent()
        if name in fr.mod.defs:
            return self.global_value(fr.mod, name)
        if name not in BUILTINS and self.is_local(fr.func, name):
            self.do_raise("UnboundLocalError", node)
            return VT(mk("dead", name))
        return V("ext", "builtins." + name)

    def is_local(self, func, name):
        node = getattr(func, "node", None)
        if not isinstance(node, ast.FunctionDef):
            return False
        k = (id(node), name)
        if k not in self.locals_seen:
            self.locals_seen[k] = (node, name in self.assigned_names(node.body) and not any(
                isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names for n in ast.walk(node)))
        return self.locals_seen[k][1]

    def e_Tuple(self, node):
        return V("tuple", tuple(self.seq_elts(node.elts)))

    def seq_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                it = self.concrete_items(v, e)
                if it is None:
                    raise Unsupported("star of opaque")
                out.extend(it)
            else:
                out.append(self.eval(e))
        return out

    def e_List(self, node):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                it = self.concrete_items(v, e)
                if it is not None:
                    out.extend(("item", x, TRUE) for x in it)
                elif v.kind == "list":
                    out.extend(self.heap[v.data])
                else:
                    el, n = self.generic_item(v, mk("K", self.loopdepth + 1), e)
                    out.append(("seg", mk("K", self.loopdepth + 1), n, TRUE, self.term(el)))
            else:
                out.append(("item", self.eval(e), TRUE))
        return self.newlist(out)

    def e_Set(self, node):
        return self.newlist([("item", x, TRUE) for x in self.seq_elts(node.elts)])

    def e_Dict(self, node):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                vv = self.eval(v)
                if vv.kind == "dict":
                    d.update(self.heap[vv.data])
                else:
                    raise Unsupported("** of opaque in dict")
                continue
            d[self.term(self.eval(k))] = self.eval(v)
        return V("dict", self.loc(d))

    def e_JoinedStr(self, node):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(S(p.value))
            else:
                t = self.safe_term(self.eval(p.value))
                if t.op == "str" and p.format_spec is None and p.conversion == -1:
                    parts.append(t)
                else:
                    spec = S("")
                    if p.format_spec is not None:
                        spec = self.term(self.eval(p.format_spec))
                    parts.append(mk("fstr", t, spec))
        if not parts:
            return VT(S(""))
        r = parts[0]
        if len(parts) == 1:
            if r.op == "fstr" and r.args[1] is S(""):
                r = mk("call", "builtins.str", (r.args[0],), ())
            return VT(r)
        return VT(concat(*parts))

    def e_FormattedValue(self, node):
        return VT(mk("fstr", self.safe_term(self.eval(node.value)), S("")))

    def e_Attribute(self, node):
        b = self.eval(node.value)
        return self.getattr(b, node.attr, node)

    def e_Subscript(self, node):
        b = self.eval(node.value)
        return self.subscript(b, self.eval_index(node.slice), node)

    def eval_index(self, node):
        if isinstance(node, ast.Slice):
            f = lambda x: self.eval(x) if x is not None else VT(NONE)
            return V("slice", (f(node.lower), f(node.upper), f(node.step)))
        if isinstance(node, ast.Tuple):
            return V("tuple", tuple(self.eval_index(e) for e in node.elts))
        return self.eval(node)

    def e_Slice(self, node):
        return self.eval_index(node)

    def e_Lambda(self, node):
        fr = self.frames[-1]
        return V("func", Func(node, fr.mod, ClosureEnv(fr), self.curqual() + "<lambda>"))

    def e_IfExp(self, node):
        c = self.under_pc(self.truth(self.eval(node.test), node))
        if c is TRUE:
            return self.eval(node.body)
        if c is FALSE:
            return self.eval(node.orelse)
        out = {}

        def fa():
            out["a"] = self.eval(node.body)
            out["ha"] = self.heap

        def fb():
            out["b"] = self.eval(node.orelse)
            out["hb"] = self.heap
        self.branch(c, fa, fb)
        if "a" in out and "b" in out:
            return self.merge_val(c, out["a"], out["b"], out["ha"], out["hb"])
        return out.get("a") or out.get("b") or VT(NONE)

    def e_NamedExpr(self, node):
        v = self.eval(node.value)
        self.assign(node.target, v, node)
        return v

    def e_Starred(self, node):
        raise Unsupported("starred")

    def truth(self, v, node=None):
        k = v.kind
        if k == "term" or k == "obj":
            t = self.term(v)
            return self.truth_term(t)
        if k == "tuple":
            return TRUE if v.data else FALSE
        if k == "list":
            es = self.heap[v.data]
            if not es:
                return FALSE
            if any(e[0] == "item" and e[2] is TRUE for e in es):
                return TRUE
            return mk("truth", self.term(v))
        if k == "dict":
            return TRUE if self.heap[v.data] else FALSE
        if k in ("func", "class", "mod", "ext", "inst", "bmeth"):
            return TRUE
        return mk("truth", self.safe_term(v))

    def truth_term(self, t):
        if is_bool(t):
            return t
        if t.op == "none":
            return FALSE
        if t.op == "num":
            return TRUE if t.args[0] != 0 else FALSE
        if t.op == "str":
            return TRUE if t.args[0] else FALSE
        if t.op in ("nan", "inf"):
            return TRUE
        if TT._count(t) or t.op == "lenof":
            return lt(ZERO, t)
        if t.op == "fld" and t.args[1] in ("tzinfo", "tz"):
            return lnot(mk("isnone", t))
        if t.op in ("list", "tuple"):
            if not t.args:
                return FALSE
            if all(is_const(x) or x.op in ("par", "list", "tuple") for x in t.args):
                return TRUE
        if t.op == "ite":
            return ite(t.args[0], self.truth_term(t.args[1]), self.truth_term(t.args[2]),
                       scalar=t.args[0] in SCALAR_CONDS)
        return mk("truth", t)

    def e_BoolOp(self, node):
        # value semantics only matter for booleans in this code base
        isand = isinstance(node.op, ast.And)
        terms = []
        pc0 = self.pc
        vals = []
        for i, e in enumerate(node.values):
            # later operands are evaluated under the earlier ones
            v = self.eval(e)
            vals.append(v)
            terms.append(self.truth(v, e))
        self.pc = pc0 if self.live else self.pc
        if all(v.kind in ("term", "obj") and is_bool(self.term(v)) for v in vals):
            return VT(land(*terms) if isand else lor(*terms))
        if isand:
            r = vals[-1]
            for c, v in zip(reversed(terms[:-1]), reversed(vals[:-1])):
                r = self.merge_val(c, r, v, self.heap, self.heap)
        else:
            r = vals[-1]
            for c, v in zip(reversed(terms[:-1]), reversed(vals[:-1])):
                r = self.merge_val(c, v, r, self.heap, self.heap)
        return r

    def e_UnaryOp(self, node):
        v = self.eval(node.operand)
        if isinstance(node.op, ast.Not):
            return VT(lnot(self.truth(v, node)))
        t = self.term(v)
        if isinstance(node.op, ast.USub):
            r = self.val(neg(t), [v])
            if r.kind == "term" and v.kind == "term":
                r.extra = v.extra
            return r
        if isinstance(node.op, ast.UAdd):
            return v
        if is_bool(t):
            return self.val(lnot(t), [v])
        if t.op == "idx" and is_bool(t.args[0]):
            return self.val(lnot(t), [v])
        return self.val(mk("ew", "invert", t), [v])

    def val(self, t, src=()):
        """fresh value"""
        if is_const(t):
            return VT(t)
        return self.obj(t)

    OPS = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.Pow: power}

    def e_BinOp(self, node):
        a = self.eval(node.left)
        b = self.eval(node.right)
        return self.binop(node.op, a, b, node)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.Add) and (a.kind == "list" and b.kind == "list"):
            return self.newlist(self.heap[a.data] + self.heap[b.data])
        if isinstance(op, ast.Add) and a.kind == "tuple" and b.kind == "tuple":
            return V("tuple", a.data + b.data)
        if isinstance(op, ast.Mult) and a.kind == "list" and b.kind == "term" and b.data.op == "num":
            return self.newlist(self.heap[a.data] * int(b.data.args[0]))
        x, y = self.term(a), self.term(b)
        f = self.OPS.get(type(op))
        if isinstance(op, ast.Div) and path_like(x):
            return self.obj(mk("call", "pathjoin", (x, y), ()))
        if f is not None:
            if f is div and y is ZERO:
                return self.obj(mk("divzero", x))
            r = self.val(f(x, y))
            if r.kind == "term" and (isinstance(op, ast.Div) or "float" in (a.extra, b.extra)):
                r.extra = "float"
            return r
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            bx, by = self.boolish(x), self.boolish(y)
            if isinstance(op, ast.BitAnd):
                return self.val(land(bx, by))
            if isinstance(op, ast.BitOr):
                return self.val(lor(bx, by))
            return self.val(lxor(bx, by))
        if isinstance(op, ast.Mod):
            if x.op == "str":
                r = fill(x.args[0], "%s", y.args if y.op == "tuple" else (y,)) if x.op == "str" else None
                return VT(r or mk("fstr", x, y))
            if x.op == "num" and y.op == "num":
                return VT(num(x.args[0] % y.args[0]))
            return self.val(mk("ew", "mod", x, y))
        if isinstance(op, ast.FloorDiv):
            if x.op == "num" and y.op == "num" and y.args[0] != 0:
                return VT(num(x.args[0] // y.args[0]))
            return self.val(ew("floor", div(x, y)))
        if isinstance(op, ast.MatMult):
            return self.val(mk("dot", x, y))
        return self.val(mk("call", "op." + type(op).__name__, (x, y), ()))

    def boolish(self, t):
        if is_bool(t) or t.op in ("num",):
            return t
        if t.op == "ew" and t.args[0] == "invert":
            return lnot(self.boolish(t.args[1]))
        return mk("truth", t) if t.op not in ("none",) else t

    def e_Compare(self, node):
        left = self.eval(node.left)
        res = []
        for op, rn in zip(node.ops, node.comparators):
            right = self.eval(rn)
            res.append(self.compare(op, left, right, node))
            left = right
        return VT(land(*res)) if len(res) > 1 else self.val(res[0])

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            x, y = self.safe_term(a), self.safe_term(b)
            if y.op == "none" or x.op == "none":
                o = x if y.op == "none" else y
                v = a if y.op == "none" else b
                if v.kind in ("list", "dict", "inst", "tuple", "func", "class", "ext", "mod"):
                    r = FALSE
                else:
                    r = isnone(o)
            elif y.op == "bool" and is_bool(x):
                r = x if y is TRUE else lnot(x)
            elif "ext" in (a.kind, b.kind) and a.kind != b.kind and "inspect._empty" in (a.data, b.data):
                r = FALSE
            else:
                r = eq(x, y) if a.kind == "term" or b.kind == "term" else (
                    TRUE if a.kind == b.kind and a.data is b.data else mk("eq", x, y))
            return r if isinstance(op, ast.Is) else lnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, node)
            return r if isinstance(op, ast.In) else lnot(r)
        x, y = self.term(a), self.term(b)
        if isinstance(op, ast.Eq):
            return eq(x, y)
        if isinstance(op, ast.NotEq):
            return lnot(eq(x, y))
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.LtE):
            return le(x, y)
        if isinstance(op, ast.Gt):
            return gt(x, y)
        if isinstance(op, ast.GtE):
            return ge(x, y)
        raise Unsupported("compare")

    def contains(self, a, b, node):
        x = self.term(a)
        items = self.concrete_items(b, node) if b.kind in ("tuple", "list", "dict", "dictview") else None
        if items is not None:
            ts = [self.term(i) for i in items]
            if all(is_const(t) for t in ts):
                return lor(*[eq(x, t) for t in ts]) if ts else FALSE
            if all(e is not None for e in [same_seq(x, t) for t in ts]):
                return lor(*[same_seq(x, t) for t in ts])
        return contains_term(x, self.term(b))

    # ------------------------------------------------------- comprehensions
    def e_ListComp(self, node):
        return self.comp(node.generators, lambda: self.eval(node.elt), node)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def comp(self, gens, elt, node):
        fr = self.frames[-1]
        saved = dict(fr.env)
        entries = []

        def rec(i, guard, segs):
            if i == len(gens):
                v = elt()
                if segs:
                    e = ("seg", segs[-1][0], segs[-1][1], guard, self.safe_term(v))
                    for k, n in reversed(segs[:-1]):
                        e = ("seg", k, n, TRUE, self.segterm(e))
                    entries.append(e)
                else:
                    entries.append(("item", v, guard))
                return
            g = gens[i]
            it = self.eval(g.iter)
            items = self.concrete_items(it, node)
            if items is not None and len(items) <= UNROLL:
                for x in items:
                    self.assign(g.target, x, node)
                    c = guard
                    for cnd in g.ifs:
                        c = land(c, self.truth(self.eval(cnd), node))
                    if c is not FALSE:
                        rec(i + 1, c, segs)
                return
            self.loopdepth += 1
            K = mk("K", self.loopdepth)
            try:
                x, n = self.generic_item(it, K, node)
                self.assign(g.target, x, node)
                c = guard
                for cnd in g.ifs:
                    c = land(c, self.truth(self.eval(cnd), node))
                rec(i + 1, c, segs + [(K, n)])
            finally:
                self.loopdepth -= 1
        rec(0, TRUE, [])
        for k in list(fr.env):
            if k not in saved:
                del fr.env[k]
        fr.env.update(saved)
        return self.newlist(entries)

    def e_DictComp(self, node):
        pairs = self.comp(node.generators,
                          lambda: V("tuple", (self.eval(node.key), self.eval(node.value))), node)
        es = self.heap[pairs.data]
        if all(e[0] == "item" and e[2] is TRUE for e in es):
            return self.newdict([(self.term(e[1].data[0]), e[1].data[1]) for e in es])
        return self.obj(mk("dictof", self.term(pairs)))

    # ------------------------------------------------------------------ calls
    def e_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr == "values" and not node.args and not node.keywords:
            b = self.eval(node.func.value)
            if b.kind in ("obj", "term"):
                return V("itemsof", (b, "values"))
        f = self.eval(node.func)
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                it = self.concrete_items(v, node)
                if it is None:
                    args.append(V("star", v))
                else:
                    args.extend(it)
            else:
                args.append(self.eval(a))
        for k in node.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if v.kind == "dict" and all(kk.op == "str" for kk in self.heap[v.data]):
                    for kk, x in self.heap[v.data].items():
                        kwargs[kk.args[0]] = x
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(f, args, kwargs, node)

    def call(self, f, args, kwargs, node):
        if not self.live:
            return VT(mk("dead"))
        k = f.kind
        if k == "func":
            if any(a.kind == "star" for a in args) or "**" in kwargs:
                return self.opaque_call(mk("fn", f.data.qual), args, kwargs, node)
            return self.call_func(f.data, args, kwargs, node)
        if k == "class":
            return self.instantiate(f.data, args, kwargs, node)
        if k == "ext":
            return self.M.call_ext(self, f.data, args, kwargs, node)
        if k == "bmeth":
            return self.M.call_method(self, f.data[0], f.data[1], args, kwargs, node)
        if k == "choice":
            return self.either(f, lambda x: self.call(x, args, kwargs, node))
        if k == "inst":
            m = self.find_method(self.heap[f.data][0], "__call__")
            if m is not None:
                m.self_v = f
                return self.call_func(m, args, kwargs, node)
        if k == "obj" and self.opaque_classes:
            t = self.heap[f.data]
            if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "cls":
                c = self.opaque_seen.get(t.args[0].args[0])
                m = c and self.find_method(c, "__call__")
                if m:
                    # by name, without arguments that repeat the default
                    a = m.node.args
                    names = [x.arg for x in a.args[1:]]
                    kw = dict(kwargs)
                    kw.update(zip(names, args))
                    for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                        if x in kw and isinstance(d, ast.Constant) and self.safe_term(kw[x]) is const(d.value):
                            kw.pop(x)
                    return self.opaque_call(t, [], kw, node)
        return self.opaque_call(self.safe_term(f), args, kwargs, node)

    def either(self, f, do):
        """apply do to both alternatives of a choice and join"""
        c, a, b = f.data
        out = {}

        def fa():
            out["a"] = do(a)
            out["ha"] = self.heap

        def fb():
            out["b"] = do(b)
            out["hb"] = self.heap
        self.branch(c, fa, fb)
        if "a" in out and "b" in out:
            if out["a"] is None:
                return None
            return self.merge_val(c, out["a"], out["b"], out["ha"], out["hb"])
        return out.get("a") or out.get("b")

    def opaque_call(self, head, args, kwargs, node):
        ts = tuple(self.arg_term(a) for a in args)
        ks = tuple(sorted((k, self.arg_term(v)) for k, v in kwargs.items()))
        t = mk("call", head, ts, ks)
        self.record(show(head) if isinstance(head, T) else head, ts, dict(ks), node, t)
        return self.obj(t)

    def arg_term(self, a):
        if a.kind == "star":
            return mk("star", self.safe_term(a.data))
        return self.safe_term(a)

    def record(self, name, ts, ks, node, result=None):
        self.events.append(Event(name, list(ts), ks, self.pc, self.frames[-1].mod, node,
                                 tuple(self.stack), result))
        self.watch_call(name, node)

    watch = None

    def watch_call(self, name, node):
        """the attributes of the watched object at a call that may fail"""
        if self.watch is not None and (name.rpartition(".")[2] in FALLIBLE or name in self.opaque_classes):
            fields = self.heap[self.watch.data][1]
            self.snaps.append((name, node, self.pc, {f: self.safe_term(v) for f, v in fields.items()}))

    opaque_classes = ()
    opaque_seen = {}
    cuts = ()

    def instantiate(self, cls, args, kwargs, node):
        if cls.name in self.opaque_classes:
            self.opaque_seen[cls.name] = cls
            self.watch_call(cls.name, node)
            init = self.find_method(cls, "__init__")
            ks = dict(kwargs)
            if init is not None:
                ks.update(zip([a.arg for a in init.node.args.args[1:]], args))
            return self.obj(mk("call", mk("cls", cls.name), (), tuple(sorted(
                (k, self.arg_term(v)) for k, v in ks.items()))))
        if cls.fields:
            env = {}
            for n, v in zip(cls.fields, args):
                env[n] = v
            env.update(kwargs)
            return V("inst", self.loc((cls, env, "nt")))
        v = V("inst", self.loc((cls, {}, "own")))
        init = self.find_method(cls, "__init__")
        if init is not None:
            init.self_v = v
            self.call_func(init, args, kwargs, node)
        return v

    # ------------------------------------------------------------- attributes
    def getattr(self, b, name, node):
        k = b.kind
        if k == "choice":
            return self.either(b, lambda x: self.getattr(x, name, node))
        if k == "mod":
            m = self.prog.modules.get(b.data)
            if m is not None:
                if name in m.defs:
                    return self.global_value(m, name)
                r = self.prog.resolve(b.data + "." + name)
                return self._resolved(r, b.data + "." + name)
            return V("ext", b.data + "." + name)
        if k == "ext":
            return self.M.ext_attr(self, b.data, name)
        if k == "inst":
            cls, fields, own = self.heap[b.data]
            if name in fields:
                return fields[name]
            m = self.find_method(cls, name)
            if m is not None:
                for d in m.node.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        m.self_v = b
                        return self.call_func(m, [], {}, node)
                m.self_v = b
                return V("func", m)
            ca = self.class_attr(cls, name)
            if ca is not None:
                return ca
            if own == "sym":
                # instance of unknown history: the attribute holds whatever an
                # earlier call left there
                v = self.obj(mk("attr", mk("self"), name), {"self." + name})
                f = dict(fields)
                f[name] = v
                self.heap[b.data] = (cls, f, own)
                return v
            return self.obj(mk("attr", mk("inst", cls.name, ()), name))
        if k == "class":
            m = self.find_method(b.data, name)
            if m is not None:
                return V("func", m)
            ca = self.class_attr(b.data, name)
            if ca is not None:
                return ca
            return self.obj(mk("attr", mk("cls", b.data.name), name))
        if k == "func" and name in ("__name__", "__doc__"):
            return VT(mk("fnattr", mk("fn", b.data.qual), name))
        if k in ("sig", "bound", "sigpar"):
            return self.M.sig_attr(self, b, name, node)
        if k in ("obj", "term"):
            self.attr_log.append((self.pc, self.safe_term(b), name))
        return self.M.get_attr(self, b, name, node)

    def setattr(self, b, name, v, node):
        if b.kind == "choice":
            return self.either(b, lambda x: self.setattr(x, name, v, node))
        if b.kind == "inst":
            cls, fields, own = self.heap[b.data]
            f = dict(fields)
            f[name] = v
            self.heap[b.data] = (cls, f, own)
            if own == "sym" or "self" in self.roots.get(b.data, ()):
                self.effect("setattr", {"self." + name}, "attribute store", node)
            r = [x for x in self.roots.get(b.data, ()) if x != "self"]
            if r:
                self.effect("write", r, "attribute store ." + name, node)
            return
        chain = b.kind in ("obj", "term", "view") and self.safe_term(b)
        while chain and chain.op in ("attr", "fld"):
            chain = chain.args[0]
        held = bool(chain) and chain.op in ("par", "self") and name in (
            "index", "columns", "shape", "dtype", "values", "data", "attrs", "flags", "encoding")
        # a selection of an object is a new object, an attribute of an object is the object held there
        r = [x for x in self.vroots(b) if held or not x.endswith("*")]
        if r:
            self.effect("write", r, "attribute store ." + name, node)
        if b.kind == "obj":
            self.heap[b.data] = mk("setattr", self.heap[b.data], name, self.safe_term(v))
        elif b.kind == "ext" or b.kind == "mod":
            self.effect("global", {"global:" + str(b.data)}, "attribute store ." + name, node)
        elif b.kind == "view":
            self.write_view(b, mk("setattr", self.view_term(b), name, self.safe_term(v)), node)

    # ---------------------------------------------------------------- arrays
    def lenof(self, t):
        return self.M.lenof(t)

    def subscript(self, b, ix, node):
        return self.M.subscript(self, b, ix, node)

    def store_sub(self, b, ix, v, node):
        return self.M.store_sub(self, b, ix, v, node)

    def view_term(self, v):
        return self.M.view_term(self, v)

    def write_view(self, v, t, node):
        return self.M.write_view(self, v, t, node)

    def write_obj(self, v, t, how, node):
        self.effect("write", self.vroots(v), how, node)
        if v.kind == "obj":
            self.heap[v.data] = t

    def list_extend(self, lst, v, node):
        self.effect("write", self.vroots(lst) - self.elem_roots(lst), "list extend", node)
        items = self.concrete_items(v, node)
        if items is not None:
            add_ = tuple(("item", x, TRUE) for x in items)
        elif v.kind == "list":
            add_ = self.heap[v.data]
        else:
            K = mk("K", self.loopdepth + 1)
            el, n = self.generic_item(v, K, node)
            add_ = (("seg", K, n, TRUE, self.term(el)),)
        self.heap[lst.data] = self.heap[lst.data] + add_

    def elem_roots(self, lst):
        return frozenset()


class ClosureEnv:
    """enclosing frame of a nested function (late binding)"""

    def __init__(self, fr):
        self.fr = fr

    def env(self):
        return self.fr.env

    def parent(self):
        return self.fr.closure


def content(r):
    return r if r.endswith("*") else r + "*"


def same_val(a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind in ("obj", "list", "dict", "inst", "mod", "ext", "term"):
        return a.data == b.data if a.kind != "term" else a.data is b.data
    if a.kind == "tuple":
        return len(a.data) == len(b.data) and all(same_val(x, y) for x, y in zip(a.data, b.data))
    if a.kind == "func":
        return a.data.node is b.data.node
    return False


def arith(t):
    return t.op not in ("str", "list", "tuple", "concat", "none", "dict", "guarded", "opaque", "nan",
                        "bool", "ite") and not is_bool(t)


def path_like(t):
    return (t.op == "call" and t.args[0] in ("pathlib.Path", "pathjoin", "importlib.resources.files",
                                             "pathlib.Path.cwd", "pathlib.Path.home")) or \
        (t.op == "meth" and t.args[1] in ("expanduser", "joinpath", "resolve", "absolute") and path_like(t.args[0])) \
        or (t.op == "attr" and t.args[1] == "parent" and path_like(t.args[0]))
