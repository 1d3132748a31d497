"""Calls leave no trace: no hidden state, no settings, files or installations."""
import ast
import core
import history as H
import terms as TT
from terms import *  # noqa
from models import is_scalar
TECHNIQUE = ("interprocedural effect analysis of module state, default arguments, class attributes and process-wide settings "
             "with cache-key completeness, path conditions of installations, and purity of the external calls")
MINIMUM = 90
STATE = "no state kept between calls changes a result"
PURE = "no random, clock or process-wide effect"
INSTALL = "installs software only if allowed"
RANDOM = ("numpy.random.", "random.", "secrets.", "uuid.", "torch.rand", "torch.randn", "torch.randperm", "time.time",
          "time.perf_counter", "time.monotonic", "datetime.datetime.now", "datetime.datetime.today", "datetime.date.today",
          "pandas.Timestamp.now", "pandas.Timestamp.today", "os.urandom", "time.localtime", "datetime.datetime.utcnow")
SETTING = ("numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "warnings.simplefilter", "warnings.filterwarnings",
           "warnings.resetwarnings", "pandas.set_option", "xarray.set_options", "os.chdir", "os.putenv", "os.unsetenv",
           "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "os.environ.__setitem__",
           "locale.setlocale", "logging.basicConfig", "logging.disable", "torch.set_default_dtype", "torch.manual_seed",
           "torch.set_num_threads", "torch.set_grad_enabled", "torch.use_deterministic_algorithms", "random.seed",
           "numpy.random.seed", "matplotlib.use", "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update",
           "socket.setdefaulttimeout", "sys.setrecursionlimit", "sys.path.append", "sys.path.insert", "gc.disable",
           "os.umask", "torch.set_default_device", "torch.set_default_tensor_type", "time.tzset", "signal.signal",
           "threading.setprofile", "sys.settrace", "faulthandler.enable", "builtins.setattr", "tensorflow.random.set_seed")
WRITER = ("numpy.save", "numpy.savetxt", "numpy.savez", "pickle.dump", "joblib.dump", "json.dump", "torch.save",
          "matplotlib.pyplot.savefig", "os.remove", "os.unlink", "os.rmdir", "shutil.rmtree", "shutil.copy", "shutil.move",
          "os.rename", "os.replace", "os.makedirs", "os.mkdir", "urllib.request.urlretrieve", "wget.download", "os.system",
          "os.popen", "requests.get", "urllib.request.urlopen")
WRITER_METH = {"to_netcdf", "to_csv", "to_pickle", "to_zarr", "to_hdf", "to_parquet", "to_json", "to_excel", "savefig",
               "write_text", "write_bytes", "mkdir", "touch", "unlink", "rmdir", "symlink_to", "rmtree"}
PROCESS = ("subprocess.", "os.system", "os.popen", "pip.main", "pip._internal")
CONTEXT = {"warnings.catch_warnings", "xarray.set_options", "pandas.option_context", "numpy.errstate", "torch.no_grad",
           "torch.inference_mode", "torch.set_grad_enabled", "numpy.printoptions"}
# documented effects: the model cache
FILES_OF = ("pycomlink.processing.pytorch_utils.inference_utils", "pycomlink.processing.tensorflow_utils.inference_utils")
LOSSY = {"lenof", "shape", "red", "ndim"}


def check(ck):
    ck.assumptions = ["a hash or copy of an argument is taken to identify it", "external calls that are not listed have no lasting effect"]
    for mn, mod in sorted(ck.prog.modules.items()):
        purity(ck, mn, mod)
        for name, st in sorted(mod.defs.items(), key=lambda x: x[0]):
            if isinstance(st, ast.FunctionDef) and not name.startswith("_"):
                function(ck, mn + "." + name, st)
            elif isinstance(st, ast.ClassDef):
                klass(ck, mn + "." + name, st)
    L = "pycomlink.processing.tensorflow_utils.lazy_tf."
    for f in ("get_tf", "ensure_tensorflow_installed"):
        ck.defaults(L + f, {"auto_install": False})
    ck.defaults("pycomlink.processing.tensorflow_utils.run_inference.wet_dry_1d_cnn", {"install_tensorflow": False})


# ---------------------------------------------------------------- kept state
def function(ck, dotted, st):
    TT.SCALARS.clear(), TT.LENS.clear(), TT.NOTNONE.clear()
    try:
        o = ck.run(dotted)
    except core.AnalysisError:
        return
    except (core.Unsupported, RecursionError) as e:
        return ck.undecided(STATE, dotted, e)
    a = st.args
    defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]], a.defaults))
    defaults.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    mutable = {n for n, d in defaults.items() if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call))
               and not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("tuple", "frozenset", "float", "int", "str"))}
    bad = state(ck, dotted, o.I, o.v, mutable)
    line = st.lineno
    for d in st.decorator_list:
        n = dec_name(d)
        if n.split(".")[-1] in ("lru_cache", "cache") and shared(o.I, o.v):
            bad.append((ck.prog.resolve(dotted)[1].path, line, "`%s` hands the same mutable result to every caller" % n))
    install(ck, dotted, o.I)
    finish(ck, dotted, bad)


def dec_name(d):
    d = d.func if isinstance(d, ast.Call) else d
    return ast.unparse(d)


def shared(I, v):
    return v.kind in ("list", "dict", "inst") or v.kind == "tuple" and any(shared(I, x) for x in v.data) \
        or v.kind == "obj" and not is_scalar(I.safe_term(v)) and I.safe_term(v).op not in ("num", "str", "bool", "none")


def finish(ck, where, bad):
    ck.count("functions")
    if bad is None:
        return
    if not bad:
        return ck.ok(STATE, where)
    seen = set()
    for path, line, msg in bad:
        if msg not in seen:
            seen.add(msg)
            ck.violation(STATE, where, path, line, msg, key="%s|%s|%s" % (STATE, where, msg))


def state(ck, where, I, v, mutable=()):
    bad = []
    kept = {}
    for e in I.effects:
        root = e.root.rstrip("*")
        if e.kind == "write" and root.split(".")[0] in mutable:
            bad.append((e.path, e.line, "%s changes the default value of `%s`, which later calls share" % (e.how, root.split(".")[0])))
        elif e.kind == "write" and root.startswith("default:"):
            bad.append((e.path, e.line, "%s changes the default value `%s`, which later calls share" % (e.how, root[8:])))
        elif root.startswith("global:"):
            if root == "global:numpy.seterr":
                continue        # reported as a setting
            kept.setdefault(root[7:], []).append(e)
    for name, es in kept.items():
        why = memo(ck, I, name, es)
        if why == "undecided":
            ck.undecided(STATE, where + "[" + name + "]", "module state with a key that is not recognised")
        elif why:
            bad.append((es[0].path, es[0].line, why))
    for r in I.vroots(v) if v is not None else ():
        if r.startswith("global:") and not r.endswith("*") and not r.startswith("global:pycomlink.processing.tensorflow_utils.lazy_tf.tf"):
            st = ck.prog.resolve(where)
            bad.append((st[1].path if len(st) > 1 else "", 0, "returns the module level object %s itself" % r[7:]))
        elif r.startswith("kept:") and shared(I, v):
            st = ck.prog.resolve(where)
            bad.append((st[1].path if len(st) > 1 else "", 0, "returns the very object that is kept in %s, so the caller "
                        "can change later results" % r[5:].rstrip("*")))
    return bad


def memo(ck, I, name, es):
    """state written by a call: a cache with a complete key changes no result"""
    for e in es:
        if e.detail is None:
            return "%s changes the module level `%s`" % (e.how, name)
    for e in es:
        key, val = e.detail
        vp, kp = H.pars(val), H.pars(key) if key is not None else set()
        if key is NONE:
            # a module variable: constant once set, or guarded by a comparison with the arguments
            if not vp:
                continue
            g = [x for x in walk(e.pc) if x.op in ("eq", "call", "meth") and H.pars(x) and any(
                y.op == "gstate" for y in walk(x))]
            if g:
                return "undecided"
            return "the module variable `%s` keeps a value that depends on %s: later calls with other arguments get it" % (
                name, ", ".join(sorted(vp)))
        miss = vp - kp
        if miss:
            return "the cache `%s` is looked up without %s, which the stored value depends on" % (name, ", ".join(sorted(miss)))
        for p in vp:
            P = mk("par", p)
            if P is not key and not any(x is P for x in walk(key, into=lambda x: not lossy(x, P))):
                return "the key of the cache `%s` keeps only a part of %s" % (name, p)
        own = H.attr_syms(val) - H.attr_syms(key)
        if own:
            return "the cache `%s`, shared by all objects, is looked up without self.%s, which the stored value depends on" % (
                name, sorted(own)[0])
    return None


def lossy(x, P):
    return x.op in LOSSY or x.op == "idx" and x.args[0] is P and x.args[1].op == "num" or \
        x.op == "call" and x.args[0] in ("builtins.id", "numpy.shape", "builtins.len") or \
        x.op == "fld" and x.args[1] in ("shape", "size", "name", "dims", "ndim", "dtype") or \
        x.op == "ew" and x.args[0] in ("round", "floor", "ceil", "cast_int", "rint", "trunc")


CHANGERS = {"append", "extend", "insert", "pop", "clear", "update", "setdefault", "add", "remove", "discard", "popitem",
            "sort", "reverse", "__setitem__"}


def class_state(ck, dotted, node):
    """(line, message, decided) for changes of mutable class attributes, which all objects of the class share"""
    attrs = {}
    for st in node.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(st.value, (ast.List, ast.Dict, ast.Set, ast.Call)):
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                if isinstance(t, ast.Name):
                    attrs[t.id] = st
    methods = [m for m in node.body if isinstance(m, ast.FunctionDef)]
    for m in methods:
        if m.name == "__init__":
            for n in ast.walk(m):
                for t in n.targets if isinstance(n, ast.Assign) else ():
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        attrs.pop(t.attr, None)
    out = []

    def shared_attr(e):
        if isinstance(e, ast.Attribute) and e.attr in attrs and (
                isinstance(e.value, ast.Name) and e.value.id in ("self", "cls", node.name)
                or ast.unparse(e.value) in ("type(self)", "self.__class__")):
            return e.attr
    for m in methods:
        alias = {}
        for n in ast.walk(m):
            if isinstance(n, ast.Assign) and shared_attr(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        alias[t.id] = shared_attr(n.value)

        def name_of(e):
            return shared_attr(e) or (alias.get(e.id) if isinstance(e, ast.Name) else None)
        for n in ast.walk(m):
            key = a = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                a, key = name_of(n.value), n.slice
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGERS:
                a = name_of(n.func.value)
                key = n.args[0] if n.func.attr in ("setdefault", "__setitem__") and n.args else None
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and shared_attr(t) and not (
                            isinstance(t.value, ast.Name) and t.value.id == "self"):
                        a = shared_attr(t)
            if a is None:
                continue
            part = key is None or all(not isinstance(x, ast.Name) or not isinstance(x.ctx, ast.Load) or weak_use(x)
                                      for x in ast.walk(key))
            out.append((n.lineno, "%s changes the class attribute `%s`, which all objects share%s" % (
                m.name, a, "" if key is None else ", under a key that keeps only a part of the arguments" if part else ""),
                part))
    return out + class_caches(node, methods, attrs)


def class_caches(node, methods, known):
    """results kept on the class by assignment and read again: right only if what they belong to is kept there too"""
    def of_class(e):
        if isinstance(e, ast.Attribute) and e.attr not in known and (
                isinstance(e.value, ast.Name) and e.value.id in ("cls", node.name)
                or ast.unparse(e.value) in ("type(self)", "self.__class__")):
            return e.attr
    stored = {}
    for m in methods:
        for n in ast.walk(m):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and of_class(n):
                stored.setdefault(n.attr, (n, m))
    out = []
    for attr, (st, m0) in stored.items():
        reads = [(n, m) for m in methods for n in ast.walk(m) if isinstance(n, ast.Attribute)
                 and isinstance(n.ctx, ast.Load) and n.attr == attr]
        for n, m in reads:
            tests, p, child = [], getattr(n, "_parent", None), n
            while p is not None and p is not m:
                if isinstance(p, (ast.If, ast.IfExp, ast.While)) and child is not p.test:
                    tests.append(p.test)
                p, child = getattr(p, "_parent", None), p
            others = {x.attr for t in tests for x in ast.walk(t) if isinstance(x, ast.Attribute) and (
                of_class(x) or x.attr in stored or x.attr in known)} - {attr}
            out.append((n.lineno, "%s reads the class attribute `%s`, which %s sets for all objects" % (
                m.name, attr, m0.name), not others))
            break
    return out


def weak_use(name):
    """a name in a key that only stands for its size or identity"""
    p = getattr(name, "_parent", None)
    if isinstance(p, ast.Call) and p.func is name:
        return True
    while p is not None and isinstance(p, (ast.Call, ast.Attribute)):
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("len", "id"):
            return True
        if isinstance(p, ast.Attribute) and p.attr in ("shape", "size", "ndim", "dtype"):
            return True
        p = getattr(p, "_parent", None)
    return False


def klass(ck, dotted, node):
    cs = class_state(ck, dotted, node)
    for line, msg, part in cs:
        if part:
            ck.violation(STATE, dotted, ck.prog.resolve(dotted)[1].path, line, msg)
        else:
            ck.undecided(STATE, dotted, msg)
    for m in node.body:
        if not isinstance(m, ast.FunctionDef) or not m.args.args or m.args.args[0].arg != "self" or any(
                isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") for d in m.decorator_list):
            continue
        TT.SCALARS.clear()
        where = dotted + "." + m.name
        try:
            I, r, fields, names, _ = H.run_method(ck, dotted, m.name)
        except (core.Unsupported, RecursionError) as e:
            ck.undecided(STATE, where, e)
            continue
        bad = state(ck, where, I, None)
        install(ck, where, I)
        finish(ck, where, bad)


# ------------------------------------------------------------- installations
def install(ck, where, I):
    for e in I.events:
        if not e.name.startswith(PROCESS):
            continue
        words = {x.args[0] for a in list(e.args) + list(e.kwargs.values()) for x in walk(a) if x.op == "str"}
        text = " ".join(words)
        if not ("pip" in words or "conda" in words or "install" in text):
            continue
        ck.count("installations")
        env = [x for x in walk(e.pc) if x.op == "eq" and S("1") in x.args and any(
            y is S("ALLOW_TF_AUTOINSTALL") for y in walk(x)) and not any(
            y.op in ("call", "meth") and y.args[-2][1:] == (S("1"),) or y.op == "meth" and y.args[2][1:] == (S("1"),)
            for y in walk(x))]
        allowed = lor(mk("truth", mk("par", "auto_install")), mk("truth", mk("par", "install_tensorflow")))
        for x in env:
            allowed = lor(allowed, x)
        r = core.implied(e.pc, allowed)
        if r:
            ck.ok(INSTALL, where)
        elif r is False:
            ck.violation(INSTALL, where, e.path, e.line, "%s installs software although neither auto_install nor "
                         "ALLOW_TF_AUTOINSTALL=1 allows it" % e.name)
        else:
            ck.undecided(INSTALL, where, "condition of the installation")


# --------------------------------------------------------------------- purity
def purity(ck, mn, mod):
    calls = 0
    bad = []
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript):
                    d = dotted(ck, mod, t.value)
                    if d in ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams"):
                        bad.append((n, "changes %s" % d))
                elif isinstance(t, ast.Attribute):
                    d = dotted(ck, mod, t)
                    if d and not d.startswith("pycomlink") and d.split(".")[0] in IMPORTED(mod):
                        bad.append((n, "changes %s" % d))
        if not isinstance(n, ast.Call):
            continue
        calls += 1
        d = dotted(ck, mod, n.func)
        meth = n.func.attr if isinstance(n.func, ast.Attribute) else None
        inside = enclosing(n)
        if d in SETTING:
            if d == "builtins.setattr" or context(ck, mod, n, d):
                continue
            bad.append((n, "%s changes a setting of the whole process" % d))
        elif d and any(d == r or r.endswith(".") and d.startswith(r) for r in RANDOM):
            if mn in FILES_OF or d.startswith("numpy.random.default_rng") and n.args:
                continue
            bad.append((n, "the result depends on %s" % d))
        elif d and d.startswith(PROCESS):
            if not mn.endswith("lazy_tf"):
                bad.append((n, "%s starts a process" % d))
        elif mn not in FILES_OF and (d in WRITER or d in ("builtins.open", "io.open", "h5py.File") and writes(n, d)):
            bad.append((n, "%s writes outside the process" % d))
        elif mn not in FILES_OF and meth in WRITER_METH and (d is None or not d.startswith("pycomlink")):
            bad.append((n, ".%s writes a file" % meth))
    ck.count("calls", calls)
    if not bad:
        return ck.ok(PURE, mn, "%d calls" % calls)
    for n, msg in bad:
        f = enclosing(n)
        ck.violation(PURE, mn + ("." + f.name if f else ""), mod.path, n.lineno, msg)


def IMPORTED(mod):
    return {n for n, e in mod.defs.items() if isinstance(e, tuple)} | {"os", "numpy", "pandas", "xarray", "warnings", "matplotlib", "torch"}


def enclosing(n):
    while n is not None and not isinstance(n, ast.FunctionDef):
        n = getattr(n, "_parent", None)
    return n


def context(ck, mod, n, d):
    """the setting is restored by a with statement"""
    p = n
    while p is not None:
        if isinstance(p, (ast.With, ast.AsyncWith)):
            for it in p.items:
                c = it.context_expr
                if c is n:
                    return True
                if isinstance(c, ast.Call) and dotted(ck, mod, c.func) in CONTEXT and (
                        d.startswith("warnings.") == (dotted(ck, mod, c.func) == "warnings.catch_warnings")):
                    return True
        p = getattr(p, "_parent", None)
    return False


def writes(n, d):
    i = 1
    m = next((k.value for k in n.keywords if k.arg == "mode"), n.args[i] if len(n.args) > i else None)
    if m is None:
        return False
    return not isinstance(m, ast.Constant) or bool(set(str(m.value)) & set("wax+"))


def dotted(ck, mod, n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    p = n
    name = n.id
    # names bound in an enclosing function
    loc = local(n, name)
    if loc is not None:
        return None if loc == "" else ".".join([loc] + parts[::-1])
    e = mod.defs.get(name)
    if isinstance(e, tuple):
        base = ck.prog.import_target(mod, e)
    elif e is not None:
        base = mod.name + "." + name
    elif name in dir(__builtins__) or name in BUILTIN:
        base = "builtins." + name
    else:
        return None
    return ".".join([base] + parts[::-1])


BUILTIN = {"open", "print", "len", "id", "setattr", "exec", "eval"}


def local(n, name):
    f = enclosing(n)
    while f is not None:
        a = f.args
        if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]:
            return ""
        for s in ast.walk(f):
            if isinstance(s, ast.Import):
                for al in s.names:
                    if (al.asname or al.name.split(".")[0]) == name:
                        return al.name if al.asname else al.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                for al in s.names:
                    if (al.asname or al.name) == name:
                        return (s.module or "") + "." + al.name
            elif isinstance(s, ast.Name) and s.id == name and isinstance(s.ctx, ast.Store):
                if not any(isinstance(g, ast.Global) and name in g.names for g in ast.walk(f)):
                    return ""
        f = enclosing(getattr(f, "_parent", None))
    return None
