"""autoref.py [-s SEED] [-n N] [-k T2,T5] [FILE...]: random behaviour-preserving edits of every function of the package;
all checks must stay quiet. Prints the edits on which one does not."""
import ast, copy, glob, os, random, sys
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif/sa')
import refac, core
from multiprocessing import Pool

PURE_FN = {"np", "len", "float", "int", "range", "zip", "str", "list", "tuple", "min", "max", "abs", "xr", "pd"}

def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}

def bodies(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b

def locals_of(fn):
    par = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg: par.add(fn.args.vararg.arg)
    if fn.args.kwarg: par.add(fn.args.kwarg.arg)
    st = names(fn, ast.Store)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)): st -= set(n.names)
    return par, st - par

def simple(fn):
    return not any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Yield, ast.YieldFrom)) and n is not fn for n in ast.walk(fn))

def t_rename(fn, rng, mod):
    if not simple(fn): return False
    par, loc = locals_of(fn)
    if not loc: return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc: n.id += "_v"
        if isinstance(n, ast.ExceptHandler) and n.name in loc: n.name += "_v"
    return True

def t_extract_expr(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                stack = [(s.value, None)]
                while stack:
                    n, _ = stack.pop()
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp, ast.JoinedStr, ast.NamedExpr, ast.Starred)):
                        continue
                    for f, v in ast.iter_fields(n):
                        for k, x in enumerate(v if isinstance(v, list) else [v]):
                            if isinstance(x, ast.keyword): x2, holder, ff, kk = x.value, x, "value", None
                            else: x2, holder, ff, kk = x, n, f, (k if isinstance(v, list) else None)
                            if isinstance(x2, ast.expr):
                                if isinstance(x2, (ast.BinOp, ast.Call, ast.Compare, ast.Subscript, ast.UnaryOp)) and not (isinstance(n, ast.Call) and f == "func") \
                                        and not (isinstance(x2, ast.UnaryOp) and isinstance(x2.operand, ast.Constant)):
                                    c.append((b, i, holder, ff, kk, x2))
                                stack.append((x2, None))
    if not c: return False
    b, i, h, f, k, x = rng.choice(c)
    t = "part_%d" % rng.randrange(1000)
    new = ast.Name(t, ast.Load())
    if k is None: setattr(h, f, new)
    else: getattr(h, f)[k] = new
    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], x))
    return True

def t_inline(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i in range(len(b) - 1):
            s, n = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, (ast.Assign, ast.Return, ast.Expr)) and n.value is not None:
                v = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                inn = [x for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id == v]
                comp = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(n))
                if len(uses) == 2 and len(inn) == 1 and not comp: c.append((b, i, v))
    if not c: return False
    b, i, v = rng.choice(c)
    val = b[i].value
    class R(ast.NodeTransformer):
        def visit_Name(self, n): return val if n.id == v and isinstance(n.ctx, ast.Load) else n
    b[i + 1].value = R().visit(b[i + 1].value)
    del b[i]
    return True

def t_swap_if(fn, rng, mod):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse]
    if not c: return False
    n = rng.choice(c)
    n.body, n.orelse = n.orelse, n.body
    n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
    return True

def t_helper(fn, rng, mod):
    if not simple(fn): return False
    par, loc = locals_of(fn)
    b = fn.body
    lo = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    c = []
    for i in range(lo, len(b)):
        for j in range(i + 1, min(len(b), i + 6) + 1):
            blk = b[i:j]
            if any(isinstance(x, (ast.Return, ast.Global, ast.Import, ast.ImportFrom)) for s in blk for x in ast.walk(s)): break
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for s in blk for x in ast.walk(s)): break
            known = par | set().union(*[names(s, ast.Store) for s in b[:i]], set())
            reads = set().union(*[names(s, ast.Load) for s in blk])
            writes = set().union(*[names(s, ast.Store) for s in blk])
            comp = {n.id for s in blk for x in ast.walk(s) if isinstance(x, ast.comprehension) for n in ast.walk(x.target) if isinstance(n, ast.Name)}
            ins = sorted((reads | writes) & known & (par | loc))
            later = set().union(*[names(s, ast.Load) for s in b[j:]], set())
            outs = sorted((writes - comp) & later)
            # conditionally assigned outputs need a value before
            sure = set()
            for s in blk:
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)): sure |= names(s, ast.Store)
                elif isinstance(s, ast.With): sure |= set().union(*[names(q, ast.Store) for q in s.body if isinstance(q, ast.Assign)], set())
                elif isinstance(s, ast.If) and s.orelse and all(isinstance(q, ast.Assign) for q in s.body + s.orelse):
                    sure |= set().union(*[names(q, ast.Store) for q in s.body]) & set().union(*[names(q, ast.Store) for q in s.orelse])
            if any(o not in sure and o not in known for o in outs): continue
            if any(isinstance(x, (ast.If,)) for x in ast.walk(fn)) and any(n in ins and n not in par and n not in set().union(*[names(s, ast.Store) for s in b[:i] if isinstance(s, ast.Assign)], set()) for n in ins): continue
            if not outs and not any(isinstance(s, (ast.Expr, ast.Assign, ast.If, ast.For, ast.Raise)) for s in blk): continue
            if j - i == 1 and isinstance(blk[0], (ast.Expr, ast.Raise)): continue
            c.append((i, j, ins, outs))
    if not c: return False
    i, j, ins, outs = rng.choice(c)
    nm = "_part%d_of_" % sum(isinstance(s, ast.FunctionDef) for s in mod.body) + fn.name.strip("_")
    jit = [d for d in fn.decorator_list if "jit" in ast.unparse(d)]
    r = [ast.Name(o, ast.Load()) for o in outs]
    ret = [] if not r else [ast.Return(r[0] if len(r) == 1 else ast.Tuple(r, ast.Load()))]
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), b[i:j] + ret, copy.deepcopy(jit), None)
    call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
    if not outs: st = ast.Expr(call)
    else:
        t = [ast.Name(o, ast.Store()) for o in outs]
        st = ast.Assign([t[0] if len(t) == 1 else ast.Tuple(t, ast.Store())], call)
    b[i:j] = [st]
    h._new = True
    top = next(k for k, s in enumerate(mod.body) if s is fn or isinstance(s, ast.ClassDef) and fn in s.body)
    mod.body.insert(top, h)
    return True

def t_while(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name) \
                    and 1 <= len(s.iter.args) <= 2 and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)) and s.target.id not in set().union(*[names(q, ast.Store) for q in s.body]):
                c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    s = b[i]
    a = s.iter.args
    lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
    v = s.target.id
    L = ast.Name(v, ast.Load())
    w = ast.While(ast.Compare(L, [ast.Lt()], [hi]), s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])
    b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo), w]
    return True

def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            while isinstance(f, ast.Attribute): f = f.value
            if isinstance(f, ast.Name) and f.id in PURE_FN: continue
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("copy", "astype", "sum", "mean", "isel", "sel", "reshape", "isnull", "ravel"): continue
            return False
    return True

def t_reorder(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i in range(len(b) - 1):
            s, n = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, n)):
                if not names(s, ast.Store) & names(n) and not names(n, ast.Store) & names(s): c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True

def t_else(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b is fn.body: c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True

def t_unelse(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)): c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    rest = b[i].orelse
    b[i].orelse = []
    b[i + 1:i + 1] = rest
    return True

def t_comp(fn, rng, mod):
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    s = b[i]
    v = s.targets[0].id
    if v in names(s.value): return False
    tgts = {n.id for g in s.value.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    if sum(isinstance(x, ast.Name) and x.id in tgts and not any(y is x for y in ast.walk(s)) for x in ast.walk(fn)): return False
    inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
    for g in reversed(s.value.generators):
        for q in reversed(g.ifs): inner = [ast.If(q, inner, [])]
        inner = [ast.For(g.target, g.iter, inner, [])]
    b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load()))] + inner
    return True

def t_flip(fn, rng, mod):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in F]
    if not c: return False
    n = rng.choice(c)
    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [F[type(n.ops[0])]()]
    return True

def t_demorgan(fn, rng, mod):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp, ast.While)) and isinstance(n.test, ast.BoolOp)]
    if not c: return False
    n = rng.choice(c)
    o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
    return True

def t_ifexp(fn, rng, mod):
    """if c: x = a else: x = b  <->  x = a if c else b"""
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(q, ast.Assign) and len(q.targets) == 1 for q in s.body + s.orelse) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]): c.append((b, i, 0))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp): c.append((b, i, 1))
    if not c: return False
    b, i, k = rng.choice(c)
    s = b[i]
    if k == 0: b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    else:
        def mk(v):
            q = copy.deepcopy(s); q.value = v; return [q]
        b[i] = ast.If(s.value.test, mk(s.value.body), mk(s.value.orelse))
    return True

def t_enum(fn, rng, mod):
    """loops over enumerate/zip by index"""
    c = []
    for owner, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Name) and not s.orelse: c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    s = b[i]
    s.iter, s.target = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], []), ast.Tuple([ast.Name("_pos", ast.Store()), s.target], ast.Store())
    return True

def t_keep(fn, rng, mod):
    """return value in a variable"""
    c = [(b, i) for _, b in bodies(fn) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name)]
    if not c: return False
    b, i = rng.choice(c)
    b[i:i + 1] = [ast.Assign([ast.Name("outcome", ast.Store())], b[i].value), ast.Return(ast.Name("outcome", ast.Load()))]
    return True

def t_augment(fn, rng, mod):
    """count += 1 spelled out"""
    c = [(b, i) for _, b in bodies(fn) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant)]
    if not c: return False
    b, i = rng.choice(c)
    s = b[i]
    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return True

def t_dictcall(fn, rng, mod):
    """keyword arguments through a dictionary"""
    c = []
    for _, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and len(s.value.keywords) >= 2 and all(k.arg for k in s.value.keywords): c.append((b, i))
    if not c: return False
    b, i = rng.choice(c)
    call = b[i].value
    d = ast.Dict([ast.Constant(k.arg) for k in call.keywords], [k.value for k in call.keywords])
    call.keywords = [ast.keyword(None, ast.Name("options_", ast.Load()))]
    b.insert(i, ast.Assign([ast.Name("options_", ast.Store())], d))
    return True

T = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}

def edits(path, rng, kinds, k):
    src = open('/repo/' + path).read()
    tree = ast.parse(src)
    fns = [f for s in tree.body for f in ([s] if isinstance(s, ast.FunctionDef) else [m for m in s.body if isinstance(m, ast.FunctionDef)] if isinstance(s, ast.ClassDef) else [])]
    if not fns: return None
    fn = rng.choice(fns)
    done = []
    for _ in range(k * 4):
        n = rng.choice(kinds)
        if len(done) < k and T[n](fn, rng, tree): done.append(n)
    if not done: return None
    ast.fix_missing_locations(tree)
    try:
        out = ast.unparse(tree)
        ast.parse(out)
        compile(out, path, "exec")
    except Exception as e:
        return None
    return fn.name, done, out

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-s', type=int, default=1); ap.add_argument('-n', type=int, default=3); ap.add_argument('-k', default=''); ap.add_argument('-m', type=int, default=3); ap.add_argument('files', nargs='*')
    a = ap.parse_args()
    files = a.files or sorted(p[6:] for p in glob.glob('/repo/pycomlink/**/*.py', recursive=True) if '/tests/' not in p and not p.endswith('__init__.py'))
    kinds = a.k.split(',') if a.k else list(T)
    jobs = []
    for f in files:
        rng = random.Random("%s %d" % (f, a.s))
        seen = set()
        nf = len([1 for s in ast.walk(ast.parse(open('/repo/' + f).read())) if isinstance(s, ast.FunctionDef)])
        for n in range(a.n * max(1, nf)):
            e = edits(f, rng, kinds, rng.randint(1, a.m))
            if e and e[2] not in seen:
                seen.add(e[2]); jobs.append((f,) + e)
    print(len(jobs), 'edits', flush=True)
    bad = und = 0
    os.makedirs('/tmp/autoref', exist_ok=True)
    with Pool(8) as P:
        for n, (f, fname, done, out) in enumerate(jobs):
            rs = P.map(refac.one, [(p, {f: out}) for p in refac.ALL], chunksize=1)
            hit = [r for r in rs if r[1]]
            und += any(r[3] for r in rs)
            if hit:
                bad += 1
                p = '/tmp/autoref/%d_%d.py' % (a.s, n)
                open(p, 'w').write(out)
                print(f, fname, ','.join(done), 'HIT', [(r[0], r[2][:1] or r[3][:1]) for r in hit][:2], p, flush=True)
            for r in rs:
                if any(o[0] == 'crash' for o in r[3]): print(f, fname, ','.join(done), 'CRASH', r[0], r[3][:1], flush=True)
    print(len(jobs), 'edits', bad, 'alarms', und, 'with undecided')
