"""autobug.py [FILE...]: systematic small faults in every function; prints those that no check reports."""
import ast, copy, glob, os, sys
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif/sa')
import refac
from multiprocessing import Pool

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}

def mutants(tree):
    """(line, what, undo) with the tree changed in place"""
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        for n in list(ast.walk(fn)):
            if isinstance(n, (ast.Raise,)): continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = n.ops[0]; n.ops = [CMP[type(o)]()]; yield n, 'compare'; n.ops = [o]
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', None), str): continue
                o = n.op; n.op = BIN[type(o)](); yield n, 'operator'; n.op = o
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
                o = n.op; n.op = ast.UAdd() if isinstance(o, ast.Invert) else ast.Not()
                if isinstance(o, ast.Not):
                    n.operand = ast.UnaryOp(ast.Not(), n.operand); yield n, 'not'; n.operand = n.operand.operand
                else: yield n, 'invert'
                n.op = o
            if isinstance(n, ast.BoolOp):
                o = n.op; n.op = ast.Or() if isinstance(o, ast.And) else ast.And(); yield n, 'bool'; n.op = o
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                o = n.value; n.value = (not o) if isinstance(o, bool) else o + 1; yield n, 'const'; n.value = o
            if isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                    n.args[0], n.args[1] = n.args[1], n.args[0]; yield n, 'swap args'; n.args[0], n.args[1] = n.args[1], n.args[0]
                for k in list(n.keywords):
                    i = n.keywords.index(k); del n.keywords[i]; yield n, 'drop ' + str(k.arg); n.keywords.insert(i, k)
                ks = [k for k in n.keywords if k.arg]
                if len(ks) >= 2 and ast.dump(ks[0].value) != ast.dump(ks[1].value):
                    ks[0].value, ks[1].value = ks[1].value, ks[0].value; yield n, 'swap kwargs'; ks[0].value, ks[1].value = ks[1].value, ks[0].value
            if isinstance(n, ast.If):
                o = n.test
                n.test = ast.Constant(True); yield n, 'if true'
                n.test = ast.Constant(False); yield n, 'if false'
                n.test = o
            for f in ('body', 'orelse'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    for i, s in enumerate(list(b)):
                        if isinstance(s, (ast.AugAssign, ast.Expr, ast.If, ast.For)) or isinstance(s, ast.Assign):
                            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
                            b[i] = ast.copy_location(ast.Pass(), s); yield s, 'drop statement'; b[i] = s
        d = fn.args.defaults
        for i, x in enumerate(list(d)):
            o = d[i]
            if isinstance(o, ast.Constant) and (o.value is None or isinstance(o.value, str)):
                d[i] = ast.copy_location(ast.Constant(1 if o.value is None else 'x'), o); yield o, 'default'; d[i] = o

def base(p):
    import importlib, core
    ck = core.Check(p)
    importlib.import_module('props.' + p.lower()).check(ck)
    return p, {m for f in ck.functions for m in [f.rpartition('.')[0], f.rpartition('.')[0].rpartition('.')[0]]}


def job(a):
    f, line, what, text, out, pids = a
    u = []
    for p in pids:
        r = refac.one((p, {f: out}))
        if r[1]: return None
        u += [(r[0], r[3][0][1][:60])] if r[3] else []
    return '%s:%d %s%s: %s' % (f, line, what, ' UND ' + str(u[:2]) if u else '', text), bool(u)


if __name__ == '__main__':
    files = sys.argv[1:] or sorted(p[6:] for p in glob.glob('/repo/pycomlink/**/*.py', recursive=True) if '/tests/' not in p and not p.endswith('__init__.py'))
    with Pool(8) as P:
        rel = dict(P.map(base, refac.ALL, chunksize=1))
        for f in files:
            mod = f[:-3].replace('/', '.')
            pids = [p for p in refac.ALL if mod in rel[p]] + [p for p in ('C24', 'C20', 'C01', 'C23') if mod not in rel[p]]
            tree = ast.parse(open('/repo/' + f).read())
            jobs, seen = [], set()
            for node, what in mutants(tree):
                try:
                    out = ast.unparse(ast.fix_missing_locations(tree)); compile(out, f, 'exec')
                except Exception: continue
                if out in seen: continue
                seen.add(out)
                jobs.append((f, node.lineno, what, ast.unparse(node).split('\n')[0][:100], out, pids))
            rs = [r for r in P.imap(job, jobs) if r]
            for t, u in rs: print(t)
            print('==', f, pids, len(jobs), 'faults', len(rs), 'not reported', sum(u for t, u in rs), 'undecided', flush=True)
