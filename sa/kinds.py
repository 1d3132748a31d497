"""Which values may be a pandas Series where compiled (numba) code is called: it accepts arrays only."""
import ast

KEEPS = {"astype", "copy", "fillna", "ffill", "bfill", "interpolate", "shift", "diff", "clip", "round", "abs", "where", "mask", "dropna"}


def compiled(fn):
    for d in fn.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        if (d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) in ("jit", "njit", "vectorize", "guvectorize"):
            return True
    return False


class Flow:
    def __init__(self, prog, mod, fn, params, depth=0):
        self.prog, self.mod, self.depth = prog, mod, depth
        self.ser = set(params)            # names that may be a Series
        self.bad, self.calls = [], 0
        self.ret = False
        self.flags = {}                   # results of type tests -> names tested
        self.block(fn.body)

    def may(self, e):
        """the value of e may be a Series"""
        if isinstance(e, ast.Name):
            return e.id in self.ser
        if isinstance(e, ast.BinOp):
            return self.may(e.left) or self.may(e.right)
        if isinstance(e, ast.UnaryOp):
            return self.may(e.operand)
        if isinstance(e, ast.Compare):
            return self.may(e.left) or any(self.may(x) for x in e.comparators)
        if isinstance(e, ast.NamedExpr):
            return self.may(e.value)
        if isinstance(e, ast.IfExp):
            names = self.tested(e.test)
            return any(self.may(x) for x in (e.body, e.orelse) if not (isinstance(x, ast.Name) and x.id in names))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in KEEPS:
                return self.may(e.func.value)
            f = self.target(e)
            if f is not None and not compiled(f) and self.depth < 4:
                r = self.into(f, e)
                return r.ret
        return False

    def target(self, call):
        if isinstance(call.func, ast.Name):
            d = self.mod.defs.get(call.func.id)
            if isinstance(d, ast.FunctionDef):
                return d
        return None

    def into(self, f, call):
        names = [x.arg for x in f.args.posonlyargs + f.args.args]
        got = {n for n, a in zip(names, call.args) if self.may(a)} | {k.arg for k in call.keywords if k.arg and self.may(k.value)}
        r = Flow(self.prog, self.mod, f, got, self.depth + 1)
        self.bad += r.bad
        self.calls += r.calls
        return r

    def tested(self, t):
        """names whose type the condition t looks at"""
        return {y for x in ast.walk(t) if isinstance(x, ast.Name) for y in self.flags.get(x.id, ())} | {
            x.id for n in ast.walk(t) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
            "type", "isinstance", "hasattr", "issubclass") for x in ast.walk(n) if isinstance(x, ast.Name)}

    def see(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = self.target(n)
                if f is not None and compiled(f):
                    self.calls += 1
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        if self.may(a):
                            self.bad.append((n.lineno, ast.unparse(a), f.name))
                elif f is not None and self.depth < 4:
                    self.into(f, n)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if self.tested(v):
                self.flags[t.id] = self.tested(v)
            (self.ser.add if self.may(v) else self.ser.discard)(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None
            if vs:
                m = [self.may(x) for x in vs]
                for x, k in zip(t.elts, m):
                    if isinstance(x, ast.Name):
                        (self.ser.add if k else self.ser.discard)(x.id)
            else:
                self.ser -= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    def block(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, ast.Assign):
                self.see(st.value)
                for t in st.targets:
                    self.assign(t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self.see(st.value)
                self.assign(st.target, st.value)
            elif isinstance(st, ast.If):
                self.see(st.test)
                s, names = set(self.ser), self.tested(st.test)
                self.block(st.body)
                a, self.ser = self.ser, set(s)
                self.block(st.orelse)
                b = self.ser
                self.ser = (a | b) - {n for n in names if n in s and (n not in a or n not in b)}
                for n in names & s:       # the branch for a Series does not go on
                    if any(isinstance(x, (ast.Return, ast.Raise)) for x in (st.body[-1:] + st.orelse[-1:])):
                        self.ser.discard(n)
            elif isinstance(st, ast.Return):
                if st.value is not None:
                    self.see(st.value)
                    self.ret = self.ret or self.may(st.value)
            elif isinstance(st, (ast.For, ast.While)):
                self.see(st.iter if isinstance(st, ast.For) else st.test)
                if isinstance(st, ast.For):
                    self.ser -= {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
                    if isinstance(st.iter, (ast.Tuple, ast.List)) and isinstance(st.target, ast.Name) and any(
                            self.may(x) for x in st.iter.elts):
                        self.ser.add(st.target.id)
                self.block(st.body)
                self.block(st.orelse)
            elif isinstance(st, ast.With):
                for i in st.items:
                    self.see(i.context_expr)
                self.block(st.body)
            elif isinstance(st, ast.Try):
                for b in [st.body] + [h.body for h in st.handlers] + [st.orelse, st.finalbody]:
                    self.block(b)
            else:
                for c in ast.iter_child_nodes(st):
                    if isinstance(c, ast.expr):
                        self.see(c)


def check(ck, dotted, params, rule="pandas Series like arrays"):
    r = ck.anchor(dotted)
    mod, fn = r[1], r[1].defs[r[2]]
    if compiled(fn):
        ck.violation(rule, dotted, mod.path, fn.lineno, "compiled code is called with the Series itself")
        return
    f = Flow(ck.prog, mod, fn, params)
    for line, arg, name in f.bad:
        ck.violation(rule, dotted, mod.path, line, "%s, which may be a pandas Series, reaches the compiled %s" % (arg, name))
    if not f.bad:
        if f.calls:
            ck.ok(rule, dotted, "%d calls of compiled code" % f.calls)
        else:
            ck.ok(rule, dotted, "no compiled code called")
