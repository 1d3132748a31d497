"""Harness shared by all property checks: obligations, violations, evidence."""
import ast
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import loader
from loader import AnalysisError
import interp
from interp import Interp, Frame, V, VT, Unsupported
from terms import *  # noqa
import terms as TT
import equiv as E
import models as MM

EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


def flat(t):
    """(kind, elements) of a value with known structure"""
    if t.op in ("list", "tuple", "vec"):
        if any(x.op in ("seg", "guarded", "star") for x in t.args):
            return None
        return "seq", list(t.args)
    if t.op == "call" and t.args[0] == "xarray.DataArray" and len(t.args[1]) == 1:
        ks = tuple((k, v) for k, v in t.args[2] if k != "attrs")
        return tuple(k for k, v in ks) + ("data",), [v for k, v in ks] + [t.args[1][0]]
    if t.op == "dict":
        ks = dict_keys(t)
        if ks is None:
            return None
        ks = sorted(ks, key=lambda k: k.skey)
        return tuple(ks), [entry(t, k) for k in ks]
    if t.op == "concatn" and t.args[0] is ZERO:
        parts = t.args[1:]
        if len(parts) == 1 and parts[0].op == "star":
            f = flat(parts[0].args[0])
            if f is None:
                return None
            parts = f[1]
        out = []
        for p in parts:
            f = flat(p)
            if f is None or f[0] != "seq":
                return "cat", list(parts)
            out += f[1]
        return "seq", out
    if t.op == "call" and t.args[0] == "numpy.repeat" and len(t.args[1]) == 2 and not t.args[2] \
            and t.args[1][1].op == "num":
        return "seq", [t.args[1][0]] * int(t.args[1][1].args[0])
    if t.op == "full" and TT.LENS:
        n = MM.lenof(t)
        s = t.args[0]
        if n.op == "num" and (s.op not in ("tuple", "list") or len(s.args) == 1):
            return "seq", [t.args[1]] * int(n.args[0])
    if TT.LENS and t.op in ("slice", "idx", "sel", "fld", "par", "call"):
        v = MM.vecify(t)
        if v.op == "vec":
            return "seq", list(v.args)
        if t.op == "slice" and t.args[1].op == t.args[2].op == "num" and t.args[1].args[0] >= t.args[2].args[0]:
            return "seq", []
    return None


def chosen(t):
    """list with elements that are there under conditions: (values, conditions)"""
    if t.op != "list" or any(x.op in ("seg", "star") for x in t.args):
        return None
    vs, cs = [], []
    for x in t.args:
        vs.append(x.args[1] if x.op == "guarded" else x)
        cs.append(x.args[0] if x.op == "guarded" else TRUE)
    return mk("vec", *vs), mk("vec", *cs)


def blocks(t):
    """the arrays that are joined; one without elements does not count"""
    xs = t.args[1:]
    if len(xs) == 1 and xs[0].op == "star":
        xs = xs[0].args[0].args if xs[0].args[0].op == "list" else xs
    out = []
    for x in xs:
        if x.op == "guarded":
            n = MM.lenof(x.args[1])
            c = rewrite(x.args[0], {lt(ZERO, n): TRUE, ne(n, ZERO): TRUE, le(ONE, n): TRUE, eq(n, ZERO): FALSE,
                                    le(n, ZERO): FALSE, lt(n, ONE): FALSE})
            x = x.args[1] if c is TRUE else mk("guarded", c, x.args[1])
        out.append(x)
    return mk("list", *out)


def count(g):
    tot = TT.ZERO
    for c in g[1].args:
        tot = TT.add(tot, ite(c, TT.ONE, TT.ZERO, scalar=True))
    return tot


def nth(g, n):
    def rec(k, need):
        if k == len(g[0].args):
            return NONE
        c = g[1].args[k]
        return ite(c, g[0].args[k] if need == 0 else rec(k + 1, need - 1), rec(k + 1, need), scalar=True)
    return rec(0, n)


def shape_text(f):
    return "the entries %s" % (", ".join(k if isinstance(k, str) else show(k) for k in f[0])) if isinstance(f[0], tuple) else "%d elements" % len(f[1])


def labels(*names):
    """projection: the labels (dims, coords, name) of a labelled array built by the function"""
    def go(t, out):
        if t.op == "ite":
            return ite(t.args[0], go(t.args[1], out), go(t.args[2], out))
        if t.op == "str" and str(t.args[0]).startswith("!raise") or t.op == "raise":
            return t
        if t.op == "call" and t.args[0] == "xarray.DataArray":
            d = dict(t.args[2])
            return mk("tuple", *[d.get(n, NONE) for n in names])
        raise Unsupported("labels of %s" % show(t, 3))
    return go


def number_of(t):
    """parameters, if t is the result of arithmetic on parameters (a number if they are numbers)"""
    if t.op not in TT.ELEM_OPS or t.op == "ite":      # where() makes an array
        return ()
    out = set()
    for x in walk(t, into=lambda z: z.op in TT.ELEM_OPS):
        if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray", "numpy.asanyarray"):
            x = x.args[1][0]
        if x.op == "par":
            out.add(x.args[0])
        elif not (x.op in TT.ELEM_OPS or is_const(x) or x.op in ("pi", "nan", "inf", "imag")):
            return ()
    return out


def term_of(n):
    return mk("par", n) if isinstance(n, str) else n


class Outcome:
    """result of abstractly interpreting one function"""

    def __init__(self, I, v, result):
        self.I, self.v, self.result = I, v, result


class Check:
    AnalysisError = AnalysisError

    def __init__(self, pid, tier="quick", seed=1, root=None, overlay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = loader.Program(root, overlay)
        self.root = self.prog.root
        self.obl = []              # (rule, construct, status, note)
        self.viol = []
        self.functions = set()
        self.counts = {}
        self.notes = []
        self.known = load_known(pid)
        self.known_hit = []
        self.loopbase = 0
        self.strict = False
        self.opaque = ()
        self.cuts = ()
        self.assumptions = []
        self.minimum = 0
        TT.PRECISE[:] = [True]
        self.trials = 300 if tier == "quick" else 1500

    # --------------------------------------------------------- bookkeeping
    def ok(self, rule, construct, note=""):
        self.obl.append((rule, construct, "holds", note))

    def undecided(self, rule, construct, why):
        self.obl.append((rule, construct, "undecided", str(why)[:400]))

    def violation(self, rule, construct, path, line, msg, detail=None, key=None):
        """construct: stable name of the broken instance (used by known findings)"""
        rel = os.path.relpath(path, self.root) if path and path.startswith(self.root) else (path or "?")
        key = key or "%s|%s" % (rule, construct)
        for k in self.known:
            if k["key"] == key:
                self.obl.append((rule, construct, "known-finding", msg))
                self.known_hit.append(k)
                return
        self.obl.append((rule, construct, "VIOLATED", msg))
        self.viol.append(dict(rule=rule, construct=construct, file=rel, line=line, message=msg,
                              detail=detail or "", key=key))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # --------------------------------------------------------- interpretation
    def interp(self):
        I = Interp(self.prog)
        I.nloop = self.loopbase
        I.opaque_classes = self.opaque
        I.real_decor = getattr(self, "real_decor", False)
        I.cuts, I.cuts_seen = self.cuts, set()
        self.loopbase += 1000
        return I

    def load_spec(self, name):
        full = "spec." + name
        if full not in self.prog.modules:
            p = os.path.join(HERE, "specs", name + ".py")
            with open(p) as fh:
                self.prog.add_source(full, fh.read(), p)
        return full

    def anchor(self, dotted):
        """the public function/class must exist"""
        r = self.prog.resolve(dotted)
        if r[0] == "ext":
            raise AnalysisError("anchor %s not found" % dotted)
        return r

    def run(self, dotted, params=None, consts=None, scalars=(), nodecor=False, I=None):
        """interpret function `dotted`; params = names bound symbolically (default: all)"""
        I = I or self.interp()
        f = I.get(dotted)
        if f.kind != "func":
            raise AnalysisError("%s is not a function any more (%s)" % (dotted, f.kind))
        fn = f.data
        names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs]
        consts = consts or {}
        if params is None:
            params = [n for n in names if n not in consts]
        missing = [p for p in list(params) + list(consts) if p not in names]
        if missing and fn.node.args.kwarg is None:
            raise AnalysisError("%s has no parameter %s any more" % (dotted, missing))
        for s in scalars:
            TT.SCALARS.add(mk("par", s))
        I.note_numbers(fn)
        kw = {}
        for p in params:
            kw[p] = I.param(p)
        for k, v in consts.items():
            kw[k] = v if isinstance(v, V) else VT(const(v))
        I.frames.append(Frame(fn.mod))
        try:
            v = I.call_func(fn, [], kw, None)
        except (AnalysisError, Unsupported, RecursionError):
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            raise Unsupported("no abstract semantics (%r)" % (e,))
        I.frames.pop()
        for m, q in I.calls_seen:
            if not m.startswith("spec"):
                self.functions.add(m + "." + q)
        return Outcome(I, v, self.outcome(I, v))

    def outcome(self, I, v):
        r = I.safe_term(v)
        for x in reversed(I.raises):
            r = ite(x.pc, S("!raise " + x.exc.split(".")[-1]), r, scalar=True)
        return r

    # --------------------------------------------------------- comparison
    def equiv(self, a, b, loops, domains=None, bounded=False):
        c = E.Ctx(self.trials, self.seed, domains)
        c.bounded = bounded
        c.strict = self.strict
        c.loops = loops
        try:
            return c.equiv(a, b)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            return E.Res(E.UND, "comparison failed: %r" % (e,))

    def single_number(self, dotted, par, rule):
        """obligation: a single number as `par` is not treated as an array (item read from the number itself or
        item assigned in the result of arithmetic on numbers)"""
        for s in (TT.SCALARS, TT.SAMELEN, TT.LENS, TT.NOTNONE):
            s.clear()
        r = self.anchor(dotted)
        TT.QUERY["keep1d"] = True
        try:
            o = self.run(dotted)
        except (Unsupported, RecursionError) as e:
            self.undecided(rule, dotted, "outside the modelled language: %s" % e)
            return
        finally:
            TT.QUERY.clear()
        p = mk("par", par)
        bad = [(t, n, how) for t, n, how in o.I.store_log if
               (t is p and how == "read") or how == "store" and par in number_of(t)]
        for t, n, how in bad:
            self.violation(rule, dotted, r[1].path, getattr(n, "lineno", 0), (
                "item assignment to %s, a number if %s is one" if how == "store" else "item of %s, if %s is a number"
            ) % (show(t, 3), par))
        if not bad:
            self.ok(rule, dotted)

    def match(self, dotted, spec, rule, params=None, consts=None, scalars=(), project=None,
              domains=None, construct=None, assume=None, series=(), notnone=(), anyraise=False, strict=False,
              lens=None, ndims=None, query=None, outputs=None, keeplens=False, only=None, cuts=(), columns=()):
        """obligation: `dotted` computes what the reference `spec` computes.
        project: optional function(term, Interp) applied to both results
        cuts: functions that are compared at their calls (if both sides call them)"""
        construct = construct or dotted
        self.strict = strict
        self.anchor(dotted)
        self.count("comparisons")
        TT.SCALARS.clear()
        TT.SAMELEN.clear()
        for n in series:
            TT.SAMELEN[term_of(n)] = term_of(series[0])
        TT.LENS.clear()
        TT.NOTNONE.clear()
        TT.NOTNONE.update(mk("par", n) for n in notnone)
        for n, k in (lens or {}).items():
            TT.LENS[mk("par", n)] = k
        for n, k in (ndims or {}).items():
            TT.NDIMS[mk("par", n) if isinstance(n, str) else n] = k
        TT.DECLARED.clear()
        TT.DECLARED.update(TT.NDIMS)
        TT.COLUMNS.clear()
        TT.COLUMNS.update(columns)
        if query:
            TT.QUERY.update(query if isinstance(query, dict) else {"k": query})
        self.cuts = {c for c in cuts if self.prog.resolve(c)[0] != "ext"}
        try:
            try:
                sp = self.run(spec, params, consts, scalars)
            except Unsupported as e:        # the reference may call functions of the package
                self.undecided(rule, construct, "outside the modelled language: reference %s: %s" % (spec, e))
                return None
            try:
                im = self.run(dotted, params, consts, scalars)
                if cuts and sp.I.cuts_seen != im.I.cuts_seen:
                    self.cuts = ()
                    sp = self.run(spec, params, consts, scalars)
                    im = self.run(dotted, params, consts, scalars)
            except (Unsupported, RecursionError) as e:
                self.undecided(rule, construct, "outside the modelled language: %s" % e)
                return None
        finally:
            self.cuts = ()
            TT.NDIMS.clear()
            TT.COLUMNS.clear()
            TT.QUERY.clear()
            if outputs is None and not keeplens:
                TT.LENS.clear()
        a, b = im.result, sp.result
        if project:
            try:
                a, b = project(a, im), project(b, sp)
            except Unsupported as e:
                self.undecided(rule, construct, "outside the modelled language: %s" % e)
                return None
        if anyraise:
            a, b = merge_raises(a), merge_raises(b)
        n = tuple_arity(b)
        if outputs is not None:
            worst = None
            for k in range(outputs):
                n0 = len(self.obl)
                r = self.compare(at(a, k), at(b, k), im, sp, rule, construct, domains, assume, dotted, True)
                if r.v != E.EQ:
                    worst = r
                    break
                if k < outputs - 1:
                    del self.obl[n0:]
            TT.LENS.clear()
            return worst or r
        ks = dict_keys(b)
        if ks and dict_keys(a) is not None and set(ks) <= set(dict_keys(a)):
            worst = None
            for k in ks:
                if only is not None and "%s[%s]" % (construct, show(k)) not in only:
                    continue
                r = self.compare(entry(a, k), entry(b, k), im, sp, rule, "%s[%s]" % (construct, show(k)),
                                 domains, assume, dotted, bool(lens))
                if r.v != E.EQ and (worst is None or r.v == E.NE):
                    worst = r
            TT.LENS.clear()
            return worst or r
        if n is None or tuple_arity(a) != n:
            return self.compare(a, b, im, sp, rule, construct, domains, assume, dotted, bool(lens))
        worst = None
        for i in range(n):
            r = self.compare(component(a, i), component(b, i), im, sp, rule, "%s#%d" % (construct, i),
                             domains, assume, dotted)
            if r is not None and r.v != E.EQ and (worst is None or r.v == E.NE):
                worst = r
        return worst or r

    def match_any(self, dotted, specs, rule, **kw):
        """the code agrees with one of several acceptable references"""
        first = None
        for sp in specs:
            n0, v0, k0 = len(self.obl), len(self.viol), len(self.known_hit)
            r = self.match(dotted, sp, rule, **kw)
            if r is not None and r.v == E.EQ:
                return r
            if first is None or r is not None and r.v == E.UND and first[0] is not None and first[0].v == E.NE:
                first = (r, self.obl[n0:], self.viol[v0:], self.known_hit[k0:])
            del self.obl[n0:], self.viol[v0:], self.known_hit[k0:]
        self.obl += first[1]
        self.viol += first[2]
        self.known_hit += first[3]
        return first[0]

    def match_fields(self, dotted, spec, rule, arrays, scalars=(), lengths=(1, 2, 3), domains=None, params=None,
                     anyraise=False):
        """every named result, for arrays of any length where the value graphs are congruent, else for all arrays
        of bounded length"""
        n0, v0, k0 = len(self.obl), len(self.viol), len(self.known_hit)
        r = self.match(dotted, spec, rule, scalars=scalars, domains=domains, params=params, anyraise=anyraise)
        if r is None or r.v == E.EQ:
            return
        obl = self.obl[n0:]
        del self.obl[n0:], self.viol[v0:], self.known_hit[k0:]
        self.obl += [o for o in obl if o[2] == "holds"]
        open_ = {o[1] for o in obl if o[2] != "holds"}
        for m in lengths:
            n0 = len(self.obl)
            TT.SAMELEN.clear()
            lens = {a: m for a in arrays}
            self.match(dotted, spec, rule, scalars=scalars, domains=domains, params=params, lens=lens, keeplens=True,
                       only=open_, anyraise=anyraise)
            bad = {o[1] for o in self.obl[n0:] if o[2] != "holds"}
            self.obl[n0:] = [(o[0], o[1], o[2], "for arrays of up to %d elements" % max(lengths)) if o[2] == "holds"
                             else o for o in self.obl[n0:] if o[2] != "holds" or m == max(lengths)]
            open_ -= bad
            if not open_:
                return

    def match_series(self, dotted, spec, rule, series, lengths=(1, 2, 3, 4, 5), variants=({},), construct=None,
                     domains=None, scalars=(), params=None, prove=True):
        """like match() for functions over time series with loop-carried state: congruence of the
        loops (all lengths) if it can be established, else all outputs for series of bounded length"""
        construct = construct or dotted
        self.strict = False
        if prove:
            n0, v0 = len(self.obl), len(self.viol)
            r = self.match(dotted, spec, rule, params=params, scalars=scalars, domains=domains,
                           construct=construct, series=series)
            if r is not None and r.v == E.EQ:
                return
            del self.obl[n0:]
            del self.viol[v0:]
        for var in variants:
            for m in lengths:
                self.count("bounded comparisons")
                cname = construct
                TT.SCALARS.clear()
                TT.SAMELEN.clear()
                TT.LENS.clear()
                TT.NOTNONE.clear()
                for n in series:
                    TT.SAMELEN[mk("par", n)] = mk("par", series[0])
                TT.LENS[mk("par", series[0])] = m
                try:
                    p2 = None if params is None else [p for p in params if p not in var]
                    sp = self.run(spec, p2, var, scalars)
                    im = self.run(dotted, p2, var, scalars)
                except (Unsupported, RecursionError) as e:
                    self.undecided(rule, construct, "outside the modelled language: %s" % e)
                    return
                finally:
                    TT.LENS.clear()
                n = tuple_arity(sp.result) or 1
                if n > 1 and tuple_arity(im.result) != n:
                    self.undecided(rule, construct, "different number of outputs")
                    return
                und = None
                for j in range(n):
                    a = component(im.result, j) if n > 1 else im.result
                    b = component(sp.result, j) if n > 1 else sp.result
                    for k in range(m):
                        ak, bk = at(a, k), at(b, k)
                        n0 = len(self.obl)
                        r = self.compare(ak, bk, im, sp, rule, cname, domains, None, dotted, True)
                        self.obl[n0:] = [o for o in self.obl[n0:] if o[2] in ("VIOLATED", "known-finding")]
                        if r.v == E.NE:
                            if self.viol:
                                self.viol[-1]["detail"] = "sample %d of a series of %d samples%s: %s" % (
                                    k, m, (" with %s" % var) if var else "", self.viol[-1]["detail"])
                            return
                        if r.v == E.UND:
                            und = r
                if und is not None:
                    self.undecided(rule, construct, und.why)
                    return
        self.ok(rule, construct, "for every series of up to %d samples" % max(lengths))

    def match_small(self, dotted, spec, rule, cases, construct=None, scalars=(), domains=None, anyraise=False,
                    params=None, select=None, **kw):
        """congruence for all inputs; else every element of the result for inputs of small sizes.
        cases: dict(consts=..., lens=..., rule=function(term) -> length)"""
        construct = construct or dotted
        n0, v0, k0 = len(self.obl), len(self.viol), len(self.known_hit)
        r = self.match(dotted, spec, rule, scalars=scalars, domains=domains, anyraise=anyraise, construct=construct,
                       params=params, **kw)
        if r is None or r.v == E.EQ and not any(o[2] == "undecided" for o in self.obl[n0:]):
            return r
        obl, viol, kn = self.obl[n0:], self.viol[v0:], self.known_hit[k0:]
        del self.obl[n0:], self.viol[v0:], self.known_hit[k0:]
        und, general, some = None, r, False
        for c in cases:
            self.count("bounded comparisons")
            TT.SCALARS.clear()
            TT.SAMELEN.clear()
            TT.LENS.clear()
            TT.NOTNONE.clear()
            for n, k in c.get("lens", {}).items():
                TT.LENS[mk("par", n)] = k
            TT.LENS.rule = c.get("rule")
            TT.NOTNONE.update(mk("par", n) for n in c.get("notnone", ()))
            try:
                consts = c.get("consts", {})
                p2 = None if params is None else [p for p in params if p not in consts]
                sp = self.run(spec, p2, consts, scalars)
                im = self.run(dotted, p2, consts, scalars)
                a, b = im.result, sp.result
                if anyraise:
                    a, b = merge_raises(a), merge_raises(b)
                what = " with " + ", ".join("%s=%s" % kv for kv in sorted(consts.items())) if consts else ""
                r = self.leaves(a, b, im, sp, rule, construct, domains, dotted, what)
            except (Unsupported, RecursionError) as e:
                self.undecided(rule, construct, "outside the modelled language: %s" % e)
                return None
            finally:
                TT.LENS.clear()
                TT.NOTNONE.clear()
            if r.v == E.NE:
                return r
            if r.v == E.UND:
                und = r
            some = some or r.v == E.EQ
        sets = any(getattr(c.get("rule"), "sets", False) for c in cases)    # then the general form stands for one of many
        if und is not None and general.v == E.NE and not (sets and some) or not cases:
            self.obl += obl
            self.viol += viol
            self.known_hit += kn
            return general
        if und is not None:
            self.undecided(rule, construct, und.why)
            return und
        self.ok(rule, construct, "for inputs of the enumerated small sizes")
        return r

    def leaves(self, a, b, im, sp, rule, construct, domains, dotted, what, path=""):
        fa, fb = flat(a), flat(b)
        if fa is not None and fb is not None:
            if fa[0] != fb[0] or len(fa[1]) != len(fb[1]):
                p, line = self.locate(a, b, im, dotted)
                self.violation(rule, construct, p, line, "the value computed differs from what the property requires",
                               "result%s%s has %s, required: %s" % (path, what, shape_text(fa), shape_text(fb)))
                return E.Res(E.NE, "")
            worst = E.Res(E.EQ, "")
            for i, (x, y) in enumerate(zip(fa[1], fb[1])):
                k = fa[0][i] if isinstance(fa[0], tuple) else i
                r = self.leaves(x, y, im, sp, rule, construct, domains, dotted, what, path + "[%s]" % (
                    show(k) if isinstance(k, T) else k))
                if r.v == E.NE:
                    return r
                if r.v == E.UND:
                    worst = r
            return worst
        ga, gb = chosen(a), chosen(b)
        if a.op == b.op == "concatn" and a.args[0] is b.args[0]:
            ga, gb = chosen(blocks(a)), chosen(blocks(b))
        if ga and gb:
            worst = E.Res(E.EQ, "")
            for k in range(-1, max(len(ga[0].args), len(gb[0].args))):
                x, y = [mk("tuple", nth(g, k)) if k >= 0 else count(g) for g in (ga, gb)]
                r = self.leaves(x, y, im, sp, rule, construct, domains, dotted, what, path + (
                    "[%d]" % k if k >= 0 else " (number of elements)"))
                if r.v == E.NE:
                    return r
                if r.v == E.UND:
                    worst = r
            return worst
        if fa is not None or fb is not None:
            if a.op == "str" and a.args[0].startswith("!raise ") and fb is not None:
                p, line = self.locate(a, b, im, dotted)
                self.violation(rule, construct, p, line, "the call fails where the property requires a result",
                               "result%s%s: %s raised" % (path, what, a.args[0][7:]))
                return E.Res(E.NE, "")
            return E.Res(E.UND, "result%s: different structure" % path)
        if a is b:
            return E.Res(E.EQ, "")
        if a.op == b.op == "ite" and a.args[0] is b.args[0] and (flat(a.args[1]) or flat(a.args[2])):
            worst = E.Res(E.EQ, "")
            for i in (1, 2):
                r = self.leaves(a.args[i], b.args[i], im, sp, rule, construct, domains, dotted, what, path)
                if r.v == E.NE:
                    return r
                if r.v == E.UND:
                    worst = r
            return worst
        n0 = len(self.obl)
        r = self.compare(a, b, im, sp, rule, construct, domains, None, dotted, True)
        self.obl[n0:] = [o for o in self.obl[n0:] if o[2] in ("VIOLATED", "known-finding")]
        if r.v == E.NE and self.viol:
            self.viol[-1]["detail"] = "result%s%s: %s" % (path, what, self.viol[-1]["detail"])
        return r

    def defaults(self, dotted, expected, rule="documented default", method="__init__"):
        """the value an option has when the caller leaves it out"""
        r = self.anchor(dotted)
        node = r[1].defs[r[2]]
        if isinstance(node, ast.ClassDef):
            node = [x for x in node.body if isinstance(x, ast.FunctionDef) and x.name == method]
            if not node:
                return self.undecided(rule, dotted, "%s is inherited" % method)
            node = node[0]
        a = node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        names = [x.arg for x in pos]
        order = [names.index(n) for n in expected if n in names]
        if order != sorted(order):
            self.violation("positional order of the options", dotted, r[1].path, node.lineno,
                           "options are in the order %s" % ", ".join(names))
        for name, want in expected.items():
            c = "%s(%s)" % (dotted, name)
            self.count("defaults")
            if name not in d:
                if name in [x.arg for x in pos + a.kwonlyargs]:
                    self.violation(rule, c, r[1].path, node.lineno, "option has no default any more (required: %r)" % (want,))
                elif a.kwarg is None:
                    self.violation(rule, c, r[1].path, node.lineno, "option does not exist any more")
                else:
                    self.undecided(rule, c, "option taken from keyword arguments")
                continue
            try:
                got = ast.literal_eval(d[name])
            except ValueError:
                v = self.const_value(r[1], d[name])
                if v is None:
                    self.undecided(rule, c, "default is computed: %s" % ast.unparse(d[name]))
                    continue
                got = v[0]
            if type(got) in (int, float, complex) and type(want) in (int, float, complex):
                same = abs(got - want) <= 1e-12 * max(abs(want), 1e-300)
            else:
                same = got == want and type(got) is type(want)
            if same:
                self.ok(rule, c, repr(want))
            else:
                self.violation(rule, c, r[1].path, d[name].lineno, "default is %r, required: %r" % (got, want))

    def const_value(self, mod, node):
        """value of an expression made of literals and module constants, as a 1-tuple"""
        try:
            I = self.interp()
            I.frames.append(Frame(mod))
            t = I.term(I.eval(node))
            I.frames.pop()
        except Exception:
            return None
        if t.op == "num":
            v = t.args[0]
            return (int(v) if v.denominator == 1 else float(v),)
        if t.op in ("poly", "imag"):
            v = E.Ev({}, {})
            try:
                return (v.ev(t),)
            except KeyError:
                return None
        if t.op in ("str", "bool"):
            return (t.args[0],)
        if t.op == "none":
            return (None,)
        if t.op == "nan":
            return ("nan",)
        return None

    def compare(self, a, b, im, sp, rule, construct, domains=None, assume=None, dotted="", bounded=False):
        if assume is not None:
            a, b = ite(assume, a, S("!n/a"), scalar=True), ite(assume, b, S("!n/a"), scalar=True)
        loops = dict(im.I.loops)
        loops.update(sp.I.loops)
        dom = {}
        for k, f in (domains or {}).items():
            dom[mk("par", k) if isinstance(k, str) else k] = f
        r = self.equiv(a, b, loops, dom, bounded)
        if r.v == E.UND:
            r = self.pinpoint(a, b, r, loops, dom, bounded)
        if r.v == E.NE and any(x.op == "exc" for x in r.splits):
            # a failure is caught on one side and avoided by a test on the other
            ina, inb = set(walk(a)), set(walk(b))
            for p, q in ((ina, inb), (inb, ina)):
                if any(x.op == "exc" and x not in p for x in r.splits) and any(x not in q for x in r.splits):
                    r = E.Res(E.UND, "a failing operation that is caught / a test beforehand")
                    break
        if r.v == E.EQ:
            self.ok(rule, construct)
        elif r.v == E.NE:
            path, line = self.locate(a, b, im, dotted)
            det = ""
            if r.env is not None:
                det = "distinguishing values: " + "; ".join(
                    "%s = %s" % (k, v) for k, v in sorted(r.env.items())[:10]) + \
                    "  ->  code: %s, required: %s" % (r.va, r.vb)
            self.violation(rule, construct, path, line,
                           "the value computed differs from what the property requires",
                           (r.why + " " + det)[:1500])
        else:
            self.undecided(rule, construct, r.why)
        return r

    def pinpoint(self, a, b, r, loops, dom, bounded):
        """graphs that differ in one place only: decided there"""
        if b.op == "str" and str(b.args[0]).startswith("!raise") and not any(
                x.op == "str" and str(x.args[0]).startswith("!raise") or x.op == "get" for x in walk(a)):
            return E.Res(E.NE, "no error is raised (required: %s)" % b.args[0][7:], a, b)
        def column_order(t):
            return {x for x in walk(t) if x.op in ("call", "meth") and ("order", S("F")) in x.args[-1]
                    and str(x.args[0] if x.op == "call" else x.args[1]).split(".")[-1] in ("reshape", "ravel", "flatten")}
        f = column_order(a)
        if len(f) == 1 and not column_order(b):
            x = f.pop()
            y = mk(x.op, *x.args[:-1], tuple(kv for kv in x.args[-1] if kv[0] != "order"))
            for z in [y] + [y.args[1][0]] * (y.op == "call" and bool(y.args[1])) + [y.args[0]] * (y.op == "meth"):
                if self.equiv(rewrite(a, {x: z}), b, loops, dom, bounded).v == E.EQ:
                    return E.Res(E.NE, "elements in the order of the columns: %s" % show(x, 3), a, b)
        d = E.root_differences(a, b)
        if d and len(d) == 1 and d[0] != (a, b):
            q = self.equiv(d[0][0], d[0][1], loops, dom, bounded)
            if q.v == E.NE:
                q.why = "differs only in %s, required: %s (%s)" % (show(d[0][0], 4), show(d[0][1], 4), q.why)
                return q
        return r

    def locate(self, a, b, im, dotted):
        """line of the smallest term of the code's value that the reference does not contain"""
        inb = set(walk(b))
        best = None
        for t in walk(a):
            if t in inb or t not in im.I.origin:
                continue
            n = len(list(walk(t)))
            if best is None or n < best[0]:
                best = (n, im.I.origin[t])
        if best:
            return best[1]
        r = self.prog.resolve(dotted)
        if r[0] == "def":
            return r[1].path, getattr(r[1].defs[r[2]], "lineno", 0)
        return "", 0

    # --------------------------------------------------------- finish
    def finish(self, t0, level, technique):
        hold = sum(1 for o in self.obl if o[2] == "holds")
        und = [o for o in self.obl if o[2] == "undecided"]
        kf = [o for o in self.obl if o[2] == "known-finding"]
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(
                explanation="%d obligations over %d functions of the package: %d hold, %d undecided, "
                            "%d known findings, %d violated. %s" % (
                                len(self.obl), len(self.functions), hold, len(und), len(kf), len(self.viol),
                                technique),
                obligations=len(self.obl), discharged=hold, undecided=len(und), known_findings=len(kf),
                functions_analysed=sorted(self.functions),
                counts=self.counts,
                rules=[dict(rule=o[0], construct=o[1], status=o[2], note=o[3]) for o in self.obl]),
            assumptions=self.assumptions or [
                "the models of numpy/xarray/pandas/builtins operations in sa/models.py",
                "arithmetic is compared over the reals with NaN, not bit by bit"],
            wall_s=round(time.time() - t0, 3),
            violations=self.viol)
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated; %d functions analysed" % (
            self.pid, len(self.obl), hold, len(und), len(kf), len(self.viol), len(self.functions)))
        for o in und:
            print("  undecided: [%s] %s: %s" % (o[0], o[1], o[3]))
        seen = set()
        for k in self.known_hit:
            if k["key"] in seen:
                continue
            seen.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            rp = os.path.join(EVIDENCE, self.pid + ".violations.txt")
            with open(rp, "w") as fh:
                for v in self.viol:
                    fh.write("%s:%s: [%s] %s: %s\n    %s\n" % (
                        v["file"], v["line"], v["rule"], v["construct"], v["message"], v["detail"]))
            for v in self.viol:
                print("%s:%s: [%s] %s: %s\n    %s" % (v["file"], v["line"], v["rule"], v["construct"],
                                                     v["message"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if len(self.obl) < (1 if und else self.minimum):
            print("analysis broken: only %d obligations found, expected at least %d" % (
                len(self.obl), self.minimum))
            return 3
        return 0


def leaves(t):
    if t.op == "ite" and not TT.is_bool(t):
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def is_raise(t):
    return t.op == "str" and t.args[0].startswith("!")


def merge_raises(t):
    """which of several errors is reported first does not matter"""
    if t.op == "ite" and not TT.is_bool(t):
        return ite(t.args[0], merge_raises(t.args[1]), merge_raises(t.args[2]), scalar=t.args[0] in TT.SCALAR_CONDS)
    return S("!raise") if is_raise(t) else t


def tuple_arity(t):
    ls = [x for x in leaves(t) if not is_raise(x)]
    if ls and all(x.op == "tuple" for x in ls) and len({len(x.args) for x in ls}) == 1:
        return len(ls[0].args)
    return None


def named(t):
    """entries of a dictionary or record, as (key, value) pairs"""
    if t.op == "dict":
        return t.args[0]
    if t.op == "inst":
        return tuple((S(k), v) for k, v in t.args[1])
    return None


def dict_keys(t):
    ls = [x for x in leaves(t) if not is_raise(x)]
    if ls and all(named(x) is not None for x in ls) and len({frozenset(k for k, v in named(x)) for x in ls}) == 1:
        return [k for k, v in named(ls[0])]
    return None


def entry(t, k):
    if t.op == "ite":
        return ite(t.args[0], entry(t.args[1], k), entry(t.args[2], k), scalar=t.args[0] in TT.SCALAR_CONDS)
    return dict(named(t))[k] if named(t) is not None else t


def component(t, i):
    if t.op == "ite":
        return ite(t.args[0], component(t.args[1], i), component(t.args[2], i),
                   scalar=t.args[0] in TT.SCALAR_CONDS)
    if t.op == "tuple":
        return t.args[i]
    return t


def at(t, k):
    if t.op == "ite" and t.args[0] in TT.SCALAR_CONDS:
        return ite(t.args[0], at(t.args[1], k), at(t.args[2], k), scalar=True)
    if is_raise(t):
        return t
    return index(t, num(k))


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def implied(t, c):
    """propositional validity of t => c by enumeration of their atoms: True, False or None (too many)"""
    atoms = []

    def collect(x):
        if x.op in ("and", "or", "not") or x.op == "ite":
            for y in children(x):
                collect(y)
        elif x not in (TRUE, FALSE) and x not in atoms:
            atoms.append(x)
    f = lor(lnot(t), c)
    collect(t), collect(c)
    if len(atoms) > 12:
        return None
    for bits in range(1 << len(atoms)):
        r = rewrite(f, {a: TRUE if bits >> i & 1 else FALSE for i, a in enumerate(atoms)})
        if r is FALSE:
            return False
        if r is not TRUE:
            return None
    return True
