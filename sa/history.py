"""Validity of state kept between calls (inductive argument over all call histories).

A method is interpreted once on an object of unknown history: every attribute f is the
symbol self.f, "whatever an earlier call left there".  The method's value R and the
attribute values S_f it leaves behind are terms over the arguments and those symbols.

For every way the reuse conditions can come out, a symbol self.f of an attribute that the
method itself writes may only reach R if
  (1) the conditions that hold on that path equate, for every argument the stored S_f was
      computed from, the present argument with a stored copy of it (cache key), and
  (2) with self.f replaced by S_f the value is the one computed without the cache.
Then, by induction over the calls, the value is a function of the arguments and the
configuration of the object only.  (3) stored keys and values must not share storage with
the caller's arrays, (4) nor the returned value with them."""
import itertools
from terms import *  # noqa
import terms as TT
import equiv as E
import models as M
from interp import V, VT, Frame, Unsupported

WEAK = {"numpy.allclose", "numpy.isclose", "math.isclose"}
WEAKOPS = {"lenof", "shape", "ndim", "red"}
COPIES = {"tuple", "list"}


def attr_syms(t):
    return {x.args[1] for x in walk(t) if x.op == "attr" and x.args[0].op == "self"}


def pars(t):
    return {x.args[0] for x in walk(t) if x.op == "par"}


def subst(t, m):
    return rewrite(t, m)


def run_method(ck, cls_dotted, method, opaque=(), consts=None):
    I = ck.interp()
    I.opaque_classes = set(opaque)
    c = I.get(cls_dotted)
    if c.kind != "class":
        raise ck.AnalysisError("%s is not a class any more" % cls_dotted)
    v = V("inst", I.loc((c.data, {}, "sym")))
    m = I.find_method(c.data, method)
    if m is None:
        raise ck.AnalysisError("%s.%s not found" % (cls_dotted, method))
    names = [a.arg for a in m.node.args.args + m.node.args.kwonlyargs][1:]
    I.note_numbers(m)
    kw = {}
    for n in names:
        kw[n] = VT(const(consts[n])) if consts and n in consts else I.param(n)
    m.self_v = v
    I.frames.append(Frame(m.mod))
    I.watch = v
    try:
        r = I.call_func(m, [], kw, None)
    except (ck.AnalysisError, Unsupported, RecursionError):
        raise
    except Exception as e:
        raise Unsupported("no abstract semantics (%r)" % (e,))
    I.frames.pop()
    for mm, q in I.calls_seen:
        ck.functions.add(mm + "." + q)
    fields = I.heap[v.data][1]
    return I, r, fields, names, m


def analyse(ck, cls_dotted, method="__call__", arrays=(), opaque=(), scalars=(), consts=None, rule="history"):
    """obligations for one method"""
    TT.SCALARS.clear(), TT.SAMELEN.clear(), TT.LENS.clear(), TT.NOTNONE.clear()
    for s in scalars:
        TT.SCALARS.add(mk("par", s))
    where = "%s.%s" % (cls_dotted, method)
    try:
        I, r, fields, names, m = run_method(ck, cls_dotted, method, opaque, consts)
        R = ck.outcome(I, r)
        S = {f: I.safe_term(v) for f, v in fields.items()}
    except (Unsupported, RecursionError) as e:
        ck.undecided(rule, where, "outside the modelled language: %s" % e)
        return
    # configuration: attributes the method does not write; one analysis per setting of a flag
    flags = {}
    for t in [R] + list(S.values()):
        for x in walk(t):
            if x.op == "ite":
                for y in walk(x.args[0], into=lambda z: z.op in ("and", "or", "not")):
                    z = y.args[0] if y.op == "truth" else y
                    if z.op == "attr" and z.args[0].op == "self" and S.get(z.args[1]) is z:
                        flags[y] = True
    flags = sorted(flags, key=lambda t: t.skey)[:3]
    n0 = len(ck.viol)
    for bits in itertools.product((TRUE, FALSE), repeat=len(flags)):
        sub_ = dict(zip(flags, bits))
        w = where + "".join(" %s=%s" % (show(k, 3), v is TRUE) for k, v in sub_.items())
        one(ck, I, r, fields, m, w, subst(R, sub_), {f: subst(t, sub_) for f, t in S.items()}, arrays, rule)
        if len(ck.viol) > n0:
            break


def one(ck, I, r, fields, m, where, R, S, arrays, rule):
    path, line = m.mod.path, m.node.lineno
    mut = {f for f, t in S.items() if t is not mk("attr", mk("self"), f)}
    # attributes no constructor sets and nothing in the method writes are not state of ours
    sym = {f: mk("attr", mk("self"), f) for f in S}
    has = {f: mk("hasattr", mk("self"), f) for f in S}
    used = attr_syms(R)
    for f in mut:
        used |= attr_syms(S[f]) - {f}
    carried = used & mut
    if not carried:
        ck.ok(rule, where, "the value depends on the arguments and the configuration only "
                           "(attributes written: %s)" % (", ".join(sorted(mut)) or "none"))
        return
    # an attribute that does not exist yet cannot be reused
    nohas = {x: FALSE for t in [R] + list(S.values()) for x in walk(t) if x.op == "hasattr"}
    r0 = subst(R, nohas)
    early = {x.args[1] for x in nohas} & attr_syms(r0) & mut
    if early:
        ck.violation(rule, where, path, line, "the first call reads self.%s before it is set" % sorted(early)[0])
    yes = {x: TRUE for x in nohas}
    R, S = subst(R, yes), {f: subst(t, yes) for f, t in S.items()}
    for f in carried:
        for x in walk(R):
            pass
    # ---- the conditions a reuse depends on
    atoms = {}

    def conds(t):
        if t.op == "ite" and not is_bool(t):
            for y in walk(t.args[0], into=lambda z: z.op in ("and", "or", "not", "ite", "truth")):
                if y.op not in ("and", "or", "not", "ite", "truth", "bool"):
                    atoms[y] = True
            conds(t.args[1])
            conds(t.args[2])
    for f in carried:
        conds(S[f])
    state = sorted([y for y in atoms if attr_syms(y) & mut], key=lambda t: t.skey)
    other = sorted([y for y in atoms if y not in state], key=lambda t: t.skey)
    if len(state) > 8:
        ck.undecided(rule, where, "too many reuse conditions (%d)" % len(state))
        return
    ck.count("reuse conditions", len(state))

    def contradictory(a):
        """an attribute that is None does not equal an array"""
        for y in state:
            if y.op == "isnone" and y.args[0] in sym.values() and a[y] is TRUE:
                if any(a[z] is TRUE and z is not y and y.args[0] in set(walk(z)) for z in state):
                    return True
        return False

    def stored(f, t):
        """value put into self.f (None: always kept)"""
        if t is sym[f]:
            return None
        if t.op == "ite" and not is_bool(t):
            x, y = stored(f, t.args[1]), stored(f, t.args[2])
            if x is None or y is None:
                return x if y is None else y
            return ite(t.args[0], x, y, scalar=True)
        return t
    cases = []
    for bits in itertools.product((TRUE, FALSE), repeat=len(state)):
        a = dict(zip(state, bits))
        if not contradictory(a):
            cases.append((a, subst(R, a), {f: subst(S[f], a) for f in mut}))
    ck.count("reuse cases", len(cases))
    amiss, rmiss, sm = cases[-1]
    smiss = {}
    for f in mut:
        v = stored(f, sm[f])
        if v is not None:
            smiss[f] = v
    if attr_syms(rmiss) & mut:
        f = sorted(attr_syms(rmiss) & mut)[0]
        ck.violation(rule, where, path, line, "the value depends on what an earlier call left in self.%s also "
                     "when no reuse condition holds" % f)
        return
    # keys and cached values are replaced together
    torn = None
    if len(other) <= 6:
        for a, rr, ss in cases:
            for bits in itertools.product((TRUE, FALSE), repeat=len(other)):
                o = dict(zip(other, bits))
                ss2 = {f: subst(ss[f], o) for f in carried}
                new = {f for f in carried if ss2[f] is not sym[f]}
                for k in carried - new:
                    if not new:
                        break
                    same = any(y.op in ("array_equal", "eq") and sym[k] in y.args and a[y] is TRUE for y in state)
                    key = any(y.op in ("array_equal", "eq") and sym[k] in y.args for y in state)
                    if key and not same and {f for f in new if not any(
                            y.op in ("array_equal", "eq") and sym[f] in y.args for y in state)}:
                        torn = (k, sorted(new)[0])
    if torn:
        ck.violation(rule, where, path, line, "self.%s is replaced while the value it is looked up by, self.%s, is "
                     "kept" % (torn[1], torn[0]))
        return
    # a call that fails half-way leaves a key without its value, or a value without its key
    keys = {f for f in carried if any(y.op in ("array_equal", "eq") and sym[f] in y.args for y in state)}
    for name, node, pc, snap in I.snaps:
        snap = {f: subst(subst(t, yes), amiss) for f, t in snap.items()}
        new = {f for f in carried if f in smiss and snap.get(f, sym[f]) is not sym[f]}
        old = {f for f in carried if f in smiss and f not in new}
        if any(snap[k] is NONE for k in new & keys):
            continue
        for k, u in [(k, u) for k in sorted(new & keys) for u in sorted(old - keys)] + \
                    [(u, k) for u in sorted(new - keys) for k in sorted(old & keys)]:
            ck.violation(rule, where, path, getattr(node, "lineno", line),
                         "when %s fails, self.%s is already replaced and self.%s is still the earlier one: the next call "
                         "takes the one for the other" % (name, k, u))
            return
    ck.count("calls that may fail", len(I.snaps))
    reported = False
    for a, rr, ss in cases:
        reads = attr_syms(rr) & mut
        kept = {f for f in carried if sym[f] is ss[f]}
        if not reads:
            continue
        ck.count("reusing paths")
        # equations known on this path
        eqs = {}
        unknown = []
        for y, v in a.items():
            if v is not TRUE or y.op in ("hasattr", "isnone"):
                continue
            y = subst(y, {x: TRUE for x in walk(y) if x.op == "hasattr"})
            if y.op in ("array_equal", "eq"):
                for k, e in ((y.args[0], y.args[1]), (y.args[1], y.args[0])):
                    if k.op == "attr" and k.args[0].op == "self":
                        eqs.setdefault(k.args[1], []).append(e)
                        break
                else:
                    unknown.append(y)
            else:
                unknown.append(y)
        # keys that are stored together with the cached values
        keyterms = {}
        for k, es in eqs.items():
            for e in es:
                stored = smiss.get(k)
                if stored is None:
                    continue
                if E.Ctx(40, 1).equiv(stored, e).v == E.EQ:
                    keyterms[e] = mk("par", "key:" + k)
                    for x in (M.lenof(e), M.shape(e)):
                        if not is_const(x):
                            keyterms.setdefault(x, mk("par", "key:len " + k))
                    if e.op in COPIES:
                        for i, x in enumerate(e.args):
                            keyterms[x] = mk("par", "key:%s:%d" % (k, i))
                elif not isinstance(stored, T):
                    pass
                else:
                    if not reported:
                        ck.violation(rule, where, path, line,
                                     "the reuse condition compares self.%s, which holds %s, with %s" % (
                                         k, show(stored, 4), show(e, 4)))
                        reported = True
        m = {}
        for f in reads:
            N = smiss.get(f)
            if N is None or attr_syms(N) & mut:
                if not reported:
                    ck.undecided(rule, where, "self.%s is carried over in a form that is not understood" % f)
                    reported = True
                continue
            rest = subst(N, keyterms)
            left = {p for p in pars(rest) if not p.startswith("key:")}
            if left:
                p = sorted(left)[0]
                why = "self.%s is reused although it was computed from another %s: the reuse condition does not " \
                      "compare %s" % (f, " / ".join(sorted(left)), " / ".join(sorted(left)))
                und = False
                for y in unknown:
                    if pars(y) & left and not (y.op == "call" and y.args[0] in WEAK
                                               or y.op in ("lt", "le")
                                               or y.op == "eq" and any(x.op in WEAKOPS for x in y.args)):
                        und = True
                for k, es in eqs.items():
                    for e in es:
                        if pars(e) & left and e.op not in WEAKOPS and e not in keyterms:
                            und = True
                if not reported:
                    if und:
                        ck.undecided(rule, where, why + " in a form that is understood")
                    else:
                        ck.violation(rule, where, path, line, why)
                    reported = True
            m[sym[f]] = N
        if reported:
            continue
        # (2) the value with the cached parts recomputed
        keym = {}
        for k, es in eqs.items():
            keym[sym[k]] = es[0]
        r2 = subst(subst(rr, m), keym)
        if r2 is not rmiss:
            c = E.Ctx(60, 1)
            c.strict = True
            c.loops = I.loops
            res = c.equiv(r2, rmiss)
            if res.v == E.NE:
                ck.violation(rule, where, path, line, "with the kept %s the value differs from the one computed anew"
                             % ", ".join("self." + f for f in sorted(reads)), res.why)
                reported = True
            elif res.v == E.UND:
                ck.undecided(rule, where, "value with and without reuse: " + res.why)
                reported = True
    if not reported:
        ck.ok(rule, where, "kept attributes %s are reused only for the arguments they were computed from" %
              ", ".join(sorted(carried)))
    # (3), (4) storage
    bad = False
    for f in sorted(carried):
        rts = {x.rstrip("*") for x in I.vroots(fields[f])}
        for p in sorted(rts & set(arrays)):
            ck.violation(rule + " (storage)", where, path, line,
                         "self.%s, which later calls rely on, may share storage with the argument %s of the caller"
                         % (f, p))
            bad = True
    rts = {x.rstrip("*") for x in I.vroots(r)}
    for f in sorted(carried):
        if "self." + f in rts:
            ck.violation(rule + " (storage)", where, path, line,
                         "the returned value may share storage with self.%s, which later calls rely on" % f)
            bad = True
    if not bad:
        ck.ok(rule + " (storage)", where, "kept attributes are not shared with the caller")
