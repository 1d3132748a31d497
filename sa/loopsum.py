"""Summaries of loops over a generic iteration K (closed forms where they exist)."""
from terms import *  # noqa
import terms as TT
import models as M


def stores(step, mu):
    """step as a list of (guard, index, value) element stores on mu, or None"""
    if step is mu:
        return []
    if step.op == "sstore":
        r = stores(step.args[0], mu)
        if r is None:
            return None
        return r + [(TRUE, step.args[1], step.args[2])]
    if step.op == "ite" and step.args[0] is not None:
        a, b = stores(step.args[1], mu), stores(step.args[2], mu)
        if a is None or b is None:
            return None
        c = step.args[0]
        out = []
        # stores common to both sides at equal index
        if len(a) == 1 and len(b) == 1 and a[0][1] is b[0][1]:
            (ga, i, va), (gb, _, vb) = a[0], b[0]
            g = ite(c, ga, gb, scalar=True)
            return [(g, i, ite(c, va, vb, scalar=True))]
        out += [(land(c, g), i, v) for g, i, v in a]
        out += [(land(lnot(c), g), i, v) for g, i, v in b]
        return out
    return None


def merge_same_index(st, mu):
    out = []
    for g, i, v in st:
        for k, (g2, i2, v2) in enumerate(out):
            if i2 is i:
                # later store wins where its guard holds
                out[k] = (lor(g, g2), i, ite(g, v, v2, scalar=True))
                break
        else:
            out.append((g, i, v))
    return out


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def lift(t, K, n):
    """element expression in K over x[K] -> elementwise term over x (n = len x)"""
    r = rewrite_k(t, K, POS)
    if mentions(r, lambda x: x is K):
        return None
    # the generic element must range over a whole array
    arrs = [x for x in walk(r, into=lambda y: y.op in ELEM_OPS or y.op == "poly")
            if x.op in ("par", "fld", "mu") and x not in TT.SCALARS]
    if not arrs:
        return None
    if M.lenof(r) is not n:
        return None
    return r


def rewrite_k(t, K, to):
    return rewrite(t, {K: to})


def coefK(i, K):
    """i = c*K + rest -> (c, rest)"""
    r0 = rewrite(i, {K: ZERO})
    d = sub(i, r0)
    if d is K:
        return 1, r0
    if d.op == "poly" and len(d.args[0]) == 1:
        m, c = d.args[0][0]
        if m == ((K, ONE),):
            return c, r0
    if d is ZERO:
        return 0, r0
    return None, None


def summarise(I, loop):
    K, n = loop.K, loop.n
    res = {}
    mus = set(loop.carried)
    broken = bool(loop.breaks)

    def other_mus(t, me=None):
        return any(x.op == "mu" and x in mus and x is not me for x in walk(t))

    for mu, (init, step) in loop.carried.items():
        r = None
        if not broken and n is not None:
            st = stores(step, mu)
            if st is not None and st:
                st = merge_same_index(st, mu)
                if len(st) == 1:
                    g, i, v = st[0]
                    r = map_store(I, loop, mu, init, g, i, v, other_mus)
            if r is None and not mentions(step, lambda x: x is mu) and not other_mus(step) and (
                    st is None):
                # overwritten in every iteration
                if I.loopdepth >= 1 and n is not None:
                    r = mk("last", K, n, step, init)
            if r is None:
                r = accumulate(loop, mu, init, step, other_mus)
        if r is None:
            r = mk("rec", loop.id, mu)
        res[mu] = r
    return res


def map_store(I, loop, mu, init, g, i, v, other_mus):
    K, n = loop.K, loop.n
    own = mk("idx", mu, i)
    ini = index(init, i) if i.op not in ("tuple", "selix", "rng", "sl", "locix", "list") else mk("idx", init, i)
    v2 = rewrite(v, {own: ini, mk("sel", mu, *i.args) if i.op == "selix" else own: ini})
    v2 = rewrite(v2, {own: ini})
    g2 = rewrite(g, {own: ini})
    if mentions(v2, lambda x: x is mu) or mentions(g2, lambda x: x is mu):
        return None
    if other_mus(v2) or other_mus(g2) or other_mus(i):
        return None
    val = ite(g2, v2, ini, scalar=True)
    c, r0 = (None, None)
    if i.op not in ("tuple", "selix", "rng", "sl", "locix", "list", "str"):
        c, r0 = coefK(i, K)
    if c == 1 and not mentions(r0, lambda x: x.op == "K" and x is not K and False):
        e = rewrite(val, {K: sub(POS, r0)})
        conds = []
        L = M.lenof(init)
        hi = add(r0, n)
        if not (r0.op == "num" and r0.args[0] <= 0):
            conds.append(le(r0, POS))
        if hi is not L:
            conds.append(lt(POS, hi))
        base = init.args[1] if init.op == "full" else init
        out = ite(land(*conds), e, base) if conds else e
        if is_const(out) or (init.op == "full" and not any(x.op == "par" and x not in TT.SCALARS for x in walk(out))):
            return mk("full", init.args[0] if init.op == "full" else M.shape(init), out)
        return out
    if c == 0:
        return None
    facts = {}
    for x in (g2.args if g2.op == "and" else (g2,)):
        facts[x.args[0] if x.op == "not" else x] = FALSE if x.op == "not" else TRUE
    facts = {k: v for k, v in facts.items() if k not in (TRUE, FALSE)}
    if facts:
        i, v2 = rewrite(i, facts), rewrite(v2, facts)
    return mk("mapstore", init, K, n, i, g2, v2)


def accumulate(loop, mu, init, step, other_mus):
    K, n = loop.K, loop.n
    if step.op == "poly" or step is mu:
        d = sub(step, mu)
        if not mentions(d, lambda x: x is mu) and not other_mus(d):
            l = lift(d, K, n)
            if l is not None:
                return add(init, M.red("sum", l))
            return add(init, mk("sumseg", K, n, d))
    if step.op == "ite":
        c, a, b = step.args
        if not mentions(c, lambda x: x is mu):
            d = sub(ite(c, sub(a, mu), sub(b, mu), scalar=True), ZERO)
            if not mentions(d, lambda x: x is mu) and not other_mus(d):
                l = lift(d, K, n)
                if l is not None:
                    if l.op == "ite" and l.args[1] is ONE and l.args[2] is ZERO and is_bool(l.args[0]):
                        l = l.args[0]
                    return add(init, M.red("sum", l))
    if step.op in ("or", "and") and (mk("truth", mu) in step.args or mu in step.args):
        rest = [x for x in step.args if x is not mu and x is not mk("truth", mu)]
        f = (lor if step.op == "or" else land)(*rest)
        if not mentions(f, lambda x: x is mu) and not other_mus(f):
            l = lift(f, K, n)
            if l is not None:
                return (lor if step.op == "or" else land)(
                    init, M.red("any" if step.op == "or" else "all", l))
    return None
