"""Comparison of symbolic memory contents with specification families."""
from val import *
from poly import _gcd, _n
import mem
from mem import *
from ex import *

CMPSTAT = {'cells': 0, 'cases': 0, 'coef': 0, 'cover': 0}

_CB = {}
def canon_binder(depth, lo, hi):
    k = (depth, lo, hi)
    b = _CB.get(k)
    if b is None:
        b = newbinder('k', lo, hi)
        _CB[k] = b
    return b

def group_terms(v, ctx, base_ok):
    """collect the terms of a fully expanded value by atom family:
       {(kind, ver, conj, addr(canonical), binders): coefficient Value}"""
    G = {}
    for tid, c in v.items():
        p, m, at, s = TERM[tid]
        if len(at) == 0:
            key = (None, None, False, ZERO, s)
            G.setdefault(key, {})
            k2 = term(p, m, (), ())
            if s:
                k2 = term(p, m, (), s)
                key = (None, None, False, ZERO, ())
                G.setdefault(key, {})
            G[key] = vadd(G[key], {k2: c})
            continue
        if len(at) > 1:
            raise Fail('cmp', 'product of data elements: %s' % vstr({tid: c}))
        kind, ver, ad, cj = ATOM[at[0]]
        ad = ctx.norm(ad)
        # canonical renaming, binders ordered by stride (newest ranges resolved)
        bs = list(s)
        mp = {}
        newb = []
        def key(b):
            cf = ad.coeffs(b).get(1, ZERO)
            return (sorted(((tuple((SYMS[a], e) for a, e in m)), c) for m, c in cf.t.items()), repr(SUMR[b]))
        bs.sort(key=key)
        for d, b in enumerate(bs):
            lo, hi = rng(b, ctx)
            if any(x in bs for x in lo.syms() | hi.syms()):
                raise Fail('cmp', 'dependent sum ranges')
            nb = canon_binder(d, ZERO, ctx.norm(hi - lo))
            cf = ad.coeffs(b).get(1, ZERO)
            # count upwards from 0
            mp[b] = hi - S(nb) if cf.is_const() and cf.const() < 0 else S(nb) + lo
            newb.append(nb)
        if mp:
            ad2 = ad.substm(mp)
            cv = vsubst({term(p, m, (), ()): c}, mp)
        else:
            ad2 = ad
            cv = {term(p, m, (), ()): c}
        k = (kind, ver, cj, ad2, tuple(newb))
        G[k] = vadd(G.get(k, {}), cv)
    return {k: c for k, c in G.items() if c}

def reduce_consts(v, ctx):
    """phases that are integers by the context"""
    return vnorm(v, ctx)

def cmp_value(got, spec, ctx, obs):
    """got == spec for all values of the free symbols (spec: Value, possibly with sums)"""
    CMPSTAT['cells'] += 1
    got = vnorm(got, ctx)
    spec = vnorm(spec, ctx)
    if vclose(got, spec):
        return
    G = group_terms(got, ctx, None)
    Sg = group_terms(spec, ctx, None)
    # cancel identical groups
    fam = {}
    for g in (G, Sg):
        for k in g:
            fam.setdefault(k[:3], set()).add(k)
    for k in list(G):
        if k in Sg and len(fam[k[:3]]) == 1 and vclose(G[k], Sg[k]):
            del G[k]; del Sg[k]
    for key, ks in fam.items():
        if key[0] is not None and len([k for k in ks if k in Sg]) > 1:
            # several specified families: the difference vanishes
            if not all(k in G and k in Sg and vclose(G[k], Sg[k]) for k in ks):
                mine = [(k, G[k]) for k in ks if k in G] + [(k, vneg(Sg[k])) for k in ks if k in Sg]
                if not (enum_cover(ZERO, ONE, ZERO, C(-1), {}, None, mine, ctx) or seg_cover(ZERO, ONE, ZERO, C(-1), {}, None, mine, ctx)):
                    raise Fail('cmp', 'several families of %s' % verlabel(key[1]))
            for k in ks:
                G.pop(k, None); Sg.pop(k, None)
    if not G and not Sg:
        return
    # pair spec families with covering got families
    for k, sc in list(Sg.items()):
        kind, ver, cj, ad, bs = k
        if kind is None:
            g = G.pop((None, None, False, ZERO, ()), {})
            if not vclose(g, sc):
                raise Fail('post', 'constant part %s, expected %s' % (vstr(g, 4), vstr(sc, 4)))
            continue
        mine = [(g, c) for g, c in G.items() if g[0] == kind and g[1] == ver and g[2] == cj]
        cover(ad, bs, sc, mine, ctx)
        for g, c in mine:
            del G[g]
    rest = {}
    for k, c in G.items():
        if not negligible(c, Sg):
            rest.setdefault(k[:3], []).append((k, c))
    for key, mine in rest.items():
        if len(mine) > 1 and (enum_cover(ZERO, ONE, ZERO, C(-1), {}, None, mine, ctx) or seg_cover(ZERO, ONE, ZERO, C(-1), {}, None, mine, ctx)):
            continue
        for k, c in mine:
            raise Fail('post', 'unexpected contribution of %s[%r] conj=%s: %s' % (verlabel(k[1]), k[3], k[2], vstr(c, 3)))

def negligible(c, Sg):
    mx = max([abs(x) for v in Sg.values() for x in v.values()] + [1e-300])
    return all(abs(x) <= 1e-11*mx for x in c.values())

def verlabel(v):
    return VERS[v].label if isinstance(v, int) else str(v)

def cover(ad, bs, sc, mine, ctx):
    """spec: sum over bs of sc * atom[ad];  mine: families (addr, binders, coef).
       Single spec binder j with address a0 + st*j."""
    if not bs:
        # plain element
        tot = {}
        for g, c in mine:
            if g[4]:
                raise Fail('post', 'sum where a single element %r is expected' % (ad,))
            z = ctx.iszero(g[3] - ad)
            if z is None:
                z = ctx.iszero(g[3] - ad, True)
            if z is None:
                d = ctx.norm(g[3] - ad)
                raise NeedSplit('cond', d) if not (ctx.nonneg(d)) else NeedSplit('cond', d - 1)
            if not z:
                raise Fail('post', 'depends on element %r, expected only %r' % (g[3], ad))
            tot = vadd(tot, c)
        if not vclose(tot, sc):
            raise Fail('post', 'coefficient of element %r is %s, expected %s' % (ad, vstr(tot, 4), vstr(sc, 4)))
        CMPSTAT['coef'] += 1
        return
    if len(bs) != 1:
        raise Fail('cmp', 'specification with several binders')
    j = bs[0]
    cf = ad.coeffs(j)
    if set(cf) - {0, 1}:
        raise Fail('cmp', 'specification address')
    st = cf[1]
    a0 = cf.get(0, ZERO)
    lo, hi = rng(j, ctx)
    if enum_cover(a0, st, lo, hi, sc, j, mine, ctx):
        return
    if seg_cover(a0, st, lo, hi, sc, j, mine, ctx):
        return
    Js = []
    for g, c in mine:
        J = pdiv(ctx.norm(g[3] - a0), st)
        if J is None or not mem._int(J):
            raise Fail('post', 'depends on element %r which is not of the form %r' % (g[3], ad))
        want = vsubst(sc, {j: J})
        if not vclose(c, want):
            raise Fail('post', 'coefficient of element %r (index %r) is %s, expected %s' % (g[3], J, vstr(c, 4), vstr(want, 4)))
        CMPSTAT['coef'] += 1
        Js.append((J, g[4]))
    # the index sets must partition [lo,hi]
    CMPSTAT['cover'] += 1
    tot = ZERO
    sig = {}
    for J, b in Js:
        n = ONE
        lp = lin_parts(J, b)
        if lp is None:
            raise Fail('cmp', 'index %r' % (J,))
        lin, c0 = lp
        if set(b) - set(lin):
            raise Fail('post', 'elements counted several times: %r' % (J,))
        mx = mn = c0
        ds = digits_of(lin, ctx, c0)
        if ds is None:
            raise Fail('cmp', 'index strides')
        dg, c1 = ds
        top = c1
        for s_, t_ in dg:
            n = n*(t_ + 1)
            top = top + s_*t_
        if not ctx.nonneg(c1 - lo, True) or not ctx.nonneg(hi - top, True):
            raise Fail('post', 'index %r outside %r..%r' % (J, lo, hi))
        tot = tot + n
        key = frozenset((str(ctx.norm(s_)), str(ctx.norm(t_))) for s_, t_ in dg)
        sig.setdefault(key, []).append((c1, dg))
    if not ctx.norm(tot - (hi - lo + 1)).is_zero():
        z = ctx.iszero(tot - (hi - lo + 1), True)
        if not z:
            raise Fail('post', 'number of summed elements is %r, expected %r' % (tot, hi - lo + 1))
    for l in sig.values():
        if not layout_injective([ctx.norm(c) for c, d in l], l[0][1], ctx):
            raise Fail('cmp', 'overlapping index families')
    if len(sig) > 1:
        # different shapes: use disjoint intervals or residues
        L = [(c, d) for l in sig.values() for c, d in l]
        for a in range(len(L)):
            for b in range(a):
                if not disjoint_fam(L[a], L[b], ctx):
                    raise Fail('cmp', 'overlapping index families')

def enum_cover(a0, st, lo, hi, sc, j, mine, ctx):
    """small constant ranges: compare the coefficient of every element"""
    if not (lo.is_const() and hi.is_const() and hi.const() - lo.const() <= 64):
        return False
    tot = {}
    for g, c in mine:
        n = 1
        for b in g[4]:
            l, h = rng(b, ctx)
            if not (l.is_const() and h.is_const()):
                return False
            n *= int(h.const() - l.const()) + 1
        if n > 256:
            return False
        L = [{}]
        for b in g[4]:
            l, h = rng(b, ctx)
            L = [{**m, b: C(q)} for m in L for q in range(int(l.const()), int(h.const()) + 1)]
        for m in L:
            J = pdiv(ctx.norm((g[3].substm(m) if m else g[3]) - a0), st)
            if J is None or not J.is_const() or not mem._int(J):
                return False
            tot[J.const()] = vadd(tot.get(J.const(), {}), vsubst(c, m) if m else c)
    mx = max([abs(x) for x in sc.values()] + ([abs(x) for g, c in mine for x in c.values()] if not sc else []) + [1e-300])
    for q in range(int(lo.const()), int(hi.const()) + 1):
        got = tot.pop(q, {})
        want = vsubst(sc, {j: C(q)})
        if not vclose(got, want):
            raise Fail('post', 'coefficient of element %r (index %d) is %s, expected %s' % (a0 + st*q, q, vstr(got, 4), vstr(want, 4)))
        CMPSTAT['coef'] += 1
    for q, v in tot.items():
        if any(abs(x) > 1e-11*mx for x in v.values()):
            raise Fail('post', 'unexpected contribution of element %r: %s' % (a0 + st*q, vstr(v, 4)))
    CMPSTAT['cover'] += 1
    return True

def seg_cover(a0, st, lo, hi, sc, j, mine, ctx):
    """families whose index runs through an interval: refine to common intervals and add the coefficients"""
    F = []
    for g, c in mine:
        if len(g[4]) > 1:
            return False
        J = pdiv(ctx.norm(g[3] - a0), st)
        if J is None or not mem._int(J):
            return False
        if not g[4]:
            F.append((J, J, c, None, None))
            continue
        b = g[4][0]
        cf = J.coeffs(b)
        if set(cf) - {0, 1} or cf.get(1) != ONE:
            return False
        l, h = rng(b, ctx)
        c0 = cf.get(0, ZERO)
        F.append((ctx.norm(c0 + l), ctx.norm(c0 + h), c, b, c0))
    if sc and all(b is None for _, _, _, b, _ in F):
        return False
    def less(p, q):
        """p <= q"""
        d = ctx.norm(q - p)
        if ctx.nonneg(d, True): return True
        if ctx.nonneg(-d - 1, True): return False
        raise NeedSplit('cond', d)
    # starts of elementary intervals
    cuts = []
    def add(p):
        for i, q in enumerate(cuts):
            if ctx.norm(p - q).is_zero():
                return
            if less(p, q):
                if less(q, p):
                    return
                cuts.insert(i, p)
                return
        cuts.append(p)
    add(lo); add(hi + 1)
    for l, h, c, b, c0 in F:
        add(l); add(h + 1)
    mx = max([abs(x) for x in sc.values()] + ([abs(x) for g, c in mine for x in c.values()] if not sc else []) + [1e-300])
    for i in range(len(cuts) - 1):
        l, h = cuts[i], cuts[i + 1] - 1
        t = canon_binder(7, ZERO, ctx.norm(h - l))
        T = l + S(t) if not ctx.norm(h - l).is_zero() else l
        tot = {}
        for fl, fh, c, b, c0 in F:
            if less(fl, l) and less(h, fh):
                tot = vadd(tot, vsubst(c, {b: ctx.norm(T - c0)}) if b is not None else c)
        if less(lo, l) and less(h, hi):
            want = vsubst(sc, {j: T})
            if not vclose(vnorm(tot, ctx), vnorm(want, ctx)):
                raise Fail('post', 'coefficient of element %r (%r..%r) is %s, expected %s' % (a0 + st*T, l, h, vstr(tot, 4), vstr(want, 4)))
            CMPSTAT['coef'] += 1
        elif any(abs(x) > 1e-11*mx for x in tot.values()):
            raise Fail('post', 'unexpected contribution of element %r (%r..%r): %s' % (a0 + st*T, l, h, vstr(tot, 4)))
    CMPSTAT['cover'] += 1
    return True

def disjoint_fam(x, y, ctx):
    (c1, d1), (c2, d2) = x, y
    e1 = sum((s*t for s, t in d1), ZERO)
    e2 = sum((s*t for s, t in d2), ZERO)
    if ctx.nonneg(c2 - c1 - e1 - 1, True) or ctx.nonneg(c1 - c2 - e2 - 1, True):
        return True
    g = 0
    for s, t in d1 + d2:
        if not s.is_const():
            return False
        g = _gcd(g, int(s.const()))
    d = ctx.norm(c1 - c2)
    if d.is_const() and g > 1 and d.const() % g:
        return True
    c = ctx.fork()
    p = c1 - c2
    for k, (s, t) in enumerate(d1):
        p = p + s*c.sym('u', 0, t)
    for k, (s, t) in enumerate(d2):
        p = p - s*c.sym('v', 0, t)
    return c.z3_infeasible(eqs=[p])

def check_family(ctx0, rid, ver, binders, addr, spec, stop=None, obs=None, delta=False, limit=4000, pre=None):
    """for all binder values the cell addr of version ver equals spec (Value over base atoms)"""
    kind = REG[rid].kind
    ctx = ctx0.fork()
    mp = {}
    for b in binders:
        lo, hi = SUMR[b]
        if ctx.norm(lo.substm(mp)) == ctx.norm(hi.substm(mp)):
            mp[b] = ctx.norm(lo.substm(mp))
            continue
        s = ctx.sym('f' + SYMS[b], ctx.norm(lo.substm(mp)), ctx.norm(hi.substm(mp)))
        if not ctx.nonneg(ctx.hi[max(s.syms())][0] - ctx.lo[max(s.syms())][0], True):
            # empty range possible: nothing to show when it is empty
            ctx.assume_ge(ctx.hi[max(s.syms())][0] - ctx.lo[max(s.syms())][0])
            if ctx.dead:
                return 0
        mp[b] = s
    a = addr.substm(mp)
    v = vsubst(spec, mp) if spec else spec
    work = [ctx]
    n = 0
    if const_cells(ver, ctx) is not None:
        # single cells: one case per cell
        tot = 1
        sy = [max(x.syms()) for x in mp.values() if not x.is_const()]
        for y in sy:
            l, h = ctx.lo[y], ctx.hi[y]
            tot = tot*int((h[0] - l[0]).const() + 1) if len(l) == 1 and len(h) == 1 and l[0].is_const() and h[0].is_const() else 1 << 20
        if tot <= 2048:
            for y in sy:
                nw = []
                for c in work:
                    for q in range(int(c.lo[y][0].const()), int(c.hi[y][0].const()) + 1):
                        c2 = c.fork()
                        c2.rewrite(y, C(q))
                        nw.append(c2)
                work = nw
    while work:
        c = work.pop()
        if c.dead:
            continue
        n += 1
        CMPSTAT['cases'] += 1
        if n > limit:
            raise Fail('cmp', 'too many cases')
        try:
            got = expand({term(ZERO, (), (atom(kind, ver, c.norm(a)),), ()): 1.0}, c, stop, delta)
            if pre:
                got = pre(got, c)
            want = vnorm(v, c)
            if any(not is_base(ATOM[x][1], stop) for k in want for x in TERM[k][2] if ATOM[x][0] in 'zdhi'):
                want = expand(want, c, stop, delta)
            cmp_value(got, want, c, obs)
        except NeedSplit as sp:
            l = apply_split(c, sp)
            if sp.kind == 'digit' and sp.a[0] not in c.lo and sp.a[0] not in c.rw:
                raise Fail('cmp', 'cannot split %s' % SYMS[sp.a[0]])
            for c2 in l:
                c2 = c2[0]
                if not c2.dead:
                    work.append(c2)
    return n
