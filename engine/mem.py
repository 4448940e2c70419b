"""Array memory as a DAG of versions; a version = parent + families of written cells (nodes).
   Resolution of a cell at a symbolic address is by solving the digit system of each family."""
from val import *
from poly import _gcd, _n, intval
import val as _val
import poly as _poly

class NeedSplit(Exception):
    """kind 'cond': (poly>=0 unknown) ; 'digit': (v, M, enum) v = lo + M*hi"""
    def __init__(self, kind, *a):
        Exception.__init__(self, kind, *[repr(x) for x in a])
        self.kind = kind
        self.a = a

class Fail(Exception):
    """an obligation that could not be discharged"""
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg

class Node:
    __slots__ = ('binders', 'guards', 'addr', 'val', 'c0', 'lin', '_srt')
    def __init__(self, binders, addr, val, guards=()):
        self.binders = tuple(binders)
        self.guards = tuple(guards)
        self.addr = addr
        self.val = val          # Value, or None = havoc
        self._srt = None
        lin = {}
        c0 = addr
        for b in self.binders:
            cf = addr.coeffs(b)
            if set(cf) - {0, 1}:
                lin = None
                break
            if 1 in cf:
                lin[b] = cf[1]
                c0 = c0 - cf[1]*S(b)
        if lin is not None:
            for b, s in lin.items():
                if s.syms() & set(self.binders):
                    lin = None
                    break
        self.lin = lin
        self.c0 = c0

class Version:
    __slots__ = ('id', 'parent', 'nodes', 'region', 'label')

VERS = []
def newver(region, parent, nodes, label=''):
    v = Version()
    v.id = len(VERS)
    v.parent = parent
    v.nodes = nodes
    v.region = region
    v.label = label
    VERS.append(v)
    return v.id

def nrm_node(node, ctx):
    """apply rewrites to a node"""
    rw = ctx.rw
    if not rw:
        return node
    sy = node.addr.syms()
    if node.val:
        sy = sy | vsyms(node.val)
    for b in node.binders:
        sy = sy | SUMR[b][0].syms() | SUMR[b][1].syms()
    if not any(x in rw for x in sy):
        return node
    mp = dict(rw)
    nb = []
    ren = {}
    for b in node.binders:
        lo, hi = SUMR[b]
        l2, h2 = ctx.norm(lo), ctx.norm(hi)
        if l2 != lo or h2 != hi:
            x = newbinder('nb', l2, h2)
            ren[b] = S(x)
            nb.append(x)
        else:
            nb.append(b)
    a = ctx.norm(node.addr)
    v = node.val
    if v:
        v = vsubst(v, mp)
    g = [(k, ctx.norm(p)) for k, p in node.guards]
    if ren:
        a = a.substm(ren)
        if v:
            v = vsubst(v, ren)
        g = [(k, p.substm(ren)) for k, p in g]
    return Node(nb, a, v, g)

_NN = {}
def nodes_of(ver, ctx):
    v = VERS[ver]
    if not ctx.rw:
        return v.nodes
    key = (ver, tuple(sorted((k, p) for k, p in ctx.rw.items())) if len(ctx.rw) < 12 else None)
    if key[1] is not None:
        key = (ver, frozenset(ctx.rw.items()))
        r = _NN.get(key)
        if r is None:
            r = [nrm_node(n, ctx) for n in v.nodes]
            _NN[key] = r
        return r
    return [nrm_node(n, ctx) for n in v.nodes]

def rng(b, ctx):
    lo, hi = SUMR[b]
    return ctx.norm(lo), ctx.norm(hi)

def sorted_digits(node, ctx):
    """[(b, S>0, lo, hi, reflected)] by decreasing stride; constant adjusted. None if not orderable"""
    if node._srt is not None and not ctx.rw:
        return node._srt
    ds = []
    c0 = ctx.norm(node.c0)
    for b, s in node.lin.items():
        s = ctx.norm(s)
        lo, hi = rng(b, ctx)
        if ctx.nonneg(s - 1):
            ds.append((b, s, lo, hi, False))
        elif ctx.nonneg(-s - 1):
            ds.append((b, -s, lo, hi, True))
        else:
            return None
    import functools
    bad = []
    def cmp(x, y):
        d = x[1] - y[1]
        if ctx.nonneg(d):
            if ctx.nonneg(-d):
                # equal strides: unordered
                return 0
            return -1
        if ctx.nonneg(-d):
            return 1
        bad.append(1)
        return 0
    ds.sort(key=functools.cmp_to_key(cmp))
    if bad:
        # ordering ambiguous (e.g. ranges of size one): order by number of factors
        ds.sort(key=lambda x: (-max([sum(e for a, e in m) for m in x[1].t] + [0])))
    out = []
    for b, s, lo, hi, refl in ds:
        if refl:
            # s*(−b): with b = hi − b' ; contributes −s*hi + s*b'
            c0 = c0 - s*hi
        else:
            c0 = c0 + s*lo
        out.append((b, s, lo, hi, refl))
    r = (c0, out)
    if not ctx.rw:
        node._srt = r
    return r

def is_num(p):
    return p.is_const()

def quotient(D, Sx, ctx):
    """A with 0 <= D - Sx*A < Sx, or None"""
    if Sx == ONE:
        return D
    sm = split_multiple(D, Sx)
    cands = []
    if sm:
        A, B = sm
        cands = [(A, B)]
    else:
        q = pdiv(D, Sx)
        if q is not None and all(not isinstance(c, Fraction) for c in q.t.values()):
            return q
        cands = [(ZERO, D)]
    for A, B in cands:
        for off in (0, -1, 1):
            b2 = B - Sx*off if off else B
            if ctx.nonneg(b2) and ctx.nonneg(Sx - 1 - b2):
                return A + off
    return None

def choose_split(D, Sx, U, ctx, avoid=()):
    """pick a variable of D to split so that the quotient by Sx becomes determined"""
    sm = split_multiple(D, Sx)
    B = sm[1] if sm else D
    cand = []
    for m, c in B.t.items():
        if len(m) == 1 and m[0][1] == 1:
            pass
        for a, e in m:
            if e == 1 and a not in ctx.pars:
                cf = B.coeffs(a)
                if set(cf) <= {0, 1}:
                    cand.append((a, cf[1]))
    seen = set()
    res = []
    for a, cv in cand:
        if a in seen:
            continue
        seen.add(a)
        los = [q for q in ctx.lo.get(a, ())]
        his = [q for q in ctx.hi.get(a, ())]
        if not los or not his:
            continue
        d = _poly.DOM.get(a)
        if d is not None:
            d = (ctx.norm(d[0]), ctx.norm(d[1]))
            if d[0] not in los: los.insert(0, d[0])
            if d[1] not in his: his.insert(0, d[1])
        if ctx.nonneg(-cv - 1):
            cv = -cv
        elif not ctx.nonneg(cv - 1):
            continue
        best = None
        for lo in los:
            for hi in his:
                T = hi - lo + 1
                # full digit: T*cv > Sx ?
                M1 = pdiv(Sx, cv)
                if M1 is not None and _int(M1):
                    K = pdiv(T, M1)
                    if K is not None and _int(K) and not (K.is_const() and K.const() <= 1) and ctx.nonneg(K - 1):
                        if not ctx.nonneg(ONE - M1):
                            best = (0, a, lo, hi, M1, K, 'sym')
                            break
                M2 = pdiv(U + 1, cv)
                if M2 is not None and _int(M2) and best is None:
                    K = pdiv(T, M2)
                    if K is not None and _int(K):
                        if K.is_const() and 1 < K.const() <= 64:
                            best = (1, a, lo, hi, M2, K, 'enum')
                        elif not K.is_const() or K.const() > 64:
                            best = (2, a, lo, hi, M2, K, 'sym') if not (M2 == ONE) else None
                if best is None and T.is_const() and 1 < T.const() <= 64:
                    best = (3, a, lo, hi, ONE, T, 'enum')
            if best and best[0] == 0:
                break
        if best:
            res.append(best)
    if not res:
        return None
    res.sort(key=lambda x: (x[0], -x[1]))
    return NeedSplit('digit', *res[0][1:])

def _int(p):
    return all(not isinstance(c, Fraction) for c in p.t.values()) and all(e > 0 for m in p.t for a, e in m)

def decide(ctx, p, what):
    """p>=0 ?  True/False or raise NeedSplit"""
    if ctx.nonneg(p):
        return True
    if ctx.nonneg(-p - 1):
        return False
    if ctx.nonneg(p, True):
        return True
    if ctx.nonneg(-p - 1, True):
        return False
    raise NeedSplit('cond', ctx.norm(p))

class Ragged:
    __slots__ = ('addr', 'u', 'v', 's', 'U', 'lo', 'hi', 'gap', 'c0', 'count', 'gs', 'vmin', 'vmax')
def ragged(addr, bs, guards, ctx):
    """addr(u, v) enumerates cells row by row: linear in v (stride s), v in [lo(u), hi(u)], and every row starts
       at least s after the end of the previous one.  Such an address determines (u, v)."""
    bs = [b for b in bs if b in addr.syms()]
    if len(bs) != 2:
        return None
    for u, v in ((bs[0], bs[1]), (bs[1], bs[0])):
        cf = addr.coeffs(v)
        if set(cf) - {0, 1} or 1 not in cf or not cf[1].is_const() or isinstance(cf[1].const(), Fraction) or cf[1].const() <= 0:
            continue
        s = cf[1].const()
        ul, U = rng(u, ctx)
        if not ul.is_zero() or v in U.syms():
            continue
        vmin, vmax = rng(v, ctx)
        lo, hi = vmin, vmax
        gs = []
        bad = False
        for k, p in guards:
            sy = p.syms()
            if not (sy & {u, v}):
                continue
            g = p.coeffs(v)
            if k != 'ge' or set(g) - {0, 1} or 1 not in g or not g[1].is_const() or abs(g[1].const()) != 1 or sy - {u, v}:
                bad = True
                break
            if g[1].const() == 1:
                q = -g.get(0, ZERO)
                if not ctx.nonneg(q - lo):
                    bad = True
                    break
                lo = q
            else:
                q = g.get(0, ZERO)
                if not ctx.nonneg(hi - q):
                    bad = True
                    break
                hi = q
            gs.append(p)
        if bad:
            continue
        first = addr.substm({v: lo})
        last = addr.substm({v: hi})
        gap = ctx.norm(first.substm({u: S(u) + 1}) - last)
        if not gap.is_const() or gap.const() < s:
            continue
        z = ctx.norm(first.substm({u: ZERO}))
        end = ctx.norm(last.substm({u: U}))
        cnt = pdiv(end - z, C(s))
        if cnt is None or not z.is_const() or not intval(cnt):
            continue
        r = Ragged()
        r.addr, r.u, r.v, r.s, r.U, r.lo, r.hi, r.gap, r.c0, r.count, r.gs = addr, u, v, s, U, lo, hi, gap.const(), z.const(), cnt + 1, gs
        r.vmin, r.vmax = vmin, vmax
        return r
    return None

def match_ragged(node, e, ctx):
    r = ragged(node.addr, node.binders, node.guards, ctx)
    if r is None:
        raise Fail('match', 'non-linear family address %r' % (node.addr,))
    e = ctx.norm(e)
    sq = node.addr.coeffs(r.u)
    d = max(sq)
    for a in sorted(e.syms()):
        ce = e.coeffs(a)
        if max(ce) != d or ce[d] != sq[d]:
            continue
        v = pdiv(e - node.addr.substm({r.u: S(a), r.v: ZERO}), C(r.s))
        if v is None:
            continue
        v = ctx.norm(v)
        if not intval(v):
            c = v.const()
            if intval(v - c) and c != int(c):
                return None
            continue
        if a in v.syms() and not all(x <= 1 for x in v.coeffs(a)):
            continue
        mp = {r.u: S(a), r.v: v}
        if ctx.nonneg(S(a)) and ctx.nonneg(r.U - S(a), True) and ctx.nonneg(v - r.lo.substm(mp), True) and ctx.nonneg(r.hi.substm(mp) - v, True):
            for b in node.binders:
                if b not in mp:
                    raise Fail('match', 'binder %s' % SYMS[b])
            return mp
    raise Fail('match', 'cannot solve %r against %r' % (e, node.addr))

def rect(node, ctx):
    """give every counter of a family a range that does not depend on the other counters (guards instead)"""
    for _ in range(4):
        for b in node.binders:
            lo, hi = rng(b, ctx)
            dep = [x for x in node.binders if x != b and x in hi.syms()]
            if not dep:
                continue
            if len(dep) != 1 or lo.syms() & set(node.binders):
                return node
            u = dep[0]
            cf = hi.coeffs(u)
            if set(cf) - {0, 1} or cf[1] != C(-1) or not lo.is_zero() or rng(u, ctx)[0] != ZERO:
                return node
            K = cf.get(0, ZERO)
            nb = newbinder('v', ZERO, K)
            mp = {b: S(nb) - S(u)}
            val = node.val
            if val:
                val = vsubst(val, mp)
            node = Node([nb if x == b else x for x in node.binders], node.addr.substm(mp), val,
                        tuple((k, p.substm(mp)) for k, p in node.guards) + (('ge', S(nb) - S(u)),))
            break
        else:
            return node
    return node

def match(node, e, ctx):
    """solve node.addr = e.  -> substitution dict, or None (no match), or raises NeedSplit / Fail"""
    if node.lin is None:
        return match_ragged(node, e, ctx)
    sd = sorted_digits(node, ctx)
    if sd is None:
        raise Fail('match', 'unordered strides in %r' % (node.addr,))
    c0, ds = sd
    D = ctx.norm(e - c0)
    mp = {}
    # pointer-range quick reject
    tot = ZERO
    for b, s, lo, hi, refl in ds:
        tot = tot + s*(hi - lo)
    if ctx.nonneg(-D - 1) or ctx.nonneg(D - tot - 1):
        return None
    for b, s, lo, hi, refl in ds:
        tot = tot - s*(hi - lo)
        U = tot
        T1_ = hi - lo
        if not ctx.nonneg(s - 1 - U):
            # overlapping digits
            if T1_.is_zero():
                A = ZERO
            else:
                raise Fail('match', 'overlapping digits in family %r' % (node.addr,))
        else:
            A = quotient(D, s, ctx)
            if A is None:
                # maybe the whole remainder lies within [0,U] for a unique multiple: direct try
                sm = split_multiple(D, s)
                A = None
                if sm:
                    for off in (0, -1, 1):
                        if ctx.nonneg(sm[1] - s*off) and ctx.nonneg(U - (sm[1] - s*off)):
                            A = sm[0] + off
                            break
                if A is None:
                    if T1_.is_zero():
                        A = ZERO
                    else:
                        sp = choose_split(D, s, U, ctx)
                        if sp is None:
                            # decide by conditions: D<0, D>total
                            decide2(ctx, D)
                            decide2(ctx, s*T1_ + U - D)
                            if ctx.nonneg(-D - 1) or ctx.nonneg(D - s*T1_ - U - 1):
                                return None
                            if s.is_const():
                                # split on the residue through a fresh quotient: conditions on D
                                sm2 = split_multiple(D, s)
                                if sm2:
                                    decide2(ctx, sm2[1])
                                    decide2(ctx, s - 1 - sm2[1])
                            raise Fail('match', 'cannot solve %r against %r (stride %r)' % (e, node.addr, s))
                        raise sp
        # range
        try:
            if not decide(ctx, A, 'lo'):
                return None
            if not decide(ctx, T1_ - A, 'hi'):
                return None
        except NeedSplit:
            # A = B + (T+1)*Q with 0 <= B <= T: in range iff Q = 0
            if T1_.is_const():
                raise
            sm2 = split_multiple(A, T1_ + 1)
            if not sm2 or sm2[0].is_const() or not (ctx.nonneg(sm2[1]) and ctx.nonneg(T1_ - sm2[1])):
                raise
            if not decide(ctx, sm2[0], 'lo') or not decide(ctx, -sm2[0], 'hi'):
                return None
            A = sm2[1]
        mp[b] = (hi - A) if refl else (lo + A)
        D = ctx.norm(D - s*A)
    z = ctx.iszero(D)
    if z is None:
        z = ctx.iszero(D, True)
    if z is None:
        decide2(ctx, D)
        decide2(ctx, -D)
        z = ctx.iszero(D)
        if z is None:
            raise Fail('match', 'residual %r undecided' % (D,))
    if not z:
        return None
    for b in node.binders:
        if b not in node.lin:
            lo, hi = rng(b, ctx)
            if ctx.iszero(hi - lo):
                mp[b] = lo
            else:
                raise Fail('match', 'binder %s not determined by address %r' % (SYMS[b], node.addr))
    for k, p in node.guards:
        q = ctx.norm(p.substm(mp))
        if k == 'ge':
            if not decide(ctx, q, 'guard'):
                return None
        elif k == 'ne':
            z = ctx.iszero(q)
            if z is None: z = ctx.iszero(q, True)
            if z is None:
                decide2(ctx, q); decide2(ctx, -q)
                z = ctx.iszero(q)
            if z is None:
                raise Fail('match', 'guard')
            if z:
                return None
        elif k == 'eq':
            z = ctx.iszero(q)
            if z is None: z = ctx.iszero(q, True)
            if z is None:
                decide2(ctx, q); decide2(ctx, -q)
                z = ctx.iszero(q)
            if z is None:
                raise Fail('match', 'guard')
            if not z:
                return None
    return mp

def decide2(ctx, p):
    p = ctx.norm(p)
    if ctx.nonneg(p) or ctx.nonneg(-p - 1) or ctx.nonneg(p, True) or ctx.nonneg(-p - 1, True):
        return
    raise NeedSplit('cond', p)

_CX = {}
def const_cells(ver, ctx):
    """address -> cell for a version made of single cells at constant addresses only (else None)"""
    r = _CX.get(ver, 0)
    if r == 0:
        r = {}
        for n in VERS[ver].nodes:
            if n.binders or n.guards or not n.addr.is_const():
                r = None
                break
            r[n.addr] = n
        if not r or len(r) < 12:
            r = None
        _CX[ver] = r
    if r is not None and ctx.rw:
        a = next(iter(r.values()))
        return _CX2.setdefault((ver, frozenset(ctx.rw.items())), {n.addr: n for n in nodes_of(ver, ctx)})
    return r
_CX2 = {}

def resolve(ver, e, kind, ctx, stop=None):
    """value of cell e in version ver.  Returns Value; atoms of base versions / of `stop` remain."""
    e = ctx.norm(e)
    while True:
        v = VERS[ver]
        if stop is not None and ver in stop:
            return {term(ZERO, (), (atom(kind, ver, e),), ()): 1.0}
        cx = const_cells(ver, ctx)
        if cx is not None and e.is_const():
            node = cx.get(e)
            nl = () if node is None else (node,)
        else:
            nl = reversed(nodes_of(ver, ctx))
        for node in nl:
            mp = match(node, e, ctx)
            if mp is None:
                continue
            if node.val is None:
                return {term(ZERO, (), (atom(kind, ('havoc', ver), e),), ()): 1.0}
            return vsubst(node.val, mp)
        if v.parent is None:
            return {term(ZERO, (), (atom(kind, ver, e),), ()): 1.0}
        ver = v.parent

def is_base(ver, stop):
    if isinstance(ver, tuple) or ver is None:
        return True
    if stop is not None and ver in stop:
        return True
    v = VERS[ver]
    return v.parent is None and not v.nodes

def depth(ver):
    return ver

def split_binder(tid, b, lo, hi, M, K, mode, ctx):
    """rewrite one sum of a term: b = lo + l + M*h -> Value"""
    if K.is_const() and mode == 'enum':
        out = {}
        for c in range(int(K.const())):
            if M == ONE:
                rep = lo + c
                v = strip_binder(tid, b, {b: rep})
            else:
                nl = newbinder('l', ZERO, M - 1)
                v = strip_binder(tid, b, {b: lo + S(nl) + M*c}, (nl,))
            out = vadd(out, v)
        return out
    nl = newbinder('l', ZERO, M - 1)
    nh = newbinder('h', ZERO, K - 1)
    return strip_binder(tid, b, {b: lo + S(nl) + M*S(nh)}, (nl, nh))

def strip_binder(tid, b, mp, newb=()):
    p, m, at, s = TERM[tid]
    s2 = tuple(x for x in s if x != b)
    # other binders whose range depends on b
    t2 = term(p, m, at, tuple(sorted(s2)))
    v = vsubst({t2: 1.0}, mp)
    if newb:
        r = {}
        for k, c in v.items():
            p, m, at, s = TERM[k]
            k2 = term(p, m, at, tuple(sorted(s + newb)))
            r[k2] = r.get(k2, 0) + c
        v = r
    return v

def cond_split_sum(tid, b, q, ctx):
    """split the range of sum binder b at the sign change of q (linear in b, coefficient const)"""
    cf = q.coeffs(b)
    if set(cf) - {0, 1} or not cf[1].is_const():
        return None
    a = cf[1].const()
    r = cf.get(0, ZERO)
    lo, hi = rng(b, ctx)
    if a not in (1, -1):
        if not r.is_const() and any(isinstance(c, Fraction) or c % int(abs(a)) for m, c in r.t.items() if m):
            # general: use floor division for the cut point
            pass
        if isinstance(a, Fraction):
            return None
    d = hi - lo
    if a not in (1, -1) and not r.is_const() and d.is_const() and d.const() < 32:
        return split_binder(tid, b, lo, hi, ONE, d + 1, 'enum', ctx), 'split'
    if a > 0:
        # q>=0  <=> b >= ceil(-r/a) = cut
        cut = -ctx.floordiv(r, C(a)) if a != 1 else -r
    else:
        # q>=0 <=> b <= floor(r/|a|) ; cut = first b with q<0
        cut = (ctx.floordiv(r, C(-a)) if a != -1 else r) + 1
    # need lo <= cut <= hi+1
    if ctx.nonneg(lo - cut):
        parts = [(lo, hi)]
        cut = lo
    if not ctx.nonneg(cut - lo, True):
        if ctx.nonneg(lo - cut, True):
            return {tid: 1.0}, 'same'
        raise NeedSplit('cond', ctx.norm(cut - lo))
    if not ctx.nonneg(hi + 1 - cut, True):
        if ctx.nonneg(cut - hi - 1, True):
            return {tid: 1.0}, 'same'
        raise NeedSplit('cond', ctx.norm(hi + 1 - cut))
    out = {}
    for l, h in ((lo, cut - 1), (cut, hi)):
        if ctx.nonneg(l - h - 1):
            continue
        if (h - l).is_zero():
            out = vadd(out, strip_binder(tid, b, {b: l}))
            continue
        nb = newbinder('c', l, h)
        out = vadd(out, strip_binder(tid, b, {b: S(nb)}, (nb,)))
    return out, 'split'

def delta_rule(tid, ctx):
    """orthogonality: Sum_{b=0}^{n-1} E(b*u/n) with nothing else depending on b, where another
       sum binder m occurs in u with coefficient +-1: collapses to n*[u = 0 mod n]."""
    p, m, at, s = TERM[tid]
    if len(s) < 1:
        return None
    for b in s:
        if any(isinstance(ATOM[x][2], Poly) and b in ATOM[x][2].syms() for x in at):
            continue
        cf = p.coeffs(b)
        if set(cf) - {0, 1} or 1 not in cf:
            continue
        if any(a == b for a, e in m) or any(b in (SUMR[o][0].syms() | SUMR[o][1].syms()) for o in s if o != b):
            continue
        lo, hi = rng(b, ctx)
        if not lo.is_zero():
            continue
        n = hi + 1
        u = ctx.norm(cf[1]*n)     # integer valued?
        if not all(not isinstance(c, Fraction) and all(e > 0 for a, e in mm) for mm, c in u.t.items()):
            continue
        if n.is_const():
            # only u mod n matters
            nc = int(n.const())
            u = Poly({mm: c for mm, c in ((mm, (int(c) + (nc - 1)//2) % nc - (nc - 1)//2) for mm, c in u.t.items()) if c})
        rest = cf.get(0, ZERO)
        s2 = tuple(x for x in s if x != b)
        # the other binder
        for o in s2:
            co = u.coeffs(o)
            if set(co) - {0, 1} or 1 not in co or not co[1].is_const() or abs(co[1].const()) != 1:
                continue
            a = co[1].const()
            r = co.get(0, ZERO)
            ol, oh = rng(o, ctx)
            # o range must fit in one period: oh-ol+1 <= n
            if not ctx.nonneg(n - (oh - ol + 1)):
                continue
            # solutions o = -r/a + j*n
            base = r*(-a)
            t0 = term(rest, m, at, s2)
            for j in (0, 1, -1, 2, -2):
                cand = base + n*j
                if ctx.nonneg(cand - ol) and ctx.nonneg(oh - cand):
                    v = strip_binder(t0, o, {o: cand})
                    return vmul(v, vpoly(n))
            # not decided: need to split: cand in [ol, ol+n-1]
            for j in (0, 1, -1, 2, -2):
                cand = base + n*j
                lo_ok = ctx.nonneg(cand - ol, True)
                hi_ok = ctx.nonneg(ol + n - 1 - cand, True)
                if lo_ok and hi_ok:
                    # unique representative; inside range?
                    if ctx.nonneg(oh - cand, True):
                        return vmul(strip_binder(t0, o, {o: cand}), vpoly(n))
                    if ctx.nonneg(cand - oh - 1, True):
                        return {}
                    return NeedSplit('cond', ctx.norm(oh - cand)), t0
            for j in (0, 1, -1):
                cand = base + n*j
                lo_ok = ctx.nonneg(cand - ol, True)
                hi_ok = ctx.nonneg(ol + n - 1 - cand, True)
                if lo_ok and not hi_ok and ctx.nonneg(ol + 2*n - 1 - cand, True):
                    return NeedSplit('cond', ctx.norm(ol + n - 1 - cand)), t0
                if hi_ok and not lo_ok and ctx.nonneg(cand - ol + n, True):
                    return NeedSplit('cond', ctx.norm(cand - ol)), t0
        # no other binder: u may be provably 0 or nonzero mod n
        if ctx.iszero(u):
            return vmul({term(rest, m, at, s2): 1.0}, vpoly(n))
        if not any(o in u.syms() for o in s2):
            for j in (0, 1, -1, 2, -2):
                if ctx.nonneg(u + n*j - 1, True) and ctx.nonneg(n - 1 - u - n*j, True):
                    return {}
            for j in (0, 1, -1):
                if ctx.nonneg(u + n*j, True) and ctx.nonneg(n - 1 - u - n*j, True):
                    return NeedSplit('cond', ctx.norm(u + n*j - 1)), None
    return None

def expand(v, ctx, stop=None, delta=False, limit=20000):
    """resolve all non-base atoms, latest version first; sums are split where needed.
       raises NeedSplit only on free variables."""
    done = {}
    work = dict(vnorm(v, ctx))
    steps = 0
    while work:
        steps += 1
        if steps > limit:
            raise Fail('expand', 'too many steps')
        tid, c = work.popitem()
        r = expand1(tid, ctx, stop, delta)
        if r is None:
            o = done.get(tid, 0) + c
            if abs(o) < 1e-13*abs(c):
                done.pop(tid, None)
            else:
                done[tid] = o
        else:
            for k, f in r.items():
                x = work.get(k, 0) + c*f
                if x == 0:
                    work.pop(k, None)
                else:
                    work[k] = x
    return done

_EMEMO = {}
def expand1(tid, ctx, stop, delta):
    p, m, at, s = TERM[tid]
    # empty sums
    for b in s:
        lo, hi = rng(b, ctx)
        d = hi - lo
        if d.is_const():
            if d.const() < 0:
                return {}
            if d.const() == 0:
                return strip_binder(tid, b, {b: lo})
        elif ctx.nonneg(-d - 1):
            return {}
    if delta and s:
        for b in s:
            # nothing depends on b: it counts
            if b not in p.syms() and not any(b in ATOM[x][2].syms() for x in at if isinstance(ATOM[x][2], Poly)) and \
                    not any(b in SUMR[o][0].syms() | SUMR[o][1].syms() for o in s if o != b) and not any(a == b for a, e in m):
                lo, hi = rng(b, ctx)
                return vmul({term(p, m, at, tuple(x for x in s if x != b)): 1.0}, vpoly(hi - lo + 1))
        r = delta_rule(tid, ctx)
        if r is not None:
            if isinstance(r, tuple):
                sp, t0 = r
                # split the condition on one of the remaining binders or on free variables
                q = sp.a[0]
                for b in TERM[tid][3]:
                    if b in q.syms():
                        cs = cond_split_sum(tid, b, q, ctx)
                        if cs is not None and cs[1] == 'split':
                            return cs[0]
                raise sp
            return r
    best = None
    for x in at:
        k = ATOM[x]
        if k[0] in 'zdh' and not is_base(k[1], stop):
            if best is None or k[1] > ATOM[best][1]:
                best = x
    if best is None:
        return None
    kind, ver, ad, cj = ATOM[best]
    if s and not ad.is_const() and const_cells(ver, ctx) is not None:
        bs = [b for b in ctx.norm(ad).syms()]
        if all(b in s for b in bs):
            for b in bs:
                lo, hi = rng(b, ctx)
                d = hi - lo
                if d.is_const() and d.const() < 256:
                    return split_binder(tid, b, lo, hi, ONE, d + 1, 'enum', ctx)
    try:
        r = resolve(ver, ad, kind, ctx, stop)
    except NeedSplit as sp:
        if sp.kind == 'digit':
            vsym, lo, hi, M, K, mode = sp.a
            if vsym in s:
                blo, bhi = rng(vsym, ctx)
                if blo == lo and bhi == hi:
                    return split_binder(tid, vsym, lo, hi, M, K, mode, ctx)
                # partial knowledge: fall through to enumeration impossible
                raise Fail('expand', 'range of sum binder')
            raise
        q = sp.a[0]
        bs = sorted((b for b in s if b in q.syms()), key=lambda b: (abs(_c1(q, b)) != 1, -b))
        for b in bs:
            try:
                cs = cond_split_sum(tid, b, q, ctx)
            except NeedSplit as s2:
                # the cut point depends on another binder: cut that one first
                q2 = s2.a[0]
                cs = None
                ob = [x for x in s if x in q2.syms()]
                if not ob:
                    raise
                for x in ob:
                    cs = cond_split_sum(tid, x, q2, ctx)
                    if cs is not None and cs[1] == 'split':
                        return cs[0]
                raise Fail('expand', 'condition %r on sum' % (q,))
            if cs is not None:
                if cs[1] == 'same':
                    raise Fail('expand', 'condition %r on sum' % (q,))
                return cs[0]
        if bs:
            raise Fail('expand', 'condition %r on sum' % (q,))
        raise
    if cj:
        r = vconj(r)
    at2 = list(at)
    at2.remove(best)
    return vmul({term(p, m, tuple(at2), s): 1.0}, r)
def _c1(q, b):
    c = q.coeffs(b).get(1, ZERO)
    return c.const() if c.is_const() else 99

# ------------------------------------------------------------------ case forking on free variables
def apply_split(ctx, sp):
    """-> list of (ctx', substitution map, label)"""
    out = []
    if sp.kind == 'cond':
        q = sp.a[0]
        c1 = ctx.fork(); c1.assume_ge(q)
        if not c1.dead:
            out.append((c1, '%r>=0' % q))
        c2 = ctx.fork(); c2.assume_ge(-q - 1)
        if not c2.dead:
            out.append((c2, '%r<0' % q))
        return out
    v, lo, hi, M, K, mode = sp.a
    if mode == 'enum':
        for c in range(int(K.const())):
            c1 = ctx.fork()
            if M == ONE:
                c1.rewrite(v, lo + c)
            else:
                nl = c1.sym('l', 0, M - 1)
                c1.rewrite(v, lo + nl + M*c)
            if not c1.dead:
                out.append((c1, '%s hi=%d' % (SYMS[v], c)))
    else:
        c1 = ctx.fork()
        nl = c1.sym('l', 0, M - 1)
        nh = c1.sym('h', 0, K - 1)
        c1.rewrite(v, lo + nl + M*nh)
        out.append((c1, '%s digits' % SYMS[v]))
    return out

# ------------------------------------------------------------------ lane merging
def merge_nodes(nodes, b, ctx):
    """merge families that are the residue classes of a finer binder"""
    changed = True
    nodes = list(nodes)
    while changed and len(nodes) > 1:
        changed = False
        groups = {}
        for i, n in enumerate(nodes):
            if n.lin is None or n.guards:
                continue
            key = (n.binders, frozenset(n.lin.items()), n.val is None)
            groups.setdefault(key, []).append(i)
        for key, idx in groups.items():
            if len(idx) < 2:
                continue
            n0 = nodes[idx[0]]
            for bb in n0.binders:
                if bb not in n0.lin:
                    continue
                Sx = n0.lin[bb]
                lo, hi = SUMR[bb]
                if not lo.is_zero():
                    continue
                hit = None
                offs = {}
                for i in idx:
                    offs[ctx.norm(nodes[i].c0)] = i
                for k in (2, 4, 8, 16, 3, 5):
                    if k > len(idx):
                        continue
                    st = pdiv(Sx, C(k))
                    if st is None or any(isinstance(c, Fraction) for c in st.t.values()):
                        continue
                    for i in idx:
                        base = nodes[i]
                        mem = [i]
                        for j in range(1, k):
                            o = offs.get(ctx.norm(base.c0 + st*j))
                            if o is None:
                                break
                            mem.append(o)
                        if len(mem) < k:
                            continue
                        u = newbinder('m', ZERO, (hi + 1)*k - 1)
                        v0 = None
                        if base.val is not None:
                            try:
                                v0 = vsubst(base.val, {bb: S(u)*Fraction(1, k)})
                            except (NonMono, VErr):
                                continue
                            ok = True
                            for j, o in enumerate(mem):
                                if not vclose(vsubst(v0, {u: S(bb)*k + j}), nodes[o].val):
                                    ok = False
                                    break
                            if not ok:
                                continue
                        nn = Node([u if x == bb else x for x in base.binders], base.addr.substm({bb: S(u)*Fraction(1, k)}), v0)
                        hit = (mem, nn)
                        break
                    if hit:
                        break
                if hit:
                    mem, nn = hit
                    pos = max(mem)
                    nodes = [n for i, n in enumerate(nodes) if i not in mem] + [nn]
                    changed = True
                    break
            if changed:
                break
    return nodes

# ------------------------------------------------------------------ disjointness
def lin_parts(addr, bs):
    lin = {}
    c0 = addr
    for b in bs:
        cf = addr.coeffs(b)
        if set(cf) - {0, 1}:
            return None
        if 1 in cf:
            lin[b] = cf[1]
            c0 = c0 - cf[1]*S(b)
    return lin, c0

def layout_injective(offsets, digits, ctx, depth=0):
    """all addresses o + sum S*b (distinct (o,b)) are distinct.  digits: [(S,T1=T-1)] S>0, b in [0,T1]"""
    digits = list(digits)
    if not digits:
        for i in range(len(offsets)):
            for j in range(i):
                if ctx.iszero(offsets[i] - offsets[j]) is not False:
                    if ctx.iszero(offsets[i] - offsets[j], True) is not False:
                        return False
        return True
    if depth > 12:
        return False
    # remove a digit whose stride exceeds the spread of everything else
    ext = ZERO
    for s, t in digits:
        ext = ext + s*t
    for k, (s, t) in enumerate(digits):
        if t.is_zero():
            return layout_injective(offsets, digits[:k] + digits[k+1:], ctx, depth+1)
    for k, (s, t) in enumerate(digits):
        rest = ext - s*t
        ok = True
        for i in range(len(offsets)):
            for j in range(len(offsets)):
                if not ctx.nonneg(s - 1 - rest - (offsets[i] - offsets[j])):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return layout_injective(offsets, digits[:k] + digits[k+1:], ctx, depth+1)
    # offsets separated by more than the extent of all digits
    if len(offsets) > 1:
        for i in range(len(offsets)):
            for j in range(i):
                d = offsets[i] - offsets[j]
                if not (ctx.nonneg(d - ext - 1) or ctx.nonneg(-d - ext - 1)):
                    # residue argument: all strides multiples of g and d not
                    g = 0
                    num = d.is_const()
                    if num:
                        for s, t in digits:
                            if s.is_const():
                                g = _gcd(g, int(s.const()))
                            else:
                                cc = 0
                                for c in s.t.values():
                                    cc = _gcd(cc, abs(int(c)))
                                g = _gcd(g, cc)
                        if g > 1 and int(d.const()) % g:
                            continue
                    return False
        return layout_injective([ZERO], digits, ctx, depth+1)
    return False

def digits_of(lin, ctx, c0):
    ds = []
    for b, s in lin.items():
        s = ctx.norm(s)
        lo, hi = rng(b, ctx)
        if ctx.nonneg(s):
            c0 = c0 + s*lo
            ds.append((s, hi - lo))
        elif ctx.nonneg(-s):
            c0 = c0 + s*hi
            ds.append((-s, hi - lo))
        else:
            return None
    return ds, c0
