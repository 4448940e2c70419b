"""Contracts of the mixed radix recursion: fwdfft/invfft, their team versions (p) and the prime factor versions (any).
   For n, s >= 1, N = n*s <= 2^30, W[p] = E(-p/N) (0 <= p <= N), and (s = 1 or s even or n odd):
     z[q + s*k] = sum_{j<n} E(-+jk/n) x[q + s*j]   for q < s, k < n, z = eo ? y : x; the other array is undefined.
   Ids: 'mix|fwdfft', 'mix|invfftanyp', ..."""
import re
from val import *
import mem
from mem import *
from ex import *
from spec import *

NMAX = 1 << 30
MN = re.compile(r'@_ZN\d+OTFFT_(AVX2|AVX|SSE2)16OTFFT_MixedRadix\d+(fwd|inv)fft(any)?(p)?E(i?)iib')
FUNS = [d + 'fft' + a + p for d in ('fwd', 'inv') for a in ('', 'any') for p in ('', 'p')]
def mparse(name):
    m = MN.match(name)
    if not m:
        return None
    return m.group(2), bool(m.group(3)), bool(m.group(4))
def mid(d, an, par):
    return 'mix|%sfft%s%s' % (d, 'any' if an else '', 'p' if par else '')

def wfam(n, s, c=ZERO):
    N = n*s
    k = newbinder('w', ZERO, N)
    if N.is_const():
        return (k,), c + S(k), vE(S(k)*Fraction(-1, N.const()))
    return (k,), c + S(k), vE(-S(k)*ppow(n, -1)*ppow(s, -1))

def dftfam(n, s, sg, xv, cx, cz):
    q = newbinder('q', ZERO, s - 1)
    k = newbinder('k', ZERO, n - 1)
    j = newbinder('j', ZERO, n - 1)
    v = vmul(vE(S(j)*S(k)*ppow(n, -1)*sg), {term(ZERO, (), (atom('z', xv, S(q) + S(j)*s + cx),), ()): 1.0})
    return (q, k), S(q) + S(k)*s + cz, vsum(v, j)

def whole(ex, st, r, c, n, modes, own):
    hb = newbinder('c', ZERO, n - 1)
    for m in modes:
        if st.acc is not None:
            st.acc[m].setdefault(r, {})[c + S(hb)] = 1
        if st.par is not None and not ex.binders and not REG[r].priv:
            st.par.ep.append((r, m, c + S(hb), own))

def apply(d, an, par):
    me = mid(d, an, par)
    sg = -1 if d == 'fwd' else 1
    def h(ex, st, av, name, mod):
        r = None
        if an:
            r, av = st.ctx.norm(av[0]), av[1:]
        n, s, eo, px, py, pw = av
        ctx = st.ctx
        n = ctx.norm(n); s = ctx.norm(s)
        if ex.binders or n.is_zero():
            return None
        if isinstance(eo, tuple):
            e = ex.dec(st, eo)
        else:
            e = None if not isinstance(eo, Poly) or not eo.is_const() else bool(eo.const())
        if e is None:
            return None
        N = n*s
        ex.ob('pre', ctx.nonneg(n - 1, True) and ctx.nonneg(s - 1, True), 'size %r x %r passed to %s' % (n, s, me))
        ex.ob('pre', ctx.nonneg(NMAX - N, True), 'size %r x %r passed to %s' % (n, s, me))
        ok = s == ONE or ctx.odd(n) or (pdiv(s, C(2)) is not None and mem._int(pdiv(s, C(2))))
        ex.ob('pre', ok or an, 'stride %r neither 1 nor even for even length %r' % (s, n))
        ex.ob('pre', not e or ctx.nonneg(N - 2, True), 'length 1')
        if an:
            ex.ob('pre', ctx.nonneg(r - 2, True) and ctx.nonneg(32800 - r, True), 'first factor %r' % (r,))
        for p in (px, py, pw):
            if not isinstance(p, Ptr) or not isinstance(p.r, int):
                ex.ob('null', False, 'null array passed to ' + me)
                raise Fail('null', 'null array passed to ' + me)
            if REG[p.r].kind == 'raw':
                REG[p.r].kind = 'z'
            if REG[p.r].kind != 'z':
                raise Unsup('transform of other data')
            ex.flush(st, p.r)
        c = []
        for p, k, w in ((px, N, True), (py, N, True), (pw, N + 1, False)):
            ex.check_range(st, p, k*16, w)
            cc, hh = ex.region_cell(st, p.r, p.o, 'arg')
            if hh:
                raise Unsup('unaligned argument')
            c.append(cc)
        cx, cy, cw = c
        for a, b, ca, cb, la in ((px, py, cx, cy, N), (px, pw, cx, cw, N), (py, pw, cy, cw, N)):
            if a.r == b.r:
                lb = N if b is py else N + 1
                ex.ob('alias', ctx.nonneg(cb - ca - la, True) or ctx.nonneg(ca - cb - lb, True), 'overlapping arrays in a call of ' + me)
        tag = ('mixtab', N, cw, st.ver[pw.r])
        if st.prop.get(pw.r) != tag:
            b, a, v = wfam(n, s, cw)
            check_family(ctx, pw.r, st.ver[pw.r], b, a, v)
            ex.ob('pre', True)
            st.prop[pw.r] = tag
        # termination: recursive calls work on shorter transforms
        top = ex.opts.get('measure')
        if top is not None:
            ex.ob('terminate', ctx.nonneg(ctx.norm(top[0]) - n - (1 if top[1] <= (not an) else 0), True), 'recursion on a transform that is not shorter: %r' % (n,))
        if par:
            if st.par is None:
                pass
            elif any(a[0] in (px.r, py.r) or a[0] == pw.r and a[1] == 'w' for a in st.par.ep):
                raise Unsup('team recursion entered without a barrier')
        ex.used_contracts.add(me)
        xv = st.ver[px.r]
        hb = newbinder('c', ZERO, N - 1)
        b, a, v = dftfam(n, s, sg, xv, cx, cy if e else cx)
        o, co, z = (px, cx, py) if e else (py, cy, px)
        st.ver[o.r] = newver(o.r, st.ver[o.r], [Node((hb,), co + S(hb), None)])
        st.ver[z.r] = newver(z.r, st.ver[z.r], [Node(b, a, v)])
        own = None if st.par is None else ('call%d' % len(VERS)) if par else ('single' if st.par.single else 'all')
        whole(ex, st, px.r, cx, N, 'rw', own)
        whole(ex, st, py.r, cy, N, 'rw', own)
        whole(ex, st, pw.r, cw, N + 1, 'r', 'all' if own is None or not par else own)
        return [('ret', st, None)]
    return h

def handler(name, skip):
    m = mparse(name)
    if m is None or mid(*m) in skip:
        return None
    return apply(*m)

def newarr(st, kind, name, size, ro=False):
    r = newregion(kind, name, size, ro)
    st.ver[r] = REG[r].base
    st.live[r] = True
    return r

def cases(an):
    """(s, is n odd): together they cover s = 1, s even, n odd"""
    return ['s1', 's2', 'odd'] if not an else ['any']

def setup(ex, st, an, par, case, eo):
    ctx = st.ctx
    n = ctx.sym('n', 1, NMAX)
    if case == 's1':
        s = ONE
        ctx.pars = ctx.pars | n.syms()
    elif case == 's2':
        s1 = ctx.sym('s', 1, NMAX//2)
        s = s1*2
        ctx.pars = ctx.pars | n.syms() | s1.syms()
    else:
        s = ctx.sym('s', 1, NMAX)
        ctx.pars = ctx.pars | n.syms() | s.syms()
    if case == 'odd':
        ctx.hints['odd'] = (n,)
    ctx.assume_ge(NMAX - n*s)
    if eo:
        ctx.assume_ge(n*s - 2)
    N = n*s
    rx = newarr(st, 'z', 'x', N*16); ry = newarr(st, 'z', 'y', N*16); rw = newarr(st, 'z', 'W', (N + 1)*16, True)
    b, a, v = wfam(n, s)
    st.ver[rw] = newver(rw, None, [Node(b, a, v)], 'W')
    if par:
        st.par = Par()
    return n, s, rx, ry, rw

def verify(mods, cid, skip, ext, base, only=None):
    """check the body of a function of the recursion against its contract"""
    fn = cid.split('|')[1]
    d, an, par = fn[:3], 'any' in fn, fn[-1] == 'p'
    name = None
    for m in mods:
        for nm in m.defs:
            if mparse(nm) == (d, an, par):
                name = nm
    if name is None:
        raise Unsup('function %s not found' % fn)
    ex = Exec(mods, base, {'ext': ext})
    f = ex.find(name)
    sg = -1 if d == 'fwd' else 1
    tot = 0
    for case in cases(an):
        for eo in (0, 1):
            if only and (case, eo) != only:
                continue
            st = St()
            n, s, rx, ry, rw = setup(ex, st, an, par, case, eo)
            ex.opts['measure'] = (n, not an)
            args = [n, s, ('c', bool(eo)), Ptr(rx), Ptr(ry), Ptr(rw)]
            if an:
                r = st.ctx.sym('r', 2, 32800)
                st.ctx.pars = st.ctx.pars | r.syms()
                args = [r] + args
            xv = st.ver[rx]
            rz = ry if eo else rx
            done = 0
            for k, s2, v in ex.call(f, args, st):
                if k != 'ret':
                    raise Fail('terminate', 'exception leaves the call')
                if s2.ctx.dead:
                    continue
                if par:
                    ex.barrier(s2)
                ex.flush(s2, rz)
                nn, ss = s2.ctx.norm(n), s2.ctx.norm(s)
                b, a, v = dftfam(nn, ss, sg, xv, ZERO, ZERO)
                done += check_family(s2.ctx, rz, s2.ver[rz], b, a, v)
                ex.count['post'] = ex.count.get('post', 0) + 1
            if not done:
                raise Unsup('no terminating path')
            tot += done
    return ex

if __name__ == '__main__':
    import sys, time, client, objs, traceback, poly
    sys.setrecursionlimit(20000)
    ONLY = sys.argv[4] if len(sys.argv) > 4 and '=' in sys.argv[4] else None
    d, back = sys.argv[1:3]
    mods = client.load(d, back)
    for cid in sys.argv[3].split(','):
        for case in cases('any' in cid):
            for eo in (0, 1):
                if ONLY and ONLY != '%s=%d' % (case, eo): continue
                t = time.time()
                CUR.clear()
                try:
                    ex = verify(mods, 'mix|' + cid, (), client.EXT, objs.contracts(()), (case, eo))
                    print('OK', cid, case, eo, ex.count, ex.fails[:3], round(time.time() - t, 2), flush=True)
                except (Unsup, Fail, NeedSplit, VErr, poly.NonMono) as x:
                    e = CUR.get('ex')
                    print('FAIL', cid, case, eo, type(x).__name__, str(x)[:700], [q[-60:] for q in e._stk[-3:]] if e else '', round(time.time() - t, 2), flush=True)
                    if len(sys.argv) > 4: traceback.print_exc()
