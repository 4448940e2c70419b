"""Whole-object checks: create an object through the backend's factory, run its virtual functions symbolically and
   compare the memory afterwards with the transform's definition."""
import os, sys, time, math
from val import *
import mem
from mem import *
from ex import *
from spec import *
import kern, irparse

TUS = ['client', 'otfft_algo', 'otfft_algo_dif4', 'otfft_algo_dif8', 'otfft_algo_dif16', 'otfft_algo_dit4', 'otfft_algo_dit8',
       'otfft_algo_dit16', 'otfft_algo_sixstep', 'otfft_algo_mixed']
def load(d, back, tus=None):
    return [irparse.Module('%s/%s.%s.ll' % (d, back, t)) for t in tus or TUS]

# ------------------------------------------------------------------ allocation
def _fail(ex, st):
    """allocation failure branch (only when the check asks for it)"""
    return ex.opts.get('allocfail') and (ex.opts['allocfail'] == 'all' or st.prop.get('#allocs', 0) == ex.opts['allocfail'])
def alloc(ex, st, kind, name, size, how):
    r = newregion(kind, name, size)
    st.ver[r] = REG[r].base
    st.live[r] = True
    st.heap[r] = how
    st.cells[r] = {}
    st.trace = st.trace + (r,)
    return Ptr(r)
def release(ex, st, p, how):
    if not isinstance(p, Ptr):
        raise Unsup('release of %r' % (p,))
    if p.r is None:
        return
    if not isinstance(p.r, int) or p.r not in st.heap:
        ex.ob('release', False, 'release of memory that was not allocated')
        return
    ex.ob('release', p.o.is_zero() and st.live.get(p.r) is True, 'double release of %s' % REG[p.r].name)
    ex.ob('release', st.heap[p.r] == how, '%s allocated by %s, released by %s' % (REG[p.r].name, st.heap[p.r], how))
    st.live[p.r] = False
    st.pend.pop(p.r, None)
def x_new(ex, st, av, n):
    ex.nalloc = getattr(ex, 'nalloc', 0) + 1
    outs = []
    if _fail(ex, st):
        s2 = st.copy()
        s2.prop['#failed'] = 'new'
        s2.prop['#exc'] = '@_ZTISt9bad_alloc'
        outs.append(('throw', s2, ('exc', UND)))
    st.prop['#allocs'] = st.prop.get('#allocs', 0) + 1
    return [('ret', st, alloc(ex, st, 'cell', 'object', st.ctx.norm(av[0]), 'new'))] + outs
def x_delete(ex, st, av, n):
    release(ex, st, av[0], 'new')
    return [('ret', st, None)]
def x_memalign(ex, st, av, n):
    pp, al, size = av
    size = st.ctx.norm(size)
    ex.ob('bounds', st.ctx.nonneg(size, True), 'negative allocation size %r' % (size,))
    outs = []
    if _fail(ex, st):
        s2 = st.copy()
        s2.prop['#failed'] = 'memalign'
        outs.append(('ret', s2, C(12)))
    st.prop['#allocs'] = st.prop.get('#allocs', 0) + 1
    p = alloc(ex, st, 'raw', 'buffer', size, 'memalign')
    # element view of the block (any view is sound; this one matches the accesses to come)
    for f in reversed(ex._stk):
        if 'simd_array' in f:
            if 'simd_arrayINS_9complex_tE' in f: REG[p.r].kind = 'z'
            elif 'simd_arrayIdE' in f: REG[p.r].kind = 'd'
            break
    ex.store(st, pp, 'ptr', p, ex.mods[0])
    return [('ret', st, ZERO)] + outs
def x_free(ex, st, av, n):
    release(ex, st, av[0], 'memalign')
    return [('ret', st, None)]
def x_malloc(ex, st, av, n):
    outs = []
    if _fail(ex, st):
        s2 = st.copy()
        s2.prop['#failed'] = 'malloc'
        outs.append(('ret', s2, NULL))
    st.prop['#allocs'] = st.prop.get('#allocs', 0) + 1
    return outs + [('ret', st, alloc(ex, st, 'raw', 'buffer', st.ctx.norm(av[0]), 'memalign'))]
def x_one(ex, st, av, n):
    return [('ret', st, alloc(ex, st, 'cell', 'exception', C(64), 'exception'))]
def x_throw(ex, st, av, n):
    st.live[av[0].r] = False
    st.prop['#exc'] = av[1].r if isinstance(av[1], Ptr) else None
    return [('throw', st, ('exc', UND))]
def x_ret0(ex, st, av, n):
    return [('ret', st, NULL)]
def x_rethrow(ex, st, av, n):
    return [('throw', st, ('exc', UND))]
def x_terminate(ex, st, av, n):
    ex.ob('terminate', False, 'std::terminate is called')
    return []
EXT = {'_ZSt9terminatev': x_terminate, '_Znwm': x_new, '_Znam': x_new, '_ZdlPv': x_delete, '_ZdlPvm': x_delete, '_ZdaPv': x_delete, 'posix_memalign': x_memalign,
       'free': x_free, 'malloc': x_malloc, '__cxa_allocate_exception': x_one, '__cxa_throw': x_throw, '__cxa_begin_catch': x_ret0,
       '__cxa_end_catch': x_ret0, '__cxa_rethrow': x_rethrow, '__cxa_free_exception': x_ret0, '_ZNSt9bad_allocC1Ev': x_ret0, '_ZNSt9bad_allocC2Ev': x_ret0}

def mkex(mods, skip=(), classes=(), **o):
    return Exec(mods, objs.contracts(classes, skip), dict({'ext': EXT}, **o))

def rets(outs):
    r = []
    for k, s, v in outs:
        if k != 'ret':
            raise Fail('terminate', 'exception leaves the call')
        if not s.ctx.dead:
            r.append((s, v))
    return r

MODES = {'fwd': (-1, 2), 'fwd0': (-1, 0), 'fwdu': (-1, 1), 'fwdn': (-1, 2), 'inv': (1, 0), 'inv0': (1, 0), 'invu': (1, 1), 'invn': (1, 2)}

def dft_family(xver, n, sg, c):
    """x'[k] = c sum_j E(sg jk/n) x[j]; n Poly, c float or Value"""
    n = P(n)
    kk = newbinder('k', ZERO, n - 1)
    j = newbinder('j', ZERO, n - 1)
    v = vE(pdiv_frac(S(j)*S(kk)*sg, n))
    v = vmul(v, {term(ZERO, (), (atom('z', xver, S(j)),), ()): 1.0})
    v = vscale(v, c) if not isinstance(c, dict) else vmul(v, c)
    v = vsum(v, j)
    return (kk,), S(kk), v
def pdiv_frac(p, n):
    if n.is_const():
        return p*Fraction(1, n.const())
    q = pdiv(p, n)
    if q is None:
        raise VErr('phase')
    return q

def create(ex, kind, n, st=None):
    st = st or St()
    f = ex.find('@vp_new_' + kind)
    return rets(ex.call(f, [P(n)], st))

def newarr(st, kind, name, size, ro=False):
    r = newregion(kind, name, size, ro)
    st.ver[r] = REG[r].base
    st.live[r] = True
    return r

def check_complex(ex, kind, n, modes=tuple(MODES)):
    """-> list of (mode, cases) for object length n (int)"""
    res = []
    for st0, obj in create(ex, kind, n):
        for m in modes:
            st = st0.copy()
            rx = newarr(st, 'z', 'x', P(n)*16)
            xv = st.ver[rx]
            cnt = 0
            fr = objs.frame(ex, st, [rx])
            for s, _ in rets(ex.call(ex.find('@vp_complex_' + m), [obj, Ptr(rx)], st)):
                objs.framed(ex, s, fr)
                ex.flush(s, rx)
                sg, md = MODES[m]
                b, a, v = dft_family(xv, n, sg, kern.scale(md, n))
                cnt += check_family(s.ctx, rx, s.ver[rx], b, a, v)
                ex.count['post'] = ex.count.get('post', 0) + 1
            if not cnt:
                raise Unsup('no terminating path')
            res.append((m, cnt))
    return res

def u_complex(ex, kind, n, mode):
    check_complex(ex, kind, n, (mode,))

def u_mixed(ex, kind, n, mode):
    """complex transforms of every length without a power-of-two kernel"""
    tot = 0
    for l in objs.alllen('FFT') if n == '*' else [int(n)]:
        st = St()
        nn = objs.anylen(st, 'FFT') if l == '*' else C(l)
        cnt = 0
        for s0, obj in create(ex, 'complex', nn, st):
            rx = newarr(s0, 'z', 'x', s0.ctx.norm(P(nn))*16)
            xv = s0.ver[rx]
            fr = objs.frame(ex, s0, [rx])
            for s, _ in rets(ex.call(ex.find('@vp_complex_' + mode), [obj, Ptr(rx)], s0)):
                objs.framed(ex, s, fr)
                cnt += objs.compare(ex, s, rx, objs.dftfam(s.ctx.norm(nn), mode, lambda j: atom('z', xv, j)))
        if not cnt:
            raise Unsup('no terminating path')
        tot += cnt
    return tot

# ------------------------------------------------------------------ classes on top: contracts of the inner classes are used
import objs
def evenlen(st, lo=1):
    """any even length"""
    h = st.ctx.sym('h', lo, objs.NMAX//2)
    st.ctx.pars = st.ctx.pars | h.syms()
    return h*2

def length(st, n, even):
    if n == '*':
        if even:
            return evenlen(st)
        p = st.ctx.sym('n', 1, objs.NMAX)
        st.ctx.pars = st.ctx.pars | p.syms()
        return p
    return C(int(n))

def u_real(ex, kind, n, mode):
    """the factory's real transform: virtual calls reach the verified class"""
    st = St()
    n = length(st, n, True)
    cnt = 0
    for s0, obj in create(ex, kind, n, st):
        cnt += objs.run_mode(ex, s0, 'RFFT', mode, n, obj, ex.find('@vp_real_' + mode))
    if not cnt:
        raise Unsup('no terminating path')
    return cnt

def u_dct(ex, kind, n, mode):
    st = St()
    n = length(st, n, True)
    cnt = 0
    for s0, obj in create(ex, kind, n, st):
        nn = s0.ctx.norm(n)
        rx = newarr(s0, 'd', 'x', nn*8)
        xv = s0.ver[rx]
        md = {'fwd': 2, 'fwdn': 2, 'fwd0': 0, 'inv': 0, 'inv0': 0, 'invn': 2}[mode]
        at = lambda j: {term(ZERO, (), (atom('d', xv, j),), ()): 1.0}
        cosv = lambda k, p: vre(vE(objs.frac(k*(p*2 + 1), nn*4)))
        fr = objs.frame(ex, s0, [rx])
        for s, _ in rets(ex.call(ex.find('@vp_dct_' + mode), [obj, Ptr(rx)], s0)):
            objs.framed(ex, s, fr)
            kk = newbinder('k', ZERO, nn - 1)
            if mode.startswith('fwd'):
                j = newbinder('p', ZERO, nn - 1)
                v = vsum(vmul(cosv(S(kk), S(j)), at(S(j))), j)
            else:
                j = newbinder('k', ONE, nn - 1)
                v = vadd(at(ZERO), vscale(vsum(vmul(cosv(S(j), S(kk)), at(S(j))), j), 2.0))
            cnt += objs.compare(ex, s, rx, ((kk,), S(kk), vmul(v, objs.nscale(md, nn))))
    if not cnt:
        raise Unsup('no terminating path')
    return cnt

def unify_tables(ex, st, sizes=None):
    """replace piecewise definitions of one phase function by a single one, where that is provable"""
    for r, v in list(st.ver.items()):
        if REG[r].kind != 'z' or st.live.get(r) is False or r not in st.heap:
            continue
        ex.flush(st, r)
        v = st.ver[r]
        nd = []
        w = v
        while w is not None:
            nd += nodes_of(w, st.ctx); w = VERS[w].parent
        if len(nd) < 3 or any(n.val is None for n in nd):
            continue
        size = pdiv(st.ctx.norm(REG[r].size), C(16))
        for n in nd:
            if len(n.binders) != 1 or len(n.val) != 1:
                continue
            b = n.binders[0]
            cf = n.addr.coeffs(b)
            if set(cf) - {0, 1} or not cf[1].is_const() or abs(cf[1].const()) != 1:
                continue
            (t, c), = n.val.items()
            if TERM[t][2] or TERM[t][3]:
                continue
            k = newbinder('k', ZERO, size - 1)
            f = vsubst(n.val, {b: (S(k) - cf.get(0, ZERO))*cf[1].const()})
            try:
                check_family(st.ctx, r, v, (k,), S(k), f)
            except (Fail, NeedSplit, VErr):
                continue
            st.ver[r] = newver(r, None, [Node((k,), S(k), f)], 'table')
            break

def u_bluestein(ex, kind, n, mode):
    """n = 'L<k>': every length N whose convolution length is 2^k; or a number"""
    st = St()
    if isinstance(n, str) and n[0] == 'L':
        k = int(n[1:])
        lo, hi = ((1 << k)//4 + 1 if k > 1 else 1), max((1 << k)//2, 1)
        if lo == hi:
            n = C(lo)
        else:
            n = st.ctx.sym('n', lo, hi)
            st.ctx.pars = st.ctx.pars | n.syms()
    else:
        n = C(int(n))
    cnt = 0
    for s0, obj in create(ex, kind, n, st):
        nn = s0.ctx.norm(n)
        unify_tables(ex, s0)
        rx = newarr(s0, 'z', 'x', nn*16)
        xv = s0.ver[rx]
        fr = objs.frame(ex, s0, [rx])
        for s, _ in rets(ex.call(ex.find('@vp_complex_' + mode), [obj, Ptr(rx)], s0)):
            objs.framed(ex, s, fr)
            ex.flush(s, rx)
            b, a, v = objs.dftfam(s.ctx.norm(nn), mode, lambda j: atom('z', xv, j))
            cnt += check_family(s.ctx, rx, s.ver[rx], b, a, v, delta=True)
            ex.count['post'] = ex.count.get('post', 0) + 1
    if not cnt:
        raise Unsup('no terminating path')
    return cnt

UNIT = {'bluestein': u_bluestein, 'complex': u_complex, 'mixed': u_mixed, 'real': u_real, 'dct': u_dct}
CLASSES = {'complex': ('FFT0',), 'mixed': ('FFT0',), 'real': ('RFFT',), 'dct': ('RFFT',), 'bluestein': ('FFT',)}

if __name__ == '__main__':
    d, back, kind = sys.argv[1:4]
    mods = load(d, back)
    import traceback
    for n in sys.argv[4].split(','):
        n = int(n) if n.isdigit() else n
        for m in (sys.argv[5].split(',') if len(sys.argv) > 5 else MODES):
            t = time.time()
            try:
                ex = mkex(mods, (), CLASSES[kind])
                r = UNIT[kind](ex, kind, n, m)
                print('OK', n, r, ex.count, ex.fails[:3], len(ex.used_contracts), round(time.time() - t, 2), flush=True)
            except (Unsup, Fail, NeedSplit, VErr) as x:
                print('FAIL', n, m, type(x).__name__, str(x)[:500], ex._stk[-2:], round(time.time() - t, 2), flush=True)
                if len(sys.argv) > 6: traceback.print_exc()
