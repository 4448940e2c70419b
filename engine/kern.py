"""Contracts of the power-of-two kernels: fwdfft/invfft<n,s,eo,mode>."""
import re, math
from val import *
import mem
from mem import *
from ex import *
from spec import *

KN = re.compile(r'@_ZNK\d+OTFFT_(AVX2|AVX|SSE2)(\d+)(OTFFT_\w+?)(\d)(fwd|inv)fftILi(\d+)ELi(\d+)ELb([01])ELi(\d+)EEclE')

class KC:
    """contract instance of one kernel"""
    __slots__ = ('name', 'back', 'ns', 'dir', 'n', 's', 'eo', 'mode', 'radix', 'omp', 'dit')
def kparse(name):
    m = KN.match(name)
    if not m:
        return None
    back, ln, rest = m.group(1), m.group(2), m.group(3)
    k = KC()
    k.name = name
    k.back = back
    k.ns = rest
    k.dir = m.group(5)
    k.n, k.s, k.eo, k.mode = int(m.group(6)), int(m.group(7)), int(m.group(8)), int(m.group(9))
    r = re.match(r'OTFFT_AVXDI[FT](\d+)(omp)?$', k.ns)
    if not r:
        return None
    k.radix = int(r.group(1))
    k.omp = bool(r.group(2))
    k.dit = 'DIT' in k.ns
    return k

def scale(mode, N):
    return {0: 1.0, 1: 1/math.sqrt(N), 2: 1.0/N}[mode]

_TAB = {}
def table(k):
    """-> (cells, families [(binders, addr, val)]) or None when no table is needed"""
    N = k.n*k.s
    key = (k.radix, N, k.omp)
    r = _TAB.get(key)
    if r is not None:
        return r
    R = k.radix
    if k.omp:
        p = newbinder('p', 0, N//R - 1)
        r = (N//R, [((p,), S(p), vE(S(p)*Fraction(-1, N)))])
    elif N <= R:
        r = (0, [])
    else:
        p = newbinder('p', 0, N//R - 1)
        kk = newbinder('k', 1, R - 1)
        p2 = newbinder('p', 0, N//R - 1)
        k2 = newbinder("k", 1, R - 1)
        r = (2*N, [((kk, p), S(p) + (S(kk) - 1)*(N//R), vE(S(p)*S(kk)*Fraction(-1, N))),
                   ((p2, k2), S(p2)*R + S(k2) + N, vE(S(p2)*S(k2)*Fraction(-1, N)))])
    _TAB[key] = r
    return r

def sync_exit(k):
    """inner passes of the decimation-in-time recursion end synchronised (other passes read their result)"""
    return k.omp and k.dit and k.s > 1

def dft_nodes(k, xver, ox, oz):
    """family of results: addr oz+q+s*k = c sum_j E(-+jk/n) x[ox+q+s*j]"""
    n, s = k.n, k.s
    sg = -1 if k.dir == 'fwd' else 1
    c = scale(k.mode, n*s)
    q = newbinder('q', 0, s - 1)
    kk = newbinder('k', 0, n - 1)
    j = newbinder('j', 0, n - 1)
    v = vE(S(j)*S(kk)*Fraction(sg, n))
    v = vscale(vmul(v, {term(ZERO, (), (atom('z', xver, S(q) + S(j)*s + ox),), ()): 1.0}), c)
    v = vsum(v, j)
    return (q, kk), S(q) + S(kk)*s + oz, v

def verify(mods, k, contracts, opts=None, verbose=0):
    """check the body of kernel k against its contract; returns Exec"""
    ex = Exec(mods, contracts, opts)
    f = ex.find(k.name)
    if f is None:
        raise Unsup('no body for ' + k.name)
    st = St()
    N = k.n*k.s
    rx = newregion('z', 'x', C(16*N)); ry = newregion('z', 'y', C(16*N))
    cells, fams = table(k)
    for r in (rx, ry):
        st.ver[r] = REG[r].base; st.live[r] = True
    if cells:
        rw = newregion('z', 'W', C(16*cells), ro=True)
        st.ver[rw] = newver(rw, None, [Node(b, a, v) for b, a, v in fams], 'W')
        st.live[rw] = True
        pw = Ptr(rw)
        st.prop[rw] = ('table', k.radix, N, k.omp, st.ver[rw])
    else:
        pw = NULL
    this = newregion('cell', 'functor', C(1))
    st.ver[this] = REG[this].base; st.live[this] = True
    if k.omp:
        st.par = Par()
    xv = st.ver[ry if k.dit and k.eo else rx]
    args = [Ptr(this), Ptr(rx), Ptr(ry), pw]
    outs = ex.call(f, args, st)
    ok = 0
    for kd, s, v in outs:
        if kd != 'ret':
            raise Unsup('exception')
        if k.omp:
            if sync_exit(k):
                ex.ob('race', not s.par.ep, 'no barrier at the end of an inner pass')
            ex.barrier(s)
        rz = ry if k.eo and not k.dit else rx
        ex.flush(s, rz)
        b, a, v = dft_nodes(k, xv, ZERO, ZERO)
        ex.nc = check_family(s.ctx, rz, s.ver[rz], b, a, v)
        ex.count['post'] = ex.count.get('post', 0) + 1
        ok += 1
    if not ok:
        raise Unsup('no terminating path')
    return ex

def apply(k):
    """contract application at a call site"""
    def h(ex, st, av, name, mod):
        this, px, py, pw = av
        N = k.n*k.s
        cx, cy = arrays(ex, st, px, py, N, name)
        cells, fams = table(k)
        if cells:
            if not isinstance(pw, Ptr) or not isinstance(pw.r, int):
                ex.ob('pre', False, 'no twiddle table passed to ' + name)
                raise Fail('pre', 'no twiddle table passed to ' + name)
            tag = ('table', k.radix, N, k.omp, st.ver[pw.r])
            if st.prop.get(pw.r) != tag or not pw.o.is_zero() or st.pend.get(pw.r):
                ex.flush(st, pw.r)
                ex.check_range(st, pw, C(16*cells), False)
                cw, hw = ex.region_cell(st, pw.r, pw.o, 'arg')
                for b, a, v in fams:
                    check_family(st.ctx, pw.r, st.ver[pw.r], b, a + cw, v)
                ex.ob('pre', True)
                if pw.o.is_zero():
                    st.prop[pw.r] = ('table', k.radix, N, k.omp, st.ver[pw.r])
        ex.used_contracts.add(k.name)
        effect(ex, st, k, px, py, cx, cy)
        if cells and st.acc is not None:
            wb = newbinder('c', 0, cells - 1)
            st.acc['r'].setdefault(pw.r, {})[S(wb) + ex.region_cell(st, pw.r, pw.o, 'arg')[0]] = 1
        if cells and st.par is not None and not ex.binders:
            wb = newbinder('c', 0, cells - 1)
            st.par.ep.append((pw.r, 'r', S(wb), 'all'))
        if sync_exit(k) and st.par is not None:
            ex.barrier(st)
        return [('ret', st, None)]
    return h

def arrays(ex, st, px, py, N, name):
    """the two arrays of a transform: valid, of size N, aligned, disjoint -> cell offsets"""
    for p in (px, py):
        if not isinstance(p, Ptr) or not isinstance(p.r, int):
            ex.ob('null', False, 'null array passed to ' + name)
            raise Fail('null', 'null array passed to a kernel')
        if REG[p.r].kind == 'raw':
            REG[p.r].kind = 'z'
        if REG[p.r].kind != 'z':
            raise Unsup('kernel on non-complex memory')
        ex.check_range(st, p, C(16*N), True)
    cx, hx = ex.region_cell(st, px.r, px.o, 'arg')
    cy, hy = ex.region_cell(st, py.r, py.o, 'arg')
    if hx or hy:
        raise Unsup('unaligned argument')
    # x and y must not overlap (restrict)
    if px.r == py.r:
        ok = st.ctx.nonneg(cy - cx - N, True) or st.ctx.nonneg(cx - cy - N, True)
        ex.ob('alias', ok, 'overlapping x and y in a call of ' + name)
    return cx, cy

def effect(ex, st, k, px, py, cx, cy):
    """memory after the call: the transform in one array, the other undefined"""
    N = k.n*k.s
    ex.flush(st, px.r); ex.flush(st, py.r)
    xver = st.ver[py.r if k.dit and k.eo else px.r]
    (q, kk), a, v = dft_nodes(k, xver, cy if k.dit and k.eo else cx, ZERO)
    hb = newbinder('c', 0, N - 1)
    if k.eo and not k.dit:
        st.ver[px.r] = newver(px.r, st.ver[px.r], [Node((hb,), cx + S(hb), None)])
        st.ver[py.r] = newver(py.r, st.ver[py.r], [Node((q, kk), a + cy, v)])
    else:
        st.ver[py.r] = newver(py.r, st.ver[py.r], [Node((hb,), cy + S(hb), None)])
        st.ver[px.r] = newver(px.r, st.ver[px.r], [Node((q, kk), a + cx, v)])
    own = None
    for p, c in ((px, cx), (py, cy)):
        for m in ('r', 'w'):
            if st.acc is not None:
                st.acc[m].setdefault(p.r, {})[c + S(hb)] = 1
            if st.par is not None and not ex.binders and not REG[p.r].priv:
                own = own or ('call%d' % len(VERS)) if k.omp else ('single' if st.par.single else 'all')
                st.par.ep.append((p.r, m, c + S(hb), own))

SIXN = re.compile(r'@_ZN\d+OTFFT_(AVX2|AVX|SSE2)13OTFFT_SixStep7(fwd|inv)fftsILi(\d+)ELi(\d+)ELb0EE5part([12])E')
def sixstep(m, name):
    """in-place transform of 2^L elements (six-step): x' = DFT(x), y clobbered, tables unchanged.  The body is
       checked for fresh arrays at the first call (with the tables of that state); later calls with the same
       tables use the contract."""
    k = KC()
    k.name = name
    k.back, k.dir = m.group(1), m.group(2)
    k.ns = 'SixStep'
    k.n, k.s, k.eo, k.mode = 1 << int(m.group(3)), 1, 0, int(m.group(4))
    k.radix, k.omp, k.dit = 0, False, False
    def h(ex, st, av, nm, mod):
        iv, px, py, pw, ps = av
        f = ex.find(name, mod)
        if st.par is not None or ex.binders or f is None or k.n < 1024 or ex.binders:
            return None
        cx, cy = arrays(ex, st, px, py, k.n, name)
        tabs = []
        for p in (iv, pw, ps):
            if not isinstance(p, Ptr) or not isinstance(p.r, int) or p.r in (px.r, py.r):
                return None
            ex.flush(st, p.r)
            tabs.append((p.r, p.o, st.ver[p.r]))
        key = (name, tuple(tabs))
        if key in ex.local_bad:
            return None
        if key not in ex.local_ok:
            s = st.copy()
            rx = newregion('z', 'x', C(16*k.n)); ry = newregion('z', 'y', C(16*k.n))
            for r in (rx, ry):
                s.ver[r] = REG[r].base; s.live[r] = True
            before = dict(s.ver)
            try:
                for kd, s2, v in ex.call(f, [iv, Ptr(rx), Ptr(ry), pw, ps], s):
                    if kd != 'ret':
                        raise Unsup('exception')
                    for r in list(s2.pend):
                        ex.flush(s2, r)
                    for r, w in before.items():
                        if r not in (rx, ry) and s2.ver.get(r) != w:
                            raise Unsup('six-step frame')
                    b, a, v = dft_nodes(k, before[rx], ZERO, ZERO)
                    check_family(s2.ctx, rx, s2.ver[rx], b, a, v)
                    ex.count['post'] = ex.count.get('post', 0) + 1
            except (Unsup, Fail, NeedSplit, VErr):
                ex.local_bad.add(key)
                return None
            ex.local_ok.add(key)
        effect(ex, st, k, px, py, cx, cy)
        return [('ret', st, None)]
    return h

def contracts(skip=(), self_=None, six=True):
    """kernel contracts for every instance except `skip` (the one being verified is used for its callees only)"""
    memo = {}
    def look(name):
        if name in memo:
            return memo[name]
        k = kparse(name)
        r = None
        if k is not None and name not in skip and name != self_:
            r = apply(k)
        elif k is None and six:
            m = SIXN.match(name)
            if m:
                r = sixstep(m, name)
        memo[name] = r
        return r
    return {'*': look}

USED = {(4, 'DIF', 0): (4, 16, 1024), (4, 'DIT', 0): (2,), (8, 'DIT', 0): (8, 32, 4096), (8, 'DIT', 1): (16384, 32768, 131072),
        (8, 'DIF', 0): (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096), (8, 'DIF', 1): (8192,), (16, 'DIF', 0): (128,), (16, 'DIF', 1): (2048,)}
def used(k):
    """debugging aid: instances reached from the dispatch of the current tree"""
    return k.n*k.s in USED.get((k.radix, 'DIF' if 'DIF' in k.ns else 'DIT', int(k.omp)), ()) and not (
        k.radix == 8 and 'DIF' in k.ns and not k.omp and k.mode and k.n*k.s not in (64, 256, 512))

if __name__ == '__main__':
    import sys, time, irparse
    path, pat = sys.argv[1], sys.argv[2]
    m = irparse.Module(path)
    for nm in m.defs:
        if re.search(pat, nm) and kparse(nm) and (used(kparse(nm)) or 'all' in sys.argv):
            k = kparse(nm)
            t = time.time()
            try:
                e = verify([m], k, contracts(self_=nm))
                print('OK  ', k.ns, k.dir, k.n, k.s, k.eo, k.mode, round(time.time()-t, 2), e.count, 'cases', e.nc, e.fails[:2])
            except (Unsup, Fail, NeedSplit, VErr) as x:
                import traceback
                print('FAIL', k.ns, k.dir, k.n, k.s, k.eo, k.mode, round(time.time()-t, 2), type(x).__name__, str(x)[:600])
                if len(sys.argv) > 3: traceback.print_exc()
