"""Contracts of the transform classes: FFT0 (complex, two arrays), FFT (complex, own work array), RFFT (real).
   A contract is identified by 'obj|class|method|n', n an integer or '*' (every other admissible length).
   Ghost state: st.prop[('obj', region, offset)] = (class, n) - the object at that place was set up for length n."""
import re, math
from val import *
import mem
from mem import *
from ex import *
from spec import *
import kern, mixed

NMAX = 1 << 30
MODES = {'fwd': (-1, 2), 'fwd0': (-1, 0), 'fwdu': (-1, 1), 'fwdn': (-1, 2), 'inv': (1, 0), 'inv0': (1, 0), 'invu': (1, 1), 'invn': (1, 2)}
CN = re.compile(r'@_ZN(K?)(\d+OTFFT_(?:AVX2|AVX|SSE2))(3FFT|4FFT0|4RFFT)(C2Ev|C1Ev|C2Ei|C1Ei|D2Ev|D1Ev|D0Ev|5setupEi|[34](?:fwd0|fwdu|fwdn|fwd|inv0|invu|invn|inv)E[^.]*)$')
def cparse(name):
    m = CN.match(name)
    if not m:
        return None
    cls = m.group(3)[1:]
    me = m.group(4)
    if me[0] in '34':
        me = re.match(r'[34](fwd0|fwdu|fwdn|fwd|inv0|invu|invn|inv)E', me).group(1)
        kind = 'mode'
    elif me == '5setupEi':
        kind = 'setup'
    else:
        kind = me[:1]
    return cls, kind, me, m.group(2)

def nscale(md, n):
    """normalisation factor as a value, n Poly"""
    n = P(n)
    if n.is_const():
        return vconst(kern.scale(md, int(n.const())))
    if md == 0:
        return vconst(1.0)
    v = vinv(vpoly(n))
    if v is None:
        raise Unsup('normalisation by %r' % (n,))
    return vsqrt(v) if md == 1 else v

def frac(p, n):
    """p/n as a phase"""
    n = P(n)
    if n.is_const():
        return p*Fraction(1, n.const())
    q = pdiv(p, n)
    if q is None:
        return p*ppow(n, -1)
    return q

def family(n, coef, at, lo=ZERO, hi=None):
    """cells 0..n-1:  value(k) = sum_{j<n} coef(k,j) at(j)"""
    n = P(n)
    if n.is_zero():
        return None
    kk = newbinder('k', lo, n - 1 if hi is None else hi)
    j = newbinder('j', ZERO, n - 1)
    v = vmul(coef(S(kk), S(j)), {term(ZERO, (), (at(S(j)),), ()): 1.0})
    return (kk,), S(kk), vsum(v, j)
def dftfam(n, mode, at):
    sg, md = MODES[mode]
    return family(n, lambda k, j: vmul(vE(frac(j*k*sg, n)), nscale(md, n)), at)

def ids(cls, mode, n, ctx=None):
    """the contracts that cover length n"""
    n = P(n)
    np = ctx.hints.get('nopow2') if ctx is not None else None
    if any(b >= 30 and ctx.norm(q - n).is_zero() for q, b in np or ()):
        return ['obj|%s|%s|*' % (cls, mode)]
    if n.is_const():
        c = int(n.const())
        return ['obj|%s|%s|%s' % (cls, mode, keyn(cls, c))]
    return ['obj|%s|%s|%d' % (cls, mode, 1 << l) for l in range(0, lim(cls) + 1)] + ['obj|%s|%s|*' % (cls, mode)]
def lim(cls):
    return 30 if cls == 'RFFT' else 24
def keyn(cls, c):
    if c >= 1 and c & (c - 1) == 0 and c <= 1 << lim(cls):
        return c
    return '*'

def extent(ex, mod, cls, ns):
    ns = ns.lstrip('0123456789')
    for m in [mod] + list(ex.mods):
        for k in ('struct', 'class'):
            for q in ('"%s.%s::%s"', '%s.%s::%s', '%%"%s.%s::%s"'):
                t = q % (k, ns, cls)
                if m is not None and t in m.types:
                    return m.size(('named', t))
    return None

def array(ex, st, p, kind, n, name, ro=False):
    """argument p points to n elements of kind: -> first cell"""
    if not isinstance(p, Ptr) or not isinstance(p.r, int):
        ex.ob('null', False, 'null array passed to ' + name)
        raise Fail('null', 'null array passed to ' + name)
    if st.live.get(p.r) is False:
        ex.ob('freed', False, 'released array passed to ' + name)
        raise Fail('freed', 'released array')
    if REG[p.r].kind == 'raw':
        REG[p.r].kind = kind
    ex.check_range(st, p, P(n)*CELLB[kind], not ro)
    if REG[p.r].kind != kind:
        return None
    c, h = ex.region_cell(st, p.r, p.o, 'arg')
    if h:
        raise Unsup('unaligned argument')
    return c
def apart2(ex, st, p, a, na, q, b, nb, name):
    if p.r == q.r:
        ok = st.ctx.nonneg(b - a - na, True) or st.ctx.nonneg(a - b - nb, True)
        ex.ob('alias', ok, 'overlapping arrays in a call of ' + name)

def setver(ex, st, p, nodes):
    st.ver[p.r] = newver(p.r, st.ver[p.r], nodes)
def havoc(c, n):
    hb = newbinder('c', ZERO, P(n) - 1)
    return Node((hb,), c + S(hb), None)
def shift(c, bav):
    b, a, v = bav
    return Node(b, a + c, v)
def accesses(ex, st, p, c, n, modes):
    hb = newbinder('c', ZERO, P(n) - 1)
    for m in modes:
        if st.acc is not None:
            st.acc[m].setdefault(p.r, {})[c + S(hb)] = 1

def hermitian(ex, st, p, c, n, name):
    """precondition: x[k] = conj x[n-k], x[0] and x[n/2] real"""
    n = P(n)
    ver = st.ver[p.r]
    k = newbinder('k', ONE, n - 1)
    try:
        check_family(st.ctx, p.r, ver, (k,), c + S(k), {term(ZERO, (), (atom('z', ver, c + n - S(k), True),), ()): 1.0}, pre=None)
        v = {term(ZERO, (), (atom('z', ver, c),), ()): 1.0}
        check_family(st.ctx, p.r, ver, (), c, vconj(v))
    except Fail as x:
        raise Fail('pre', 'input of %s is not Hermitian: %s' % (name, x))
    ex.ob('pre', True)

def mode_call(ex, st, cls, me, n, av, name):
    n = st.ctx.norm(P(n))
    if n.is_zero():
        return
    if cls == 'FFT0':
        px, py = av[1], av[2]
        cx = array(ex, st, px, 'z', n, name); cy = array(ex, st, py, 'z', n, name)
        if cx is None or cy is None:
            raise Unsup('complex transform of other data')
        apart2(ex, st, px, cx, n, py, cy, n, name)
        ex.flush(st, px.r); ex.flush(st, py.r)
        v0 = st.ver[px.r]
        setver(ex, st, py, [havoc(cy, n)])
        setver(ex, st, px, [shift(cx, dftfam(n, me, lambda j: atom('z', v0, cx + j)))])
        accesses(ex, st, px, cx, n, 'rw'); accesses(ex, st, py, cy, n, 'rw')
    elif cls == 'FFT':
        px = av[1]
        cx = array(ex, st, px, 'z', n, name)
        if cx is None:
            raise Unsup('complex transform of other data')
        ex.flush(st, px.r)
        v0 = st.ver[px.r]
        setver(ex, st, px, [shift(cx, dftfam(n, me, lambda j: atom('z', v0, cx + j)))])
        accesses(ex, st, px, cx, n, 'rw')
    elif me.startswith('fwd'):
        px, py = av[1], av[2]
        cx = array(ex, st, px, 'd', n, name, True); cy = array(ex, st, py, 'z', n, name)
        if cx is None or cy is None:
            raise Unsup('real transform of other data (%s, %s)' % (REG[px.r].kind, REG[py.r].kind))
        ex.flush(st, px.r); ex.flush(st, py.r)
        v0 = st.ver[px.r]
        setver(ex, st, py, [shift(cy, dftfam(n, me, lambda j: atom('d', v0, cx + j)))])
        accesses(ex, st, px, cx, n, 'r'); accesses(ex, st, py, cy, n, 'rw')
    else:
        px, py = av[1], av[2]
        cx = array(ex, st, px, 'z', n, name); cy = array(ex, st, py, 'd', n, name)
        if cx is None or cy is None:
            raise Unsup('real transform of other data (%s, %s)' % (REG[px.r].kind, REG[py.r].kind))
        ex.flush(st, px.r); ex.flush(st, py.r)
        hermitian(ex, st, px, cx, n, name)
        v0 = st.ver[px.r]
        setver(ex, st, px, [havoc(cx, n)])
        b, a, v = dftfam(n, me, lambda j: atom('z', v0, cx + j))
        setver(ex, st, py, [shift(cy, (b, a, v))])
        accesses(ex, st, px, cx, n, 'rw'); accesses(ex, st, py, cy, n, 'rw')

def handler(name, classes, skip):
    r = cparse(name)
    if r is None or r[0] not in classes:
        return None
    cls, kind, me, ns = r
    def h(ex, st, av, nm, mod):
        this = av[0] if av else None
        if not isinstance(this, Ptr) or not isinstance(this.r, int) or ex.binders or st.par is not None:
            return None
        o = st.ctx.norm(this.o)
        if not o.is_const():
            return None
        key = ('obj', this.r, o.const())
        if me == 'C2Ei' and ex.opts.get('allocfail'):
            # a constructor that throws leaves nothing behind (shown for the class by life.py); one that returns is executed
            sz = extent(ex, mod, cls, ns)
            f = ex.find(nm, mod)
            if sz is None or f is None:
                return None
            s2 = st.copy()
            s2.prop['#failed'] = 'construction of ' + cls
            s2.prop['#exc'] = '@_ZTISt9bad_alloc'
            drop(s2, this.r, o.const(), sz)
            fl, ex.opts['allocfail'] = ex.opts['allocfail'], None
            try:
                outs = ex.call(f, av, st)
            finally:
                ex.opts['allocfail'] = fl
            return outs + [('throw', s2, ('exc', UND))]
        if kind == 'setup':
            n = st.ctx.norm(av[1])
            if not isinstance(n, Poly):
                return None
            use = ids(cls, 'setup', n, st.ctx)
            if any(u in skip for u in use):
                return None
            sz = extent(ex, mod, cls, ns)
            if sz is None:
                return None
            ex.ob('pre', st.ctx.nonneg(n, True) and st.ctx.nonneg(NMAX - n, True), 'length %r passed to %s' % (n, nm))
            outs = []
            if ex.opts.get('allocfail'):
                s2 = st.copy()
                s2.prop['#failed'] = 'setup of ' + cls
                s2.prop['#exc'] = '@_ZTISt9bad_alloc'
                drop(s2, this.r, o.const(), sz)
                s2.prop[key] = (cls, None)
                outs.append(('throw', s2, ('exc', UND)))
            drop(st, this.r, o.const(), sz)
            st.prop[key] = (cls, n)
            ex.used_contracts.update(use)
            return [('ret', st, None)] + outs
        g = st.prop.get(key)
        if g is None or g[0] != cls:
            return None
        if kind == 'D':
            del st.prop[key]
            return [('ret', st, None)]
        if kind == 'mode':
            if g[1] is None:
                raise Unsup('use of an object whose setup failed')
            use = ids(cls, me, st.ctx.norm(g[1]), st.ctx)
            ex.used_contracts.update(use)
            mode_call(ex, st, cls, me, g[1], av, nm)
            return [('ret', st, None)]
        return None
    return h

def drop(st, r, o, sz):
    """forget the contents of an object (only its class reads them)"""
    d = st.cells.get(r)
    if d:
        for k in [k for k in d if o <= k < o + sz and not (isinstance(d[k][1], Ptr) and isinstance(d[k][1].r, str))]:
            del d[k]
    for k in [k for k in st.prop if isinstance(k, tuple) and k[0] == 'obj' and k[1] == r and o <= k[2] < o + sz]:
        del st.prop[k]

def contracts(classes, skip=()):
    base = kern.contracts(skip=skip)['*']
    memo = {}
    def look(name):
        if name in memo:
            return memo[name]
        r = base(name) or mixed.handler(name, skip)
        if r is None and classes:
            r = handler(name, classes, skip)
        memo[name] = r
        return r
    return {'*': look}

# ------------------------------------------------------------------ verification of the bodies
USES = {'FFT0': (), 'FFT': ('FFT0',), 'RFFT': ('FFT0',)}

def newarr(st, kind, name, size, ro=False):
    r = newregion(kind, name, size, ro)
    st.ver[r] = REG[r].base
    st.live[r] = True
    return r

def input_hermitian(st, r, n):
    """Hermitian spectrum of length n in region r -> base version H holding the free elements"""
    n = P(n)
    nh = pdiv(n, C(2)) if not n.is_const() else C(int(n.const())//2)
    H = newver(r, None, [], 'spectrum')
    k = newbinder('k', ONE, nh - 1); k2 = newbinder('k', ONE, nh - 1)
    re = lambda a: {term(ZERO, (), (atom('d', H, a),), ()): 1.0}
    z = lambda a, cj: {term(ZERO, (), (atom('z', H, a, cj),), ()): 1.0}
    nd = [Node((), ZERO, re(ZERO))]
    if not (n.is_const() and n.const() < 2):
        nd.append(Node((), nh, re(nh)))
    if not (n.is_const() and n.const() < 4):
        nd += [Node((k,), S(k), z(S(k), False)), Node((k2,), n - S(k2), z(S(k2), True))]
    st.ver[r] = newver(r, None, nd, 'x')
    return H
def spec_hermitian(n, mode, H):
    """y_p = c (h_0 + (-1)^p h_{n/2} + sum_k (E(kp/n) h_k + conj))"""
    n = P(n)
    sg, md = MODES[mode]
    pp = newbinder('p', ZERO, n - 1)
    re = lambda a: {term(ZERO, (), (atom('d', H, a),), ()): 1.0}
    v = re(ZERO)
    one = n.is_const() and n.const() < 2
    if not one:
        nh = pdiv(n, C(2)) if not n.is_const() else C(int(n.const())//2)
        v = vadd(v, vmul(vE(S(pp)*Fraction(1, 2)), re(nh)))
        if not (n.is_const() and n.const() < 4):
            k = newbinder('k', ONE, nh - 1)
            w = vmul(vE(frac(S(k)*S(pp)*sg, n)), {term(ZERO, (), (atom('z', H, S(k), False),), ()): 1.0})
            v = vadd(v, vsum(vadd(w, vconj(w)), k))
    return (pp,), S(pp), vmul(v, nscale(md, n))

def compare(ex, s, r, fam):
    ex.flush(s, r)
    if fam is None:
        # no elements: nothing may be written (accesses outside the empty array are bounds failures)
        ex.count['post'] = ex.count.get('post', 0) + 1
        return 1
    b, a, v = fam
    n = check_family(s.ctx, r, s.ver[r], b, a, v)
    ex.count['post'] = ex.count.get('post', 0) + 1
    return n

def rets(outs):
    r = []
    for k, s, v in outs:
        if k != 'ret':
            raise Fail('terminate', 'exception leaves the call')
        if not s.ctx.dead:
            r.append((s, v))
    return r

def verify(mods, cid, skip, ext, opts=None):
    import client
    _, cls, me, n = cid.split('|')
    ex = Exec(mods, contracts(USES[cls], set(skip) | {cid}), dict({'ext': ext}, **(opts or {})))
    name = None
    ctor = None
    for m in mods:
        for nm in m.defs:
            r = cparse(nm)
            if r and r[0] == cls:
                if r[1] == 'mode' and r[2] == me: name = nm
                if r[2] == 'C2Ei': ctor = nm; ns = r[3]
    if ctor is None or (name is None and me != 'setup'):
        raise Unsup('class %s not found' % cls)
    sz = extent(ex, mods[0], cls, ns)
    for l in [n] if n != '*' else alllen(cls):
        st = St()
        nn = anylen(st, cls) if l == '*' else C(int(l))
        ro = newregion('cell', 'object', C(sz))
        st.ver[ro] = REG[ro].base; st.live[ro] = True
        obj = Ptr(ro)
        done = 0
        for s0, _ in rets(ex.call(ex.find(ctor), [obj, nn], st)):
            done += run_mode(ex, s0, cls, me, nn, obj, ex.find(name) if name else None)
        if not done:
            raise Unsup('no terminating path')
    return ex

def frame(ex, st, args):
    """what a transform must leave as it is: the fields of the object and every array that setup filled"""
    for r in list(st.pend):
        ex.flush(st, r)
    vs, cs = {}, {}
    for r in st.ver:
        if r in args or st.live.get(r) is False:
            continue
        if REG[r].kind == 'cell':
            cs[r] = dict(st.cells.get(r, {}))
        elif r in st.heap and (VERS[st.ver[r]].nodes or VERS[st.ver[r]].parent is not None):
            vs[r] = st.ver[r]
    return vs, cs
def framed(ex, st, fr):
    for r in list(st.pend):
        ex.flush(st, r)
    vs, cs = fr
    for r in vs:
        if st.ver.get(r) != vs[r] or st.live.get(r) is False:
            ex.ob('frame', False, 'a transform changes the table %s' % REG[r].name)
            return
    for r in cs:
        if st.cells.get(r, {}) != cs[r] or st.live.get(r) is False:
            ex.ob('frame', False, 'a transform changes a field of %s' % REG[r].name)
            return
    ex.ob('frame', True)

def run_mode(ex, s0, cls, me, nn, obj, fn):
    if me == 'setup':
        return 1
    nn = s0.ctx.norm(nn)
    done = 0
    if cls in ('FFT0', 'FFT'):
        rx = newarr(s0, 'z', 'x', nn*16)
        xv = s0.ver[rx]
        av = [obj, Ptr(rx)]
        if cls == 'FFT0':
            ry = newarr(s0, 'z', 'y', nn*16)
            av.append(Ptr(ry))
        out = rx
        fam = lambda n: dftfam(n, me, lambda j: atom('z', xv, j))
    elif me.startswith('fwd'):
        rx = newarr(s0, 'd', 'x', nn*8, True); ry = newarr(s0, 'z', 'y', nn*16)
        xv = s0.ver[rx]
        av = [obj, Ptr(rx), Ptr(ry)]
        out = ry
        fam = lambda n: dftfam(n, me, lambda j: atom('d', xv, j))
    else:
        rx = newarr(s0, 'z', 'x', nn*16); ry = newarr(s0, 'd', 'y', nn*8)
        H = input_hermitian(s0, rx, nn)
        av = [obj, Ptr(rx), Ptr(ry)]
        out = ry
        fam = lambda n: spec_hermitian(n, me, H)
    fr = frame(ex, s0, [a.r for a in av[1:]])
    for s, _ in rets(ex.call(fn, av, s0)):
        framed(ex, s, fr)
        done += compare(ex, s, out, fam(s.ctx.norm(nn)))
    return done

def alllen(cls):
    """the lengths '*' stands for: any that is not a power of two, and the powers beyond the listed ones"""
    return ['*'] + ([] if cls == 'RFFT' else [0]) + [1 << k for k in range(lim(cls) + 1, 31)]
def anylen(st, cls):
    if cls == 'RFFT':
        h = st.ctx.sym('h', 3, NMAX//2)
        st.ctx.pars = st.ctx.pars | h.syms()
        st.ctx.hints['nopow2'] = ((h*2, 30),)
        return h*2
    n = st.ctx.sym('n', 3, NMAX)
    st.ctx.pars = st.ctx.pars | n.syms()
    st.ctx.hints['nopow2'] = ((n, 30),)
    return n

if __name__ == '__main__':
    import sys, time, client, traceback
    sys.setrecursionlimit(20000)
    d, back = sys.argv[1:3]
    mods = client.load(d, back)
    for cid in sys.argv[3].split(','):
        t = time.time()
        CUR.clear()
        try:
            ex = verify(mods, 'obj|' + cid, (), client.EXT)
            print('OK', cid, ex.count, ex.fails[:3], len(ex.used_contracts), round(time.time() - t, 2), flush=True)
        except (Unsup, Fail, NeedSplit, VErr) as x:
            e = CUR.get('ex')
            print('FAIL', cid, type(x).__name__, str(x)[:700], e._stk[-3:] if e else '', round(time.time() - t, 2), flush=True)
            if len(sys.argv) > 4: traceback.print_exc()
