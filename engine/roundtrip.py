"""Round trips (C12): a lemma over the postconditions of the transforms.
   The units of C01..C06 show that a transform replaces its data by the sums of its specification, for all contents.  Here the
   second transform's specification is applied to the first one's, and the result must be the original data: for all lengths
   and all data."""
from val import *
from mem import *
from ex import *
from spec import *
import objs

PAIRS = [('fwd', 'inv'), ('fwd0', 'invn'), ('fwdu', 'invu'), ('inv', 'fwd'), ('invn', 'fwd0'), ('invu', 'fwdu')]
DPAIRS = [('fwd', 'inv'), ('fwd0', 'invn'), ('inv', 'fwd'), ('invn', 'fwd0')]

DMODE = {'fwd': 2, 'fwdn': 2, 'fwd0': 0, 'inv': 0, 'inv0': 0, 'invn': 2}
KINDS = {'complex': PAIRS, 'real': PAIRS, 'dct': DPAIRS}

def at(kind, ver, a, cj=False):
    return {term(ZERO, (), (atom(kind, ver, a, cj),), ()): 1.0}

def array(st, kind, name, n):
    r = newregion(kind, name, n*(16 if kind == 'z' else 8))
    st.ver[r] = REG[r].base; st.live[r] = True
    return r, st.ver[r]

def equal(ctx, got, want):
    """two values agree for all values of the free symbols"""
    work = [ctx]
    n = 0
    while work:
        c = work.pop()
        if c.dead:
            continue
        n += 1
        if n > 200:
            raise Fail('cmp', 'too many cases')
        try:
            cmp_value(expand(vnorm(got, c), c, None, True), expand(vnorm(want, c), c, None, True), c, None)
        except NeedSplit as sp:
            work += [c2[0] for c2 in apply_split(c, sp)]
    return n

def u_round(ex, kind, first, second):
    """after the transforms `first` and `second` the data is what it was"""
    st = St()
    ctx = st.ctx
    if kind == 'complex':
        n = ctx.sym('n', 1, objs.NMAX)
        ctx.pars = ctx.pars | n.syms()
        r, v0 = array(st, 'z', 'x', n)
        v1 = newver(r, None, [Node(*objs.dftfam(n, first, lambda j: atom('z', v0, j)))], 'first')
        v2 = newver(r, None, [Node(*objs.dftfam(n, second, lambda j: atom('z', v1, j)))], 'second')
        k = newbinder('k', ZERO, n - 1)
        done = check_family(ctx, r, v2, (k,), S(k), at('z', v0, S(k)), delta=True)
    elif kind == 'real':
        h = ctx.sym('h', 1, objs.NMAX//2)
        ctx.pars = ctx.pars | h.syms()
        n = h*2
        if first.startswith('fwd'):
            rx, v0 = array(st, 'd', 'x', n); ry, _ = array(st, 'z', 'y', n)
            v1 = newver(ry, None, [Node(*objs.dftfam(n, first, lambda j: atom('d', v0, j)))], 'first')
            st.ver[ry] = v1
            objs.hermitian(ex, st, Ptr(ry), ZERO, n, second)
            v2 = newver(rx, None, [Node(*objs.dftfam(n, second, lambda j: atom('z', v1, j)))], 'second')
            k = newbinder('k', ZERO, n - 1)
            done = check_family(ctx, rx, v2, (k,), S(k), at('d', v0, S(k)), delta=True)
        else:
            ry, _ = array(st, 'z', 'y', n); rx, _ = array(st, 'd', 'x', n)
            H = objs.input_hermitian(st, ry, n)
            v1 = newver(rx, None, [Node(*objs.spec_hermitian(n, first, H))], 'first')
            v2 = newver(ry, None, [Node(*objs.dftfam(n, second, lambda j: atom('d', v1, j)))], 'second')
            done = 0
            for nd in VERS[st.ver[ry]].nodes:
                done += check_family(ctx, ry, v2, nd.binders, nd.addr, nd.val, delta=True)
    else:
        # the sums over half a period are written as sums over a whole one: f(k) = f(2N - k), f(N) = 0 and g(p) = g(2N - 1 - p)
        h = ctx.sym('h', 1, objs.NMAX//2)
        ctx.pars = ctx.pars | h.syms()
        n = h*2
        cosv = lambda k, p: vre(vE(objs.frac(k*(p*2 + 1), n*4)))
        rx, v0 = array(st, 'd', 'x', n)
        sc = vmul(objs.nscale(DMODE[first], n), objs.nscale(DMODE[second], n))
        if first.startswith('fwd'):
            p = ctx.sym('p', ZERO, n - 1)
            def f(k):
                j = newbinder('j', ZERO, n - 1)
                return vmul(cosv(k, p), vsum(vmul(cosv(k, S(j)), at('d', v0, S(j))), j))
            k = ctx.sym('k', ONE, n - 1)
            done = equal(ctx, f(k), f(n*2 - k)) + equal(ctx, f(n), {})
            k = newbinder('k', ZERO, n*2 - 1)
            done += equal(ctx, vmul(vsum(f(S(k)), k), sc), at('d', v0, p))
        else:
            k = ctx.sym('k', ZERO, n - 1)
            def g(p):
                j = newbinder('j', ONE, n - 1)
                y = vadd(at('d', v0, ZERO), vscale(vsum(vmul(cosv(S(j), p), at('d', v0, S(j))), j), 2.0))
                return vmul(cosv(k, p), y)
            p = ctx.sym('p', ZERO, n - 1)
            done = equal(ctx, g(p), g(n*2 - 1 - p))
            p = newbinder('p', ZERO, n*2 - 1)
            done += equal(ctx, vmul(vsum(g(S(p)), p), vscale(sc, 0.5)), at('d', v0, k))
    if not done:
        raise Unsup('nothing compared')
    ex.count['post'] = ex.count.get('post', 0) + done

if __name__ == '__main__':
    import sys, time, traceback
    for k in KINDS:
        for p in KINDS[k]:
            ex = Exec([], {})
            t = time.time()
            try:
                u_round(ex, k, *p)
                print('OK', k, p, ex.count, round(time.time() - t, 2))
            except Exception as x:
                print('FAIL', k, p, type(x).__name__, str(x)[:300])
                if len(sys.argv) > 1: traceback.print_exc()
