"""Life of an object: any history of construction, setup (successful or not) and destruction.
   By induction over the history it is enough to start setup from every kind of earlier state - never set up, set up for some
   length, setup failed at any of its allocations - and to show that afterwards the object is the same as a new one of that
   length (C09) and that everything it no longer holds has been released exactly once (C11).
   Before the second setup every number stored in the object, and the contents of its arrays, are forgotten (reading one is
   undefined), so that the earlier length is an arbitrary one of its class."""
import itertools
from val import *
import mem
from mem import *
from ex import *
from spec import *
import client, objs

BAD = '@_ZTISt9bad_alloc'

# ------------------------------------------------------------------ object graphs
def cellval(d, o):
    return d[o][1] if o in d else UND
def reach(st, roots):
    """live regions that can be reached from the roots"""
    seen, todo = set(), [r for r in roots if r is not None]
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        for o, c in st.cells.get(r, {}).items():
            if isinstance(c[1], Ptr) and isinstance(c[1].r, int):
                todo.append(c[1].r)
    return seen
def owned(st):
    """heap blocks that have not been released"""
    return {r for r, how in st.heap.items() if how != 'exception' and st.live.get(r) is True}
def noleak(ex, st, roots, what, whole=False):
    keep = reach(st, roots)
    if whole:
        for r in sorted(keep):
            if st.live.get(r) is False:
                ex.ob('freed', False, 'the object still refers to %s, which has been released' % REG[r].name)
                return
        ex.ob('freed', True)
    for r in sorted(owned(st) - keep):
        ex.ob('leak', False, '%s (%s) is lost %s' % (REG[r].name, REG[r].size, what))
        return
    for k in st.prop:
        if isinstance(k, tuple) and k[0] == 'obj' and k[1] not in keep:
            ex.ob('leak', False, 'member %s is not destroyed %s' % (st.prop[k][0], what))
            return
    ex.ob('leak', True)
def badalloc(ex, st):
    ex.ob('exception', st.prop.get('#exc') == BAD, 'allocation failure is reported as %s, not std::bad_alloc' % st.prop.get('#exc'))

def forget(ex, st, root, ptrs=False):
    """every number in the object becomes undefined, every array gets arbitrary contents"""
    for r in reach(st, [root]):
        d = st.cells.get(r)
        if d:
            for o in [o for o, c in d.items() if not isinstance(c[1], Ptr)]:
                del d[o]
        if REG[r].kind != 'cell' and r in st.ver:
            ex.flush(st, r)
            st.ver[r] = newver(r, None, [], 'earlier')

def alpha(ctx, x, y):
    """nodes x and y write the same values to the same cells (binders renamed)"""
    if len(x.binders) != len(y.binders) or x.val is None or y.val is None:
        return False
    for q in itertools.permutations(y.binders):
        mp = {b: S(a) for a, b in zip(x.binders, q)}
        if not ctx.norm(x.addr - y.addr.substm(mp)).is_zero():
            continue
        if all(ctx.norm(SUMR[a][i] - SUMR[b][i].substm(mp)).is_zero() for a, b in zip(x.binders, q) for i in (0, 1)) and \
           vclose(vnorm(x.val, ctx), vnorm(vsubst(y.val, mp), ctx)):
            return True
    return False
def congruent(ctx, v, w):
    """arrays written in the same way"""
    while True:
        a, b = nodes_of(v, ctx), nodes_of(w, ctx)
        if len(a) != len(b) or not all(alpha(ctx, x, y) for x, y in zip(a, b)):
            return False
        v, w = VERS[v].parent, VERS[w].parent
        if v is None or w is None:
            return v is None and w is None

def same(ex, st, ra, rb, size=None):
    """the object at ra (just set up) and a new one at rb are equal; raises Fail with the difference"""
    m = {ra: rb}
    todo = [(ra, rb)]
    def bad(w):
        raise Fail('post', 'object differs from a new one of this length: ' + w)
    while todo:
        a, b = todo.pop()
        na = REG[a].name
        if st.live.get(a) is False:
            bad('%s has been released' % na)
        if not st.ctx.norm(REG[a].size - REG[b].size).is_zero() and a != ra:
            bad('%s holds %r bytes instead of %r' % (na, REG[a].size, REG[b].size))
        if a in st.heap and st.heap[a] != st.heap.get(b):
            bad('%s allocated by %s' % (na, st.heap[a]))
        da, db = st.cells.get(a, {}), st.cells.get(b, {})
        for o in db:
            x, y = cellval(da, o), cellval(db, o)
            if y is UND:
                continue
            if x is UND:
                bad('field %d of %s is not set' % (o, na))
            if isinstance(y, Ptr):
                if not isinstance(x, Ptr):
                    bad('field %d of %s' % (o, na))
                if not isinstance(y.r, int) or not isinstance(x.r, int):
                    if x.r != y.r or not st.ctx.norm(x.o - y.o).is_zero():
                        bad('field %d of %s points to %r instead of %r' % (o, na, x, y))
                    continue
                if not st.ctx.norm(x.o - y.o).is_zero():
                    bad('field %d of %s points elsewhere' % (o, na))
                if x.r in m:
                    if m[x.r] != y.r:
                        bad('field %d of %s points elsewhere' % (o, na))
                    continue
                m[x.r] = y.r
                todo.append((x.r, y.r))
            elif isinstance(y, Poly):
                if not isinstance(x, Poly) or not st.ctx.norm(x - y).is_zero():
                    bad('field %d of %s is %r instead of %r' % (o, na, x, y))
            elif isinstance(y, dict):
                if not isinstance(x, dict) or vsub(x, y):
                    bad('field %d of %s' % (o, na))
            else:
                raise Unsup('field %r' % (y,))
        for k in [k for k in st.prop if isinstance(k, tuple) and k[0] == 'obj' and k[1] == b]:
            g, h = st.prop.get(('obj', a, k[2])), st.prop[k]
            if g is None or g[0] != h[0] or (g[1] is None) != (h[1] is None) or g[1] is not None and not st.ctx.norm(P(g[1]) - P(h[1])).is_zero():
                bad('member %s of %s is set up for %r instead of %r' % (h[0], na, g and g[1], h[1]))
        if REG[b].kind != 'cell':
            ex.flush(st, b)
            if a in st.ver:
                ex.flush(st, a)
            w = st.ver[b]
            if a in st.ver and REG[a].kind == REG[b].kind and congruent(st.ctx, st.ver[a], w):
                continue
            while w is not None:
                for nd in nodes_of(w, st.ctx):
                    if nd.val is None:
                        raise Unsup('table with unknown contents')
                    if any(isinstance(ATOM[x][1], tuple) and ATOM[x][1][0] == 'undef' for k in nd.val for x in TERM[k][2]):
                        continue          # storage that is never given a value
                    if REG[b].kind in 'zd':
                        v = {term(ZERO, (), (atom(REG[b].kind, st.ver[b], nd.addr),), ()): 1.0}
                    elif VERS[w].parent is None or VERS[VERS[w].parent].parent is None and not nodes_of(VERS[w].parent, st.ctx):
                        v = nd.val
                    else:
                        raise Unsup('integer table written twice')
                    try:
                        if REG[a].kind != REG[b].kind:
                            bad('type of %s' % na)
                        check_family(st.ctx, a, st.ver[a], nd.binders, nd.addr, v)
                    except Fail as x:
                        bad('contents of %s (%s)' % (na, x))
                w = VERS[w].parent
    ex.count['post'] = ex.count.get('post', 0) + 1

# ------------------------------------------------------------------ classes
class FFT0:
    """the class itself, on storage of the caller"""
    cls = 'FFT0'
    inner = ()
    def __init__(self, ex):
        self.ex = ex
        self.f = {}
        for m in ex.mods:
            for nm in m.defs:
                r = objs.cparse(nm)
                if r and r[0] == self.cls and r[1] != 'mode':
                    self.f.setdefault(r[2], nm); self.ns = r[3]
        if 'C2Ei' not in self.f or '5setupEi' not in self.f:
            raise Unsup('class %s not found' % self.cls)
        self.size = objs.extent(ex, ex.mods[0], self.cls, self.ns)
    def create(self, st, n):
        ro = newregion('cell', 'object', C(self.size))
        st.ver[ro] = REG[ro].base; st.live[ro] = True
        p = Ptr(ro)
        if n is None:
            o = self.ex.call(self.ex.find(self.f['C2Ev']), [p], st)
        else:
            o = self.ex.call(self.ex.find(self.f['C2Ei']), [p, n], st)
        return [(k, s, p) for k, s, v in o]
    def setup(self, st, p, n):
        return self.ex.call(self.ex.find(self.f['5setupEi']), [p, n], st)
    def delete(self, st, p):
        return self.ex.call(self.ex.find(self.f['D2Ev']), [p], st)
class Client:
    def __init__(self, ex, kind):
        self.ex = ex
        self.kind = kind
        self.dk = 'complex' if kind == 'bluestein' else kind
    def create(self, st, n):
        return self.ex.call(self.ex.find('@vp_new_' + self.kind), [C(0) if n is None else n], st)
    def setup(self, st, p, n):
        return self.ex.call(self.ex.find('@vp_%s_setup' % self.dk), [p, n], st)
    def delete(self, st, p):
        return self.ex.call(self.ex.find('@vp_%s_delete' % self.dk), [p], st)

INNER = {'FFT0': (), 'complex': ('FFT0',), 'real': ('FFT0',), 'dct': ('RFFT',), 'bluestein': ('FFT',)}
def sym(st, kind, n):
    """length class -> Poly; 'new' -> None"""
    if n == 'new':
        return None
    if n == '*':
        if kind == 'FFT0':
            p = st.ctx.sym('n', 3, objs.NMAX)
            st.ctx.hints['nopow2'] = st.ctx.hints.get('nopow2', ()) + ((p, 30),)
        elif kind == 'complex':
            p = st.ctx.sym('n', 0, objs.NMAX)
        else:
            h = st.ctx.sym('h', 1, objs.NMAX//2)
            st.ctx.pars = st.ctx.pars | h.syms()
            return h*2
        st.ctx.pars = st.ctx.pars | p.syms()
        return p
    if n == '1':
        return ONE
    if isinstance(n, str) and n[0] == 'L':
        k = int(n[1:])
        lo, hi = ((1 << k)//4 + 1 if k > 1 else 1), max((1 << k)//2, 1)
        if lo == hi:
            return C(lo)
        p = st.ctx.sym('n', lo, hi)
        st.ctx.pars = st.ctx.pars | p.syms()
        return p
    return C(int(n))

def obj(ex, kind):
    return FFT0(ex) if kind == 'FFT0' else Client(ex, kind)

def gone(ex, ob, s, p, what):
    """destroy p: nothing is left"""
    for k, s2, v in ob.delete(s, p):
        if k != 'ret':
            ex.ob('exception', False, 'the destructor throws'); continue
        if not s2.ctx.dead:
            noleak(ex, s2, [], what)

def idle(ex, st, p):
    """no transform of this object touches anything (length 0: equal to a new object of length 0 in all it does)"""
    for md in client.MODES:
        s = st.copy()
        x = newregion('z', 'data', ZERO)
        s.ver[x] = REG[x].base; s.live[x] = True
        cells = {r: dict(d) for r, d in s.cells.items()}
        ver = dict(s.ver)
        try:
            outs = ex.call(ex.find('@vp_complex_' + md), [p, Ptr(x)], s)
        except (Unsup, TypeError) as e:
            raise Unsup('a transform of length 0 depends on what an earlier setup left (%s)' % e)
        for k, s2, v in outs:
            if s2.ctx.dead:
                continue
            if k != 'ret':
                raise Fail('post', 'a transform of length 0 throws')
            bad = [r for r in ver if s2.ver.get(r) != ver[r]] or [r for r in cells if {o: c for o, c in s2.cells.get(r, {}).items()} != cells[r]]
            if bad:
                raise Fail('post', 'a transform of length 0 (%s) changes %s' % (md, REG[bad[0]].name))
    ex.count['post'] = ex.count.get('post', 0) + 1

def signature(st, root):
    """shape of a forgotten object: two objects of the same shape behave alike from here on"""
    num, out, todo = {root: 0}, [], [root]
    while todo:
        r = todo.pop(0)
        d = st.cells.get(r, {})
        out.append((num[r], REG[r].kind, st.heap.get(r), st.live.get(r)))
        for o in sorted(d, key=repr):
            x = d[o][1]
            if isinstance(x, Ptr):
                if isinstance(x.r, int):
                    if x.r not in num:
                        num[x.r] = len(num); todo.append(x.r)
                    out.append((o, num[x.r], repr(x.o)))
                else:
                    out.append((o, repr(x)))
            else:
                out.append((o, repr(x)))
        out += sorted((k[0], repr(k[2]), st.prop[k][0], st.prop[k][1] is None) for k in st.prop if isinstance(k, tuple) and k[0] == 'obj' and k[1] == r)
    return tuple(out)

EARLIER = {'FFT0': ['new', '0'] + [str(1 << k) for k in range(25)] + ['*'], 'complex': ['new', '0', '*'], 'real': ['new', '0', '*'], 'dct': ['new', '0', '*'],
           'bluestein': ['new', '0'] + ['L%d' % k for k in range(2, 30)]}
LATER = {'FFT0': ['0'] + [str(1 << k) for k in range(25)] + ['*'], 'complex': ['0', '*'], 'real': ['0', '1', '*'], 'dct': ['0', '1', '*'],
         'bluestein': ['0'] + ['L%d' % k for k in range(2, 30)]}

def u_life(ex, kind, n, fail):
    """objects in every earlier state are set up for length n; fail: any allocation may fail"""
    ob = obj(ex, kind)
    cnt = 0
    seen = set()
    work = []
    # every state construction can leave
    for m in EARLIER[kind]:
        st = St()
        mm = sym(st, kind, m)
        ex.opts['allocfail'] = 'all' if fail and m == n else None
        for k, s, p in ob.create(st, mm):
            if s.ctx.dead:
                continue
            if k == 'throw':
                badalloc(ex, s)
                noleak(ex, s, [], 'when construction fails')
                cnt += 1
                continue
            noleak(ex, s, [p.r], 'by construction', True)
            if m == n or m == 'new':
                gone(ex, ob, s.copy(), p, 'by destruction')
            forget(ex, s, p.r)
            sg = signature(s, p.r)
            if sg not in seen:
                seen.add(sg)
                work.append((s, p, [n]))
    while work:
        s0, p, ns = work.pop()
        for l in ns:
            s = s0.copy()
            nn = sym(s, kind, l)
            ex.opts['allocfail'] = 'all' if fail else None
            for k2, s2, v in ob.setup(s, p, nn):
                if s2.ctx.dead:
                    continue
                cnt += 1
                if k2 == 'throw':
                    if not fail:
                        raise Fail('terminate', 'setup throws without a failure')
                    badalloc(ex, s2)
                    noleak(ex, s2, [p.r], 'when setup fails')
                    gone(ex, ob, s2.copy(), p, 'by destruction after a failed setup')
                    forget(ex, s2, p.r)
                    sg = signature(s2, p.r)
                    if sg not in seen:
                        # a state only failures leave: every length once more
                        seen.add(sg)
                        work.append((s2, p, LATER[kind]))
                    continue
                # an object of length 0 may keep addresses it never looks at again
                asleep = kind == 'bluestein' and l == '0'
                noleak(ex, s2, [p.r], 'by setup', not asleep)
                ex.opts['allocfail'] = None
                if asleep and fail:
                    idle(ex, s2.copy(), p)
                for k4, s4, q in () if fail else ob.create(s2.copy(), nn):
                    if k4 == 'ret' and not s4.ctx.dead:
                        try:
                            same(ex, s4.copy(), p.r, q.r)
                        except Fail:
                            if kind != 'bluestein' or l != '0':
                                raise
                            idle(ex, s4, p)
                ex.opts['allocfail'] = 'all' if fail else None
                gone(ex, ob, s2, p, 'by destruction')
    if not cnt:
        raise Unsup('no terminating path')
    return cnt, len(seen)

if __name__ == '__main__':
    import sys, time, traceback
    sys.setrecursionlimit(20000)
    d, back, kind, ns, fail = sys.argv[1:6]
    mods = client.load(d, back)
    if 1:
        for n in ns.split(','):
            t = time.time()
            CUR.clear()
            try:
                ex = client.mkex(mods, (), INNER[kind])
                r = u_life(ex, kind, n, fail == '1')
                print('OK', n, r, ex.count, ex.fails[:2], len(ex.used_contracts), round(time.time() - t, 2), flush=True)
            except (Unsup, Fail, NeedSplit, VErr) as x:
                e = CUR.get('ex')
                print('FAIL', n, type(x).__name__, str(x)[:500], e._stk[-3:] if e else '', round(time.time() - t, 2), flush=True)
                if len(sys.argv) > 6: traceback.print_exc()
