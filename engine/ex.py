"""Symbolic executor over LLVM IR: path states, array versions, loop summarisation, OpenMP regions.
   Every loop is summarised for all iterations; nothing is unrolled except loops whose conditions are
   concrete.  Obligations are counted in Ex.count and failures are collected in Ex.fails."""
import re, sys, math
from fractions import Fraction
from val import *
from poly import _gcd, _n, intval, STAT
import mem
from mem import *
import irparse
from irparse import loops as ir_loops, IRError

sys.setrecursionlimit(20000)

class Unsup(Exception):
    """construct outside the engine's reach (undecided, never a violation by itself)"""

class LoopFork(Exception):
    """a loop-invariant condition must be decided before the loop"""
    def __init__(self, conds):
        self.conds = conds
class Rebind(Exception):
    """loop counter b must be seen as l + M*h"""
    def __init__(self, b, M):
        self.b = b
        self.M = M
class RagRebind(Exception):
    """loop counter b walks through a ragged table: b = position of (row, column)"""
    def __init__(self, b, node, rg):
        self.b = b
        self.node = node
        self.rg = rg
def topoly(v):
    r = ZERO
    for tid, c in v.items():
        p, m, at, s = TERM[tid]
        x = c.real if isinstance(c, complex) else c
        if not p.is_zero() or at or s or abs(c - round(x)) > 1e-9:
            raise Unsup('integer value %s' % vstr(v, 3))
        r = r + Poly({m: int(round(x))})
    return r
class RangeSplit(Exception):
    """loop range must be cut where poly (linear in b) changes sign"""
    def __init__(self, b, q):
        self.b = b
        self.q = q

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o=ZERO):
        self.r = r
        self.o = o
    def __repr__(self):
        return '<%s+%r>' % (REG[self.r].name if isinstance(self.r, int) else self.r, self.o)
    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and self.o == x.o
    def __hash__(self):
        return hash((self.r, self.o))
NULL = Ptr(None)

class Und:
    """undefined value"""
    def __repr__(self):
        return 'undef'
UND = Und()

class Region:
    __slots__ = ('id', 'kind', 'name', 'size', 'base', 'ro', 'priv', 'meta')
REG = []
def newregion(kind, name, size, ro=False):
    r = Region()
    r.id = len(REG)
    r.kind = kind          # 'z','d','i','cell','raw'
    r.name = name
    r.size = size          # bytes (Poly)
    r.ro = ro
    r.priv = False
    r.meta = None
    r.base = newver(r.id, None, [], name)
    REG.append(r)
    return r.id

class Nodes(list):
    pass

CELLB = {'z': 16, 'd': 8, 'i': 4, 'q': 8, 'h': 2}
ITY = {'i16': 'h', 'i32': 'i', 'i64': 'q'}

class St:
    __slots__ = ('ctx', 'ver', 'pend', 'cells', 'live', 'guards', 'acc', 'cw', 'par', 'omp', 'heap', 'prop', 'inv0', 'trace', 'retire')
    def __init__(self):
        self.ctx = Ctx()
        self.ver = {}
        self.pend = {}
        self.cells = {}
        self.live = {}
        self.guards = []
        self.acc = None
        self.cw = None
        self.par = None
        self.omp = None
        self.heap = {}
        self.prop = {}
        self.trace = ()
    def copy(self):
        s = St.__new__(St)
        s.ctx = self.ctx.fork()
        s.ver = dict(self.ver)
        s.pend = {k: {c: list(v) for c, v in d.items()} for k, d in self.pend.items()}
        s.cells = {k: dict(d) for k, d in self.cells.items()}
        s.live = dict(self.live)
        s.guards = list(self.guards)
        s.acc = None if self.acc is None else {k: {r: dict(d) for r, d in v.items()} for k, v in self.acc.items()}
        s.cw = None if self.cw is None else set(self.cw)
        s.par = None if self.par is None else self.par.copy()
        s.omp = self.omp
        s.heap = dict(self.heap)
        s.prop = dict(self.prop)
        s.trace = self.trace
        return s

class Par:
    """one parallel region: accesses of the current epoch (since the last barrier)"""
    def __init__(self):
        self.ep = []        # (region, 'r'/'w', addr poly, owner)
        self.single = False
        self.nloop = 0
    def copy(self):
        p = Par()
        p.ep = list(self.ep)
        p.single = self.single
        p.nloop = self.nloop
        return p

def c_not(c):
    if c[0] == 'c': return ('c', not c[1])
    if c[0] == 'ge': return ('ge', -c[1] - 1)
    if c[0] == 'eq': return ('ne', c[1])
    if c[0] == 'ne': return ('eq', c[1])
    if c[0] == 'not': return c[1]
    if c[0] == 'and': return ('or', c_not(c[1]), c_not(c[2]))
    if c[0] == 'or': return ('and', c_not(c[1]), c_not(c[2]))
    return ('not', c)
def c_syms(c):
    if c[0] in ('ge', 'eq', 'ne'): return c[1].syms()
    if c[0] in ('and', 'or'): return c_syms(c[1]) | c_syms(c[2])
    if c[0] == 'not': return c_syms(c[1])
    return set()

def is_val(x):
    return isinstance(x, dict)

EPH_EXT = ('llvm.x86.avx.vzeroupper', 'llvm.assume', 'llvm.dbg', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.lifetime')

CUR = {}
class Ex:
    def __init__(self, mods, contracts=None, opts=None):
        self.mods = mods
        self.contracts = contracts or {}
        self.count = {}
        self.fails = []
        self.depth = 0
        self.quiet = 0
        self.opts = opts or {}
        self.binders = []      # enclosing loop counters (innermost last)
        self.opaq = 0
        self.fn_seen = set()
        self.used_contracts = set()
        self.assumed = set()
        self.throwing = self.opts.get('throw', False)
        CUR['ex'] = self
        self.local_ok = set()
        self.local_bad = set()

    # ------------------------------------------------------------ bookkeeping
    def ob(self, kind, ok, msg=''):
        if self.quiet:
            return ok
        self.count[kind] = self.count.get(kind, 0) + 1
        if not ok:
            m = (kind, msg() if callable(msg) else msg, '/'.join(self.stack_names()[-3:]))
            if m not in self.fails:
                self.fails.append(m)
                if len(self.fails) > 40:
                    raise Fail(kind, 'too many failures')
        return ok
    def stack_names(self):
        return self._stk
    _stk = []
    conflict_sat = False
    lazy = False     # keep loads of computed arrays symbolic (index-permuting loops)
    def find(self, name, mod=None):
        if mod is not None:
            f = mod.func(name)
            if f is not None:
                return f
        for m in self.mods:
            f = m.func(name)
            if f is not None and 'internal' not in f.linkage:
                return f
        return None
    def opaque(self, st, why, lo=None, hi=None):
        i = newsym('op')
        st.ctx.bound(i, lo, hi)
        st.ctx.pars = st.ctx.pars | {i}
        return S(i)

    # ------------------------------------------------------------ operands
    def const(self, o, ty, mod, st):
        k = o[0]
        if k == 'i':
            if ty == 'i1':
                return ('c', bool(o[1]))
            return C(o[1])
        if k == 'f':
            return vconst(o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return Ptr(mod.aliases.get(o[1], o[1]))
        if k == 'undef':
            return self.undef(mod.resolve(ty) if isinstance(ty, tuple) else ty)
        if k == 'zero':
            return self.zero(mod.resolve(ty) if isinstance(ty, tuple) else ty, mod)
        if k == 'agg':
            t = mod.resolve(ty)
            if t[0] == 'vec' or t[0] == 'arr':
                return tuple(self.const(x, t[2], mod, st) for x in o[1])
            return tuple(self.const(x, e, mod, st) for x, e in zip(o[1], t[1]))
        if k == 'gep':
            base = self.const(o[2], 'ptr', mod, st)
            off = self.gepoff(o[1], [('i64', x) for x in o[3]], mod, lambda x, t: self.const(x, t, mod, st), st)
            return Ptr(base.r, base.o + off)
        raise Unsup('constant %r' % (o,))
    def undef(self, ty):
        if isinstance(ty, tuple) and ty[0] == 'vec':
            return tuple(UND for _ in range(ty[1]))
        if isinstance(ty, tuple) and ty[0] == 'struct':
            return tuple(UND for _ in ty[1])
        return UND
    def zero(self, ty, mod):
        if isinstance(ty, tuple) and ty[0] == 'named':
            ty = mod.resolve(ty)
        if ty == 'double' or ty == 'float':
            return {}
        if ty == 'ptr':
            return NULL
        if isinstance(ty, str):
            return ('c', False) if ty == 'i1' else ZERO
        if ty[0] in ('vec', 'arr'):
            return tuple(self.zero(ty[2], mod) for _ in range(ty[1]))
        return tuple(self.zero(e, mod) for e in ty[1])
    def gepoff(self, sty, idx, mod, ev, st):
        off = ZERO
        t = sty
        for n, (ity, iv) in enumerate(idx):
            i = ev(iv, ity)
            if n == 0:
                off = off + self.asint(i, st)*mod.size(t)
            else:
                t = mod.resolve(t)
                if t[0] == 'struct':
                    offs, _ = mod.offsets(t)
                    off = off + offs[i.const()]
                    t = t[1][i.const()]
                else:
                    off = off + self.asint(i, st)*mod.size(t[2])
                    t = t[2]
        return off
    def asint(self, v, st):
        if isinstance(v, Poly):
            return v
        if isinstance(v, tuple) and v and v[0] == 'c':
            return C(1 if v[1] else 0)
        if v is UND:
            raise Unsup('undefined integer used')
        raise Unsup('not an integer: %r' % (v,))

    # ------------------------------------------------------------ conditions
    def dec(self, st, c, z3=True):
        """decide a condition: True/False/None"""
        k = c[0]
        ctx = st.ctx
        if k == 'c':
            return c[1]
        if k == 'ge':
            if ctx.nonneg(c[1]): return True
            if ctx.nonneg(-c[1] - 1): return False
            if z3 and ctx.nonneg(c[1], True): return True
            if z3 and ctx.nonneg(-c[1] - 1, True): return False
            return None
        if k in ('eq', 'ne'):
            z = ctx.iszero(c[1])
            if z is None and z3:
                z = ctx.iszero(c[1], True)
            if z is None: return None
            return z if k == 'eq' else not z
        if k == 'and':
            a, b = self.dec(st, c[1], z3), self.dec(st, c[2], z3)
            if a is False or b is False: return False
            if a and b: return True
            return None
        if k == 'or':
            a, b = self.dec(st, c[1], z3), self.dec(st, c[2], z3)
            if a or b: return True
            if a is False and b is False: return False
            return None
        if k == 'not':
            a = self.dec(st, c[1], z3)
            return None if a is None else not a
        return None
    def assume(self, st, c, record=True):
        k = c[0]
        if k == 'c':
            if not c[1]: st.ctx.dead = True
            return
        if k == 'ge':
            st.ctx.assume_ge(c[1])
        elif k == 'eq':
            st.ctx.assume_eq(c[1])
        elif k == 'ne':
            st.ctx.assume_ne(c[1])
        elif k == 'and':
            self.assume(st, c[1], False); self.assume(st, c[2], False)
        elif k == 'or':
            a, b = self.dec(st, c[1]), self.dec(st, c[2])
            if a is False: self.assume(st, c[2], False)
            elif b is False: self.assume(st, c[1], False)
        elif k == 'not':
            n = c_not(c[1])
            if n[0] != 'not':
                self.assume(st, n, False)
        if record:
            st.guards.append(c)
    def fork(self, st, c):
        """-> [(truth, state)] with the condition decided"""
        d = self.dec(st, c)
        if d is not None:
            return [(d, st)]
        if self.binders:
            sy = c_syms(c)
            bs = set(self.binders[-1])
            mark = self.marks[-1]
            if sy and not any(x in bs or (x >= mark and x not in DEFS) for x in st.ctx.norm_syms(sy)):
                raise LoopFork([c])
        out = []
        s1 = st.copy(); self.assume(s1, c)
        if not s1.ctx.dead: out.append((True, s1))
        s2 = st.copy(); self.assume(s2, c_not(c))
        if not s2.ctx.dead: out.append((False, s2))
        return out

    # ------------------------------------------------------------ integer helpers
    def fdiv(self, st, p, d):
        """floor division with loop-counter rebinding"""
        ctx = st.ctx
        p = ctx.norm(p); d = ctx.norm(P(d))
        if p.is_const() and d.is_const():
            return C(p.const()//d.const())
        k = ('fd', p, d)
        if k in ctx.hints:
            return ctx.norm(ctx.hints[k])
        if self.binders and not d.is_const() or True:
            q = pdiv(p, d)
            if q is not None and intval(q):
                return q
            sm = split_multiple(p, d)
            A, B = sm if sm else (ZERO, p)
            for off in (0, 1, -1):
                if ctx.nonneg(B - d*off) and ctx.nonneg(d*off + d - 1 - B):
                    return A + off
            bs = [x for bl in self.binders for x in bl]
            inb = [b for b in bs if b in B.syms()]
            if inb:
                for b in reversed(inb):
                    cf = B.coeffs(b)
                    if set(cf) - {0, 1}:
                        continue
                    lo, hi = rng(b, ctx)
                    if not lo.is_zero():
                        continue
                    M = pdiv(d, cf[1])
                    if M is None or not mem._int(M) or (M.is_const() and M.const() <= 1):
                        continue
                    K = pdiv(hi + 1, M)
                    if K is not None and mem._int(K):
                        raise Rebind(b, M)
                    if M.is_const() and (hi + 1).is_const() is False:
                        pass
        return ctx.floordiv(p, d)

    # ------------------------------------------------------------ memory
    def region_cell(self, st, rid, off, what):
        """byte offset -> (cell index poly, byte within cell)"""
        R = REG[rid]
        w = CELLB[R.kind]
        off = st.ctx.norm(off)
        k = (w, off)
        r = _RC.get(k)
        if r is None:
            a = {}
            b = {}
            rem = 0
            for m, c in off.t.items():
                if isinstance(c, Fraction):
                    r = False
                    break
                if m:
                    if c % w:
                        r = False
                        break
                    a[m] = c//w
                else:
                    rem = c % w
                    if c//w:
                        a[m] = c//w
            if r is None:
                r = (Poly(a), rem)
            _RC[k] = r
        if r is False:
            raise Unsup('unaligned access %r in %s' % (off, R.name))
        return r
    def check_access(self, st, p, n, write):
        if p.r is None:
            self.ob('null', False, 'null pointer access')
            raise Fail('null', 'null pointer access')
        if not isinstance(p.r, int):
            raise Unsup('access to global %s' % p.r)
        R = REG[p.r]
        if st.live.get(p.r) is False:
            self.ob('freed', False, 'access to released memory %s' % R.name)
            raise Fail('freed', 'access to released memory %s' % R.name)
        if R.size is not None:
            ok = st.ctx.nonneg(p.o, True) and st.ctx.nonneg(R.size - p.o - n, True)
            self.ob('bounds', ok, lambda: 'access of %d bytes at %r of %s (size %r)' % (n, st.ctx.norm(p.o), R.name, R.size))
        if write and R.ro:
            self.ob('readonly', False, 'write to read-only %s' % R.name)
        return R
    def touch(self, st, rid, cell, mode):
        if st.acc is not None:
            st.acc[mode].setdefault(rid, {})[cell] = 1
        if st.par is not None and self.par_depth_is_top(st) and not REG[rid].priv:
            st.par.ep.append((rid, mode, cell, 'single' if st.par.single else 'all'))
    def par_depth_is_top(self, st):
        return not self.binders
    def flush(self, st, rid):
        pd = st.pend.get(rid)
        if pd:
            nodes = []
            k = REG[rid].kind
            for c, v in pd.items():
                nodes.append(Node((), c, self.cellval(st, rid, c, v)))
            st.ver[rid] = newver(rid, st.ver[rid], nodes)
            st.pend[rid] = {}
    def cellval(self, st, rid, c, v):
        if REG[rid].kind != 'z':
            return v[0]
        a, b = v
        if a is None or b is None:
            old = self.vercell(st, rid, c)
            if a is None: a = vre(old)
            if b is None: b = vim(old)
        return vadd(a, vscale(b, 1j))
    def vercell(self, st, rid, c):
        kind = REG[rid].kind
        ver = st.ver[rid]
        if not mem.is_base(ver, None):
            try:
                r = resolve(ver, c, kind if kind in 'zd' else 'q', st.ctx)
                if not self.lazy or len(r) <= 1 and not any(TERM[t][3] for t in r):
                    return r
            except (NeedSplit, Fail):
                pass
        return {term(ZERO, (), (atom(kind, ver, c),), ()): 1.0}
    def pend_lookup(self, st, rid, c):
        """pending entry for cell c, or None; flush when aliasing is undecided"""
        pd = st.pend.get(rid)
        if not pd:
            return None
        v = pd.get(c)
        if v is not None:
            return v
        for o in pd:
            d = o - c
            if d.is_const():
                continue
            z = st.ctx.iszero(d)
            if z is False:
                continue
            if z is None:
                z = st.ctx.iszero(d, True)
                if z is False:
                    continue
            if z is True:
                return pd[o]
            self.flush(st, rid)
            return None
        return None
    def setkind(self, rid, kind):
        R = REG[rid]
        R.kind = kind
    def load_d(self, st, rid, off):
        """load one double"""
        R = REG[rid]
        if R.kind == 'raw':
            R.kind = 'd'
        if R.kind == 'cell':
            v = self.load_cell(st, rid, off)
            return v
        if R.kind in 'iqh':
            raise Unsup('double load from integer array')
        c, h = self.region_cell(st, rid, off, 'load')
        self.touch(st, rid, c, 'r')
        pv = self.pend_lookup(st, rid, c)
        if R.kind == 'z':
            i = 0 if h == 0 else 1
            if h not in (0, 8):
                raise Unsup('unaligned')
            if pv is not None and pv[i] is not None:
                return pv[i]
            z = self.vercell(st, rid, c)
            return vre(z) if i == 0 else vim(z)
        if h:
            raise Unsup('unaligned')
        if pv is not None:
            return pv[0]
        return self.vercell(st, rid, c)
    def store_d(self, st, rid, off, v):
        R = REG[rid]
        if R.kind == 'raw':
            R.kind = 'd'
        if R.kind == 'cell':
            return self.store_cell(st, rid, off, 8, v)
        if R.kind in 'iqh':
            raise Unsup('double store to integer array')
        if v is UND:
            # some real number nothing is known about (only outside loops: one per execution)
            if self.binders:
                raise Unsup('store of undefined value')
            self.opaq += 1
            v = {term(ZERO, (), (atom('d', ('undef', self.opaq), ZERO),), ()): 1.0}
        c, h = self.region_cell(st, rid, off, 'store')
        self.touch(st, rid, c, 'w')
        pv = self.pend_lookup(st, rid, c)
        pd = st.pend.setdefault(rid, {})
        if R.kind == 'z':
            i = 0 if h == 0 else 1
            if h not in (0, 8):
                raise Unsup('unaligned')
            if pv is None:
                pv = pd[c] = [None, None]
            pv[i] = v
        else:
            if h:
                raise Unsup('unaligned')
            if pv is None:
                pd[c] = [v]
            else:
                pv[0] = v
    def load_cell(self, st, rid, off):
        off = st.ctx.norm(off)
        if not off.is_const():
            raise Unsup('symbolic offset %r into %s' % (off, REG[rid].name))
        o = off.const()
        if st.par is not None and not REG[rid].priv:
            self.par_cell(st, rid, o, 'r')
        v = st.cells.get(rid, {}).get(o)
        if v is None:
            if REG[rid].meta:
                v = REG[rid].meta(self, st, rid, o)
                if v is not None:
                    st.cells.setdefault(rid, {})[o] = v
                    return v[1]
            return UND
        return v[1]
    def store_cell(self, st, rid, off, n, v):
        off = st.ctx.norm(off)
        if not off.is_const():
            raise Unsup('symbolic offset %r into %s' % (off, REG[rid].name))
        o = off.const()
        if st.par is not None and not REG[rid].priv:
            self.par_cell(st, rid, o, 'w')
        d = st.cells.setdefault(rid, {})
        for k in [k for k in d if k != o and k < o + n and o < k + d[k][0]]:
            del d[k]
        d[o] = (n, v)
        if st.cw is not None:
            st.cw.add((rid, o))
    def par_cell(self, st, rid, o, mode):
        if self.quiet:
            return
        own = 'single' if st.par.single else 'all'
        st.par.ep.append((rid, mode, C(o), 'cell-' + own if not self.binders else 'cell-loop'))
    def load(self, st, p, ty, mod):
        ty = mod.resolve(ty)
        if not isinstance(p, Ptr):
            raise Unsup('load through %r' % (p,))
        if isinstance(p.r, str):
            return self.load_global(st, p, ty, mod)
        n = mod.size(ty)
        R = self.check_access(st, p, n, False)
        if ty == 'double':
            return self.load_d(st, p.r, p.o)
        if isinstance(ty, tuple) and ty[0] == 'vec' and ty[2] == 'double':
            return tuple(self.load_d(st, p.r, p.o + 8*i) for i in range(ty[1]))
        if isinstance(ty, tuple) and ty[0] == 'struct':
            offs, _ = mod.offsets(ty)
            return tuple(self.load(st, Ptr(p.r, p.o + o), e, mod) for o, e in zip(offs, ty[1]))
        if R.kind == 'raw' and isinstance(ty, str) and ty in ITY:
            R.kind = ITY[ty]
            R.size = st.ctx.norm(R.size)
        if R.kind in 'iqh':
            return self.load_int(st, p, ty)
        if R.kind != 'cell':
            if ty in ('i64', 'i32', 'ptr') :
                raise Unsup('%s load from %s' % (ty, R.name))
        v = self.load_cell(st, p.r, p.o)
        if isinstance(v, Poly) and v.is_zero():
            if ty == 'ptr': return NULL
            if ty == 'double': return {}
        if ty == 'i1' and isinstance(v, Poly):
            return ('ne', v)
        if isinstance(ty, str) and ty[0] == 'i' and is_val(v):
            return v      # bit pattern of a double
        return v
    def load_int(self, st, p, ty):
        c, h = self.region_cell(st, p.r, p.o, 'load')
        if h:
            raise Unsup('unaligned int')
        self.touch(st, p.r, c, 'r')
        pv = self.pend_lookup(st, p.r, c)
        if ITY.get(ty) != REG[p.r].kind:
            raise Unsup('%s load from %s' % (ty, REG[p.r].name))
        if pv is not None:
            return topoly(pv[0])
        return self.int_resolve(st, st.ver[p.r], c)
    def int_resolve(self, st, ver, c):
        """element of an integer table; a loop counter that walks through a ragged (row by row) table is
           replaced by the table's own row and column counters"""
        ctx = st.ctx
        c = ctx.norm(c)
        bs = [x for bl in self.binders for x in bl]
        v = ver
        while v is not None:
            for nd in reversed(nodes_of(v, ctx)):
                rg = mem.ragged(nd.addr, nd.binders, nd.guards, ctx) if nd.lin is None else None
                if rg is not None:
                    for t in reversed(bs):
                        cf = c.coeffs(t)
                        if set(cf) != {0, 1} and set(cf) != {1}:
                            continue
                        lo, hi = rng(t, ctx)
                        if cf[1] == C(rg.s) and lo.is_zero() and rg.gap == rg.s and ctx.norm(hi - rg.count + 1).is_zero():
                            raise RagRebind(t, nd, rg)
                mp = match(nd, c, ctx)
                if mp is None:
                    continue
                if nd.val is None:
                    raise Unsup('undefined table element')
                return topoly(vsubst(nd.val, mp))
            v = VERS[v].parent
        raise Unsup('integer table element %r is not initialised' % (c,))
    def load_global(self, st, p, ty, mod):
        """constant global (vtable, constant tables)"""
        g = mod.ginit(p.r) if mod else None
        if g is None:
            for m in self.mods:
                g = m.ginit(p.r)
                if g is not None:
                    mod = m
                    break
        v = st.cells.get(p.r, {}).get(p.o.const() if p.o.is_const() else None)
        if v is not None:
            return v[1]
        if g is None:
            h = self.opts.get('globals', {}).get(p.r)
            if h is not None:
                return h
            raise Unsup('load from global %s' % p.r)
        gty, init, kind = g
        if not p.o.is_const():
            raise Unsup('symbolic index into global %s' % p.r)
        if kind != 'constant' and not self.opts.get('ginit'):
            # function-local static etc: initial value only if never stored; handled by guard logic
            pass
        return self.gread(init, gty, p.o.const(), ty, mod, st)
    def gread(self, init, gty, off, ty, mod, st):
        gty = mod.resolve(gty)
        if off == 0 and (gty == ty or isinstance(gty, str)):
            return self.const(init, gty, mod, st)
        if init[0] == 'zero':
            return self.zero(mod.resolve(ty), mod)
        if isinstance(gty, tuple) and gty[0] in ('arr', 'vec'):
            es = mod.size(gty[2])
            if isinstance(ty, tuple) and ty[0] == 'vec' and es == mod.size(ty[2]):
                return tuple(self.const(init[1][off//es + i], gty[2], mod, st) for i in range(ty[1]))
            return self.gread(init[1][off//es], gty[2], off % es, ty, mod, st)
        if isinstance(gty, tuple) and gty[0] == 'struct':
            offs, _ = mod.offsets(gty)
            for i in reversed(range(len(offs))):
                if offs[i] <= off:
                    return self.gread(init[1][i], gty[1][i], off - offs[i], ty, mod, st)
        raise Unsup('global read')
    def store(self, st, p, ty, v, mod):
        ty = mod.resolve(ty)
        if not isinstance(p, Ptr):
            raise Unsup('store through %r' % (p,))
        if isinstance(p.r, str):
            if st.par is not None:
                self.ob('race', False, 'store to global %s in a parallel region' % p.r)
            if not p.o.is_const():
                raise Unsup('store to global')
            if isinstance(ty, tuple) and ty[0] == 'vec':
                d = st.cells.setdefault(p.r, {})
                d[p.o.const()] = (mod.size(ty), v)
            else:
                st.cells.setdefault(p.r, {})[p.o.const()] = (mod.size(ty), v)
            return
        n = mod.size(ty)
        R = self.check_access(st, p, n, True)
        if ty == 'double':
            return self.store_d(st, p.r, p.o, v)
        if isinstance(ty, tuple) and ty[0] == 'vec' and ty[2] == 'double':
            for i in range(ty[1]):
                self.store_d(st, p.r, p.o + 8*i, v[i])
            return
        if isinstance(ty, tuple) and ty[0] == 'struct':
            offs, _ = mod.offsets(ty)
            for o, e, x in zip(offs, ty[1], v):
                self.store(st, Ptr(p.r, p.o + o), e, x, mod)
            return
        if R.kind == 'raw' and isinstance(ty, str) and ty in ITY:
            R.kind = ITY[ty]
            R.size = st.ctx.norm(R.size)
        if R.kind in 'iqh':
            c, h = self.region_cell(st, p.r, p.o, 'store')
            if h or not isinstance(v, Poly) or ITY.get(ty) != R.kind:
                raise Unsup('int store')
            v = vpoly(st.ctx.norm(v))
            self.touch(st, p.r, c, 'w')
            pv = self.pend_lookup(st, p.r, c)
            st.pend.setdefault(p.r, {})
            if pv is None:
                st.pend[p.r][c] = [v]
            else:
                pv[0] = v
            return
        if R.kind != 'cell':
            if is_val(v):
                return self.store_d(st, p.r, p.o, v)
            raise Unsup('%s store to %s' % (ty, R.name))
        if isinstance(v, tuple) and ty[0] in ('vec', 'arr') if isinstance(ty, tuple) else False:
            es = mod.size(ty[2])
            for i, x in enumerate(v):
                self.store_cell(st, p.r, p.o + es*i, es, x)
            return
        self.store_cell(st, p.r, p.o, n, v)

    # ------------------------------------------------------------ function execution
    def call(self, f, args, st, invoke=None):
        """execute f -> list of (kind, state, value), kind in 'ret','throw'"""
        self.depth += 1
        if self.depth > 220:
            raise Unsup('call depth (recursion without contract) at ' + f.name)
        self._stk = self._stk + [f.name]
        self.fn_seen.add(f.name)
        try:
            env = {}
            for (nm, ty), a in zip(f.args, args):
                env[nm] = a
            return self.run(f, f.entry, None, env, st, None)
        finally:
            self.depth -= 1
            self._stk = self._stk[:-1]

    def run(self, f, blk, prev, env, st, region, start=0):
        """run from block blk until return, or until control leaves `region` (set of blocks) or comes
           back to region's header.  -> list of outcomes ('ret',st,v) ('throw',st,v) ('edge',st,env,from,to)"""
        out = []
        work = [(blk, prev, env, st, start)]
        L = ir_loops(f)
        while work:
            blk, prev, env, st, start = work.pop()
            if st.ctx.dead:
                continue
            if start == 0 and blk in L and not (region is not None and blk == region[0]):
                for o in self.loop(f, blk, prev, env, st, L[blk]):
                    if o[0] == 'edge':
                        _, s2, e2, fr, to = o
                        if region is not None and (to not in region[1] or to == region[0]):
                            out.append(o)
                        else:
                            work.append((to, fr, e2, s2, 0))
                    else:
                        out.append(o)
                continue
            instrs = f.blocks[blk]
            if start == 0:
                self.phis(f, instrs, prev, env, st)
            i = start
            n = len(instrs)
            while i < n:
                ins = instrs[i]
                op = ins[0]
                if op == 'phi':
                    i += 1
                    continue
                if op == 'call':
                    res = self.do_call(f, ins, env, st)
                    nxt = []
                    for k, s2, v in res:
                        if k == 'ret':
                            nxt.append((s2, v))
                        else:
                            if ins[5]:
                                e2 = dict(env)
                                e2['#exc'] = v
                                nb = ins[5][1]
                                work.append((nb, blk, e2, s2, 0))
                            else:
                                out.append(('throw', s2, v))
                    if not nxt:
                        break
                    for s2, v in nxt[1:]:
                        e2 = dict(env)
                        if ins[1] is not None:
                            e2[ins[1]] = v
                        if ins[5]:
                            self.goto(f, blk, ins[5][0], e2, s2, region, out, work)
                        else:
                            work.append((blk, prev, e2, s2, i + 1))
                    st, v = nxt[0]
                    if ins[1] is not None:
                        env[ins[1]] = v
                    if ins[5]:
                        self.goto(f, blk, ins[5][0], env, st, region, out, work)
                        break
                    if st.ctx.dead:
                        break
                    i += 1
                    continue
                if op == 'jmp':
                    self.goto(f, blk, ins[2], env, st, region, out, work)
                    break
                if op == 'br':
                    c = self.getcond(ins[2], env, f.mod, st)
                    fk = self.fork(st, c)
                    for t, s2 in fk:
                        self.goto(f, blk, ins[3] if t else ins[4], env if len(fk) == 1 else dict(env), s2, region, out, work)
                    break
                if op == 'switch':
                    self.do_switch(f, blk, ins, env, st, region, out, work)
                    break
                if op == 'ret':
                    v = None if ins[2] is None else self.ev(ins[3], ins[2], env, f.mod, st)
                    out.append(('ret', st, v))
                    break
                if op == 'resume':
                    out.append(('throw', st, env.get('#exc')))
                    break
                if op == 'unreachable':
                    break
                if op == 'select':
                    c = self.getcond(ins[3], env, f.mod, st)
                    a = self.ev(ins[4], ins[2], env, f.mod, st)
                    b = self.ev(ins[5], ins[2], env, f.mod, st)
                    d = self.dec(st, c)
                    if d is None and self.same(a, b):
                        d = True
                    if d is None and ins[2] == 'i1':
                        # boolean select = and / or
                        if b == ('c', False): env[ins[1]] = ('and', c, a); i += 1; continue
                        if a == ('c', True): env[ins[1]] = ('or', c, b); i += 1; continue
                    if d is None:
                        fk = self.fork(st, c)
                        for t, s2 in fk[1:]:
                            e2 = dict(env)
                            e2[ins[1]] = a if t else b
                            work.append((blk, prev, e2, s2, i + 1))
                        if not fk:
                            break
                        t, st = fk[0]
                        if len(fk) > 1:
                            env = dict(env)
                        env[ins[1]] = a if t else b
                    else:
                        env[ins[1]] = a if d else b
                    i += 1
                    continue
                r = self.step(ins, env, st, f)
                if ins[1] is not None:
                    env[ins[1]] = r
                i += 1
        return out

    def same(self, a, b):
        try:
            return type(a) == type(b) and a == b
        except Exception:
            return False

    def goto(self, f, fr, to, env, st, region, out, work):
        if region is not None and (to not in region[1] or to == region[0]):
            out.append(('edge', st, env, fr, to))
        else:
            work.append((to, fr, env, st, 0))

    def phis(self, f, instrs, prev, env, st):
        upd = []
        for ins in instrs:
            if ins[0] != 'phi':
                break
            for v, b in ins[3]:
                if b == prev:
                    upd.append((ins[1], self.ev(v, ins[2], env, f.mod, st)))
                    break
            else:
                raise Unsup('phi without incoming edge')
        for k, v in upd:
            env[k] = v

    def ev(self, o, ty, env, mod, st):
        if o[0] == 'l':
            try:
                return env[o[1]]
            except KeyError:
                raise Unsup('value %s not available' % o[1])
        return self.const(o, ty, mod, st)
    def getcond(self, o, env, mod, st):
        c = self.ev(o, 'i1', env, mod, st)
        if isinstance(c, Poly):
            return ('ne', c)
        if c is UND:
            self.opaq += 1
            return ('fc', self.opaq)
        return c

    def do_switch(self, f, blk, ins, env, st, region, out, work):
        v = self.asint(self.ev(ins[3], ins[2], env, f.mod, st), st)
        cur = st
        v = cur.ctx.norm(v)
        if v.is_const():
            for cv, b in ins[5]:
                if cv == v.const():
                    return self.goto(f, blk, b, env, cur, region, out, work)
            return self.goto(f, blk, ins[4], env, cur, region, out, work)
        for cv, b in ins[5]:
            fk = self.fork(cur, ('eq', v - cv))
            nx = None
            for t, s2 in fk:
                if t:
                    self.goto(f, blk, b, dict(env), s2, region, out, work)
                else:
                    nx = s2
            if nx is None:
                return
            cur = nx
        self.goto(f, blk, ins[4], env, cur, region, out, work)

    # ------------------------------------------------------------ instructions
    def step(self, ins, env, st, f):
        op = ins[0]
        mod = f.mod
        if op == 'bin':
            _, d, o, ty, a, b, fl = ins
            x = self.ev(a, ty, env, mod, st)
            y = self.ev(b, ty, env, mod, st)
            if isinstance(ty, tuple) and ty[0] == 'vec':
                return tuple(self.binop(o, ty[2], p, q, fl, st) for p, q in zip(x, y))
            return self.binop(o, ty, x, y, fl, st)
        if op == 'load':
            return self.load(st, self.ev(ins[3], 'ptr', env, mod, st), ins[2], mod)
        if op == 'store':
            self.store(st, self.ev(ins[4], 'ptr', env, mod, st), ins[2], self.ev(ins[3], ins[2], env, mod, st), mod)
            return None
        if op == 'gep':
            base = self.ev(ins[3], 'ptr', env, mod, st)
            if not isinstance(base, Ptr):
                raise Unsup('gep on %r' % (base,))
            if isinstance(base.r, int) and REG[base.r].kind == 'raw':
                self.hint(base.r, ins[2], mod)
            return Ptr(base.r, base.o + self.gepoff(ins[2], ins[4], mod, lambda v, t: self.ev(v, t, env, mod, st), st))
        if op == 'shuffle':
            a = self.ev(ins[3], ins[2], env, mod, st)
            b = self.ev(ins[4], ins[2], env, mod, st)
            m = ins[5]
            n = len(a)
            if m[0] == 'zero':
                return tuple(a[0] for _ in range(ins[6][1]))
            out = []
            for e in m[1]:
                if e[0] == 'undef':
                    out.append(UND)
                else:
                    out.append(a[e[1]] if e[1] < n else b[e[1] - n])
            return tuple(out)
        if op == 'cast':
            return self.cast(ins[2], ins[3], self.ev(ins[4], ins[3], env, mod, st), ins[5], st, mod)
        if op == 'fneg':
            v = self.ev(ins[3], ins[2], env, mod, st)
            return tuple(x if x is UND else vneg(x) for x in v) if isinstance(v, tuple) else v if v is UND else vneg(v)
        if op == 'icmp':
            return self.icmp(ins[2], ins[3], self.ev(ins[4], ins[3], env, mod, st), self.ev(ins[5], ins[3], env, mod, st), st)
        if op == 'fcmp':
            self.opaq += 1
            return ('fc', self.opaq)
        if op == 'alloca':
            t = mod.resolve(ins[2])
            kind = 'cell'
            if isinstance(t, tuple) and t[0] == 'arr':
                e = mod.resolve(t[2])
                if e == 'double':
                    kind = 'd'
                elif isinstance(e, tuple) and e[0] == 'struct' and len(e[1]) == 2 and all(x == 'double' for x in e[1]):
                    kind = 'z'
                elif e == 'i32':
                    kind = 'i'
            r = newregion(kind, 'local', C(mod.size(t)))
            REG[r].priv = True
            st.ver[r] = REG[r].base
            st.live[r] = True
            return Ptr(r)
        if op == 'insel':
            a = list(self.ev(ins[3], ins[2], env, mod, st))
            i = self.ev(ins[5], 'i32', env, mod, st)
            a[i.const()] = self.ev(ins[4], ins[2][2], env, mod, st)
            return tuple(a)
        if op == 'extel':
            a = self.ev(ins[3], ins[2], env, mod, st)
            return a[self.ev(ins[4], 'i32', env, mod, st).const()]
        if op == 'extval':
            a = self.ev(ins[3], ins[2], env, mod, st)
            for i in ins[4]:
                a = a[i] if isinstance(a, tuple) else UND
            return a
        if op == 'insval':
            a = self.ev(ins[3], ins[2], env, mod, st)
            b = self.ev(ins[4], None, env, mod, st)
            return self.insv(a, ins[5], b)
        if op == 'landingpad':
            return ('exc', UND)
        if op == 'fence':
            return None
        raise Unsup('instruction %s' % op)
    def insv(self, a, idx, b):
        l = list(a)
        l[idx[0]] = b if len(idx) == 1 else self.insv(l[idx[0]], idx[1:], b)
        return tuple(l)
    def hint(self, rid, sty, mod):
        t = sty
        if isinstance(t, tuple) and t[0] == 'named':
            if 'complex_t' in t[1]:
                REG[rid].kind = 'z'
        elif t == 'double':
            REG[rid].kind = 'd'
        elif t == 'i32':
            REG[rid].kind = 'i'

    def binop(self, o, ty, x, y, fl, st):
        if o[0] == 'f':
            if x is UND or y is UND:
                return UND
            if o == 'fadd': return vadd(x, y)
            if o == 'fsub': return vsub(x, y)
            if o == 'fmul': return vmul(x, y)
            if o == 'fdiv':
                i = vinv(y)
                if i is None:
                    h = self.opts.get('div')
                    if h:
                        return h(self, st, x, y)
                    if not y:
                        return UND       # infinity or not-a-number; no use of it is accepted
                    raise Unsup('division by %s' % vstr(y, 3))
                return vmul(x, i)
            raise Unsup(o)
        if is_val(x) or is_val(y) or (ty == 'i64' and (x is UND or y is UND)):
            # sign manipulation on the bit pattern of doubles
            if is_val(y) and not is_val(x):
                x, y = y, x
            if o == 'xor' and isinstance(y, Poly) and y.is_const():
                if y.const() == 0: return x
                if y.const() in (-(1 << 63), 1 << 63): return vneg(x)
            if o == 'and' and isinstance(y, Poly) and y.is_const():
                if y.const() == -1: return x
                if y.const() == 0: return {}
            if o == 'or' and isinstance(y, Poly) and y.is_const() and y.const() == 0:
                return x
            raise Unsup('bit operation %s on a double' % o)
        if ty == 'i1':
            a = x if isinstance(x, tuple) else ('ne', x)
            b = y if isinstance(y, tuple) else ('ne', y)
            if a == ('c', True) and o == 'xor': return c_not(b)
            if b == ('c', True) and o == 'xor': return c_not(a)
            if o == 'and': return ('and', a, b)
            if o == 'or': return ('or', a, b)
            raise Unsup('i1 ' + o)
        if x is UND or y is UND:
            return UND
        x = self.asint(x, st); y = self.asint(y, st)
        ctx = st.ctx
        if o == 'add': r = x + y
        elif o == 'sub': r = x - y
        elif o == 'mul': r = x*y
        elif o == 'shl':
            yy = ctx.norm(y)
            if yy.is_const():
                r = x*(1 << yy.const())
            else:
                r = self.shl_sym(st, x, yy, ty)
        elif o in ('ashr', 'lshr'):
            yy = ctx.norm(y)
            if not yy.is_const():
                raise Unsup('shift by a symbolic amount')
            if o == 'lshr' and not ctx.nonneg(x, True):
                raise Unsup('logical shift of a possibly negative value')
            return self.fdiv(st, x, C(1 << yy.const()))
        elif o in ('sdiv', 'udiv'):
            return self.sdiv(st, x, y, o)
        elif o in ('srem', 'urem'):
            q = self.sdiv(st, x, y, o)
            return ctx.norm(x - q*y)
        elif o == 'and':
            xx, yy = ctx.norm(x), ctx.norm(y)
            if xx.is_const() and not yy.is_const():
                xx, yy = yy, xx
            if yy.is_const():
                c = yy.const()
                if xx.is_const():
                    return C(xx.const() & c)
                if c == -1:
                    return xx
                if c > 0 and (c & (c+1)) == 0:
                    return xx - self.fdiv(st, xx, C(c+1))*(c+1)
                if c < 0 and ((-c) & (-c-1)) == 0:
                    return self.fdiv(st, xx, C(-c))*(-c)
            return self.opaque(st, 'and')
        elif o in ('or', 'xor'):
            xx, yy = ctx.norm(x), ctx.norm(y)
            if xx.is_const() and yy.is_const():
                return C(xx.const() | yy.const()) if o == 'or' else C(xx.const() ^ yy.const())
            if yy.is_const() and yy.const() == 0:
                return xx
            if yy.is_const() and yy.const() == -1 and o == 'xor':
                return -xx - 1
            return self.opaque(st, o)
        else:
            raise Unsup('int op ' + o)
        r = ctx.norm(r)
        if ty == 'i32' and not r.is_const() or (ty == 'i32' and not -(1 << 31) <= r.const() < (1 << 31)):
            if 'nsw' in fl:
                ok = ctx.nonneg(r + (1 << 31), True) and ctx.nonneg((1 << 31) - 1 - r, True)
                self.ob('overflow', ok, lambda: 'signed 32-bit %s may overflow: %r' % (o, r))
            elif not (ctx.nonneg(r + (1 << 31), True) and ctx.nonneg((1 << 32) - 1 - r, True)):
                if not self.quiet:
                    return self.opaque(st, 'wrap', C(-(1 << 31)), C((1 << 31) - 1))
        elif ty == 'i64' and 'nsw' in fl:
            if r.is_const():
                ok = -(1 << 63) <= r.const() < (1 << 63)
            else:
                ok = ctx.nonneg(r + (1 << 63), True) and ctx.nonneg((1 << 63) - 1 - r, True)
            self.ob('overflow', ok, lambda: 'signed 64-bit %s may overflow: %r' % (o, r))
        return r
    def shl_sym(self, st, x, y, ty):
        p = st.ctx.hints.get(('pow2', y))
        if p is not None:
            return x*st.ctx.norm(p)
        raise Unsup('shift by symbolic amount %r' % (y,))
    def sdiv(self, st, x, y, o):
        """C truncating division"""
        ctx = st.ctx
        y = ctx.norm(y); x = ctx.norm(x)
        if not ctx.nonneg(y - 1, True):
            if y.is_const() and y.const() < 0:
                raise Unsup('division by a negative constant')
            z = ctx.iszero(y, True)
            if z is not False:
                self.ob('divzero', False, 'division by possibly zero %r' % (y,))
                raise Unsup('division by a value of unknown sign %r' % (y,))
            raise Unsup('division by a possibly negative value %r' % (y,))
        if x.is_const() and y.is_const():
            q = abs(x.const())//y.const()
            return C(q if x.const() >= 0 else -q)
        q = pdiv(x, y)
        if q is not None and intval(q):
            return q
        if not ctx.nonneg(x, True):
            bs = set(b for bl in self.binders for b in bl)
            if ctx.nonneg(-x, True):
                return -self.fdiv(st, -x, y)
            raise Unsup('division of a possibly negative value %r' % (x,))
        return self.fdiv(st, x, y)

    def cast(self, o, t1, v, t2, st, mod):
        if o == 'bitcast':
            return v
        if isinstance(v, tuple) and isinstance(t1, tuple) and t1[0] == 'vec':
            return tuple(self.cast(o, t1[2], x, t2[2], st, mod) for x in v)
        if v is UND:
            return UND
        if o == 'sext':
            if t1 == 'i1':
                raise Unsup('sext i1')
            return v
        if o == 'zext':
            if t1 == 'i1':
                c = v
                d = self.dec(st, c)
                if d is not None:
                    return C(1 if d else 0)
                return ('zx', c)
            if isinstance(v, tuple):
                return v
            if not st.ctx.nonneg(v, True):
                # unsigned value of a possibly negative int
                w = int(t1[1:])
                vv = st.ctx.norm(v)
                if vv.is_const():
                    return C(vv.const() % (1 << w))
                return self.opaque(st, 'zext', ZERO, C((1 << w) - 1))
            return v
        if o == 'trunc':
            if t2 == 'i1':
                if isinstance(v, tuple) and v[0] == 'zx':
                    return v[1]
                vv = st.ctx.norm(self.asint(v, st))
                if vv.is_const():
                    return ('c', bool(vv.const() & 1))
                ok = st.ctx.nonneg(vv, True) and st.ctx.nonneg(1 - vv, True)
                if ok:
                    return ('ne', vv)
                q = self.fdiv(st, vv, C(2))
                return ('ne', vv - q*2)
            if isinstance(v, tuple):
                return v
            w = int(t2[1:])
            vv = st.ctx.norm(v)
            if vv.is_const():
                c = vv.const() % (1 << w)
                return C(c - (1 << w) if c >= (1 << (w-1)) else c)
            if st.ctx.nonneg(vv + (1 << (w-1)), True) and st.ctx.nonneg((1 << (w-1)) - 1 - vv, True):
                return vv
            return self.opaque(st, 'trunc', C(-(1 << (w-1))), C((1 << (w-1)) - 1))
        if o in ('sitofp', 'uitofp'):
            if isinstance(v, tuple):
                raise Unsup('bool to double')
            if o == 'uitofp' and not st.ctx.nonneg(v, True):
                raise Unsup('uitofp')
            return vpoly(st.ctx.norm(v))
        if o in ('ptrtoint', 'inttoptr'):
            return v
        if o in ('fptosi', 'fptoui'):
            return self.opaque(st, 'fptosi')
        raise Unsup('cast ' + o)

    def icmp(self, pred, ty, a, b, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UND or b is UND:
                self.opaq += 1
                return ('fc', self.opaq)
            if a.r != b.r:
                if pred == 'eq': return ('c', False)
                if pred == 'ne': return ('c', True)
                raise Unsup('pointer order across regions')
            if a.r is None and b.r is None:
                pass
            x, y = a.o, b.o
        else:
            if isinstance(a, tuple) and a and a[0] == 'zx': 
                if isinstance(b, Poly) and b.is_const() and b.const() == 0:
                    return a[1] if pred == 'ne' else c_not(a[1])
                raise Unsup('bool compare')
            if isinstance(a, tuple) and ty == 'i1':
                if isinstance(b, tuple) and b[0] == 'c':
                    return a if (b[1] == (pred == 'eq')) else c_not(a)
                raise Unsup('i1 compare')
            if a is UND or b is UND:
                self.opaq += 1
                return ('fc', self.opaq)
            x, y = self.asint(a, st), self.asint(b, st)
        d = st.ctx.norm(x - y)
        if pred in ('ugt', 'uge', 'ult', 'ule'):
            nx, ny = st.ctx.nonneg(x, True), st.ctx.nonneg(y, True)
            if not (nx and ny):
                if ny and pred in ('ult', 'ule') :
                    # unsigned compare of a possibly negative value: false when negative
                    if st.ctx.nonneg(-x - 1, True):
                        return ('c', False)
                    return ('and', ('ge', x), ('ge', -d - 1) if pred == 'ult' else ('ge', -d))
                if ny and pred in ('ugt', 'uge'):
                    if st.ctx.nonneg(-x - 1, True):
                        return ('c', True)
                    return ('or', ('ge', -x - 1), ('ge', d - 1) if pred == 'ugt' else ('ge', d))
                raise Unsup('unsigned comparison')
            pred = 's' + pred[1:]
        if pred == 'eq': c = ('eq', d)
        elif pred == 'ne': c = ('ne', d)
        elif pred == 'slt': c = ('ge', -d - 1)
        elif pred == 'sle': c = ('ge', -d)
        elif pred == 'sgt': c = ('ge', d - 1)
        else: c = ('ge', d)
        if d.is_const():
            v = d.const()
            return ('c', {'eq': v == 0, 'ne': v != 0, 'ge': None}[c[0]] if c[0] != 'ge' else c[1].const() >= 0)
        return c

    # ------------------------------------------------------------ calls
    def do_call(self, f, ins, env, st):
        _, dest, rt, cal, args, extra = ins
        mod = f.mod
        if cal[0] == 'g':
            name = cal[1]
        elif cal[0] == 'l':
            p = self.ev(cal, 'ptr', env, mod, st)
            if not isinstance(p, Ptr) or not isinstance(p.r, str):
                if isinstance(p, Ptr) and p.r is None:
                    self.ob('null', False, 'call through null')
                    raise Fail('null', 'call through a null pointer')
                raise Unsup('indirect call %r' % (p,))
            name = p.r
        else:
            raise Unsup('callee %r' % (cal,))
        av = [None if t == 'metadata' else self.ev(a, t, env, mod, st) for t, a in args]
        return self.invoke(name, av, st, mod, args)

    def invoke(self, name, av, st, mod, args=None):
        name = mod.aliases.get(name, name) if mod else name
        h = self.contract_for(name)
        if h is not None:
            r = h(self, st, av, name, mod)
            if r is not None:
                return r
        r = self.external(name, av, st, mod)
        if r is not None:
            return r
        g = self.find(name, mod)
        if g is None:
            raise Unsup('external function ' + name)
        if self.throwing or True:
            return self.call(g, av, st)
    def contract_for(self, name):
        h = self.contracts.get(name)
        if h is None:
            fn = self.contracts.get('*')
            if fn is not None:
                h = fn(name)
        return h

    def external(self, name, av, st, mod):
        n = name[1:].strip('"')
        if n.startswith('llvm.'):
            if any(n.startswith(x) for x in EPH_EXT):
                return [('ret', st, None)]
            if n.startswith('llvm.x86.avx.addsub.pd') or n.startswith('llvm.x86.sse3.addsub.pd'):
                a, b = av
                return [('ret', st, tuple(UND if (x is UND or y is UND) else (vsub(x, y) if i % 2 == 0 else vadd(x, y)) for i, (x, y) in enumerate(zip(a, b))))]
            if n.startswith('llvm.x86.sse3.hadd.pd'):
                a, b = av
                return [('ret', st, (vadd(a[0], a[1]), vadd(b[0], b[1])))]
            if n.startswith('llvm.x86.avx.hadd.pd.256'):
                a, b = av
                return [('ret', st, (vadd(a[0], a[1]), vadd(b[0], b[1]), vadd(a[2], a[3]), vadd(b[2], b[3])))]
            if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
                a, b, c = av
                if isinstance(a, tuple):
                    return [('ret', st, tuple(vadd(vmul(x, y), z) for x, y, z in zip(a, b, c)))]
                return [('ret', st, vadd(vmul(a, b), c))]
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                self.memcpy(st, av[0], av[1], self.asint(av[2], st), mod)
                return [('ret', st, None)]
            if n.startswith('llvm.memset'):
                self.memset(st, av[0], av[1], self.asint(av[2], st), mod)
                return [('ret', st, None)]
            if n.startswith('llvm.umul.with.overflow'):
                r = av[0]*av[1]
                ok = st.ctx.nonneg((1 << 63) - 1 - r, True) and st.ctx.nonneg(r, True)
                if ok:
                    return [('ret', st, (r, ('c', False)))]
                self.opaq += 1
                return [('ret', st, (r, ('fc', self.opaq)))]
            if n.startswith('llvm.smax') or n.startswith('llvm.smin') or n.startswith('llvm.abs'):
                return self.minmax(n, av, st)
            if n.startswith('llvm.trap'):
                self.ob('trap', False, 'llvm.trap reached')
                return []
            if n.startswith('llvm.eh.typeid'):
                return [('ret', st, C(1))]
            if n.startswith('llvm.sqrt'):
                return self.math('sqrt', av, st)
            if n.startswith('llvm.fabs'):
                return self.math('fabs', av, st)
            raise Unsup('intrinsic ' + n)
        if n in ('sin', 'cos', 'sqrt', 'atan', 'atan2', 'hypot', 'exp', 'log', 'fabs'):
            return self.math(n, av, st)
        if n.startswith('__kmpc') or n.startswith('omp_'):
            return self.kmpc(n, av, st, mod)
        h = self.opts.get('ext', {}).get(n)
        if h:
            return h(self, st, av, n)
        m = getattr(self, 'x_' + n, None)
        if m:
            return m(st, av)
        if n in ('__assert_fail', 'abort', '__clang_call_terminate', '_ZSt9terminatev'):
            self.ob('terminate', False, n + ' reached')
            return []
        return None
    def minmax(self, n, av, st):
        out = []
        if 'abs' in n:
            for t, s in self.fork(st, ('ge', av[0])):
                out.append(('ret', s, av[0] if t else -av[0]))
            return out
        a, b = av
        for t, s in self.fork(st, ('ge', a - b)):
            out.append(('ret', s, (a if t else b) if 'smax' in n else (b if t else a)))
        return out
    def math(self, n, av, st):
        v = av[0]
        if v is UND:
            return [('ret', st, UND)]
        r = vcos(v) if n == 'cos' else vsin(v) if n == 'sin' else vsqrt(v) if n == 'sqrt' else None
        if r is None:
            h = self.opts.get('math')
            if h:
                r = h(self, st, n, av)
            if r is None:
                raise Unsup('%s(%s)' % (n, vstr(v, 3)))
        return [('ret', st, r)]

    # -- memory intrinsics
    def memcpy(self, st, d, s, n, mod):
        n = st.ctx.norm(n)
        if not n.is_const():
            raise Unsup('memcpy of symbolic size')
        n = n.const()
        if n == 0:
            return
        if isinstance(s.r, str):
            self.check_access(st, d, n, True)
            off = st.ctx.norm(s.o)
            g = None
            for m in [mod] + self.mods:
                g = m.ginit(s.r)
                if g is not None:
                    break
            if g is None or not off.is_const() or g[2] != 'constant':
                raise Unsup('memcpy from global')
            for o, t, c in self.leaves(g[0], g[1], 0, m):
                k = o - off.const()
                if 0 <= k < n:
                    v = self.const(c, t, m, st) if c[0] != 'zero' else self.zero(t, m)
                    self.store(st, Ptr(d.r, d.o + k), t, v, m)
            return
        self.check_access(st, s, n, False)
        self.check_access(st, d, n, True)
        kd, ks = REG[d.r].kind, REG[s.r].kind
        if kd == 'cell' and ks == 'cell':
            so, do = st.ctx.norm(s.o).const(), st.ctx.norm(d.o).const()
            src = st.cells.get(s.r, {})
            items = sorted((k, v) for k, v in src.items() if so <= k < so + n)
            dd = st.cells.setdefault(d.r, {})
            for k in [k for k in dd if do <= k < do + n]:
                del dd[k]
            for k, v in items:
                self.store_cell(st, d.r, C(k - so + do), v[0], v[1])
            return
        if n % 8:
            raise Unsup('memcpy size')
        vals = [self.load_d(st, s.r, s.o + 8*i) for i in range(n//8)]
        for i, v in enumerate(vals):
            self.store_d(st, d.r, d.o + 8*i, v)
    def leaves(self, ty, init, off, mod):
        ty = mod.resolve(ty)
        if isinstance(ty, str):
            return [(off, ty, init)]
        out = []
        if ty[0] in ('arr', 'vec'):
            es = mod.size(ty[2])
            for i in range(ty[1]):
                out += self.leaves(ty[2], init if init[0] == 'zero' else init[1][i], off + i*es, mod)
        else:
            offs, _ = mod.offsets(ty)
            for i, o in enumerate(offs):
                out += self.leaves(ty[1][i], init if init[0] == 'zero' else init[1][i], off + o, mod)
        return out
    def memset(self, st, d, v, n, mod):
        n = st.ctx.norm(n)
        v = self.asint(v, st)
        if not (n.is_const() and v.is_zero()):
            if v.is_zero() and isinstance(d.r, int) and REG[d.r].kind in ('z', 'd', 'raw'):
                # whole-range zeroing
                R = REG[d.r]
                if R.kind == 'raw': R.kind = 'd'
                self.check_range(st, d, n, True)
                w = CELLB[R.kind]
                cnt = pdiv(n, C(w))
                c, h = self.region_cell(st, d.r, d.o, 'memset')
                if cnt is None or not mem._int(cnt) or h:
                    raise Unsup('memset size')
                self.flush(st, d.r)
                b = newbinder('ms', ZERO, cnt - 1)
                self.touch(st, d.r, c + S(b), 'w')
                st.ver[d.r] = newver(d.r, st.ver[d.r], [Node((b,), c + S(b), {})])
                return
            raise Unsup('memset')
        self.check_access(st, d, n.const(), True)
        if REG[d.r].kind == 'cell':
            o = st.ctx.norm(d.o).const()
            dd = st.cells.setdefault(d.r, {})
            for k in [k for k in dd if o <= k < o + n.const()]:
                del dd[k]
            REGZ.setdefault(d.r, []).append((o, o + n.const()))
            self.zero_cells(st, d.r, o, n.const())
            return
        for i in range(n.const()//8):
            self.store_d(st, d.r, d.o + 8*i, {})
    def zero_cells(self, st, rid, o, n):
        # typed lazily: an 'anyzero' marker per 4 bytes
        for k in range(o, o + n, 4):
            self.store_cell(st, rid, C(k), 4, ZERO)
    def check_range(self, st, p, nbytes, write):
        R = REG[p.r]
        ok = st.ctx.nonneg(p.o, True) and st.ctx.nonneg(nbytes, True) and st.ctx.nonneg(R.size - p.o - nbytes, True)
        self.ob('bounds', ok, lambda: 'range of %r bytes at %r of %s (size %r)' % (nbytes, st.ctx.norm(p.o), R.name, R.size))
        if write and R.ro:
            self.ob('readonly', False, 'write to read-only %s' % R.name)

REGZ = {}
_RC = {}

def _norm_syms(self, sy):
    """symbols after rewriting"""
    out = set()
    for s in sy:
        if s in self.rw:
            out |= self.rw[s].syms()
        else:
            out.add(s)
    # definitional closure (floor symbols)
    todo = list(out)
    while todo:
        s = todo.pop()
        d = DEFS.get(s)
        if d is not None:
            for x in d[0].syms() | d[1].syms():
                for y in (self.rw[x].syms() if x in self.rw else (x,)):
                    if y not in out:
                        out.add(y)
                        todo.append(y)
    return out
Ctx.norm_syms = _norm_syms

# =================================================================== loops
def _defs(f):
    d = _DEFC.get(id(f))
    if d is None:
        d = {}
        for b, l in f.blocks.items():
            for ins in l:
                if len(ins) > 1 and ins[1] is not None and ins[0] not in ('jmp', 'br', 'switch', 'ret', 'resume', 'unreachable'):
                    d[ins[1]] = (b, ins)
        _DEFC[id(f)] = d
    return d
_DEFC = {}

class LoopMixin:
    marks = []
    uid = 0
    def slice(self, f, o, ty, phis, env, body, st, depth=0):
        """evaluate an integer/pointer expression of the loop body over the phi symbols; None if not a pure slice"""
        if o[0] != 'l':
            return self.const(o, ty, f.mod, st)
        n = o[1]
        if n in phis:
            return phis[n]
        d = _defs(f).get(n)
        if d is None or d[0] not in body:
            return env.get(n)
        if depth > 30:
            return None
        ins = d[1]
        ev = lambda x, t: self.slice(f, x, t, phis, env, body, st, depth+1)
        if ins[0] == 'bin' and ins[2] in ('add', 'sub', 'mul', 'shl'):
            a, b = ev(ins[4], ins[3]), ev(ins[5], ins[3])
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return None
            if ins[2] == 'shl':
                b = st.ctx.norm(b)
                return a*(1 << b.const()) if b.is_const() else None
            return a + b if ins[2] == 'add' else a - b if ins[2] == 'sub' else a*b
        if ins[0] == 'cast' and ins[2] in ('sext', 'zext', 'trunc', 'bitcast'):
            return ev(ins[4], ins[3])
        if ins[0] == 'gep':
            base = ev(ins[3], 'ptr')
            if not isinstance(base, Ptr):
                return None
            try:
                def e2(v, t):
                    x = ev(v, t)
                    if x is None:
                        raise Unsup('slice')
                    return x
                return Ptr(base.r, base.o + self.gepoff(ins[2], ins[4], f.mod, e2, st))
            except Unsup:
                return None
        return None

    def loop(self, f, hdr, prev, env, st, body):
        outs = []
        pending = [st]
        n = 0
        while pending:
            s = pending.pop()
            if s.ctx.dead:
                continue
            n += 1
            if n > 400:
                raise Unsup('too many cases at loop entry')
            cnt0, fl0 = dict(self.count), list(self.fails)
            try:
                outs += self.loop1(f, hdr, prev, dict(env), s.copy(), body)
            except LoopFork as e:
                self.count, self.fails = cnt0, fl0
                c = e.conds[0]
                if self.dec(s, c) is not None:
                    raise Unsup('loop condition %r' % (c,))
                for t, s2 in self.fork(s, c):
                    pending.append(s2)
        return outs

    def loop1(self, f, hdr, prev, env, st, body):
        instrs = f.blocks[hdr]
        phis = [i for i in instrs if i[0] == 'phi']
        latches = [p for p in f.preds[hdr] if p in body]
        if len(latches) != 1:
            raise Unsup('several latches')
        latch = latches[0]
        init = {}
        nxt = {}
        for p in phis:
            for v, b in p[3]:
                if b == prev:
                    init[p[1]] = self.ev(v, p[2], env, f.mod, st)
                elif b == latch:
                    nxt[p[1]] = (v, p[2])
        for rid in list(st.pend):
            self.flush(st, rid)
        # ---- affine counters
        steps = {}
        psym = {}
        bad = []
        accs = []
        for p in phis:
            n = p[1]
            if p[2] == 'double' or (isinstance(p[2], tuple) and p[2][0] == 'vec'):
                accs.append(n)
                continue
            v0 = init[n]
            if isinstance(v0, Poly):
                psym[n] = S(newsym('ph'))
            elif isinstance(v0, Ptr):
                psym[n] = Ptr(v0.r, S(newsym('ph')))
            else:
                bad.append(n)
        for n in list(psym):
            r = self.slice(f, nxt[n][0], nxt[n][1], psym, env, body, st)
            s = None
            if isinstance(psym[n], Poly) and isinstance(r, Poly):
                s = r - psym[n]
            elif isinstance(psym[n], Ptr) and isinstance(r, Ptr) and r.r == psym[n].r:
                s = r.o - psym[n].o
            ph = set()
            for q in psym.values():
                ph |= (q if isinstance(q, Poly) else q.o).syms()
            if s is None or s.syms() & ph:
                bad.append(n)
            else:
                steps[n] = st.ctx.norm(s)
        if bad:
            r = self.ilog2(f, hdr, latch, prev, env, st, body, phis, init, nxt, steps, bad)
            if r is not None:
                return r
            return self.search(f, hdr, prev, env, st, body, phis, init, steps, bad)
        def at(env2, t):
            for n in steps:
                if isinstance(init[n], Ptr):
                    env2[n] = Ptr(init[n].r, init[n].o + steps[n]*t)
                else:
                    env2[n] = init[n] + steps[n]*t
        # ---- trip count
        k0 = len(phis)
        exits = []
        for b in body:
            for s in irparse.succs(f.blocks[b][-1]):
                if s not in body:
                    exits.append((b, s))
        # exits into blocks that cannot return (terminate paths) are ignored for the trip count
        live = [e for e in exits if not self.dead_end(f, e[1])]
        if len(live) != 1:
            return self.search(f, hdr, prev, env, st, body, phis, init, steps, accs)
        eb, ex = live[0]
        mark = len(SYMS)
        tt = newsym('tt')
        cond = None
        self.quiet += 1
        try:
            s = st.copy()
            s.ctx.bound(tt, ZERO, None)
            s.acc = None; s.cw = set(); s.par = None
            e2 = dict(env)
            at(e2, S(tt))
            for n in accs:
                e2[n] = self.accval(f, hdr, n, init[n])
            self.binders.append([tt]); self.marks = self.marks + [mark]
            try:
                if eb == hdr:
                    o2 = self.run_straight(f, hdr, k0, e2, s)
                    cond = o2
                    term = f.blocks[hdr][-1]
                else:
                    cond = self.latch_cond(f, hdr, k0, e2, s, body, eb, ex)
                    term = f.blocks[eb][-1]
            except LoopFork:
                raise
            except (Unsup, Rebind, RangeSplit):
                if eb == hdr:
                    raise
                cond = None
            finally:
                self.binders.pop(); self.marks = self.marks[:-1]
        finally:
            self.quiet -= 1
        if cond is None:
            return self.search(f, hdr, prev, env, st, body, phis, init, steps, accs)
        if eb == hdr:
            if term[0] != 'br':
                return self.search(f, hdr, prev, env, st, body, phis, init, steps, accs)
            cont = cond if term[3] in body else c_not(cond)
        else:
            cont = cond
        T = self.trips(st, cont, tt)
        if T is None:
            return self.search(f, hdr, prev, env, st, body, phis, init, steps, accs)
        if eb != hdr:
            T = T + 1
        T = st.ctx.norm(T)
        # header-exit with zero trips
        if T.is_const() and T.const() == 1 and st.omp and st.par is not None and not self.binders:
            # one iteration of a worksharing loop: one thread runs it
            st.omp = None
            st.par.single = True
            outs = self.unroll(f, hdr, prev, env, st, body)
            for o in outs:
                o[1].par.single = False
            return outs
        if T.is_const() and T.const() <= (0 if st.omp and not self.binders else 2):
            return self.unroll(f, hdr, prev, env, st, body)
        # ---- body
        binders = [newbinder('t', ZERO, T - 1)]
        tform = S(binders[0])
        lg = []
        rag = False
        for _ in range(12):
            cnt0, fl0 = dict(self.count), list(self.fails)
            self.binders.append(binders); self.marks = self.marks + [mark]
            lazy0 = self.lazy
            self.lazy = self.lazy or rag
            try:
                res = self.body(f, hdr, k0, latch, (eb, ex), env, st, body, binders, tform, at, accs, init, nxt, lg)
                break
            except RagRebind as e:
                if e.b not in binders or rag:
                    raise
                self.count, self.fails = cnt0, fl0
                rg = e.rg
                nu = newbinder('u', ZERO, rg.U)
                nv = newbinder('v', rg.vmin, rg.vmax)
                mp = {rg.u: S(nu), rg.v: S(nv)}
                pos = ((rg.addr - rg.c0)*Fraction(1, rg.s)).substm(mp)
                tform = tform.substm({e.b: pos})
                i = binders.index(e.b)
                binders = binders[:i] + [nu, nv] + binders[i+1:]
                lg = [('ge', q.substm(mp)) for q in rg.gs]
                rag = True
            except Rebind as e:
                if e.b not in binders:
                    raise
                self.count, self.fails = cnt0, fl0
                lo, hi = rng(e.b, st.ctx)
                K = pdiv(hi + 1, e.M)
                nl = newbinder('l', ZERO, e.M - 1)
                nh = newbinder('h', ZERO, K - 1)
                tform = tform.substm({e.b: S(nl) + e.M*S(nh)})
                i = binders.index(e.b)
                binders = binders[:i] + [nh, nl] + binders[i+1:]
            finally:
                self.lazy = lazy0
                self.binders.pop(); self.marks = self.marks[:-1]
        else:
            raise Unsup('loop rebinding')
        return self.finish(f, hdr, k0, latch, (eb, ex), env, st, body, binders, tform, at, accs, init, T, res, lg)

    def dead_end(self, f, b, d=0):
        t = f.blocks[b][-1]
        if t[0] == 'unreachable':
            return True
        if t[0] == 'jmp' and d < 4:
            return self.dead_end(f, t[2], d+1)
        # unwinding edges are handled as outcomes
        return any(i[0] == 'landingpad' for i in f.blocks[b])

    def run_straight(self, f, blk, k, env, st):
        """execute the straight-line header; returns its branch condition"""
        for ins in f.blocks[blk][k:-1]:
            if ins[0] == 'call':
                r = [x for x in self.do_call(f, ins, env, st) if x[0] == 'ret']
                if len(r) != 1:
                    raise Unsup('call in loop header')
                if ins[1] is not None:
                    env[ins[1]] = r[0][2]
                continue
            if ins[0] == 'select':
                c = self.dec(st, self.getcond(ins[3], env, f.mod, st))
                if c is None:
                    raise LoopFork([self.getcond(ins[3], env, f.mod, st)])
                env[ins[1]] = self.ev(ins[4] if c else ins[5], ins[2], env, f.mod, st)
                continue
            v = self.step(ins, env, st, f)
            if ins[1] is not None:
                env[ins[1]] = v
        t = f.blocks[blk][-1]
        if t[0] != 'br':
            return ('c', True)
        return self.getcond(t[2], env, f.mod, st)

    def latch_cond(self, f, hdr, k0, env, st, body, eb, ex):
        st.guards = []
        outs = self.run(f, hdr, None, env, st, (hdr, body), k0)
        cont = [o for o in outs if o[0] == 'edge' and o[4] == hdr]
        leave = [o for o in outs if o[0] == 'edge' and o[4] == ex]
        if len(cont) == 1 and len(leave) == 1 and len(cont[0][1].guards) == 1:
            return cont[0][1].guards[0]
        return None

    def trips(self, st, cont, tt):
        ctx = st.ctx
        if cont[0] == 'ge':
            a = ctx.norm(cont[1])
            cf = a.coeffs(tt)
            if set(cf) - {0, 1} or 1 not in cf:
                if 1 not in cf and not set(cf) - {0}:
                    d = self.dec(st, cont)
                    if d is False:
                        return ZERO
                return None
            a0, a1 = cf.get(0, ZERO), cf[1]
            if ctx.nonneg(-a1 - 1):
                d = self.dec(st, ('ge', a0))
                if d is False:
                    return ZERO
                if d is None:
                    raise LoopFork([('ge', a0)])
                return (a0 if a1 == C(-1) else self.fdiv(st, a0, -a1)) + 1
            return None
        if cont[0] == 'ne':
            a = ctx.norm(cont[1])
            cf = a.coeffs(tt)
            if set(cf) - {0, 1} or 1 not in cf:
                return None
            a0, a1 = cf.get(0, ZERO), cf[1]
            q = pdiv(-a0, a1)
            if q is None or not mem._int(q):
                return None
            if not ctx.nonneg(q, True):
                return None
            return q
        return None

    def accval(self, f, hdr, n, v0):
        if isinstance(v0, tuple):
            return tuple({term(ZERO, (), (atom('a', ('acc', f.name, hdr, n, i), ZERO),), ()): 1.0} for i in range(len(v0)))
        return {term(ZERO, (), (atom('a', ('acc', f.name, hdr, n, 0), ZERO),), ()): 1.0}

    def body(self, f, hdr, k0, latch, exit_, env, st, body, binders, tform, at, accs, init, nxt, lg=()):
        ph = {}
        plan = {}
        for attempt in range(4):
            s = st.copy()
            s.acc = {'r': {}, 'w': {}}
            s.cw = set()
            s.guards = []
            for g in lg:
                self.assume(s, g)
            e2 = dict(env)
            at(e2, tform)
            for n in accs:
                e2[n] = self.accval(f, hdr, n, init[n])
            for (r, o), v in plan.items():
                w, v0 = st.cells[r][o]
                s.cells[r][o] = (w, v[1])
            cnt0, fl0 = dict(self.count), list(self.fails)
            outs = self.run(f, hdr, None, e2, s, (hdr, body), k0)
            cw = set()
            for o in outs:
                if o[0] == 'edge':
                    cw |= o[1].cw
            cw = {x for x in cw if x[0] in st.live and x[1] in st.cells.get(x[0], {})}
            new = cw - set(plan)
            if not new:
                break
            self.count, self.fails = cnt0, fl0
            # cells carried round the loop: choose a placeholder
            for x in new:
                r, o = x
                w, v0 = st.cells[r][o]
                if is_val(v0):
                    a = {term(ZERO, (), (atom('a', ('cell', r, o, len(VERS)), ZERO),), ()): 1.0}
                    plan[x] = ('acc', a)
                else:
                    vs = [o2[1].cells[r][o][1] for o2 in outs if o2[0] == 'edge' and o2[4] == hdr]
                    v1 = vs[0] if vs else None
                    if all(self.same(v, v0) for v in vs):
                        plan[x] = ('same', v0)
                    elif isinstance(v0, Poly) and len(vs) == 1 and isinstance(v1, Poly):
                        d = st.ctx.norm(v1 - v0)
                        if d.syms() & set(binders):
                            plan[x] = ('temp', UND)
                        else:
                            plan[x] = ('aff', v0 + d*tform, d)
                    else:
                        plan[x] = ('temp', UND)
        else:
            raise Unsup('loop-carried cells')
        return outs, plan

    def finish(self, f, hdr, k0, latch, exit_, env, st, body, binders, tform, at, accs, init, T, res, lg=()):
        outs, plan = res
        eb, ex = exit_
        cont = []
        for o in outs:
            if o[0] == 'edge':
                if o[4] == hdr:
                    cont.append(o)
                elif o[4] == ex and o[3] == eb:
                    pass          # excluded by the trip count (or last iteration of a latch exit)
                else:
                    raise Unsup('loop left early')
            elif o[0] == 'throw' or o[0] == 'ret':
                raise Unsup('loop left by %s' % o[0])
        if not cont:
            raise Unsup('loop body does not reach its latch')
        entry = dict(st.ver)
        stop = set(entry.values())
        omp = st.omp is not None and not self.binders
        # ---- accesses
        R = {}
        W = {}
        for o in outs:
            if o[0] != 'edge':
                continue
            for m, d in (('r', R), ('w', W)):
                for rid, c in o[1].acc[m].items():
                    if rid in entry:
                        # binders that an equality test of this path determines
                        eq = tuple((b, o[1].ctx.norm(S(b))) for b in binders if b in o[1].ctx.rw)
                        for a in c:
                            d.setdefault(rid, {})[(o[1].ctx.norm(a), eq)] = 1
        lastT = T - 1
        newnodes = {}
        for rid in W:
            ok = self.indep(st, rid, list(R.get(rid, {})), list(W[rid]), binders, omp, [g[1] for g in lg])
            if omp:
                self.ob('race' if ok or self.conflict_sat else 'race?', ok, lambda: 'iterations of a parallel loop conflict on %s' % REG[rid].name)
            if not ok:
                if omp and not self.quiet:
                    raise Fail('race' if self.conflict_sat else 'race?', 'iterations of a parallel loop conflict on %s' % REG[rid].name)
                raise Unsup('iterations depend on each other through %s' % REG[rid].name)
        for o in cont:
            s = o[1]
            bs = [b for b in binders if b not in s.ctx.rw]
            gs = []
            for g in s.guards:
                if g[0] in ('ge', 'eq', 'ne'):
                    p = s.ctx.norm(g[1])
                    if p.is_const():
                        continue
                    if g[0] == 'ge' and self.entails(st, binders, p):
                        continue
                    gs.append((g[0], p))
                elif g[0] == 'fc':
                    raise Unsup('data dependent branch in a loop')
                elif g[0] == 'and':
                    st_ = [g]
                    while st_:
                        x = st_.pop()
                        if x[0] == 'and':
                            st_ += [x[1], x[2]]
                        elif x[0] in ('ge', 'eq', 'ne'):
                            gs.append((x[0], s.ctx.norm(x[1])))
                        else:
                            raise Unsup('guard %r' % (x,))
                else:
                    raise Unsup('guard %r' % (g,))
            for rid in W:
                self.flush(s, rid)
                chain = []
                v = s.ver[rid]
                while v != entry[rid]:
                    chain.append(v)
                    v = VERS[v].parent
                    if v is None:
                        raise Unsup('region replaced in a loop')
                for v in reversed(chain):
                    for nd in nodes_of(v, s.ctx):
                        for n2 in self.expand_node(nd, s.ctx, stop):
                            g2 = tuple(n2.guards) + tuple(gs)
                            b2 = list(n2.binders)
                            sy = n2.addr.syms() | (vsyms(n2.val) if n2.val else set())
                            for b in bs:
                                if b not in b2:
                                    b2.append(b)
                            newnodes.setdefault(rid, []).append(mem.rect(Node(b2, n2.addr, n2.val, g2), s.ctx))
        st2 = st
        for rid, nl in newnodes.items():
            if not lg:
                nl = merge_nodes(nl, None, st2.ctx)
            st2.ver[rid] = newver(rid, entry[rid], nl)
            if lg:
                self.closed_form(st2, rid, entry[rid], stop)
        for d in (R, W):
            for rid in d:
                d[rid] = {a: 1 for a, _ in d[rid]}
        # ---- accumulators
        env2 = dict(env)
        at(env2, T)
        for n in accs:
            vs = [self.latch_value(f, hdr, n, latch, o) for o in cont]
            env2[n] = self.acc_exit(f, hdr, n, init[n], vs, cont, binders, T, tform, stop, st2)
        for (r, o), pl in plan.items():
            vs = [x[1].cells[r][o][1] for x in cont]
            w = st.cells[r][o][0]
            if pl[0] == 'acc':
                nv = self.acc1(pl[1], st.cells[r][o][1], vs, cont, binders, T, tform, stop, st2)
            elif pl[0] == 'same':
                if not all(self.same(v, pl[1]) for v in vs):
                    raise Unsup('loop-carried cell')
                nv = pl[1]
            elif pl[0] == 'aff':
                if len(vs) != 1 or not isinstance(vs[0], Poly) or not (st.ctx.norm(vs[0] - pl[1] - pl[2])).is_zero():
                    raise Unsup('loop-carried integer cell')
                nv = pl[1].substm({binders[0]: T}) if len(binders) == 1 else st.cells[r][o][1] + pl[2]*T
            else:
                if len(vs) == 1 and vs[0] is not UND:
                    nv = self.last(vs[0], binders, T, tform)
                else:
                    nv = UND
            st2.cells[r][o] = (w, nv)
            if st2.cw is not None:
                st2.cw.add((r, o))
        # ---- propagate accesses outwards
        if st2.acc is not None:
            for m, d in (('r', R), ('w', W)):
                for rid, c in d.items():
                    st2.acc[m].setdefault(rid, {}).update(c)
        if st2.par is not None and not self.binders:
            self.uid += 1
            own = ('omp%d' % self.uid) if omp else ('single' if st2.par.single else 'all')
            for m, d in (('r', R), ('w', W)):
                for rid, c in d.items():
                    if not REG[rid].priv:
                        for a in c:
                            st2.par.ep.append((rid, m, a, own))
            for o in cont:
                for e in o[1].par.ep[len(st2.par.ep):] if False else []:
                    pass
            cells = [e for o in cont for e in o[1].par.ep if e[3] == 'cell-loop']
            for e in cells:
                if e[1] == 'w':
                    if omp:
                        self.ob('race', False, 'parallel loop writes shared variable of %s' % REG[e[0]].name)
                    e2 = (e[0], 'w', e[2], 'all')
                    st2.par.ep.append(e2)
        # ---- leave the loop
        if eb == hdr:
            outs2 = self.run(f, hdr, None, env2, st2, (hdr, {hdr}), k0)
            good = []
            for o in outs2:
                if o[0] == 'edge' and o[4] == ex:
                    good.append(o)
                elif o[0] == 'edge' and o[4] in body:
                    pass      # excluded by the trip count
                else:
                    raise Unsup('loop exit')
            return good
        if len(cont) != 1:
            raise Unsup('latch exit with several paths')
        ee = dict(env2)
        for k, v in cont[0][2].items():
            if k not in env or env[k] is not v:
                ee[k] = self.last(v, binders, T, tform)
        if self.prevblk(f, eb) is not None:
            pass
        return [('edge', st2, ee, eb, ex)]
    def prevblk(self, f, b):
        return None

    def entails(self, st, binders, p):
        return st.ctx.nonneg(p)

    def latch_value(self, f, hdr, n, latch, o):
        for ins in f.blocks[hdr]:
            if ins[0] == 'phi' and ins[1] == n:
                for v, b in ins[3]:
                    if b == latch:
                        return self.ev(v, ins[2], o[2], f.mod, o[1])
        raise Unsup('phi')

    def last(self, v, binders, T, tform):
        mp = {}
        if len(binders) == 1:
            mp = {binders[0]: T - 1}
        else:
            for b in binders:
                mp[b] = SUMR[b][1]
        if isinstance(v, Poly):
            return v.substm(mp)
        if is_val(v):
            return vsubst(v, mp)
        if isinstance(v, Ptr):
            return Ptr(v.r, v.o.substm(mp))
        if isinstance(v, tuple) and v and not isinstance(v[0], str):
            return tuple(self.last(x, binders, T, tform) for x in v)
        return v

    def acc_exit(self, f, hdr, n, v0, vs, cont, binders, T, tform, stop, st):
        ph = self.accval(f, hdr, n, v0)
        if isinstance(v0, tuple):
            return tuple(self.acc1(p, a, [v[i] for v in vs], cont, binders, T, tform, stop, st) for i, (p, a) in enumerate(zip(ph, v0)))
        return self.acc1(ph, v0, vs, cont, binders, T, tform, stop, st)

    def acc1(self, ph, v0, vs, cont, binders, T, tform, stop, st):
        (tid,) = ph
        aid = TERM[tid][2][0]
        if len(vs) != 1:
            if all(v is not UND and v == vs[0] for v in vs[1:]):
                vs = vs[:1]
            else:
                raise Unsup('accumulator with several paths')
        v = vs[0]
        if v is UND or v0 is UND:
            if v is UND:
                return UND
            r = self.has_a(v)
            if r:
                raise Unsup('undefined accumulator')
            return self.last(self.xp(v, cont[0][1].ctx, stop), binders, T, tform)
        uses = [k for k in v if aid in TERM[k][2]]
        if not uses:
            if self.has_a(v):
                raise Unsup('accumulator depends on another one')
            return self.last(self.xp(v, cont[0][1].ctx, stop), binders, T, tform)
        if uses != [tid]:
            return self.acc_geo(tid, aid, v, v0, binders, T)
        if abs(v[tid] - 1) > 1e-13:
            raise Unsup('accumulator is scaled')
        rest = {k: c for k, c in v.items() if k != tid}
        if self.has_a(rest):
            raise Unsup('accumulator depends on another one')
        rest = self.xp(rest, cont[0][1].ctx, stop)
        for b in reversed(binders):
            rest = vsum(rest, b)
        return vadd(v0, rest)
    def acc_geo(self, tid, aid, v, v0, binders, T):
        raise Unsup('accumulator is not a plain sum')
    def has_a(self, v):
        return any(ATOM[x][0] == 'a' for k in v for x in TERM[k][2])
    def xp(self, v, ctx, stop):
        """express over the loop-entry versions"""
        if not any(not is_base(ATOM[x][1], stop) for k in v for x in TERM[k][2] if ATOM[x][0] in 'zd'):
            return v
        return expand(v, ctx, stop)

    def expand_node(self, nd, ctx, stop, depth=0):
        if not nd.val or not any(not is_base(ATOM[x][1], stop) for k in nd.val for x in TERM[k][2] if ATOM[x][0] in 'zd'):
            return [nd]
        if depth > 12:
            raise Fail('expand', 'node refinement')
        try:
            v = expand(nd.val, ctx, stop)
            return [Node(nd.binders, nd.addr, v, nd.guards)]
        except NeedSplit as x:
            sp = x
        outn = []
        if sp.kind == 'digit':
            vs, lo, hi, M, K, mode = sp.a
            bnds = list(nd.binders) + [b for bl in self.binders for b in bl]
            if vs in nd.binders:
                i = nd.binders.index(vs)
                alts = []
                if mode == 'enum':
                    for c in range(int(K.const())):
                        if M == ONE:
                            alts.append(((), lo + c))
                        else:
                            nl = newbinder('l', ZERO, M - 1)
                            alts.append(((nl,), lo + S(nl) + M*c))
                else:
                    nl = newbinder('l', ZERO, M - 1); nh = newbinder('h', ZERO, K - 1)
                    alts.append(((nl, nh), lo + S(nl) + M*S(nh)))
                for nb, rep in alts:
                    mp = {vs: rep}
                    n2 = Node(nd.binders[:i] + nb + nd.binders[i+1:], nd.addr.substm(mp), vsubst(nd.val, mp), tuple((k, p.substm(mp)) for k, p in nd.guards))
                    outn += self.expand_node(n2, ctx, stop, depth+1)
                return outn
            if any(vs in bl for bl in self.binders) or vs in self.cur_binders():
                raise Rebind(vs, M)
            raise Fail('expand', 'free variable split in loop: %s' % SYMS[vs])
        q = sp.a[0]
        for b in nd.binders:
            cf = q.coeffs(b)
            if 1 in cf and not set(cf) - {0, 1} and cf[1].is_const() and abs(cf[1].const()) == 1:
                lo, hi = rng(b, ctx)
                r = cf.get(0, ZERO)
                cut = -r if cf[1].const() > 0 else r + 1
                if not (ctx.nonneg(cut - lo, True) and ctx.nonneg(hi + 1 - cut, True)):
                    raise Fail('expand', 'range cut %r' % (cut,))
                i = nd.binders.index(b)
                for l, h in ((lo, cut - 1), (cut, hi)):
                    nb = newbinder('c', l, h)
                    mp = {b: S(nb)}
                    n2 = Node(nd.binders[:i] + (nb,) + nd.binders[i+1:], nd.addr.substm(mp), vsubst(nd.val, mp), tuple((k, p.substm(mp)) for k, p in nd.guards))
                    outn += self.expand_node(n2, ctx, stop, depth+1)
                return outn
        # guard split
        for t in (q, -q - 1):
            c2 = ctx.fork()
            c2.assume_ge(t)
            if c2.dead:
                continue
            n2 = Node(nd.binders, nd.addr, nd.val, nd.guards + (('ge', t),))
            outn += self.expand_node(n2, c2, stop, depth+1)
        return outn
    def cur_binders(self):
        return [b for bl in self.binders for b in bl]

    # ---- independence of iterations
    def indep(self, st, rid, reads, writes, binders, strict, lg=()):
        ctx = st.ctx.fork()
        bset = set(binders)
        def quant(a):
            return sorted(s for s in a.syms() if s in SUMR and s not in self.outer_set())
        allA = list(dict.fromkeys(writes + reads))
        groups = {}
        for w in allA:
            a, eq = w
            lp = lin_parts(a, quant(a))
            if lp is None:
                rg = mem.ragged(a, quant(a), [('ge', g) for g in lg], ctx)
                if rg is not None and bset <= {rg.u, rg.v}:
                    # position in a row by row enumeration: one digit that determines both counters
                    key = ('rag', ctx.norm(a - a.const()), eq)
                    groups.setdefault(key, []).append((w, None, ([(C(rg.s), rg.count - 1)], C(rg.c0))))
                    continue
                groups = None
                break
            lin, c0 = lp
            ds = digits_of(lin, ctx, c0)
            if ds is None:
                groups = None
                break
            key = (frozenset((b, s) for b, s in lin.items()), eq)
            groups.setdefault(key, []).append((w, lin, ds))
        if groups is not None:
            ok = True
            for key, l in groups.items():
                has_w = any(a in writes for a, _, _ in l)
                lin = l[0][1]
                if has_w:
                    if lin is not None and not bset <= set(lin):
                        # the counter does not (fully) determine the address
                        dt = {b for b, p in l[0][0][1] if not (p.syms() & bset) - set(lin)}
                        miss = [b for b in bset if b not in lin and b not in dt and not ctx.iszero(SUMR[b][1] - SUMR[b][0])]
                        if miss:
                            ok = False
                            break
                    ws = [x for x in l if x[0] in writes]
                    offs = [ctx.norm(d[2][1]) for d in l]
                    if not layout_injective(offs, l[0][2][0], ctx):
                        ok = False
                        break
            if ok and len(groups) > 1:
                gl = list(groups.values())
                for i in range(len(gl)):
                    for j in range(i):
                        for x in gl[i]:
                            for y in gl[j]:
                                if x[0] in writes or y[0] in writes:
                                    if not self.apart(ctx, x[0], y[0], binders, lg=lg):
                                        ok = False
            if ok:
                return True
        # pairwise
        for i, w in enumerate(writes):
            for a in writes[:i+1] + reads:
                if not self.apart(ctx, w, a, binders, seq=(not strict) and a in reads and a not in writes, lg=lg):
                    return False
        return True
    def outer_set(self):
        return set(b for bl in self.binders for b in bl)

    def apart(self, ctx, w1, w2, binders, seq=False, lg=()):
        """no two different iterations reach the same cell through a1 (iteration t) and a2 (iteration t').
           seq: only t < t' matters (a2 is a read: written earlier than read)"""
        (a1, eq1), (a2, eq2) = w1, w2
        self.conflict_sat = False
        ext1 = self.span(ctx, a1)
        ext2 = self.span(ctx, a2)
        if ext1 and ext2:
            if ctx.nonneg(ext1[0] - ext2[1] - 1, False) or ctx.nonneg(ext2[0] - ext1[1] - 1, False):
                return True
        # gcd
        d = a1 - a2
        g = 0
        c0 = 0
        for a in (a1, a2):
            for m, c in a.t.items():
                if m:
                    g = _gcd(g, abs(int(c)))
        c0 = a1.const() - a2.const()
        if g > 1 and c0 % g and not any(isinstance(c, Fraction) for c in list(a1.t.values()) + list(a2.t.values())):
            return True
        if ext1 and ext2:
            if ctx.nonneg(ext1[0] - ext2[1] - 1, True) or ctx.nonneg(ext2[0] - ext1[1] - 1, True):
                return True
        # z3: rename all quantified symbols of a2
        q = [s for s in a2.syms() if s in SUMR and s not in self.outer_set()]
        c = ctx.fork()
        mp = {}
        for b in set(q) | set(binders):
            n = newsym('r')
            mp[b] = S(n)
        for b in mp:
            lo, hi = SUMR[b]
            (m, _), = mp[b].t.items()
            c.bound(m[0][0], c.norm(lo.substm(mp)), c.norm(hi.substm(mp)))
        e = a1 - a2.substm(mp)
        diff = [S(b) - mp[b] for b in binders]
        ges = [x for g in lg for x in (g, g.substm(mp))]
        e = [e] + [S(b) - p for b, p in eq1] + [(S(b) - p).substm(mp) for b, p in eq2]
        if seq and len(binders) == 1:
            ok = c.z3_infeasible(ges=[-diff[0] - 1] + ges, eqs=e)
        else:
            ok = c.z3_infeasible(ges=ges, eqs=e, nes_any=diff)
        if not ok:
            self.conflict_sat = STAT.get('last') == 'sat'
        return ok
    def closed_form(self, st, rid, old, stop):
        """replace block families by one family over the full index range when all cases agree"""
        nl = VERS[st.ver[rid]].nodes
        if len(nl) < 2 or REG[rid].kind != 'z':
            return
        import spec
        ctx = st.ctx
        for n0 in nl:
            if n0.lin is None or len(n0.lin) != 2 or len(n0.binders) != 2 or n0.val is None:
                continue
            try:
                mp = {}
                bs = []
                for b in n0.binders:
                    lo, hi = rng(b, ctx)
                    s2 = pdiv(n0.lin[b], C(2))
                    if not lo.is_zero() or s2 is None or not mem._int(s2):
                        raise VErr('')
                    nb = newbinder('m', ZERO, hi*2 + 1)
                    bs.append(nb)
                    mp[b] = S(nb)*Fraction(1, 2)
                v = {}
                for tid, c in n0.val.items():
                    # phases are stored modulo 1: halve the representative next to zero
                    p, m, at, sm = TERM[tid]
                    r = p
                    for mm, cc in p.t.items():
                        if mm and cc > Fraction(1, 2):
                            r = r - Poly({mm: 1})
                    if any(x in mp for x in sm):
                        raise VErr('')
                    for t2, c2 in vsubst({term(ZERO, m, at, sm): c}, mp).items():
                        p2, m2, at2, sm2 = TERM[t2]
                        v = vadd(v, {term(p2 + r.substm(mp), m2, at2, sm2): c2})
                a = n0.addr.substm(mp)
                if not mem._int(a):
                    continue
                spec.check_family(ctx, rid, st.ver[rid], bs, a, v, stop=stop)
            except (VErr, NonMono, Fail, NeedSplit) :
                continue
            st.ver[rid] = newver(rid, old, [Node(bs, a, v)])
            return
    def span(self, ctx, a):
        q = [s for s in a.syms() if s in SUMR and s not in self.outer_set()]
        lo = hi = a
        for b in sorted(q, reverse=True):
            cl = lo.coeffs(b)
            ch = hi.coeffs(b)
            if set(cl) - {0, 1} or set(ch) - {0, 1}:
                return None
            l, h = rng(b, ctx)
            for which in (0, 1):
                p = lo if which == 0 else hi
                cf = p.coeffs(b).get(1)
                if cf is None:
                    continue
                if ctx.nonneg(cf):
                    p = p.substm({b: l if which == 0 else h})
                elif ctx.nonneg(-cf):
                    p = p.substm({b: h if which == 0 else l})
                else:
                    return None
                if which == 0: lo = p
                else: hi = p
        return lo, hi

    # ---- loops with concrete conditions
    def search(self, f, hdr, prev, env, st, body, phis, init, steps, other):
        """for (k = k0; p(n, k); k += c) without memory effects and without a known trip count: the first iteration,
           and an arbitrary later one, entered after the iteration before it went on"""
        go = len(phis) == 1 and not other and not self.binders and len(steps) == 1
        if go:
            n = phis[0][1]
            go = isinstance(init[n], Poly) and steps[n].is_const() and steps[n].const() > 0 and not any(
                i[0] in ('store', 'call', 'alloca') for b in body for i in f.blocks[b]) and not any(
                h in body and h != hdr for h in ir_loops(f))
        if not go:
            return self.unroll(f, hdr, prev, env, st, body)
        c = steps[n].const()
        def once(env, st, v, quiet):
            e = dict(env)
            e[n] = v
            self.quiet += quiet
            try:
                r = self.run(f, hdr, None, e, st, (hdr, body), 1)
            finally:
                self.quiet -= quiet
            return [o for o in r if o[0] == 'edge' and o[4] == hdr], [o for o in r if not (o[0] == 'edge' and o[4] == hdr)]
        cnt0, fl0 = dict(self.count), list(self.fails)
        cont, outs = once(env, st.copy(), init[n], 0)
        if len(cont) + len(outs) <= 1:
            self.count, self.fails = cnt0, fl0
            return self.unroll(f, hdr, prev, env, st, body)
        if not cont:
            return outs
        s = st.copy()
        k = newsym('k')
        lo = s.ctx._const(s.ctx.norm(init[n]), False)
        s.ctx.bound(k, [init[n] + c] + ([] if lo is None else [C(int(lo) + c)]), C((1 << 31) - 1))
        s.ctx.pars = s.ctx.pars | {k}
        cont, _ = once(env, s, S(k) - c, 1)
        for o in cont:
            c2, o2 = once(env, o[1], S(k), 0)
            outs += o2
        return outs

    def unroll(self, f, hdr, prev, env, st, body):
        outs = []
        work = [(prev, env, st, 0)]
        undec = 0
        while work:
            pv, e, s, n = work.pop()
            if n > 6000:
                raise Unsup('loop without a summary in ' + f.name)
            e = dict(e)
            self.phis(f, f.blocks[hdr], pv, e, s)
            k0 = len([i for i in f.blocks[hdr] if i[0] == 'phi'])
            self.in_unroll = getattr(self, 'in_unroll', 0) + 1
            r = self.run(f, hdr, None, e, s, (hdr, body), k0)
            nb = 0
            for o in r:
                if o[0] == 'edge' and o[4] == hdr:
                    nb += 1
                    work.append((o[3], o[2], o[1], n + 1))
                else:
                    outs.append(o)
            if len(r) > 1:
                undec += 1
                if undec > 64:
                    raise Unsup('loop with undecided conditions in ' + f.name)
        return outs

    def ilog2(self, f, hdr, latch, prev, env, st, body, phis, init, nxt, steps, bad):
        """for (c = c0; n > 1; n >>= 1) c++  with symbolic n"""
        if len(bad) != 1:
            return None
        n = bad[0]
        n0 = init[n]
        if not isinstance(n0, Poly):
            return None
        n0 = st.ctx.norm(n0)
        if n0.is_const():
            return None
        o = nxt[n][0]
        if o[0] != 'l':
            return None
        d = _defs(f).get(o[1])
        if d is None or d[1][0] != 'bin' or d[1][2] not in ('ashr', 'lshr', 'sdiv') or d[1][4] != ('l', n):
            return None
        sh = self.const(d[1][5], 'i32', f.mod, st) if d[1][5][0] == 'i' else None
        if sh is None or sh.const() != (2 if d[1][2] == 'sdiv' else 1):
            return None
        for b in body:
            for ins in f.blocks[b]:
                if ins[0] in ('store', 'call', 'load'):
                    return None
        t = f.blocks[hdr][-1]
        if t[0] != 'br':
            return None
        e2 = dict(env)
        x = newsym('x')
        e2[n] = S(x)
        s = st.copy()
        c = self.run_straight(f, hdr, len(phis), e2, s)
        cont = c if t[3] in body else c_not(c)
        if cont != ('ge', S(x) - 2):
            return None
        ex = t[4] if t[3] in body else t[3]
        dd = self.dec(st, ('ge', n0 - 2))
        if dd is None:
            raise LoopFork([('ge', n0 - 2)])
        env2 = dict(env)
        if dd is False:
            for p in phis:
                env2[p[1]] = init[p[1]]
        else:
            k = ('ilog2', n0)
            h = st.ctx.hints.get(k)
            if h is None:
                lam = st.ctx.sym('lam', 1, 30)
                pw = st.ctx.sym('pw', 2, 1 << 30)
                st.ctx.pars = st.ctx.pars | lam.syms() | pw.syms()
                st.ctx.assume_ge(n0 - pw)
                st.ctx.assume_ge(pw*2 - 1 - n0)
                st.ctx.hints[('pow2', lam)] = pw
                st.ctx.hints[k] = (lam, pw)
                h = (lam, pw)
                if any(b >= 30 and st.ctx.norm(q - n0).is_zero() for q, b in st.ctx.hints.get('nopow2') or ()):
                    # the unit is about lengths that are not powers of two
                    st.ctx.assume_ge(n0 - pw - 1)
            lam = h[0]
            for p in phis:
                if p[1] == n:
                    env2[n] = ONE
                else:
                    env2[p[1]] = init[p[1]] + steps[p[1]]*lam
        return [o for o in self.run(f, hdr, None, env2, st, (hdr, {hdr}), len(phis)) if o[0] == 'edge' and o[4] == ex]

# =================================================================== OpenMP
class OmpMixin:
    def kmpc(self, n, av, st, mod):
        if n == '__kmpc_global_thread_num':
            return [('ret', st, self.opaque(st, 'gtid', ZERO, C(1 << 20)))]
        if n == '__kmpc_fork_call':
            return self.fork_call(av, st, mod)
        if n.startswith('__kmpc_for_static_init_4') or n.startswith('__kmpc_for_static_init_8'):
            sched = st.ctx.norm(self.asint(av[2], st))
            w = 4 if '_4' in n else 8
            lb = self.load_cell(st, av[4].r, av[4].o)
            ub = self.load_cell(st, av[5].r, av[5].o)
            inc = st.ctx.norm(self.asint(av[7], st))
            self.store_cell(st, av[6].r, av[6].o, w, ub - lb + 1)
            self.store_cell(st, av[3].r, av[3].o, 4, ONE)
            if st.par is None:
                # orphaned worksharing loop outside a parallel region: executed by the one thread
                pass
            elif self.binders:
                raise Unsup('worksharing loop inside a sequential loop')
            st.omp = 'for' if st.par is not None and not st.par.single else None
            return [('ret', st, None)]
        if n == '__kmpc_for_static_fini':
            st.omp = None
            return [('ret', st, None)]
        if n == '__kmpc_barrier':
            if st.par is not None:
                self.barrier(st)
            return [('ret', st, None)]
        if n == '__kmpc_single' or n == '__kmpc_master' or n == '__kmpc_masked':
            if st.par is not None:
                st.par.single = True
                st.par.nloop += 1
            return [('ret', st, ONE)]
        if n == '__kmpc_end_single' or n == '__kmpc_end_master' or n == '__kmpc_end_masked':
            if st.par is not None:
                st.par.single = False
            return [('ret', st, None)]
        if n in ('__kmpc_push_num_threads',):
            return [('ret', st, None)]
        if n in ('omp_get_max_threads', 'omp_get_num_procs'):
            return [('ret', st, self.opaque(st, 'nth', ONE, C(1 << 16)))]
        if n in ('omp_get_num_threads', 'omp_get_thread_num', 'omp_in_parallel'):
            if st.par is not None:
                # a region is executed as a whole, not thread by thread: work split by hand is out of reach
                raise Unsup('a parallel region that reads %s' % n)
            return [('ret', st, ONE if n == 'omp_get_num_threads' else ZERO)]
        raise Unsup('OpenMP runtime call ' + n)
    def fork_call(self, av, st, mod):
        if st.par is not None:
            raise Unsup('nested parallel region')
        if self.binders:
            raise Unsup('parallel region inside a loop')
        fn = av[2]
        g = self.find(fn.r, mod)
        if g is None:
            raise Unsup('outlined function')
        for rid in list(st.pend):
            self.flush(st, rid)
        shared = [r for r in st.ver if REG[r].priv]
        for r in shared:
            REG[r].priv = False
        a = newregion('cell', 'gtid', C(4)); b = newregion('cell', 'btid', C(4))
        for r in (a, b):
            REG[r].priv = True
            st.ver[r] = REG[r].base
            st.live[r] = True
            st.cells[r] = {0: (4, self.opaque(st, 'gtid', ZERO, C(1 << 20)))}
        st.par = Par()
        outs = []
        for k, s, v in self.call(g, [Ptr(a), Ptr(b)] + list(av[3:]), st):
            if k != 'ret':
                raise Unsup('exception leaves a parallel region')
            self.barrier(s)
            s.par = None
            s.omp = None
            outs.append((k, s, None))
        for r in shared:
            REG[r].priv = True
        return outs
    def barrier(self, st):
        ep = st.par.ep
        by = {}
        for e in ep:
            by.setdefault(e[0], []).append(e)
        for rid, l in by.items():
            l = list(dict.fromkeys(l))
            ws = [e for e in l if e[1] == 'w']
            if not ws:
                continue
            bad = None
            sure = True
            for e in ws:
                if e[3] in ('all', 'cell-all'):
                    bad = '%s is written by every thread of the team' % REG[rid].name
                    break
            if bad is None:
                own = {}
                for e in l:
                    own.setdefault(e[3], []).append(e)
                if len(own) > 1:
                    for e in ws:
                        for g in l:
                            if g[3] != e[3]:
                                if REG[rid].kind == 'cell':
                                    if g[2] == e[2]:
                                        bad = 'unsynchronised accesses to %s' % REG[rid].name
                                elif not self.apart(st.ctx, (e[2], ()), (g[2], ()), []):
                                    bad = 'accesses to %s without a barrier in between' % REG[rid].name
                                    sure = self.conflict_sat
                                if bad: break
                        if bad: break
            self.ob('race' if sure else 'race?', bad is None, bad or '')
        st.par.ep = []

class Exec(LoopMixin, OmpMixin, Ex):
    pass
