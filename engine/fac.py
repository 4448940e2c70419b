"""Factory and feature detection: bit-precise symbolic execution of src/otfft.cpp.  The processor (CPUID, XGETBV) is a set of
   symbolic registers, memory is byte addressed, every branch is decided by Z3, every path is followed to its end.
   The backends' factory functions and deleters are contracts: they return a fresh object of the kind and length asked for or
   throw, and destroy the object they are given."""
import re, z3, time
from ex import Unsup
from mem import Fail
import irparse

BACK = ('SSE2', 'AVX', 'AVX2')
KCLS = {'complex': 'ComplexFFT', 'bluestein': 'BluesteinFFT', 'real': 'RealFFT', 'dct': 'DCT'}
DCLS = {'complex': 'ComplexFFT', 'real': 'RealFFT', 'dct': 'RealDCT'}
MK = re.compile(r'_ZN\d+OTFFT_(SSE2|AVX2|AVX)7Factory\d+create(ComplexFFT|BluesteinFFT|RealFFT|DCT)Ei$')
RM = re.compile(r'_ZN\d+OTFFT_(SSE2|AVX2|AVX)18unique_ptr_deleterEPN5OTFFT\d+(ComplexFFT|RealFFT|RealDCT)E$')
BV = z3.BitVecVal

class P:
    """pointer: region (None: absolute address) and offset; or a function"""
    __slots__ = ('r', 'o')
    def __init__(self, r, o=0):
        self.r = r; self.o = o
    def __eq__(self, x):
        return isinstance(x, P) and (self.r, self.o) == (x.r, x.o)
    def __hash__(self):
        return hash((self.r, self.o))
    def __repr__(self):
        return '&%s+%s' % (self.r, self.o)
NULLP = P(None, 0)
UND = ('undef',)

def con(v):
    """concrete integer or None"""
    v = z3.simplify(v)
    return v.as_long() if z3.is_bv_value(v) else None
def bit(v, i):
    return z3.Extract(i, i, v) == 1

# ------------------------------------------------------------------ the processor
MAXLEAF = z3.BitVec('maxleaf', 32)
OSX = None
def reg(leaf, sub, i):
    return z3.BitVec('cpuid_%d_%d_%s' % (leaf, sub, 'abcd'[i]), 32)
XCR = [z3.BitVec('xcr0_lo', 32), z3.BitVec('xcr0_hi', 32)]
def has(leaf):
    return z3.And(MAXLEAF >= 0, MAXLEAF >= leaf)
L1C, L1D, L7B = reg(1, 0, 2), reg(1, 0, 3), reg(7, 0, 1)
OSXSAVE = z3.And(has(1), bit(L1C, 27))
YMM = z3.And(OSXSAVE, (XCR[0] & 6) == 6)
SUP = {'SSE2': z3.And(has(1), bit(L1D, 26)),
       'AVX': z3.And(YMM, bit(L1C, 28)),
       'AVX2': z3.And(YMM, bit(L1C, 28), has(7), bit(L7B, 5))}
# architecture: OSXSAVE is only reported by processors with XSAVE, AVX state implies AVX, AVX implies SSE2, AVX2 implies AVX
ARCH = [MAXLEAF >= 0, z3.Implies(bit(L1C, 27), bit(L1C, 26)), z3.Implies(bit(L1C, 28), z3.And(bit(L1C, 26), bit(L1D, 26), bit(L1D, 25))),
        z3.Implies(z3.And(has(7), bit(L7B, 5)), bit(L1C, 28)), z3.Implies(YMM, bit(L1C, 28))]

class S:
    """machine state"""
    __slots__ = ('mem', 'pc', 'ev', 'exc', 'n', 'ub')
    def copy(self):
        s = S()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.ev = list(self.ev); s.exc = self.exc; s.n = self.n
        return s
def fresh():
    s = S()
    s.mem = {}; s.pc = []; s.ev = []; s.exc = None; s.n = 0
    return s

class Ex:
    def __init__(self, mods, deadline=200):
        self.mods = mods
        self.count = {}
        self.fails = []
        self.fn_seen = set()
        self.used_contracts = set()
        self.assumed = set()
        self._stk = []
        self.steps = 0
        self.solver = z3.Solver()
        self.solver.set('rlimit', 20000000)
        for a in ARCH:
            self.solver.add(a)
        self.t1 = time.time() + deadline
    # ---- solver
    def sat(self, *c):
        self.solver.push()
        self.solver.add(*c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            raise Unsup('solver gives up')
        return m
    def ob(self, kind, st, prop, msg):
        """obligation: the path condition implies prop"""
        self.count[kind] = self.count.get(kind, 0) + 1
        if prop is True:
            return True
        m = self.sat(*st.pc, *([] if prop is False else [z3.Not(prop)]))
        if m is not None:
            cx = ' '.join(sorted('%s=%s' % (d, hex(m[d].as_long())) for d in m.decls() if z3.is_bv_value(m[d])))
            self.fails.append((kind, msg + ' when ' + (cx or 'always'), (self._stk or ['?'])[-1]))
            return False
        return True
    # ---- memory: (region, byte) -> 8 bit value | (pointer, i) ; missing = not initialised
    def region(self, st, name, size, zero=False):
        st.n += 1
        r = '%s#%d' % (name, st.n)
        st.mem[r, 'size'] = size
        if zero:
            for i in range(size):
                st.mem[r, i] = BV(0, 8)
        return P(r)
    def glob(self, st, name):
        """pointer to a global, initialised on first use"""
        r = name
        if (r, 'size') in st.mem:
            return P(r)
        for m in self.mods:
            g = m.ginit(name)
            if g:
                ty, v, k = g
                st.mem[r, 'size'] = m.size(ty)
                self.put(st, P(r), ty, self.cval(st, v, ty, m), m)
                return P(r)
        return P(r)
    def cval(self, st, v, ty, mod):
        return self.ev(v, ty, {}, mod, st)
    def check(self, st, p, n, what):
        if not isinstance(p, P):
            raise Unsup('%s through %r' % (what, p))
        if p.r is None or p.r[0] == '@' and (p.r, 'size') not in st.mem:
            raise Unsup('%s through %r' % (what, p))
        if (p.r, 'size') not in st.mem or not 0 <= p.o or p.o + n > st.mem[p.r, 'size']:
            self.ob('bounds', st, False, '%s of %d bytes at %r' % (what, n, p))
            raise Fail('bounds', '%s of %d bytes at %r' % (what, n, p))
    def put(self, st, p, ty, v, mod):
        ty = mod.resolve(ty)
        if isinstance(ty, tuple):
            if ty[0] == 'struct':
                for o, t, x in zip(mod.offsets(ty)[0], ty[1], v if v is not UND else [UND]*len(ty[1])):
                    self.put(st, P(p.r, p.o + o), t, x, mod)
                return
            if ty[0] in ('arr', 'vec'):
                for i in range(ty[1]):
                    self.put(st, P(p.r, p.o + i*mod.size(ty[2])), ty[2], v[i] if v is not UND else UND, mod)
                return
            raise Unsup('store %r' % (ty,))
        n = mod.size(ty)
        self.check(st, p, n, 'store')
        for i in range(n):
            if v is UND:
                st.mem.pop((p.r, p.o + i), None)
            elif isinstance(v, P):
                st.mem[p.r, p.o + i] = (v, i)
            else:
                w = v.size()
                x = v if w >= 8 else z3.ZeroExt(8 - w, v)
                st.mem[p.r, p.o + i] = z3.simplify(z3.Extract(8*i + 7, 8*i, x))
    def get(self, st, p, ty, mod):
        ty = mod.resolve(ty)
        if isinstance(ty, tuple):
            if ty[0] == 'struct':
                return [self.get(st, P(p.r, p.o + o), t, mod) for o, t in zip(mod.offsets(ty)[0], ty[1])]
            if ty[0] in ('arr', 'vec'):
                return [self.get(st, P(p.r, p.o + i*mod.size(ty[2])), ty[2], mod) for i in range(ty[1])]
            raise Unsup('load %r' % (ty,))
        n = mod.size(ty)
        self.check(st, p, n, 'load')
        b = [st.mem.get((p.r, p.o + i)) for i in range(n)]
        if any(x is None for x in b):
            return UND
        if all(isinstance(x, tuple) for x in b):
            if n == 8 and all(x[0] == b[0][0] and x[1] == i for i, x in enumerate(b)):
                return b[0][0]
            raise Unsup('part of a pointer')
        if any(isinstance(x, tuple) for x in b):
            raise Unsup('part of a pointer')
        v = z3.simplify(z3.Concat(*reversed(b)) if n > 1 else b[0])
        if ty == 'ptr':
            c = con(v)
            if c is None:
                raise Unsup('integer as a pointer')
            return P(None, c)
        w = int(ty[1:]) if ty[0] == 'i' else None
        if w is None:
            raise Unsup('load %r' % (ty,))
        return v if w == v.size() else z3.simplify(z3.Extract(w - 1, 0, v))
    # ---- values
    def ev(self, o, ty, env, mod, st):
        k = o[0]
        if k == 'l':
            return env[o[1]]
        if k == 'i':
            return BV(o[1], int(ty[1:]))
        if k == 'null':
            return NULLP
        if k == 'undef':
            t = mod.resolve(ty) if not isinstance(ty, str) else ty
            if isinstance(t, tuple):
                return [self.ev(('undef', e), e, env, mod, st) for e in (t[1] if t[0] == 'struct' else [t[2]]*t[1])]
            return UND
        if k == 'zero':
            t = mod.resolve(ty)
            if isinstance(t, tuple):
                return [self.ev(('zero', e), e, env, mod, st) for e in (t[1] if t[0] == 'struct' else [t[2]]*t[1])]
            return NULLP if t == 'ptr' else BV(0, int(t[1:]))
        if k == 'agg':
            t = mod.resolve(ty)
            ts = t[1] if t[0] == 'struct' else [t[2]]*t[1]
            return [self.ev(x, e, env, mod, st) for x, e in zip(o[1], ts)]
        if k == 'g':
            if any(o[1] in m.defs or o[1] in m.decls or o[1] in m.aliases for m in self.mods):
                return P(o[1])
            return self.glob(st, o[1])
        if k == 'str':
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), o[1][2:-1])
            return [BV(ord(c), 8) for c in s]
        if k == 'gep':
            return self.gep(o[1], self.ev(o[2], 'ptr', env, mod, st), [(('i64'), x) for x in o[3]], env, mod, st)
        raise Unsup('operand %r' % (o,))
    def gep(self, ty, p, idx, env, mod, st):
        if not isinstance(p, P):
            raise Unsup('address of %r' % (p,))
        off = p.o
        t = ty
        for i, (it, x) in enumerate(idx):
            v = self.ev(x, it, env, mod, st)
            c = con(v) if v is not UND else None
            if c is None:
                raise Unsup('symbolic index')
            if c >= 1 << (v.size() - 1):
                c -= 1 << v.size()
            if i == 0:
                off += c*mod.size(t)
                continue
            t = mod.resolve(t)
            if t[0] == 'struct':
                off += mod.offsets(t)[0][c]; t = t[1][c]
            else:
                t = t[2]; off += c*mod.size(t)
        return P(p.r, off)
    # ---- execution: run(function) yields ('ret'|'throw', state, value) for every feasible path
    def call(self, name, av, st):
        n = name[1:] if name[0] == '@' else name
        for m in self.mods:
            f = m.func('@' + n)
            if f:
                return self.run(f, av, st)
        return self.ext(n, av, st)
    def run(self, f, av, st):
        self.fn_seen.add(f.name)
        self._stk.append(f.name)
        if len(self._stk) > 60:
            raise Unsup('recursion')
        env = {a: v for (a, _), v in zip(f.args, av)}
        work = [(f.entry, None, env, st)]
        out = []
        while work:
            b, prev, env, st = work.pop()
            self.block(f, b, prev, env, st, work, out)
        self._stk.pop()
        return out
    def branch(self, st, cond):
        """(condition can hold, can fail); cond a 1 bit value"""
        c = con(cond)
        if c is not None:
            return bool(c), not c
        return self.sat(*st.pc, cond == 1) is not None, self.sat(*st.pc, cond == 0) is not None
    def block(self, f, b, prev, env, st, work, out):
        mod = f.mod
        ins = f.blocks[b]
        phis = {}
        i = 0
        while ins[i][0] == 'phi':
            _, d, ty, inc = ins[i]
            phis[d] = next(self.ev(v, ty, env, mod, st) for v, p in inc if p == prev)
            i += 1
        env.update(phis)
        for k in range(i, len(ins)):
            self.steps += 1
            if self.steps > 400000 or time.time() > self.t1:
                raise Unsup('too many steps')
            I = ins[k]
            op = I[0]
            if op == 'jmp':
                work.append((I[2], b, env, st)); return
            if op == 'br':
                c = self.ev(I[2], 'i1', env, mod, st)
                if c is UND:
                    raise Unsup('branch on an undefined value')
                t, e = self.branch(st, c)
                if t and e:
                    s2 = st.copy(); s2.pc.append(c == 0)
                    work.append((I[4], b, dict(env), s2))
                    st.pc.append(c == 1)
                work.append((I[3] if t else I[4], b, env, st))
                return
            if op == 'switch':
                v = self.ev(I[3], I[2], env, mod, st)
                if v is UND:
                    raise Unsup('switch on an undefined value')
                rest = []
                for cv, lab in I[5]:
                    c = v == BV(cv, v.size())
                    if self.sat(*st.pc, *rest, c) is not None:
                        s2 = st.copy(); s2.pc += rest + [c]
                        work.append((lab, b, dict(env), s2))
                    rest.append(z3.Not(c))
                if self.sat(*st.pc, *rest) is not None:
                    st.pc += rest
                    work.append((I[4], b, env, st))
                return
            if op == 'ret':
                out.append(('ret', st, None if I[2] is None else self.ev(I[3], I[2], env, mod, st))); return
            if op == 'resume':
                out.append(('throw', st, st.exc)); return
            if op == 'unreachable':
                self.ob('trap', st, False, 'unreachable code reached')
                return
            if op == 'call':
                _, d, rt, cal, args, extra = I
                av = [None if t == 'metadata' else self.ev(a, t, env, mod, st) for t, a in args]
                if cal[0] == 'asm':
                    r = [('ret', st, self.asm(cal, av, args, st))]
                elif cal[0] == 'g':
                    r = self.call(cal[1], av, st)
                else:
                    p = self.ev(cal, 'ptr', env, mod, st)
                    if not isinstance(p, P) or p.r is None:
                        raise Unsup('call through %r' % (p,))
                    if p.r[0] == '@':
                        r = self.call(p.r, av, st)
                    else:
                        st.ev.append(('virtual', p.r, p.o, tuple(av)))
                        r = [('ret', st, UND)]
                for j, (kind, s, v) in enumerate(r):
                    e2 = env if j == len(r) - 1 else dict(env)
                    if kind == 'throw':
                        if extra:
                            s.exc = v
                            work.append((extra[1], b, e2, s))
                        else:
                            out.append(('throw', s, v))
                        continue
                    if d:
                        e2[d] = v
                    if extra:
                        work.append((extra[0], b, e2, s))
                    elif len(r) == 1:
                        st = s
                    else:
                        self.cont(f, b, k + 1, e2, s, work, out)
                if extra or len(r) != 1 or r[0][0] == 'throw':
                    return
                continue
            self.simple(I, env, mod, st)
        raise Unsup('block without an end')
    def cont(self, f, b, k, env, st, work, out):
        """rest of a block after a call with several outcomes"""
        ins = f.blocks[b]
        g = irparse.Func()
        nm = '%s;%d' % (b, k)
        if nm not in f.blocks:
            f.blocks[nm] = ins[k:]
        # successors name their predecessor: keep b
        self.rest(f, nm, b, env, st, work, out)
    def rest(self, f, nm, b, env, st, work, out):
        w2 = []
        self.block(f, nm, None, env, st, w2, out)
        for lab, prev, e, s in w2:
            work.append((lab, b if prev == nm else prev, e, s))
    def simple(self, I, env, mod, st):
        op, d = I[0], I[1]
        E = lambda o, t: self.ev(o, t, env, mod, st)
        if op == 'alloca':
            env[d] = self.region(st, d, mod.size(I[2]))
        elif op == 'load' or op == 'aload':
            env[d] = self.get(st, E(I[3], 'ptr'), I[2], mod)
        elif op == 'store' or op == 'astore':
            self.put(st, E(I[4], 'ptr'), I[2], E(I[3], I[2]), mod)
        elif op == 'gep':
            env[d] = self.gep(I[2], E(I[3], 'ptr'), I[4], env, mod, st)
        elif op == 'bin':
            _, d, o, ty, a, b, fl = I
            x, y = E(a, ty), E(b, ty)
            if x is UND or y is UND:
                env[d] = UND; return
            if isinstance(x, P) or isinstance(y, P) or isinstance(ty, tuple):
                raise Unsup('arithmetic on %r' % (ty,))
            if 'nsw' in fl:
                ok = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                      'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}.get(o)
                if ok:
                    self.ob('overflow', st, ok(), 'overflow')
            if o in ('shl', 'lshr', 'ashr'):
                self.ob('overflow', st, z3.ULT(y, x.size()), 'shift amount')
            if o in ('sdiv', 'udiv', 'srem', 'urem'):
                self.ob('divzero', st, y != 0, 'division by zero')
            F = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x*y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x/y, 'srem': lambda: z3.SRem(x, y)}
            if o not in F:
                raise Unsup(o)
            env[d] = z3.simplify(F[o]())
        elif op == 'cast':
            _, d, o, ty, v, t2 = I
            x = E(v, ty)
            if x is UND or o == 'bitcast':
                env[d] = x; return
            if isinstance(x, P):
                raise Unsup('%s of a pointer' % o)
            w = int(t2[1:]) if isinstance(t2, str) and t2[0] == 'i' else None
            if w is None:
                raise Unsup('cast to %r' % (t2,))
            env[d] = z3.simplify({'zext': lambda: z3.ZeroExt(w - x.size(), x), 'sext': lambda: z3.SignExt(w - x.size(), x), 'trunc': lambda: z3.Extract(w - 1, 0, x)}[o]())
        elif op == 'icmp':
            _, d, pr, ty, a, b = I
            x, y = E(a, ty), E(b, ty)
            if x is UND or y is UND:
                env[d] = UND; return
            if isinstance(x, P) or isinstance(y, P):
                if pr not in ('eq', 'ne') or not (isinstance(x, P) and isinstance(y, P)):
                    raise Unsup('pointer comparison')
                env[d] = BV(int((x == y) == (pr == 'eq')), 1); return
            c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]()
            env[d] = z3.simplify(z3.If(c, BV(1, 1), BV(0, 1)))
        elif op == 'select':
            _, d, ty, c, a, b = I
            c, x, y = E(c, 'i1'), E(a, ty), E(b, ty)
            if c is UND:
                env[d] = UND; return
            k = con(c)
            if k is not None:
                env[d] = x if k else y
            elif x is UND or y is UND or isinstance(x, (P, list)) or isinstance(y, (P, list)):
                if isinstance(x, P) and x == y:
                    env[d] = x
                else:
                    raise Unsup('select of pointers')
            else:
                env[d] = z3.simplify(z3.If(c == 1, x, y))
        elif op == 'extval':
            v = E(I[3], I[2])
            for j in I[4]:
                v = v[j] if v is not UND else UND
            env[d] = v
        elif op == 'insval':
            if len(I[5]) != 1:
                raise Unsup('insertvalue')
            t = mod.resolve(I[2])
            v = E(I[3], I[2]); x = E(I[4], t[1][I[5][0]] if t[0] == 'struct' else t[2])
            v = list(v); v[I[5][0]] = x
            env[d] = v
        elif op == 'landingpad':
            L = I[2]
            if 'filter' in L or re.search(r'catch ptr @', L):
                raise Unsup('typed exception handler')
            env[d] = [('exc', st.exc), BV(1 if 'catch ptr null' in L else 0, 32)]
        elif op == 'fence':
            pass
        else:
            raise Unsup('instruction %s' % op)
    # ---- processor and run time library
    def asm(self, cal, av, args, st):
        _, tpl, cons = cal
        t = ' '.join(tpl.replace('\\0A', ' ').replace('\\09', ' ').replace('\\0D', ' ').split()).strip(' ;')
        cs = [c for c in cons.split(',') if not c.startswith('~')]
        outs = [c[1:].strip('{}') for c in cs if c.startswith('=')]
        ins = [c for c in cs if not c.startswith('=')]
        nm = {'ax': 0, 'bx': 1, 'cx': 2, 'dx': 3}
        def inp(r):
            for c, v in zip(ins, av):
                c = c.strip('{}')
                if c == r or c.isdigit() and outs[int(c)] == r:
                    return v
            return None
        if t == 'cpuid':
            leaf, sub = inp('ax'), inp('cx')
            l = con(leaf) if leaf is not None and leaf is not UND else None
            if l is None:
                raise Unsup('cpuid of a computed leaf')
            s = con(sub) if sub is not None and sub is not UND else None
            if s is None:
                s = 0 if l < 4 else 99       # leaves below 4 ignore ecx
            if l == 0:
                v = [MAXLEAF] + [reg(0, 0, i) for i in (1, 2, 3)]
            elif l >= 0x80000000:
                v = [reg(l, s, i) for i in range(4)]
            else:
                v = [z3.If(has(l), reg(l, s if l >= 4 else 0, i), z3.BitVec('junk_%d_%d_%d' % (l, s, i), 32)) for i in range(4)]
            r = [v[nm[o]] for o in outs]
        elif t == 'xgetbv':
            self.xgetbv(st)
            x = inp('cx')
            if x is None or x is UND or con(x) != 0:
                raise Unsup('xgetbv of another register')
            r = [{0: XCR[0], 3: XCR[1]}[nm[o]] for o in outs]
        else:
            raise Unsup('inline assembly ' + t[:60])
        return r if len(r) > 1 else r[0]
    def xgetbv(self, st):
        self.ob('trap', st, OSXSAVE, 'XGETBV executed although the processor does not report OSXSAVE (invalid opcode)')
        st.pc.append(OSXSAVE)
    def ext(self, n, av, st):
        m = MK.match(n)
        if m:
            b, k = m.groups()
            s2 = st.copy()
            s2.ev.append(('create', b, k, av[0], None))
            p = self.region(st, 'object', 8)
            st.ev.append(('create', b, k, av[0], p))
            return [('ret', st, p), ('throw', s2, 'backend')]
        m = RM.match(n)
        if m:
            st.ev.append(('delete', m.group(1), m.group(2), av[0]))
            return [('ret', st, None)]
        if n == '__cxa_guard_acquire':
            g = self.get(st, av[0], 'i8', self.mods[0])
            c = con(g) if g is not UND else None
            if c is None:
                raise Unsup('guard')
            return [('ret', st, BV(0 if c else 1, 32))]
        if n == '__cxa_guard_release':
            self.put(st, av[0], 'i8', BV(1, 8), self.mods[0])
            return [('ret', st, None)]
        if n == '__cxa_guard_abort' or n == '__cxa_free_exception' or n.startswith('llvm.lifetime') or n.startswith('llvm.experimental') or n.startswith('llvm.invariant.end') or n == '__cxa_end_catch':
            return [('ret', st, None)]
        if n.startswith('llvm.invariant.start') or n == '__cxa_begin_catch':
            return [('ret', st, NULLP)]
        if n == '__cxa_atexit':
            return [('ret', st, BV(0, 32))]
        if n == '_ZNSt6thread20hardware_concurrencyEv':
            st.n += 1
            return [('ret', st, z3.BitVec('hardware_concurrency', 32))]
        if n == 'sysconf':
            return [('ret', st, z3.BitVec('sysconf_%s' % con(av[0]), 64))]
        if n == '__cxa_allocate_exception':
            return [('ret', st, self.region(st, 'exception', 64))]
        if re.match(r'_ZNSt\d+\w+(C1|C2)E(PKc|RK\w+)$', n) or re.match(r'_ZNSt\d+\w+D[12]Ev$', n):
            return [('ret', st, None)]
        if n == '__cxa_throw':
            return [('throw', st, ('thrown', av[1].r))]
        if n == '__cxa_rethrow':
            return [('throw', st, st.exc)]
        if n in ('_ZSt9terminatev', '__clang_call_terminate', 'abort'):
            self.ob('terminate', st, False, 'the program is terminated')
            return []
        if n.startswith('llvm.memset'):
            c = con(av[2]); v = av[1]
            if c is None:
                raise Unsup('memset')
            for i in range(c):
                self.put(st, P(av[0].r, av[0].o + i), 'i8', v, self.mods[0])
            return [('ret', st, None)]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            c = con(av[2])
            if c is None:
                raise Unsup('memcpy')
            self.check(st, av[1], c, 'copy'); self.check(st, av[0], c, 'copy')
            b = [st.mem.get((av[1].r, av[1].o + i)) for i in range(c)]
            for i in range(c):
                if b[i] is None:
                    st.mem.pop((av[0].r, av[0].o + i), None)
                else:
                    st.mem[av[0].r, av[0].o + i] = b[i]
            return [('ret', st, None)]
        if n.startswith('llvm.x86.xgetbv'):
            self.xgetbv(st)
            return [('ret', st, z3.Concat(XCR[1], XCR[0]))]
        if n == 'llvm.assume':
            return [('ret', st, None)]
        if n.startswith('llvm.expect'):
            return [('ret', st, av[0])]
        if n.startswith('_Znw') or n.startswith('_ZdlPv'):
            raise Unsup('allocation in the factory')
        raise Unsup('external function ' + n)

OPTS = ('AUTO', 'SSE2', 'AVX', 'AVX2', 'default', 'none')
def entries():
    return [('fac', k, o) for k in KCLS for o in OPTS] + [('del', k, '') for k in DCLS]

def statics(st):
    """state of the static variables"""
    return {k: v for k, v in st.mem.items() if k[0][0] == '@'}
def same(a, b):
    if a.keys() != b.keys():
        return False
    return all(x is b[k] or (x.eq(b[k]) if z3.is_expr(x) and z3.is_expr(b[k]) else x == b[k]) for k, x in a.items())

def init(ex):
    """program start: the module's dynamic initialisers"""
    st = [fresh()]
    for m in ex.mods:
        g = m.globals.get('@llvm.global_ctors')
        if g:
            for f in re.findall(r'ptr (@[-\w$.]+)(?=,)', g):
                nx = []
                for s in st:
                    nx += [x[1] for x in ex.call(f, [], s)]
                st = nx
    return st

def judge(ex, ent, k, o, av, n, outs, st0):
    """compare the outcomes of a call with the contract; -> final states"""
    fin = []
    for kind, s, v in outs:
        new = s.ev[len(st0.ev):]
        if ent == 'fac':
            want = {'AUTO': ('AVX2', 'AVX', 'SSE2'), 'default': ('AVX2', 'AVX', 'SSE2'), 'none': ('AVX2', 'AVX', 'SSE2')}.get(o, (o,))
            if kind == 'throw' and v == ('thrown', '@_ZTISt12domain_error'):
                ex.ob('post', s, False if new else z3.Not(z3.Or([SUP[b] for b in want])), 'create%s(%s) throws std::domain_error although a suitable backend is supported' % (KCLS[k], o))
            else:
                mk = [e for e in new if e[0] == 'create']
                if len(new) != 1 or len(mk) != 1 or mk[0][2] != KCLS[k]:
                    ex.ob('post', s, False, 'create%s(%s) does not create exactly one %s: %r' % (KCLS[k], o, KCLS[k], new)); continue
                _, b, _, nn, p = mk[0]
                if b not in want:
                    ex.ob('post', s, False, 'create%s(%s) creates an object of backend %s' % (KCLS[k], o, b)); continue
                better = want[:want.index(b)]
                ex.ob('post', s, SUP[b], 'create%s(%s) uses backend %s, which the processor does not support' % (KCLS[k], o, b))
                ex.ob('post', s, z3.Not(z3.Or([SUP[x] for x in better])) if better else True, 'create%s(%s) uses backend %s although a better one is supported' % (KCLS[k], o, b))
                ex.ob('post', s, nn == n, 'create%s(%s) passes another length' % (KCLS[k], o))
                if kind == 'throw':
                    ex.ob('post', s, v == 'backend' and p is None, 'create%s(%s) throws %r' % (KCLS[k], o, v))
                else:
                    ex.ob('post', s, p is not None and v == p, 'create%s(%s) does not return the object it created' % (KCLS[k], o))
        else:
            if kind == 'throw':
                ex.ob('post', s, False, 'deleting a handle throws'); continue
            if len(new) != 1 or new[0][0] != 'delete' or new[0][2] != DCLS[k] or new[0][3] != av[0]:
                ex.ob('post', s, False, 'deleting a %s handle does not destroy exactly that object: %r' % (DCLS[k], new)); continue
            ex.ob('post', s, SUP[new[0][1]], 'deleting a handle uses backend %s, which the processor does not support' % new[0][1])
        fin.append(s)
    return fin

def invoke(ex, ent, k, o, st):
    n = z3.BitVec('n', 32)
    st = st.copy()
    if ent == 'fac':
        if o == 'none':
            return judge(ex, ent, k, o, None, BV(0, 32), ex.call('@vp_fac_%s_none' % k, [], st.copy()), st)
        return judge(ex, ent, k, o, None, n, ex.call('@vp_fac_%s_%s' % (k, o), [n], st.copy()), st)
    # a handle can only exist where some backend is supported
    st.pc.append(z3.Or(list(SUP.values())))
    if ex.sat(*st.pc) is None:
        return []
    p = ex.region(st, 'object', 8)
    return judge(ex, ent, k, o, [p], None, ex.call('@vp_del_' + k, [p], st.copy()), st)

def u_factory(ex, first):
    """first call of the program, then any call from the state it leaves; that state must not change any more"""
    ent, k, o = first
    for st in init(ex):
        a = invoke(ex, ent, k, o, st)
        if not a and ent == 'fac':
            raise Unsup('no path')
        for s in a:
            g = statics(s)
            for e in entries():
                for s2 in invoke(ex, *e, s):
                    g2 = {k: v for k, v in statics(s2).items() if k in g}
                    ex.count['frame'] = ex.count.get('frame', 0) + 1
                    if not same(g, g2):
                        raise Unsup('static state changes after the first call')
    # a null handle
    for st in init(ex)[:1]:
        for k in DCLS:
            for kind, s, v in ex.call('@vp_del_' + k, [NULLP], st.copy()):
                ex.ob('post', s, kind == 'ret' and not s.ev, 'an empty handle is not left alone')

def u_deleter(ex, back, k):
    """backend deleters run the deleting destructor of the object, found through its own table"""
    st = fresh()
    p = ex.region(st, 'object', 8)
    vt = ex.region(st, 'vtable', 8*32)
    for i in range(32):
        ex.put(st, P(vt.r, 8*i), 'ptr', P('slot%d' % i), ex.mods[0])
    ex.put(st, p, 'ptr', vt, ex.mods[0])
    nm = '@vp_%s_delete' % k
    for kind, s, v in ex.call(nm, [p], st.copy()):
        ev = s.ev
        ex.ob('post', s, kind == 'ret' and len(ev) == 1 and ev[0][0] == 'virtual' and ev[0][1] == 'slot1' and ev[0][3] == (p,), 'OTFFT_%s::unique_ptr_deleter(%s) does not run the deleting destructor once: %r' % (back, DCLS[k], ev))
    for kind, s, v in ex.call(nm, [NULLP], st.copy()):
        ex.ob('post', s, kind == 'ret' and not s.ev, 'null is not left alone')

if __name__ == '__main__':
    import sys
    d = sys.argv[1]
    mods = [irparse.Module('%s/%s.ll' % (d, t)) for t in ('factory', 'otfft')]
    for e in entries():
        t = time.time()
        x = Ex(mods)
        try:
            u_factory(x, e)
        except (Unsup, Fail) as y:
            print(e, 'UNSUP', y, x._stk[-3:])
        print(e, x.count, len(x.fails), x.fails[:2], round(time.time() - t, 2), flush=True)
