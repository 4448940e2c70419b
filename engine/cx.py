"""complex_t algebra: every operation executed on symbolic operands for every aliasing of its pointers, and compared with
   the definition of the operation over the complex numbers."""
from val import *
from mem import *
import mem
from ex import *

def opaque(fn, *vs):
    """the real number fn(vs)"""
    key = ('fn', fn) + tuple(tuple(sorted(v.items())) for v in vs)
    return {term(ZERO, (), (atom('d', key, ZERO),), ()): 1.0}
def h_math(ex, st, n, av):
    if any(v is UND for v in av):
        return None
    if n == 'hypot':
        return opaque('sqrt', vadd(vmul(av[0], av[0]), vmul(av[1], av[1])))
    if n in ('sqrt', 'cos', 'sin', 'atan2', 'exp', 'log', 'fabs', 'atan'):
        return opaque(n, *av)
    return None
def h_div(ex, st, x, y):
    if not y:
        return UND
    if len(y) == 1 and T1 in y:
        return vscale(x, 1.0/y[T1])
    ex.divs.append(y)
    return vmul(x, opaque('inv', y))
def x_cabs(ex, st, av, n):
    return [('ret', st, opaque('sqrt', vadd(vmul(av[0], av[0]), vmul(av[1], av[1]))))]
def x_carg(ex, st, av, n):
    return [('ret', st, opaque('atan2', av[1], av[0]))]
def x_sincos(ex, st, av, n):
    for i, f in ((1, 'sin'), (2, 'cos')):
        ex.store(st, av[i], 'double', opaque(f, av[0]), ex.mods[0])
    return [('ret', st, None)]
EXT = {'cabs': x_cabs, 'carg': x_carg, 'sincos': x_sincos}

def clear(v):
    """multiply by the (nonzero) divisors until no quotient is left"""
    for _ in range(40):
        inv = None
        for i in v:
            for a in TERM[i][2]:
                k = ATOM[a]
                if isinstance(k[1], tuple) and k[1][:2] == ('fn', 'inv'):
                    inv = a
                    break
            if inv is not None:
                break
        if inv is None:
            return v
        y = dict(ATOM[inv][1][2])
        dg = max(TERM[i][2].count(inv) for i in v)
        r = {}
        for i, c in v.items():
            p, m, at, s = TERM[i]
            n = at.count(inv)
            w = {term(p, m, tuple(x for x in at if x != inv), s): c}
            for _ in range(dg - n):
                w = vmul(w, y)
            r = vadd(r, w)
        v = r
    raise Unsup('nested quotients')
def same(a, b):
    d = vsub(a, b)
    if not d:
        return True
    s = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [1e-300])
    return all(abs(c) <= TOL*s*16 for c in clear(d).values())

def neval(v, env, rng):
    """value at a sample point (complex machine numbers)"""
    t = 0
    for i, c in v.items():
        p, m, at, s = TERM[i]
        if p.t or m or s:
            raise Unsup('sample of a sum')
        x = complex(c)
        for a in at:
            k = ATOM[a]
            if isinstance(k[1], tuple) and k[1][0] == 'fn':
                q = [neval(dict(w), env, rng) for w in k[1][2:]]
                f = k[1][1]
                q = [w.real for w in q]
                y = {'inv': lambda: 1/q[0], 'sqrt': lambda: math.sqrt(max(q[0], 0.0)), 'cos': lambda: math.cos(q[0]), 'sin': lambda: math.sin(q[0]), 'exp': lambda: math.exp(q[0]),
                     'log': lambda: math.log(q[0]), 'atan2': lambda: math.atan2(q[0], q[1]), 'atan': lambda: math.atan(q[0]), 'fabs': lambda: abs(q[0])}[f]()
            else:
                b = (k[0], k[1], k[2])
                if b not in env:
                    pick = lambda: rng.choice((0.0, 1.0, -1.0, -2.0, 0.5)) if rng.random() < 0.4 else rng.uniform(-3, 3)
                    env[b] = complex(pick(), pick() if k[0] == 'z' else 0.0)
                y = env[b].conjugate() if k[3] else env[b]
            x = x*y
        t = t + x
    return t
def refute(got, want, div):
    """a sample point at which the two differ, or None"""
    import random
    rng = random.Random(5)
    for _ in range(300):
        env = {}
        try:
            if any(abs(neval(d, env, rng)) < 1e-9 for d in div):
                continue
            w = neval(want, env, rng)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        try:
            g = neval(got, env, rng)
        except (ZeroDivisionError, ValueError):
            return env
        except OverflowError:
            continue
        if abs(g - w) > 1e-9*(1 + abs(w)):
            return env
    return None

def z3val(v, zv):
    """(re, im) of a value as z3 reals"""
    import z3
    re, im = z3.RealVal(0), z3.RealVal(0)
    from fractions import Fraction as F
    q = lambda x: z3.RealVal(str(F(x)))
    for i, c in v.items():
        p, m, at, s = TERM[i]
        if p.t or m or s:
            raise Unsup('quotient of a sum')
        c = complex(c)
        a, b = q(c.real), q(c.imag)
        for x in at:
            k = ATOM[x]
            e = zv.setdefault((k[0], k[1], k[2]), (z3.Real('r%d' % len(zv)), z3.Real('i%d' % len(zv)) if k[0] == 'z' else z3.RealVal(0)))
            u, w = e[0], -e[1] if k[3] else e[1]
            a, b = a*u - b*w, a*w + b*u
        re, im = re + a, im + b
    return re, im
def onlyzero(y, div):
    """y = 0 only if div = 0 (reals)"""
    import z3
    zv = {}
    a, b = z3val(y, zv), z3val(div, zv)
    s = z3.Solver()
    s.set('rlimit', 4000000)
    s.add(a[0] == 0, a[1] == 0, z3.Or(b[0] != 0, b[1] != 0))
    return s.check() == z3.unsat

def canvanish(y, div):
    import random
    rng = random.Random(6)
    for _ in range(400):
        env = {}
        try:
            if all(abs(neval(d, env, rng)) > 1e-9 for d in div) and abs(neval(y, env, rng)) < 1e-12:
                return True
        except (ZeroDivisionError, ValueError, OverflowError):
            pass
    return False

# ---- the definitions: complex numbers as pairs of real values
def cmul(a, b):
    return vsub(vmul(a[0], b[0]), vmul(a[1], b[1])), vadd(vmul(a[0], b[1]), vmul(a[1], b[0]))
def nrm(a):
    return vadd(vmul(a[0], a[0]), vmul(a[1], a[1]))
def cdiv(a, b):
    q = opaque('inv', nrm(b))
    n = cmul(a, (b[0], vneg(b[1])))
    return vmul(n[0], q), vmul(n[1], q)
def ddiv(a, x):
    q = opaque('inv', x)
    return vmul(a[0], q), vmul(a[1], q)
R = lambda x: (x, {})
ADD = lambda a, b: (vadd(a[0], b[0]), vadd(a[1], b[1]))
SUB = lambda a, b: (vsub(a[0], b[0]), vsub(a[1], b[1]))
# name: (argument kinds after the destination, definition, divisor)
Z, D = 'z', 'd'
def fn(n, *v):
    return opaque(n, *v)
FUN = {
    'conj': ('z', lambda a: (a[0], vneg(a[1]))), 'jx': ('z', lambda a: (vneg(a[1]), a[0])), 'neg': ('z', lambda a: (vneg(a[0]), vneg(a[1]))),
    'mjx': ('z', lambda a: (a[1], vneg(a[0]))), 'copy': ('z', lambda a: a), 'tosc': ('z', lambda a: a),
    'add': ('zz', ADD), 'sub': ('zz', SUB), 'mul': ('zz', cmul), 'div': ('zz', cdiv, lambda a, b: nrm(b)),
    'scale': ('zd', lambda a, x: cmul(R(x), a)), 'over': ('zd', ddiv, lambda a, x: x), 'addd': ('zd', lambda a, x: ADD(a, R(x))),
    'dadd': ('zd', lambda a, x: ADD(R(x), a)), 'subd': ('zd', lambda a, x: SUB(a, R(x))), 'dsub': ('zd', lambda a, x: SUB(R(x), a)),
    'dover': ('zd', lambda a, x: cdiv(R(x), a), lambda a, x: nrm(a)),
    'polar': ('dd', lambda x, y: (vmul(x, fn('cos', y)), vmul(x, fn('sin', y)))), 'expj': ('dd', lambda x, y: (fn('cos', x), fn('sin', x))),
    'ctor2': ('dd', lambda x, y: (x, y)), 'ctor1': ('dd', lambda x, y: R(x)), 'assignd': ('dd', lambda x, y: R(x)),
    'ctorsc': ('dd', lambda x, y: (x, y)), 'ctor0': ('dd', lambda x, y: ({}, {})),
}
REAL = {'Re': lambda a: a[0], 'Im': lambda a: a[1], 'norm': nrm, 'abs': lambda a: fn('sqrt', nrm(a)), 'arg': lambda a: fn('atan2', a[1], a[0])}
INP = {'iadd': ('z', ADD), 'isub': ('z', SUB), 'imul': ('z', cmul), 'imuld': ('d', lambda a, x: cmul(a, R(x))), 'idivd': ('d', ddiv, lambda a, x: x),
       'iaddd': ('d', lambda a, x: ADD(a, R(x))), 'isubd': ('d', lambda a, x: SUB(a, R(x)))}
OPS = [n for n in FUN] + [n + '_twice' for n in FUN if 'z' in FUN[n][0] or n == 'expj'] + list(REAL) + [n + '_twice' for n in REAL] + list(INP) + ['tosc2']

def partitions(n, k=None):
    """all assignments of n pointers to objects, up to renaming"""
    if n == 0:
        return [()]
    out = []
    for p in partitions(n - 1):
        for c in range(max(p, default=-1) + 2):
            out.append(p + (c,))
    return out

def places(kinds):
    """all ways to place the pointers: complex ones on complex cells, double ones on cells of their own or on a half of a complex"""
    nz = sum(k == 'z' for k in kinds)
    nd = len(kinds) - nz
    for pz in partitions(nz):
        ncell = max(pz, default=-1) + 1
        opts = [('z', c, h) for c in range(ncell) for h in (0, 8)] + [('d', i, 0) for i in range(nd)]
        def rec(i):
            if i == 0:
                yield ()
                return
            for p in rec(i - 1):
                for o in opts:
                    if o[0] == 'd' and o[1] > max([q[1] for q in p if q[0] == 'd'], default=-1) + 1:
                        continue
                    yield p + (o,)
        for pd in rec(nd):
            iz, idd = iter(pz), iter(pd)
            yield [('z', next(iz), 0) if k == 'z' else next(idd) for k in kinds]

def u_cx(ex, op):
    base = op[:-6] if op.endswith('_twice') else op
    twice = op != base
    f = ex.find('@vp_cx_' + op)
    n = 0
    if base in INP:
        kinds = 'z' + INP[base][0]
    elif base in REAL:
        kinds = 'zz' if twice else 'dz'
    elif base == 'tosc2':
        kinds = 'z'
    elif twice:
        kinds = FUN[base][0]
        kinds = kinds + {'z': 'z', 'zz': 'z', 'zd': 'zd', 'dd': ''}[kinds]
    else:
        kinds = 'z' + FUN[base][0]
    for place in places(kinds):
        st = St()
        rz = newregion('z', 'z', C(16*4)); st.ver[rz] = REG[rz].base; st.live[rz] = True
        rd = newregion('d', 'x', C(8*4)); st.ver[rd] = REG[rd].base; st.live[rd] = True
        ro = newregion('z', 'r', C(16*2)); st.ver[ro] = REG[ro].base; st.live[ro] = True
        rg = {'z': rz, 'd': rd}
        ptr = [Ptr(rg[p[0]], C((16 if p[0] == 'z' else 8)*p[1] + p[2])) for p in place]
        # symbolic memory of the definition
        M = {}
        def cell(r, i):
            if (r, i) not in M:
                M[(r, i)] = ex.load_d(st, r, C(8*i))
            return M[(r, i)]
        for i in range(8): cell(rz, i)
        for i in range(4): cell(rd, i)
        for i in range(4): cell(ro, i)
        def getz(p): return (M[(rz, 2*p[1])], M[(rz, 2*p[1] + 1)])
        def getd(p): return M[(rg[p[0]], (2*p[1] + p[2]//8) if p[0] == 'z' else p[1])]
        def get(p, k): return getz(p) if k == 'z' else getd(p)
        def put(p, k, v):
            if k == 'z':
                M[(rz, 2*p[1])], M[(rz, 2*p[1] + 1)] = v
            else:
                M[(rg[p[0]], (2*p[1] + p[2]//8) if p[0] == 'z' else p[1])] = v
        div = []
        ret = None
        if base in INP:
            d = INP[base]
            av = [get(p, k) for p, k in zip(place, kinds)]
            if len(d) > 2: div.append(d[2](*av))
            put(place[0], 'z', d[1](*av))
            args, ret = ptr, ptr[0]
        elif base == 'tosc2':
            z = getz(place[0])
            M[(rd, 0)], M[(rd, 1)] = z
            args = [Ptr(rd)] + ptr
        elif base in REAL:
            if twice:
                t = REAL[base](getz(place[0]))
                put(place[0], 'z', getz(place[1]))
                u = REAL[base](getz(place[0]))
                M[(ro, 0)], M[(ro, 1)], M[(ro, 2)], M[(ro, 3)] = t, {}, u, {}
                args = [Ptr(ro)] + ptr
            else:
                put(place[0], 'd', REAL[base](getz(place[1])))
                args = ptr
        else:
            d = FUN[base]
            k = d[0]
            if twice:
                na = len(k)
                av = [get(p, q) for p, q in zip(place, k)]
                if len(d) > 2: div.append(d[2](*av))
                t = d[1](*av)
                if k == 'dd':
                    put(place[0], 'd', getd(place[1]))
                else:
                    put(place[0], 'z', getz(place[na]))
                    if k == 'zd':
                        put(place[1], 'd', getd(place[na + 1]))
                av = [get(p, q) for p, q in zip(place, k)]
                if len(d) > 2: div.append(d[2](*av))
                u = d[1](*av)
                M[(ro, 0)], M[(ro, 1)] = t
                M[(ro, 2)], M[(ro, 3)] = u
                args = [Ptr(ro)] + ptr
            else:
                av = [get(p, q) for p, q in zip(place[1:], k)]
                if len(d) > 2: div.append(d[2](*av))
                put(place[0], 'z', d[1](*av))
                args = ptr
        ex.divs = []
        o0 = ex.opaq
        for kd, s, v in ex.call(f, args, st):
            if kd != 'ret':
                raise Fail('post', '%s: exception leaves the operation' % op)
            def bad(w):
                m = '%s with operands %s: %s' % (op, ' '.join('%s%d%s' % (p[0], p[1], {0: '', 8: '.Im'}[p[2]]) for p in place), w)
                if ex.opaq != o0:
                    raise Unsup('value depends on a comparison of doubles: ' + m)
                raise Fail('post', m)
            if ret is not None and not (isinstance(v, Ptr) and v.r == ret.r and s.ctx.norm(v.o - ret.o).is_zero()):
                bad('does not return the object itself')
            for (r, i), w in M.items():
                x = ex.load_d(s, r, C(8*i))
                ex.count['post'] = ex.count.get('post', 0) + 1
                if x is UND:
                    bad('%s[%d] undefined' % (REG[r].name, i))
                if not same(x, w):
                    if not refute(x, w, div):
                        raise Unsup('%s: %s not shown equal to %s' % (op, vstr(x, 4), vstr(w, 4)))
                    bad('%s[%d] is %s, not %s' % (REG[r].name, i, vstr(x, 4), vstr(w, 4)))
            for y in ex.divs:
                ex.count['divzero'] = ex.count.get('divzero', 0) + 1
                if not any(onlyzero(y, z) for z in div):
                    if not canvanish(y, div):
                        raise Unsup('%s: divides by %s' % (op, vstr(y, 4)))
                    bad('divides by %s' % vstr(y, 4))
            n += 1
    if not n:
        raise Unsup('no terminating path')
    return n

def mkex(mods):
    return Exec(mods, {}, {'ext': EXT, 'math': h_math, 'div': h_div})

if __name__ == '__main__':
    import sys, irparse, traceback
    m = [irparse.Module(sys.argv[1])]
    for op in (sys.argv[2].split(',') if len(sys.argv) > 2 else OPS):
        ex = mkex(m)
        try:
            print('OK', op, u_cx(ex, op), ex.count, ex.fails[:2])
        except (Unsup, Fail, NeedSplit, VErr) as x:
            print('FAIL', op, type(x).__name__, str(x)[:400])
            if len(sys.argv) > 3: traceback.print_exc()
