"""Randomised self test of the integer reasoning: whatever is assumed about a point stays true of it, and nothing false
   of it is concluded."""
import random, sys
from poly import *
import poly, val

def ev(p, x):
    t = Fraction(0)
    for m, c in p.t.items():
        v = Fraction(c)
        for a, e in m:
            v = v*Fraction(x[a])**e
        t += v
    return t

def run(seed):
    R = random.Random(seed)
    ctx = Ctx()
    x = {}
    vs = []
    par = []
    def full():
        for i in range(len(SYMS)):
            if i in x:
                continue
            if i in DEFS:
                a, b = DEFS[i]
                if all(q in x for q in a.syms() | b.syms()):
                    bb = ev(b, x)
                    if bb:
                        x[i] = ev(a, x)//bb
    base = len(SYMS)
    for k in range(R.randint(1, 3)):
        lo = R.choice((0, 1, 1, 2)); hi = R.choice((lo, lo + 3, 40, 1 << 30))
        s = ctx.sym('p%d' % k, lo, hi)
        x[max(s.syms())] = R.choice((lo, hi, R.randint(lo, hi), min(hi, lo + R.randint(0, 64)), 8*R.randint(1, 20) if hi > 160 else lo))
        vs.append(s); par.append(s)
        if R.random() < .8:
            ctx.pars = ctx.pars | s.syms()
    for k in range(R.randint(0, 3)):
        h = R.choice(vs)*R.choice((1, 2, 4)) - 1
        s = None
        hv = ev(h, x)
        if hv >= 0:
            s = ctx.sym('b%d' % k, ZERO, h)
            x[max(s.syms())] = R.choice((0, int(hv), R.randint(0, int(hv))))
            vs.append(s)
    def rp():
        p = C(R.randint(-9, 9))
        for _ in range(R.randint(1, 3)):
            t = C(R.choice((1, -1, 1, -1, 2, -2, 3, 4, -4, 8, -8)))
            for _ in range(R.choice((1, 1, 1, 2))):
                t = t*R.choice(vs)
            p = p + t
        return p
    def fix():
        full()
        # symbols introduced by the context are determined by the rewriting of known ones
        for _ in range(4):
            for v, q in list(ctx.rw.items()):
                if v in x:
                    un = [a for a in q.syms() if a not in x]
                    if len(un) == 1:
                        cf = q.coeffs(un[0])
                        if set(cf) <= {0, 1} and all(a in x for a in cf[1].syms() | cf.get(0, ZERO).syms()):
                            d = ev(cf[1], x)
                            if d:
                                x[un[0]] = (x[v] - ev(cf.get(0, ZERO), x))/d
            full()
    def check(why):
        fix()
        assert not ctx.dead, ('dead', why)
        for v, q in ctx.rw.items():
            if v in x and all(a in x for a in q.syms()):
                assert x[v] == ev(q, x), ('rw', why, SYMS[v], q)
        for tab, sg in ((ctx.lo, 1), (ctx.hi, -1)):
            for v in list(tab):
                if v in x and v not in ctx.rw:
                    for q in tab[v]:
                        if all(a in x for a in q.syms()):
                            assert sg*(x[v] - ev(q, x)) >= 0, ('bound', why, SYMS[v], q)
        for q in ctx.facts:
            if all(a in x for a in q.syms()):
                assert ev(q, x) >= 0, ('fact', why, q)
        for q in ctx.neqs:
            if all(a in x for a in q.syms()):
                assert ev(q, x) != 0, ('ne', why, q)
    check('start')
    for _ in range(R.randint(1, 7)):
        k = R.random()
        if k < .35:
            p = R.choice(vs) if R.random() < .7 else rp()
            d = R.choice((C(2), C(4), C(8), C(3), C(5), R.choice(par)))
            if ev(d, x) < 1 or ev(p, x) < 0 or not ctx.nonneg(d - 1) or not ctx.nonneg(p):
                continue
            q = ctx.floordiv(p, d)
            fix()
            assert ev(q, x) == ev(p, x)//ev(d, x), ('fd', p, d, q)
            vs.append(q)
            r = ctx.norm(p - d*q)
            if R.random() < .6:
                if ev(r, x) == 0: ctx.assume_eq(r)
                else: ctx.assume_ne(r)
                check(('mod', p, d, r))
        elif k < .65:
            p = rp()
            v = ev(p, x)
            if v == 0: ctx.assume_eq(p)
            elif R.random() < .4: ctx.assume_ne(p)
            elif v > 0: ctx.assume_ge(p)
            else: ctx.assume_ge(-p - 1)
            check(('assume', p, v))
        elif k < .75:
            p = rp(); v = ev(p, x); p = p - int(v)
            ctx.assume_eq(p)
            check(('eq', p))
        else:
            z3 = R.random() < .1
            p = rp(); v = ev(p, x)
            assert not (ctx.nonneg(p, z3) and v < 0), ('nonneg', p, v)
            z = ctx.iszero(p, z3)
            assert z is None or z == (v == 0), ('iszero', p, v, z)
            o = ctx.odd(p)
            assert not o or v % 2 == 1, ('odd', p, v)

if __name__ == '__main__':
    a, b = int(sys.argv[1]), int(sys.argv[2])
    bad = 0
    for s in range(a, b):
        try:
            run(s)
        except AssertionError as e:
            bad += 1
            if bad < 6: print(s, e)
        except NonMono:
            pass
        except RecursionError:
            print(s, 'recursion')
    print('seeds', a, b, 'bad', bad)
