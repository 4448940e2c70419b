"""Multivariate Laurent polynomials over integer symbols, and a context of bounds/facts with a
small deductive core (endpoint elimination) and z3 as fall-back."""
from fractions import Fraction
import time, random
_RNG = random.Random(1)

class Poly:
    __slots__ = ('t', '_k', '_h')
    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k
    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)
    def const(self):
        return self.t.get((), 0)
    def is_zero(self):
        return not self.t
    def __add__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return self
            r = dict(self.t)
            v = r.get((), 0) + o
            if v:
                r[()] = _n(v)
            else:
                r.pop((), None)
            return Poly(r)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = _n(v)
            else:
                del r[m]
        return Poly(r)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if not isinstance(o, Poly):
            return self + (-o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if v:
                r[m] = _n(v)
            else:
                del r[m]
        return Poly(r)
    def __rsub__(self, o):
        return (-self) + o
    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly({m: _n(c*o) for m, c in self.t.items()})
        if o.is_const():
            return self*o.const()
        if self.is_const():
            return o*self.const()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1*c2
                if v:
                    r[m] = _n(v)
                else:
                    del r[m]
        return Poly(r)
    __rmul__ = __mul__
    def syms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s
    def deg(self, v):
        return max([e for m in self.t for a, e in m if a == v] + [0])
    def coeffs(self, v):
        """dict exponent -> Poly (without v)"""
        r = {}
        for m, c in self.t.items():
            e = 0
            rest = m
            for i, (a, x) in enumerate(m):
                if a == v:
                    e = x
                    rest = m[:i] + m[i+1:]
                    break
            r.setdefault(e, {})[rest] = c
        return {e: Poly(d) for e, d in r.items()}
    def subst(self, v, p):
        return self.substm({v: p})
    def substm(self, mp):
        """substitute several symbols simultaneously"""
        hit = False
        for m in self.t:
            for a, e in m:
                if a in mp:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return self
        r = {}
        for m, c in self.t.items():
            fac = None
            rest = []
            for a, e in m:
                if a in mp:
                    q = mp[a]
                    f = ppow(q, e)
                    fac = f if fac is None else fac*f
                else:
                    rest.append((a, e))
            if fac is None:
                v = r.get(m, 0) + c
                if v:
                    r[m] = _n(v)
                else:
                    del r[m]
            else:
                rest = tuple(rest)
                for m2, c2 in fac.t.items():
                    mm = mmul(rest, m2)
                    v = r.get(mm, 0) + c*c2
                    if v:
                        r[mm] = _n(v)
                    else:
                        del r[mm]
        return Poly(r)
    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            ms = '*'.join((SYMS[a] + ('' if e == 1 else '^%s' % e)) for a, e in m)
            out.append(('%s' % c) if not m else (ms if c == 1 else '%s*%s' % (c, ms)))
        return ' + '.join(out)

def _n(v):
    if type(v) is Fraction and v.denominator == 1:
        return v.numerator
    return v

_MM = {}
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is None:
        d = dict(a)
        for s, e in b:
            v = d.get(s, 0) + e
            if v:
                d[s] = v
            else:
                del d[s]
        r = tuple(sorted(d.items()))
        _MM[k] = r
    return r

ZERO = Poly({})
ONE = Poly({(): 1})
def C(c):
    return Poly({(): _n(c)}) if c else ZERO

SYMS = []
_memo_const = {}
def newsym(name):
    SYMS.append('%s_%d' % (name, len(SYMS)))
    return len(SYMS) - 1
def S(i):
    return Poly({((i, 1),): 1})
def P(x):
    return x if isinstance(x, Poly) else C(x)

RLIMIT = 4000000
class NonMono(Exception):
    pass

def ppow(p, e):
    if e == 1:
        return p
    if isinstance(e, int) and e > 0:
        r = p
        for _ in range(e-1):
            r = r*p
        return r
    if len(p.t) != 1:
        raise NonMono()
    (m, c), = p.t.items()
    if isinstance(e, Fraction) and e.denominator != 1:
        raise NonMono()
    return Poly({tuple((a, x*e) for a, x in m): _n(Fraction(c)**int(e))})

def pdiv(p, d):
    """exact polynomial division p/d -> Poly or None (d monomial or general); integer symbols"""
    if d.is_const():
        c = d.const()
        return Poly({m: _n(Fraction(v)/c) for m, v in p.t.items()}) if c else None
    if len(d.t) == 1:
        (m, c), = d.t.items()
        inv = tuple((a, -e) for a, e in m)
        r = {}
        for m1, v in p.t.items():
            mm = mmul(m1, inv)
            if any(e < 0 for a, e in mm):
                return None
            r[mm] = _n(Fraction(v)/c)
        return Poly(r)
    # general: long division by leading monomial
    lead = max(d.t, key=_mord)
    lc = d.t[lead]
    inv = tuple((a, -e) for a, e in lead)
    q = ZERO
    r = p
    for _ in range(64):
        if r.is_zero():
            return q
        rl = max(r.t, key=_mord)
        mm = mmul(rl, inv)
        if any(e < 0 for a, e in mm):
            return None
        t = Poly({mm: _n(Fraction(r.t[rl])/lc)})
        q = q + t
        r = r - t*d
    return None
def _mord(m):
    return (sum(e for a, e in m), m)

def split_multiple(p, d):
    """p = d*A + B where A collects the terms divisible by monomial/const d (integer coefs)."""
    if len(d.t) == 1:
        (m, c), = d.t.items()
        inv = tuple((a, -e) for a, e in m)
        A = {}
        B = {}
        for m1, v in p.t.items():
            mm = mmul(m1, inv)
            if any(e < 0 for a, e in mm):
                B[m1] = v
                continue
            q = Fraction(v)/c
            fl = q.numerator//q.denominator
            if fl:
                A[mm] = fl
            rem = v - fl*c
            if rem:
                B[m1] = _n(rem)
        return Poly(A), Poly(B)
    return None

# floor symbols: DEFS[i] = (p, d) means symbol i = floor(p/d), d > 0
DEFS = {}
DEFK = {}

DOM = {}      # range a symbol was introduced with

_Z3E = {}      # translated polynomials and symbols of the main solver context
STAT = {'nn': 0, 'z3': 0, 'z3t': 0.0}

class Ctx:
    """bounds and facts; copy-on-fork"""
    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.facts = []      # polys >= 0
        self.neqs = []       # polys != 0
        self.rw = {}
        self.memo = {}
        self.dead = False
        self.pars = set()
        self.tag = []
        self.hints = {}
        self.mseed = []
    def fork(self):
        c = Ctx.__new__(Ctx)
        c.lo = dict(self.lo)
        c.hi = dict(self.hi)
        c.facts = list(self.facts)
        c.neqs = list(self.neqs)
        c.rw = dict(self.rw)
        c.memo = dict(self.memo)
        c.dead = self.dead
        c.pars = self.pars
        c.tag = list(self.tag)
        c.hints = dict(self.hints)
        c.mseed = self.mseed
        return c
    # ---- symbols
    def sym(self, name, lo=None, hi=None):
        i = newsym(name)
        self.bound(i, lo, hi)
        return S(i)
    def bound(self, i, lo=None, hi=None):
        self.lo[i] = tuple(P(x) for x in (lo if isinstance(lo, (list, tuple)) else [] if lo is None else [lo]))
        self.hi[i] = tuple(P(x) for x in (hi if isinstance(hi, (list, tuple)) else [] if hi is None else [hi]))
        if i not in DOM and len(self.lo[i]) == 1 and len(self.hi[i]) == 1:
            DOM[i] = (self.lo[i][0], self.hi[i][0])
    def norm(self, p):
        rw = self.rw
        if not rw:
            return p
        for _ in range(40):
            hit = False
            for m in p.t:
                for a, e in m:
                    if a in rw:
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return p
            p = p.substm(rw)
        return p
    def rewrite(self, v, p):
        """symbol v equals p from now on"""
        p = self.norm(P(p))
        lo = self.lo.pop(v, ())
        hi = self.hi.pop(v, ())
        self.rw[v] = p
        mp = {v: p}
        for k in list(self.rw):
            self.rw[k] = self.rw[k].substm(mp)
        def sub(q):
            try:
                return q.substm(mp)
            except NonMono:
                return q
        for k in self.lo:
            if any(v in q.syms() for q in self.lo[k]):
                self.lo[k] = tuple(sub(q) for q in self.lo[k])
        for k in self.hi:
            if any(v in q.syms() for q in self.hi[k]):
                self.hi[k] = tuple(sub(q) for q in self.hi[k])
        self.facts = [sub(q) for q in self.facts]
        self.neqs = [sub(q) for q in self.neqs]
        self.memo = {}
        for q in lo:
            self.assume_ge(p - self.norm(q))
        for q in hi:
            self.assume_ge(self.norm(q) - p)
        for i in list(DEFS):
            if i in self.rw:
                continue
            a, b = DEFS[i]
            sy = a.syms() | b.syms()
            if v in sy or any(x in self.rw for x in sy):
                a2, b2 = self.norm(a), self.norm(b)
                q = pdiv(a2, b2)
                if q is not None and all(not isinstance(c, Fraction) for c in q.t.values()):
                    self.rewrite(i, q)
                    continue
                sm = split_multiple(a2, b2)
                if sm and not (sm[0].is_zero() and not sm[1].is_const()) and self.nonneg(sm[1]) and self.nonneg(b2 - 1 - sm[1]):
                    self.rewrite(i, sm[0])
        for q in self.neqs:
            if q.is_zero():
                self.dead = True
    # ---- assumptions
    def assume_ge(self, p):
        p = self.norm(p)
        if p.is_const():
            if p.const() < 0:
                self.dead = True
            return
        # single-symbol linear: a bound
        sy = p.syms()
        if len(p.t) <= 2 and len(sy) == 1:
            (v,) = sy
            cf = p.coeffs(v)
            if set(cf) <= {0, 1} and cf.get(1, ZERO).is_const():
                a = cf[1].const()
                b = cf.get(0, ZERO).const()
                if a > 0:
                    q = Fraction(-b)/a
                    q = -((-q.numerator)//q.denominator)
                    self.lo[v] = self.lo.get(v, ()) + (C(q),)
                else:
                    q = Fraction(b)/(-a)
                    q = q.numerator//q.denominator
                    self.hi[v] = self.hi.get(v, ()) + (C(q),)
                self._tighten(v)
                self.memo = {}
                return
        # linear with unit coefficient in its newest symbol: symbolic bound on it
        if p not in self.facts:
            self.facts.append(p)
            v = max(sy)
            cf = p.coeffs(v)
            if set(cf) <= {0, 1} and cf[1].is_const() and v not in self.pars:
                a = cf[1].const()
                b = cf.get(0, ZERO)
                if a > 0:
                    self.lo[v] = self.lo.get(v, ()) + (b*(Fraction(-1)/a),)
                else:
                    self.hi[v] = self.hi.get(v, ()) + (b*(Fraction(1)/(-a)),)
            self.memo = {}
            self._pin(p)
        self.memo = {}
    def _const(self, p, up):
        """constant bound of p from the constant bounds of its symbols (None if there is none)"""
        t = 0
        for m, c in p.t.items():
            l = h = 1
            for a, e in m:
                if e < 0:
                    return None
                la = max([q.const() for q in self.lo.get(a, ()) if q.is_const()], default=None)
                ha = min([q.const() for q in self.hi.get(a, ()) if q.is_const()], default=None)
                if la is None or la < 0:
                    return None
                l = l*la**e
                h = None if h is None or ha is None else h*ha**e
            x = h if (c > 0) == up else l
            if x is None:
                return None
            t = t + c*x
        return t
    def _pin(self, p):
        """consequences of p >= 0 for single symbols: constant bounds, or the symbol is at its bound"""
        for v in sorted(p.syms()):
            if v in self.rw:
                return
            cf = p.coeffs(v)
            if set(cf) - {0, 1}:
                if 2 in cf and not set(cf) - {0, 1, 2} and cf[2].is_const() and cf.get(1, ZERO).is_const() and cf[2].const() < 0:
                    m = self._const(cf.get(0, ZERO), True)
                    if m is not None:
                        a, b = cf[2].const(), cf.get(1, ZERO).const()
                        l = max(0, int(b // (-2*a)))
                        if a*l*l + b*l + m >= 0:
                            h = l + 1
                            while a*h*h + b*h + m >= 0: h *= 2
                            while h - l > 1:
                                t = (l + h)//2
                                if a*t*t + b*t + m >= 0: l = t
                                else: h = t
                            old = min([x.const() for x in self.hi.get(v, ()) if x.is_const()], default=None)
                            if old is None or l < old:
                                self.hi[v] = self.hi.get(v, ()) + (C(l),)
                                self._tighten(v)
                                self.memo = {}
                                if self.dead or v in self.rw:
                                    return
                continue
            a = cf[1]
            r = cf.get(0, ZERO)
            if a.is_const():
                m = self._const(r, True)
                if m is not None:
                    a = a.const()
                    q = Fraction(-m)/a
                    if a > 0:
                        q = -((-q.numerator)//q.denominator)
                        old = max([x.const() for x in self.lo.get(v, ()) if x.is_const()], default=None)
                        if old is None or q > old:
                            self.lo[v] = self.lo.get(v, ()) + (C(q),)
                            self._tighten(v)
                    else:
                        q = q.numerator//q.denominator
                        old = min([x.const() for x in self.hi.get(v, ()) if x.is_const()], default=None)
                        if old is None or q < old:
                            self.hi[v] = self.hi.get(v, ()) + (C(q),)
                            self._tighten(v)
                    if self.dead:
                        return
                    if v in self.rw:
                        self.assume_ge(p)
                        return
                    self.memo = {}
            if self.nonneg(-cf[1] - 1):
                for lo in self.lo.get(v, ()):
                    try:
                        if intval(lo) and self.nonneg(-1 - p.subst(v, lo + 1)):
                            self.rewrite(v, lo)
                            self.assume_ge(p)
                            return
                    except NonMono:
                        pass
            elif self.nonneg(cf[1] - 1):
                for hi in self.hi.get(v, ()):
                    if not hi.syms().isdisjoint((v,)) or not intval(hi): continue
                    try:
                        if self.nonneg(-1 - p.subst(v, hi - 1)):
                            self.rewrite(v, hi)
                            self.assume_ge(p)
                            return
                    except NonMono:
                        pass
    def _tighten(self, v):
        los = [q.const() for q in self.lo.get(v, ()) if q.is_const()]
        his = [q.const() for q in self.hi.get(v, ()) if q.is_const()]
        if los:
            self.lo[v] = tuple(q for q in self.lo[v] if not q.is_const()) + (C(max(los)),)
        if his:
            self.hi[v] = tuple(q for q in self.hi[v] if not q.is_const()) + (C(min(his)),)
        if los and his:
            if max(los) > min(his):
                self.dead = True
            elif max(los) == min(his) and v not in self.rw:
                self.rewrite(v, C(max(los)))
    def content(self, p):
        """p divided by the symbols known to be positive that divide every term"""
        if len(p.t) < 2:
            return p
        com = None
        for m in p.t:
            d = {a: e for a, e in m if e > 0}
            com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
            if not com:
                return p
        m = tuple(sorted((a, -e) for a, e in com.items() if any(q.is_const() and q.const() >= 1 for q in self.lo.get(a, ()))))
        return p*Poly({m: 1}) if m else p
    def odd(self, p):
        """p is known to be odd: it divides something known to be odd"""
        p = self.norm(p)
        if p.is_const():
            return p.const() % 2 == 1
        for o in self.hints.get('odd', ()):
            q = pdiv(self.norm(o), p)
            if q is not None and intval(q):
                return True
        return False
    def assume_ne(self, p):
        p = self.content(self.norm(p))
        if p.is_zero():
            self.dead = True
            return
        if p.is_const():
            return
        self.neqs.append(p)
        # p = x - 2*q: x is odd
        o = [(m, c) for m, c in p.t.items() if isinstance(c, Fraction) or c % 2]
        if len(o) == 1 and abs(o[0][1]) == 1 and all(e > 0 for a, e in o[0][0]):
            r = p - Poly(dict(o))
            if len(r.t) == 1:
                (m, c), = r.t.items()
                if abs(c) == 2 and len(m) == 1 and m[0][1] == 1 and m[0][0] in DEFS:
                    x = Poly({o[0][0]: 1})
                    a, b = DEFS[m[0][0]]
                    if self.norm(a) == x and self.norm(b) == C(2) and (c < 0) == (o[0][1] > 0):
                        self.hints['odd'] = self.hints.get('odd', ()) + (x,)
        # strengthen a bound when p is extremal
        if self.nonneg(p):
            self.assume_ge(p - 1)
        elif self.nonneg(-p):
            self.assume_ge(-p - 1)
        self.memo = {}
    def depends(self, a, v, depth=0):
        """the definition of the floor symbol a mentions v"""
        if a == v:
            return True
        if a in self.rw:
            return any(self.depends(b, v, depth + 1) for b in self.rw[a].syms())
        d = DEFS.get(a)
        if d is None:
            return False
        return depth > 40 or any(self.depends(b, v, depth + 1) for q in d for b in q.syms())
    def assume_eq(self, p):
        p = self.content(self.norm(p))
        if p.is_const():
            if p.const() != 0:
                self.dead = True
            return
        # x = d*floor(x/d) for a parameter x: x is a multiple of d, by a new parameter
        for v in p.syms():
            if v not in DEFS or v in self.rw:
                continue
            a, b = self.norm(DEFS[v][0]), self.norm(DEFS[v][1])
            if p != a - b*S(v) and p != b*S(v) - a:
                continue
            if len(a.t) != 1:
                continue
            (m, c), = a.t.items()
            if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.pars or len(b.t) != 1 or m[0][0] in b.syms():
                continue
            x = m[0][0]
            M = newsym('m')
            h = self._const(a, True)
            bl = self._const(b, False)
            if bl is None or bl < 1:
                bl = 1
            l = self._const(a, False)
            self.bound(M, C(1 if l is not None and l >= 1 else 0), None if h is None else C(int(h//bl)))
            self.pars = self.pars | {M}
            self.rewrite(x, b*S(M))
            return
        # solve for a symbol with coefficient +-1 and not occurring elsewhere
        den = 1
        for c in p.t.values():
            if isinstance(c, Fraction):
                den = den*c.denominator//_gcd(den, c.denominator)
        if den != 1:
            p = p*den
        g = 0
        for m, c in p.t.items():
            if m:
                g = _gcd(g, abs(int(c)))
        if g > 1:
            if p.const() % g:
                self.dead = True
                return
            p = p*Fraction(1, g)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                v = m[0][0]
                if p.deg(v) == 1 and all(v not in dict(mm) for mm in p.t if mm != m) and not any(
                        self.depends(a, v) for a in p.syms() if a != v):
                    # prefer params whose replacement is a monomial, else newest
                    score = (len(p.t) == 2 and () not in p.t, v not in self.pars, v)
                    if best is None or score > best[0]:
                        best = (score, v, c, m)
        if best is None:
            # common factor: d * q = 0 with d known positive
            self.facts.append(p)
            self.facts.append(-p)
            self.memo = {}
            return
        _, v, c, m = best
        rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m})
        self.rewrite(v, rest*(-1 if c == 1 else 1))
    # ---- queries
    def nonneg(self, p, z3=False):
        p = self.norm(p)
        if p.is_const():
            return p.const() >= 0
        r = self.memo.get(p)
        if r is None:
            STAT['nn'] += 1
            iv = self._ival(p)
            if iv is not None and iv >= 0:
                r = True
            elif self.refuted(p):
                r = False
                self.memo[('z3', p)] = False
            else:
                self._budget = 400
                r = self._nn(p, 0)
            self.memo[p] = r
        if r is True:
            return True
        if z3:
            k = ('z3', p)
            r = self.memo.get(k)
            if r is None:
                # provably negative: not worth a search (false only means 'not proved')
                r = not self.nonneg(-p - 1) and (self.quotient(p) or self.z3_valid(p))
                self.memo[k] = r
            return r
        return False
    def quotient(self, p, d=0):
        """p >= 0 after dividing by common nonnegative symbols and bounding b*floor(a/b) by a-b+1 and a"""
        g = None
        for m in p.t:
            dm = dict(m)
            g = dm if g is None else {a: min(e, dm[a]) for a, e in g.items() if a in dm}
            if not g:
                break
        g = tuple((a, e) for a, e in sorted((g or {}).items()) if e > 0 and self._nnsym(a))
        if g:
            inv = Poly({tuple((a, -e) for a, e in g): 1})
            p = p*inv
            if self.nonneg(p):
                return True
        if d > 2:
            return False
        for v in p.syms():
            df = DEFS.get(v)
            if df is None:
                continue
            cf = p.coeffs(v)
            if max(cf) != 1 or any(e < 0 for e in cf):
                continue
            a, b = self.norm(df[0]), self.norm(df[1])
            A = pdiv(cf[1], b)
            if A is None:
                continue
            r0 = cf.get(0, ZERO)
            for sg, q in ((A, r0 + A*(a - b + 1)), (-A, r0 + A*a)):
                if self.nonneg(sg):
                    return self.nonneg(q) or self.quotient(q, d + 1)
        return False
    # ---- sample points: a point of the context with p < 0 settles 'not nonneg' without search
    def refuted(self, p):
        ms = self.memo.get('models')
        if ms is None:
            ms = [dict(x) for x in self.mseed]
            ms = [x for x in ms if self._mcheck(x)]
            self.memo['models'] = ms
            self.memo['mtry'] = 0
        for x in ms:
            v = self._meval(p, x)
            if v is not None and v < 0:
                return True
        if self.memo['mtry'] < 40:
            for k in range(3):
                self.memo['mtry'] += 1
                _RNG.seed(self.memo['mtry']*7919 + len(self.facts))
                x = {}
                v = self._meval(p, x, p)
                if v is None or not self._mcheck(x):
                    continue
                if len(ms) < 24:
                    ms.append(x)
                    self.mseed = ms
                v = self._meval(p, x)
                if v is not None and v < 0:
                    return True
        return False
    _busy = set()
    def _mval(self, v, x, up=None, depth=0):
        r = x.get(v)
        if r is not None:
            return r
        if depth > 12:
            return None
        if v in self.rw:
            r = self._meval(self.rw[v], x)
            if r is not None:
                x[v] = r
            return r
        d = DEFS.get(v)
        if d is not None:
            a, b = self._meval(d[0], x), self._meval(d[1], x)
            if a is None or not b:
                return None
            r = a//b
            x[v] = r
            return r
        bz = self._busy
        bz.add(v)
        lo = None
        for q in self.lo.get(v, ()):
            if not bz.isdisjoint(q.syms()):
                continue
            t = self._meval(q, x)
            if t is None:
                bz.discard(v)
                return None
            t = -((-t)//1)
            lo = t if lo is None or t > lo else lo
        hi = None
        for q in self.hi.get(v, ()):
            if not bz.isdisjoint(q.syms()):
                continue
            t = self._meval(q, x)
            if t is None:
                bz.discard(v)
                return None
            t = t//1
            hi = t if hi is None or t < hi else hi
        bz.discard(v)
        if lo is None:
            lo = -5 if hi is None else hi - 5
        if hi is None:
            hi = lo + _RNG.choice((0, 3, 1000))
        if lo > hi:
            return None
        c = _RNG.random()
        if up is not None and c < 0.7:
            r = hi if up else lo
        else:
            r = lo if c < 0.25 else hi if c < 0.4 else _RNG.randint(int(lo), int(min(hi, lo + 60))) if c < 0.85 else _RNG.randint(int(lo), int(hi))
        x[v] = int(r)
        return x[v]
    def _meval(self, p, x, bias=None):
        tot = 0
        for m, c in p.t.items():
            t = c
            for a, e in m:
                v = x.get(a)
                if v is None:
                    v = self._mval(a, x, None if bias is None else c < 0)
                    if v is None:
                        return None
                if e < 0 and v == 0:
                    return None
                t = t*(v**e if e > 0 else Fraction(1, v**-e))
            tot = tot + t
        return tot
    def _mcheck(self, x):
        for f in self.facts:
            v = self._meval(f, x)
            if v is None or v < 0:
                return False
        for f in self.neqs:
            v = self._meval(f, x)
            if v is None or v == 0:
                return False
        for s in list(x):
            if s in self.rw:
                if self._meval(self.rw[s], x) != x[s]:
                    return False
                continue
            if s in DEFS:
                a, b = self._meval(DEFS[s][0], x), self._meval(DEFS[s][1], x)
                if a is None or not b or a//b != x[s]:
                    return False
                continue
            for q in self.lo.get(s, ()):
                v = self._meval(q, x)
                if v is None or v > x[s]:
                    return False
            for q in self.hi.get(s, ()):
                v = self._meval(q, x)
                if v is None or v < x[s]:
                    return False
        return True
    def pos(self, p, z3=False):
        return self.nonneg(p - 1, z3)
    def _nn(self, p, d):
        if not p.t:
            return True
        if p.is_const():
            return p.const() >= 0
        self._budget -= 1
        if self._budget < 0 or d > 14:
            return False
        for f in self.facts:
            if len(f.t) == len(p.t):
                df = p - f
                if df.is_const() and df.const() >= 0:
                    return True
        # newest non-parameter symbol first; then parameters
        vs = sorted(p.syms(), reverse=True)
        vs = [v for v in vs if v not in self.pars] + [v for v in vs if v in self.pars]
        tried = 0
        for v in vs:
            if v in self.pars:
                break
            cf = p.coeffs(v)
            if any(e < 0 for e in cf):
                continue
            dg = max(cf)
            if dg == 1:
                c = cf[1]
                sg = self._sign(c, d)
                r0 = cf.get(0, ZERO)
                if sg >= 0 and sg != 2:
                    for b in self._b(self.lo, v):
                        if self._nn(r0 + c*b, d+1):
                            return True
                elif sg == -1:
                    for b in self._b(self.hi, v):
                        if self._nn(r0 + c*b, d+1):
                            return True
                else:
                    ok = False
                    for b in self._b(self.lo, v):
                        if self._nn(r0 + c*b, d+1):
                            ok = True
                            break
                    if ok:
                        for b in self._b(self.hi, v):
                            if self._nn(r0 + c*b, d+1):
                                return True
            elif dg == 2 and self._sign(cf[2], d) in (-1, 0):
                # concave: endpoints
                def at(b):
                    return cf.get(0, ZERO) + cf.get(1, ZERO)*b + cf[2]*b*b
                if any(self._nn(at(b), d+1) for b in self._b(self.lo, v)) and any(self._nn(at(b), d+1) for b in self._b(self.hi, v)):
                    return True
            elif dg == 2 and cf[2].is_const() and self._convex(cf, v, d):
                return True
            elif dg >= 2:
                # all higher coefs nonneg & v >= lo >= 0 : drop monotone
                if all(self._sign(c, d) in (0, 1) for e, c in cf.items() if e >= 1):
                    for b in self._b(self.lo, v):
                        if self._nn(b, d+1):
                            q = ZERO
                            for e, c in cf.items():
                                q = q + (c*ppow(b, e) if e else c)
                            if self._nn(q, d+1):
                                return True
            tried += 1
            if tried >= 2:
                break
        # shift parameters by their constant lower bounds: all coefficients nonneg?
        mp = {}
        ok = True
        for v in p.syms():
            l = [q.const() for q in self.lo.get(v, ()) if q.is_const()]
            if l:
                if max(l) != 0:
                    mp[v] = S(v) + C(max(l))
            else:
                ok = False
        if ok:
            try:
                q = p.substm(mp) if mp else p
                if all(c >= 0 for c in q.t.values()):
                    return True
            except NonMono:
                if all(c >= 0 for c in p.t.values()):
                    return True
        # numeric interval when all bounds constant
        lo_ok = self._ival(p)
        if lo_ok is not None and lo_ok >= 0:
            return True
        # facts
        if d < 8:
            facts = self.facts + self.deffacts(p)
            for f in facts:
                if f.is_const():
                    continue
                # cancel a negative monomial of p
                for m, c in p.t.items():
                    if c < 0 and m and m in f.t and f.t[m] < 0:
                        lam = Fraction(c)/f.t[m]
                        q = p - f*_n(lam)
                        if self._nn(q, d+4):
                            return True
                        break
            # weakened facts: drop positive factors of a fact's negative monomial
            for f in facts:
                if f.is_const() or len(f.t) > 3:
                    continue
                for m, c in p.t.items():
                    if c >= 0 or not m or any(e < 0 or not self._nnsym(a) for a, e in m):
                        continue
                    for mf, cfv in f.t.items():
                        if cfv < 0 and mf != m and len(mf) > len(m):
                            k = mmul(mf, tuple((a, -e) for a, e in m))
                            if k and all(e > 0 for a, e in k) and all(self._possym(a) for a, e in k):
                                f2 = f + Poly({mf: -cfv, m: cfv})
                                if self._nn(p - f2*_n(Fraction(c)/cfv), d+5):
                                    return True
            # scaled facts: monomial multiple of a fact by a nonneg symbol monomial
            for f in facts:
                if f.is_const():
                    continue
                for m, c in p.t.items():
                    if c >= 0 or not m:
                        continue
                    for mf, cfv in f.t.items():
                        if cfv < 0 and mf:
                            inv = tuple((a, -e) for a, e in mf)
                            k = mmul(m, inv)
                            if k and all(e > 0 for a, e in k) and all(self._nnsym(a) for a, e in k):
                                lam = Poly({k: _n(Fraction(c)/cfv)})
                                q = p - f*lam
                                if len(q.t) <= len(p.t) + 2 and self._nn(q, d+5):
                                    return True
            # eliminate parameters through their symbolic bounds
            for v in vs:
                if v not in self.pars:
                    continue
                cf = p.coeffs(v)
                if set(cf) <= {0, 1}:
                    c = cf[1]
                    sg = self._sign(c, d)
                    if sg in (0, 1):
                        for b in self._b(self.lo, v):
                            if self._nn(cf.get(0, ZERO) + c*b, d+3):
                                return True
                    elif sg == -1:
                        for b in self._b(self.hi, v):
                            if self._nn(cf.get(0, ZERO) + c*b, d+3):
                                return True
        return False
    def _convex(self, cf, v, d):
        """convex and monotone over the range: the minimum is at an end"""
        c0, c1, c2 = cf.get(0, ZERO), cf.get(1, ZERO), cf[2]
        for tab, sg in ((self.hi, -1), (self.lo, 1)):
            for b in self._b(tab, v):
                if self._nn((c2*b*2 + c1)*sg, d+1) and self._nn(c0 + c1*b + c2*b*b, d+1):
                    return True
        return False
    def deffacts(self, p):
        out = []
        for v in p.syms():
            d = DEFS.get(v)
            if d is not None:
                a, b = self.norm(d[0]), self.norm(d[1])
                out.append(a - b*S(v))
                out.append(b - 1 - a + b*S(v))
        return out
    def defbounds(self, v, which):
        """bounds of a floor symbol in this context"""
        a, b = DEFS[v]
        a, b = self.norm(a), self.norm(b)
        out = []
        if b.is_const():
            c = b.const()
            if which == 0:
                out.append((a - (c-1))*Fraction(1, c))
                iv = self._ival(a)
                if iv is not None:
                    out.append(C(iv//c))
                elif self.nonneg_raw(a):
                    out.append(ZERO)
            else:
                out.append(a*Fraction(1, c))
                iv = self._ival(-a)
                if iv is not None:
                    out.append(C((-iv)//c))
        else:
            nn = self.nonneg_raw(a)
            if which == 0 and nn:
                out.append(ZERO)
            if which == 1 and nn:
                out.append(a)
        return tuple(out)
    def nonneg_raw(self, p):
        b = getattr(self, '_budget', 400)
        self._budget = 100
        r = self._nn(p, 3)
        self._budget = b
        return r
    def _possym(self, v):
        return any((q.is_const() and q.const() >= 1) for q in self.lo.get(v, ()))
    def _nnsym(self, v):
        return any((q.is_const() and q.const() >= 0) for q in self.lo.get(v, ()))
    def _b(self, tab, v):
        bs = tab.get(v, ())
        if len(bs) > 1:
            bs = sorted(bs, key=lambda q: (q.is_const(), len(q.t)))
        return bs
    def _sign(self, c, d):
        """1 >=0 ; -1 <=0 ; 0 zero ; 2 unknown"""
        if c.is_const():
            v = c.const()
            return 1 if v > 0 else -1 if v < 0 else 0
        if d > 10:
            return 2
        if self._nn(c, d+2):
            return 1
        if self._nn(-c, d+2):
            return -1
        return 2
    def _ival(self, p):
        tot = 0
        for m, c in p.t.items():
            lo = hi = 1
            for a, e in m:
                if e < 0:
                    return None
                l = [q.const() for q in self.lo.get(a, ()) if q.is_const()]
                h = [q.const() for q in self.hi.get(a, ()) if q.is_const()]
                if not l or max(l) < 0:
                    return None
                if not h:
                    if c < 0:
                        return None
                    hh = None
                else:
                    hh = min(h)
                lo *= max(l)**e
                if hh is None:
                    hi = None
                elif hi is not None:
                    hi *= hh**e
            if c >= 0:
                tot += c*lo
            else:
                if hi is None:
                    return None
                tot += c*hi
        return tot
    def iszero(self, p, z3=False):
        """True / False / None"""
        p = self.norm(p)
        if p.is_zero():
            return True
        if p.is_const():
            return False
        p = self.content(p)
        if p.is_const():
            return False
        if self.nonneg(p - 1) or self.nonneg(-p - 1):
            return False
        if self.hints.get('odd'):
            # x = d*q with x odd and d even
            o = [(m, c) for m, c in p.t.items() if isinstance(c, Fraction) or c % 2]
            if len(o) == 1 and abs(o[0][1]) == 1 and all(e > 0 for a, e in o[0][0]) and len(p.t) == 2 and self.odd(Poly({o[0][0]: 1})) \
                    and all(e > 0 for m in p.t for a, e in m):
                return False
        for q in self.neqs:
            if q == p or q == -p:
                return False
        # gcd argument: content of nonconstant coefs
        g = 0
        c0 = 0
        for m, c in p.t.items():
            if isinstance(c, Fraction) or any(e < 0 for a, e in m):
                g = None
                break
            if m:
                g = _gcd(g, abs(c))
            else:
                c0 = c
        if g and c0 % g:
            return False
        if z3:
            if self.nonneg(p - 1, True) or self.nonneg(-p - 1, True):
                return False
            if self.nonneg(p, True) and self.nonneg(-p, True):
                return True
        return None
    # ---- z3
    def z3_solver(self, polys, fresh=0):
        # resource limit rather than time limit: the answer must not depend on the load of the machine
        import z3
        zc = z3.Context() if fresh else z3.main_ctx()
        s = z3.Solver(ctx=zc)
        s.set('timeout', 120000)
        s.set('rlimit', RLIMIT)
        if fresh:
            s.set('random_seed', fresh)
        vs = {}
        cache = _Z3E if not fresh else {}
        def var(a):
            v = vs.get(a)
            if v is None:
                v = cache.get(a)
                if v is None:
                    v = cache[a] = z3.Int('v%d' % a if isinstance(a, int) else 'v_%s' % (a,), zc)
                vs[a] = v
            return v
        def tr(p):
            r = cache.get(p)
            if r is not None:
                for a in p.syms():
                    var(a)
                return r
            # multiply out denominators
            den = 1
            for c in p.t.values():
                if isinstance(c, Fraction):
                    den = den*c.denominator//_gcd(den, c.denominator)
            ts = []
            for m, c in p.t.items():
                t = None
                for a, x in m:
                    if x < 0:
                        raise NonMono()
                    for _ in range(x):
                        t = var(a) if t is None else t*var(a)
                c = int(c*den)
                ts.append(z3.IntVal(c, zc) if t is None else t if c == 1 else c*t)
            e = z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.IntVal(0, zc)
            cache[p] = e
            return e
        exprs = [tr(p) for p in polys]
        done = set()
        changed = True
        while changed:
            changed = False
            for a in list(vs):
                if a in done:
                    continue
                done.add(a)
                changed = True
                for q in self.lo.get(a, ()):
                    try:
                        s.add(tr(S(a) - q) >= 0)
                    except NonMono:
                        pass
                for q in self.deffacts(S(a)):
                    try:
                        s.add(tr(q) >= 0)
                    except NonMono:
                        pass
                for q in self.hi.get(a, ()):
                    try:
                        s.add(tr(q - S(a)) >= 0)
                    except NonMono:
                        pass
            for f in self.facts:
                if any(x in vs for x in f.syms()) and ('f', f) not in done:
                    done.add(('f', f))
                    try:
                        s.add(tr(f) >= 0)
                        changed = True
                    except NonMono:
                        pass
        for f in self.neqs:
            if all(x in vs for x in f.syms()):
                try:
                    s.add(tr(f) != 0)
                except NonMono:
                    pass
        self._vs = vs
        return s, exprs
    def keepmodel(self, s):
        """a point found by the solver refutes later queries, too"""
        try:
            m = s.model()
            x = {a: m.eval(v, True).as_long() for a, v in self._vs.items()}
            for a in list(x):
                d = DEFS.get(a)
                if d is not None and (self._meval(d[1], x) or 0) <= 0:
                    return
            if self._mcheck(x):
                ms = self.memo.get('models')
                if ms is None:
                    ms = self.memo['models'] = [dict(y) for y in self.mseed if self._mcheck(y)]
                    self.memo['mtry'] = 0
                if len(ms) >= 40:
                    ms = self.memo['models'] = ms[:12] + ms[-16:]
                ms.append(x)
                self.mseed = ms
        except Exception:
            pass
    def z3_valid(self, p):
        import z3
        STAT['z3'] += 1
        t0 = time.time()
        try:
            for k in range(3):
                s, (e,) = self.z3_solver([p], k)
                s.add(e < 0)
                r = s.check()
                if r != z3.unknown:
                    break
            if r == z3.sat:
                self.keepmodel(s)
            return r == z3.unsat
        except NonMono:
            return False
        finally:
            STAT['z3t'] += time.time() - t0
    def z3_infeasible(self, ges=(), eqs=(), nes_any=()):
        """True if {ges >=0, eqs == 0, some of nes_any != 0} is unsatisfiable"""
        import z3
        STAT['z3'] += 1
        STAT['last'] = None
        t0 = time.time()
        try:
            allp = list(ges) + list(eqs) + list(nes_any)
            a = len(ges)
            b = a + len(eqs)
            for k in range(3):
                s, ex = self.z3_solver(allp, k)
                for e in ex[:a]:
                    s.add(e >= 0)
                for e in ex[a:b]:
                    s.add(e == 0)
                if nes_any:
                    s.add(z3.Or([e != 0 for e in ex[b:]]))
                r = s.check()
                if r != z3.unknown:
                    break
            STAT['last'] = str(r)
            return r == z3.unsat
        except NonMono:
            return False
        finally:
            STAT['z3t'] += time.time() - t0

    def floordiv(self, p, d):
        """floor(p/d) for d>0 provably; returns (Q poly); may create a new symbol"""
        p = self.norm(p)
        d = self.norm(P(d))
        if p.is_const() and d.is_const():
            return C(p.const()//d.const())
        k = ('fd', p, d)
        r = self.hints.get(k)
        if r is not None:
            return self.norm(r)
        q = pdiv(p, d)
        if q is not None and intval(q):
            self.hints[k] = q
            return q
        sm = split_multiple(p, d)
        if sm:
            A, B = sm
            if self.nonneg(B) and self.nonneg(d - 1 - B):
                self.hints[k] = A
                return A
            # B possibly off by one multiple
            for off in (1, -1):
                if self.nonneg(B - d*off) and self.nonneg(d*off + d - 1 - B):
                    r = A + off
                    self.hints[k] = r
                    return r
            if not A.is_zero() and not B.is_const() and B != p:
                r = A + self.floordiv(B, d)
                self.hints[k] = r
                return r
        Q = DEFK.get((p, d))
        if Q is None:
            i = newsym('fd')
            DEFS[i] = (p, d)
            Q = S(i)
            DEFK[(p, d)] = Q
        self.memo = {}
        self.hints[k] = Q
        return Q

_IV = {}
def intval(p):
    """integer-valued polynomial (coefficients may be fractions, as in u(u+1)/2)"""
    fr = False
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            fr = True
        for a, e in m:
            if e < 0:
                return False
    if not fr:
        return True
    r = _IV.get(p)
    if r is None:
        sy = sorted(p.syms())
        dg = [max(e for m in p.t for a, e in m if a == s) for s in sy]
        tot = 1
        for d in dg:
            tot *= d + 1
        r = tot <= 600
        if r:
            import itertools
            for pt in itertools.product(*[range(d + 1) for d in dg]):
                x = dict(zip(sy, pt))
                v = 0
                for m, c in p.t.items():
                    t = c
                    for a, e in m:
                        t = t*x[a]**e
                    v = v + t
                if v != int(v):
                    r = False
                    break
        _IV[p] = r
    return r

def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
