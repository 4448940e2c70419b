"""Symbolic real/complex values: finite sums  c * E(phase) * monomial * atoms, optionally under sums.
   E(u) = exp(2 pi i u).  c is a machine complex; equality is up to TOL relative."""
import cmath, math
from fractions import Fraction
from poly import *
from poly import _n, _gcd
import poly as _poly

TOL = 1e-11

class VErr(Exception):
    pass

# ---- sum binder ranges (inclusive)
SUMR = {}
def newbinder(name, lo, hi):
    i = newsym(name)
    SUMR[i] = (P(lo), P(hi))
    return i

class BD(dict):
    """bounds table falling back to the global binder ranges"""
    __slots__ = ('which', 'ctx')
    def get(self, k, d=()):
        try:
            return self[k]
        except KeyError:
            r = SUMR.get(k)
            if r is None:
                if k in _poly.DEFS:
                    self[k] = d
                    v = self.ctx.defbounds(k, self.which)
                    self[k] = v
                    return v
                return d
            v = (self.ctx.norm(r[self.which]),)
            self[k] = v
            return v
_oi = Ctx.__init__
def _init(self):
    _oi(self)
    self.lo = BD(); self.lo.which = 0; self.lo.ctx = self
    self.hi = BD(); self.hi.which = 1; self.hi.ctx = self
Ctx.__init__ = _init
_of = Ctx.fork
def _fork(self):
    c = _of(self)
    for nm, w in (('lo', 0), ('hi', 1)):
        b = BD(getattr(self, nm)); b.which = w; b.ctx = c
        setattr(c, nm, b)
    return c
Ctx.fork = _fork

# ---- atoms: (kind, ver, addr, conj)   kind 'z' complex element, 'd' real, 'a' accumulator placeholder, 'q' opaque real
ATOM = []
_AT = {}
def atom(kind, ver, addr, conj=False):
    k = (kind, ver, addr, conj)
    i = _AT.get(k)
    if i is None:
        i = len(ATOM)
        _AT[k] = i
        ATOM.append(k)
    return i
def aconj(i):
    k = ATOM[i]
    if k[0] == 'z':
        return atom('z', k[1], k[2], not k[3])
    return i

# ---- terms
TERM = []
_TT = {}
def term(phase, pm, atoms, sums):
    k = (phase, pm, atoms, sums)
    i = _TT.get(k)
    if i is None:
        i = len(TERM)
        _TT[k] = i
        TERM.append(k)
    return i
T1 = term(ZERO, (), (), ())

_RP = {}
def redphase(p):
    """reduce phase mod 1: (canonical Poly without constant, complex factor)"""
    r = _RP.get(p)
    if r is not None:
        return r
    d = {}
    f = 1.0
    for m, c in p.t.items():
        if not m:
            f = root(c)
            continue
        if any(e < 0 for a, e in m):
            d[m] = c
            continue
        if isinstance(c, Fraction):
            c = c - (c.numerator//c.denominator)
            if c:
                d[m] = c
    r = (Poly(d), f)
    _RP[p] = r
    return r
_ROOT = {}
def root(c):
    c = Fraction(c)
    c = c - (c.numerator//c.denominator)
    r = _ROOT.get(c)
    if r is None:
        if c*4 == int(c*4):
            r = (1, 1j, -1, -1j)[int(c*4)]
        else:
            # octant reduction for accuracy
            a = 2*math.pi*float(c)
            r = complex(math.cos(a), math.sin(a))
            if abs(r.real) < 1e-15: r = complex(0, r.imag)
            if abs(r.imag) < 1e-15: r = complex(r.real, 0)
        _ROOT[c] = r
    return r

def pmmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for s, e in b:
        v = d.get(s, 0) + e
        if v: d[s] = _n(v)
        else: del d[s]
    return tuple(sorted(d.items()))

_TM = {}
def tmul(i, j):
    k = (i, j) if i <= j else (j, i)
    r = _TM.get(k)
    if r is not None:
        return r
    p1, m1, a1, s1 = TERM[i]
    p2, m2, a2, s2 = TERM[j]
    if s1 and s2 and set(s1) & set(s2):
        # rename the common binders of the second factor
        mp = {}
        for b in s2:
            if b in s1:
                lo, hi = SUMR[b]
                nb = newbinder('sr', lo, hi)
                mp[b] = S(nb)
        v = tsubst(j, mp, rename=True)
        (j2, f2), = v.items()
        r0 = tmul(i, j2)
        return (r0[0], r0[1]*f2)
    ph, f = redphase(p1 + p2)
    at = a1 + a2 if not (a1 and a2) else tuple(sorted(a1 + a2))
    su = s1 + s2 if not (s1 and s2) else tuple(sorted(s1 + s2))
    r = (term(ph, pmmul(m1, m2), at, su), f)
    _TM[k] = r
    return r

def vconst(c):
    return {T1: c} if c else {}
def vadd(a, b):
    if not a: return b
    if not b: return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for k, c in b.items():
        o = r.get(k)
        if o is None:
            r[k] = c
        else:
            v = o + c
            if abs(v) < 1e-13*(abs(o) + abs(c)):
                del r[k]
            else:
                r[k] = v
    return r
def vneg(a):
    return {k: -c for k, c in a.items()}
def vsub(a, b):
    return vadd(a, vneg(b)) if b else a
def vscale(a, s):
    return {k: c*s for k, c in a.items()} if s else {}
def vmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and T1 in a:
        return vscale(b, a[T1])
    if len(b) == 1 and T1 in b:
        return vscale(a, b[T1])
    r = {}
    for i, c in a.items():
        for j, d in b.items():
            k, f = tmul(i, j)
            v = c*d*f
            o = r.get(k)
            if o is None:
                r[k] = v
            else:
                n = o + v
                if abs(n) < 1e-13*(abs(o) + abs(v)):
                    del r[k]
                else:
                    r[k] = n
    return r
_TC = {}
def vconj(a):
    r = {}
    for k, c in a.items():
        k2 = _TC.get(k)
        if k2 is None:
            p, m, at, s = TERM[k]
            ph, f = redphase(-p)
            k2 = (term(ph, m, tuple(sorted(aconj(x) for x in at)), s), f)
            _TC[k] = k2
        v = (c.conjugate() if isinstance(c, complex) else c)*k2[1]
        r[k2[0]] = r.get(k2[0], 0) + v
    return r
def vre(z):
    return vscale(vadd(z, vconj(z)), 0.5)
def vim(z):
    return vscale(vsub(z, vconj(z)), -0.5j)

def vpoly(p):
    """integer polynomial as a value"""
    r = {}
    for m, c in p.t.items():
        r[term(ZERO, m, (), ())] = float(c) if abs(c) < 2**53 else float(c)
    return r
def vE(p):
    ph, f = redphase(p)
    return {term(ph, (), (), ()): f}

def vinv(v):
    if len(v) == 1:
        (k, c), = v.items()
        p, m, at, s = TERM[k]
        if not at and not s:
            ph, f = redphase(-p)
            return {term(ph, tuple((a, -e) for a, e in m), (), ()): f/c}
    return None
def vsqrt(v):
    if len(v) == 1:
        (k, c), = v.items()
        p, m, at, s = TERM[k]
        if not at and not s and p.is_zero() and abs(complex(c).imag) == 0 and complex(c).real > 0:
            return {term(ZERO, tuple((a, _n(Fraction(e)/2)) for a, e in m), (), ()): math.sqrt(complex(c).real)}
    return None
def vangle(v):
    """value -> phase polynomial u with v = 2 pi u, or None"""
    d = {}
    for k, c in v.items():
        p, m, at, s = TERM[k]
        if at or s or not p.is_zero():
            return None
        if any(isinstance(e, Fraction) for a, e in m):
            return None
        c = complex(c)
        if abs(c.imag) > 0:
            return None
        x = c.real/(2*math.pi)
        fr = Fraction(x).limit_denominator(1 << 33)
        if abs(float(fr) - x) > 4e-16*abs(x) + 0:
            # tolerate a few ulps
            if abs(float(fr) - x) > 1e-15*abs(x):
                return None
        d[m] = _n(fr)
    return Poly(d)
def vcos(v):
    u = vangle(v)
    if u is None: return None
    return vscale(vadd(vE(u), vE(-u)), 0.5)
def vsin(v):
    u = vangle(v)
    if u is None: return None
    return vscale(vsub(vE(u), vE(-u)), -0.5j)

def subst_bounds(lohi, mp):
    return lohi

def tsubst(i, mp, rename=False):
    """substitute symbols in a term -> Value"""
    p, m, at, s = TERM[i]
    f = 1
    if p.t:
        ph, f = redphase(p.substm(mp))
    else:
        ph = p
    at2 = at
    if at:
        l = []
        ch = False
        for x in at:
            k = ATOM[x]
            ad = k[2]
            if isinstance(ad, Poly):
                na = ad.substm(mp)
                if na is not ad:
                    ch = True
                    x = atom(k[0], k[1], na, k[3])
            l.append(x)
        if ch:
            at2 = tuple(sorted(l)) if len(l) > 1 else tuple(l)
    s2 = s
    extra = None
    if s:
        l = []
        for b in s:
            if b in mp:
                if not rename:
                    raise VErr('substituting a bound symbol')
                (mm, cc), = mp[b].t.items()
                l.append(mm[0][0])
            else:
                # ranges depending on substituted symbols: rename binder
                lo, hi = SUMR[b]
                nl, nh = lo.substm(mp), hi.substm(mp)
                if nl is not lo or nh is not hi:
                    nb = newbinder('ss', nl, nh)
                    mp2 = {b: S(nb)}
                    v = tsubst(i, mp2, rename=True)
                    (i2, f2), = v.items()
                    return vscale(tsubst(i2, mp, rename), f2)
                l.append(b)
        s2 = tuple(sorted(l))
    m2 = m
    if m and any(a in mp for a, e in m):
        keep = []
        extra = {T1: 1.0}
        for a, e in m:
            if a in mp:
                q = mp[a]
                if len(q.t) == 1:
                    (mm, cc), = q.t.items()
                    keep2 = tuple((x, _n(Fraction(y)*e)) for x, y in mm)
                    extra = vmul(extra, {term(ZERO, keep2, (), ()): float(cc)**float(e)})
                elif isinstance(e, int) and e > 0:
                    for _ in range(e):
                        extra = vmul(extra, vpoly(q))
                elif q.is_zero():
                    raise VErr('division by zero')
                else:
                    raise VErr('non-monomial substitution in a denominator')
            else:
                keep.append((a, e))
        m2 = tuple(keep)
    r = {term(ph, m2, at2, s2): f}
    if extra is not None:
        r = vmul(extra, r)
    return r

def vsubst(v, mp, rename=False):
    r = {}
    for i, c in v.items():
        for k, f in tsubst(i, mp, rename).items():
            x = c*f
            o = r.get(k)
            if o is None:
                r[k] = x
            else:
                n = o + x
                if abs(n) < 1e-13*(abs(o) + abs(x)):
                    del r[k]
                else:
                    r[k] = n
    return r

def tsyms(i):
    p, m, at, s = TERM[i]
    r = p.syms()
    for a, e in m:
        r.add(a)
    for x in at:
        if isinstance(ATOM[x][2], Poly):
            r |= ATOM[x][2].syms()
    for b in s:
        lo, hi = SUMR[b]
        r |= lo.syms() | hi.syms()
    return r
def vsyms(v):
    r = set()
    for i in v:
        r |= tsyms(i)
    return r

def vsum(v, b):
    """sum over binder b (range in SUMR)"""
    r = {}
    lo, hi = SUMR[b]
    n = hi - lo + 1
    for i, c in v.items():
        p, m, at, s = TERM[i]
        if b in tsyms(i):
            if any(a == b for a, e in m):
                raise VErr('sum over polynomial weight')
            k = term(p, m, at, tuple(sorted(s + (b,))))
            r[k] = r.get(k, 0) + c
        else:
            for k, f in vmul({i: c}, vpoly(n)).items():
                r[k] = r.get(k, 0) + f
    return r

def vnorm(v, ctx):
    """apply the context's rewrites; drop terms whose sums have empty range"""
    if ctx.rw:
        v = vsubst(v, ctx.rw)
    return v

def vclose(a, b, tol=TOL):
    d = vsub(a, b)
    if not d:
        return True
    sc = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [0])
    return all(abs(c) <= tol*sc for c in d.values())

def vstr(v, n=12):
    out = []
    for i, c in list(v.items())[:n]:
        p, m, at, s = TERM[i]
        x = '(%.6g%+.6gi)' % (complex(c).real, complex(c).imag)
        if p.t: x += ' E[%r]' % p
        if m: x += ' ' + '*'.join('%s^%s' % (SYMS[a], e) for a, e in m)
        for y in at:
            k = ATOM[y]
            x += ' %s%s@%s[%r]' % (k[0], '~' if k[3] else '', k[1], k[2])
        if s: x += ' sum{%s}' % ','.join('%s:%r..%r' % (SYMS[b], SUMR[b][0], SUMR[b][1]) for b in s)
        out.append(x)
    return ' + '.join(out) + (' ...(%d)' % len(v) if len(v) > n else '') if out else '0'
