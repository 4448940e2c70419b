#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> : decides one property of /repo's current working tree (see DESIGN.md)."""
import os, sys, time, json, shutil, subprocess, traceback, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
T0 = time.time()
if os.environ.get('PYTHONHASHSEED') != '0':
    # same obligations in the same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import build, replay
from build import BuildError

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BACKS = ['SSE2', 'AVX', 'AVX2']
MODES = ['fwd', 'fwd0', 'fwdu', 'fwdn', 'inv', 'inv0', 'invu', 'invn']
POST = {'post', 'pre', 'match', 'cmp', 'expand', 'terminate', 'null', 'race'}
SOFT = {'overflow', 'race?'}   # not proved, which is less than refuted
SAFE = {'bounds', 'overflow', 'null', 'readonly', 'freed', 'divzero', 'alias', 'trap'}

def p2units(backs=BACKS, modes=MODES, lam=range(0, 25)):
    big = sorted(lam, key=lambda l: -((l > 18 and l % 2) * 100 + l))
    return [('complex', b, 'complex', 1 << l, m) for l in big for b in backs for m in modes]

FWD, INV = MODES[:4], MODES[4:]
DCTM = ['fwd', 'fwd0', 'fwdn', 'inv', 'inv0', 'invn']
LS = ['L0'] + ['L%d' % k for k in range(29, 1, -1)]
def anyunits(kind, modes, ns=('*',)):
    return lambda backs: [(kind, b, kind, n, m) for n in ns for b in backs for m in modes]
def both(*fs):
    return lambda backs: [u for f in fs for u in f(backs)]
VALUES = {'pre', 'alias', 'overflow'}   # a value computed from an overflowing index is no value

ALLU = both(p2units, anyunits('mixed', MODES), anyunits('real', MODES), anyunits('dct', DCTM), anyunits('bluestein', MODES, LS))

class Everything:
    """set of all contracts"""
    def __contains__(self, c):
        return True

def facunits(backs):
    import fac
    return ([('factory', 'ALL') + e for e in fac.entries()] + [('fdel', b, k) for b in backs for k in fac.DCLS] +
            p2units(backs, ['fwd0']) + both(anyunits('mixed', ['fwd0']), anyunits('real', ['fwd0']), anyunits('dct', ['fwd0']), anyunits('bluestein', ['fwd0'], LS))(backs))

def lifeunits(fail):
    def f(backs):
        import life
        return [('life', b, k, n, fail) for k in life.INNER for n in reversed(life.LATER[k]) for b in backs]
    return f

def roundunits(backs):
    import roundtrip
    return [('round', backs[0], k) + p for k in roundtrip.KINDS for p in roundtrip.KINDS[k]]

def cxops():
    import cx
    return cx.OPS

PROPS = {
 'C02': dict(units=anyunits('mixed', MODES), kinds=VALUES, replay='values'),
 'C03': dict(units=anyunits('real', FWD), kinds=VALUES, replay='values'),
 'C04': dict(units=anyunits('real', INV), kinds=VALUES, replay='values'),
 'C05': dict(units=anyunits('dct', DCTM), kinds=VALUES, replay='values'),
 'C06': dict(units=anyunits('bluestein', MODES, LS), kinds=VALUES, replay='values'),
 'C01': dict(units=lambda b: p2units(b), kinds=VALUES, replay='values'),
 'C07': dict(units=ALLU, kinds=SAFE, replay='asan'),
 'C13': dict(units=lambda backs: [('cx', b, o) for b in backs for o in cxops()], kinds=VALUES | {'bounds'}, replay='cx', tus=['cx']),
 'C10': dict(units=facunits, kinds=VALUES | {'post', 'trap', 'terminate', 'bounds', 'divzero'}, replay='fac', tus=build.KERN + ['client', 'factory', 'otfft'], assumed=Everything()),
 'C09': dict(units=both(lifeunits(False), ALLU), kinds={'post', 'frame', 'readonly', 'terminate'}, replay='hist'),
 'C11': dict(units=lifeunits(True), kinds={'release', 'leak', 'freed', 'exception', 'terminate'}, replay='fault'),
 'C12': dict(units=both(roundunits, ALLU), kinds=VALUES, replay='round'),
 'C08': dict(units=ALLU, kinds={'race', 'race?'}, replay='threads'),
}

TRUST = ['clang 18 front end and the LLVM passes always-inline, sroa, early-cse, simplifycfg, loop-simplify (C++ to IR)',
         'the engine under /verif/engine (symbolic execution, loop summarisation, matching) and Z3 4.8.12 for residual integer queries',
         'double arithmetic treated as real arithmetic (rounding is outside the proof); constants compared to 1e-9',
         'cos, sin, sqrt, exp as the mathematical functions; posix_memalign/free/operator new/delete as specified',
         'OpenMP runtime: static and dynamic loops partition the iteration space, barriers are barriers, any team size']

def log(*a):
    print(*a, flush=True)

def ufmt(u):
    return '%s/%s %s' % (u[0], u[1], ' '.join(str(x) for x in u[2:]))

EVEN = [2, 4, 6, 8, 10, 12, 14, 16, 18, 22, 26, 30, 32, 64, 66, 96, 98, 100, 128, 202, 250, 256, 512, 1000, 1024, 2048, 2310, 4096, 8192, 16384, 30030, 32766, 32768, 32770,
        46342, 49152, 65536, 65538, 92682, 98304, 100006, 131072, 180180, 196608, 262144, 393216, 524288, 1 << 20]
ANY = sorted(set(EVEN + [1, 3, 5, 7, 9, 11, 15, 21, 25, 27, 35, 45, 49, 63, 75, 77, 81, 105, 121, 125, 143, 169, 225, 343, 1001, 1155, 2401, 3125, 6561, 15625, 16807, 32767, 32769, 32771,
              46341, 46349, 50421, 65537, 78125, 92698, 98415, 100003, 117649]))
MAXN = 1 << 24

def lengths(u, why):
    """concrete lengths covered by a unit: those of the contracts that failed, others"""
    kind, n = u[2], u[3]
    if not isinstance(n, str):
        return ([n], []) if any(c.startswith('obj|') and c.split('|')[3] == str(n) for c in why) else ([], [n])
    near = []
    for c in why:
        m = c.split('|')
        if m[0] == 'obj' and m[3].isdigit():
            k = int(m[3])
            near += {'real': [k] if m[1] == 'RFFT' else [2*k], 'dct': [k], 'bluestein': [max(k//4 + 1, 1), k//2], 'mixed': []}.get(kind, [k])
    if n[0] == 'L':
        L = 1 << int(n[1:])
        lo, hi = (L//4 + 1 if L > 2 else 1), max(L//2, 1)
        c = [lo, hi, (lo + hi)//2, lo + (hi - lo)//3] + [x for x in ANY if lo <= x <= hi]
        return [x for x in near if lo <= x <= hi], c
    even = kind in ('real', 'dct')
    return near, EVEN if even else [x for x in ANY if x & (x - 1)]

def replay_cases(prop, bad, threads=False):
    """concrete cases for suspicious units; bad: (unit, contracts that failed, directly failing). Cheapest first; lengths of contracts that
    failed, units that failed themselves and units that only rely on contracts that failed take turns"""
    qs = ({}, {}, {})
    seen = {}
    for u, why, own in bad:
        _, b, kind, _, m = u
        near, far = lengths(u, why)
        for i, n in [(0, n) for n in near] + [(1 if own else 2, n) for n in far]:
            if n > MAXN:
                continue
            for b2 in [b, 'AVX2'] if b == 'AVX' else [b]:
                k = ({'mixed': 'complex'}.get(kind, kind), n, b2)
                qs[i].setdefault(k, set()).add(m)
    kn = ('complex', 'real', 'dct', 'bluestein')
    qs = [sorted(((k, tuple(x for x in replay.MODE if x in ms)) for k, ms in q.items()), key=lambda c: (kn.index(c[0][0]) if i == 0 else 0, c[0][1], kn.index(c[0][0])))
          for i, q in enumerate(qs)]
    out = {}
    for i in range(max(map(len, qs))):
        for q in qs:
            if i < len(q):
                k, ms = q[i]
                for t in ((8,) if k[1] < 2048 else (8, 3)):
                    for d in (0, SEED) if threads else (None,):
                        out[k + (ms, SEED, t) + (() if d is None else (d,))] = 1
    return list(out)

def main(prop):
    P = PROPS[prop]
    work = tempfile.mkdtemp(prefix='w-%s-' % prop, dir=mkdir(HERE + '/.work'))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    try:
        rc = decide(prop, P, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

def mkdir(p):
    os.makedirs(p, exist_ok=True)
    return p

def known():
    p = HERE + '/known-findings'
    return [l.rstrip('\n') for l in open(p)] if os.path.exists(p) else []

def why_kern(pr, b, c):
    import proof
    r = pr.res.get(proof.ckey(b, c), {})
    return '%s %s %s' % (r.get('status'), r.get('msg', ''), r.get('fails', [])[:2])

def judge(P, pr, units):
    """units not discharged: (unit, reason, definite mismatch)"""
    bad = []
    for u in units:
        r = pr.res.get(u)
        if r is None:
            bad.append((u, 'not run', False)); continue
        fl = [f for f in r.get('fails', ()) if f[0] in P['kinds']]
        if fl:
            # a wrong transform need not break a round trip: the replay decides
            bad.append((u, '; '.join('%s: %s (in %s)' % (f[0], f[1], f[2]) for f in fl[:3]), fl[0][0] not in SOFT and P['replay'] != 'round'))
        elif r['status'] != 'ok':
            bad.append((u, '%s %s (in %s)' % (r['status'], r['msg'], '/'.join(x[:80] for x in r.get('where', ()))),
                        r['status'] == 'fail' and r.get('kind') == 'post' and P['replay'] in ('values', 'cx', 'fac', 'hist') and (P['replay'] != 'hist' or u[0] == 'life')))
    return bad

def do_replay(prop, P, work, units, rp, until):
    """concrete cases for suspicious units on the real code; -> failing case or None"""
    if P['replay'] == 'cx':
        out = replay.CxReplay(work).run(SEED)
        rp += out
        return next((x for x in out if x[0]), None)
    if P['replay'] in ('hist', 'fault'):
        return life_replay(P['replay'], work, units, rp, until)
    if P['replay'] == 'fac':
        if not units or any(x[0][0] in ('factory', 'fdel') for x in units):
            out = replay.FacReplay(work).run()
            rp += out
            v = next((x for x in out if x[0]), None)
            if v:
                return v
        units = [x for x in units if x[0][0] not in ('factory', 'fdel')]
    cases = replay_cases(prop, [u for u in units if u[0][0] not in ('round', 'life')], P['replay'] == 'threads')
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if P['replay'] == 'asan' else []
    R = replay.Replay(work, '-O1' if san else '-O2', san, 'round' if P['replay'] == 'round' else 'replay')
    if not R.build():
        log('replay build failed', R.err[:2000])
        return None
    while cases and time.time() < until:
        chunk, cases = cases[:8], cases[8:]
        if os.environ.get('VERIF_VERBOSE'):
            log('%.0f' % (time.time() - T0), chunk[0], len(cases))
        out = R.cases(chunk)
        rp += out
        for x in out:
            if x[0]:
                return x
    return None

def life_replay(what, work, units, rp, until):
    """histories around the suspicious units on the real code"""
    cs = {}
    for u, why, own in units:
        b, k = u[1], u[2]
        for c in {'FFT0': 'crdb', 'complex': 'c', 'mixed': 'c', 'bluestein': 'b', 'real': 'rd', 'dct': 'd'}[k]:
            cs[(c, 'AVX2' if b == 'AVX' else b, SEED)] = 1
    if not cs:
        return None
    R = replay.LifeReplay(work, what)
    if not R.build():
        log('replay build failed', R.err[:2000])
        return None
    cs = list(cs)
    while cs and time.time() < until:
        out = R.cases(cs[:4])
        cs = cs[4:]
        rp += out
        v = next((x for x in out if x[0]), None)
        if v:
            return v
    if what == 'hist':
        # state shared by objects of one process: many lengths one after the other, against an independent reference
        R = replay.Replay(work)
        if R.build():
            for r in ((2, 34), (32766, 32774)):
                x = R.survey(*r)
                rp.append(x)
                if x[0]:
                    return x
    return None

def undecided(prop, P, work, rdir, why):
    rp = []
    cand = P['units'](BACKS)
    step = max(1, len(cand)//48)
    viol = do_replay(prop, P, work, [(u, (), True) for u in cand[::step]], rp, T0 + 540)
    rc = 0
    if viol is not None:
        path = '%s/%s-%d.txt' % (rdir, prop, os.getpid())
        with open(path, 'w') as f:
            f.write('failing input for property %s on the real code\ncase: %r\n%s\n' % (prop, viol[2], viol[1]))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    with open('%s/evidence/%s.json' % (HERE, prop), 'w') as f:
        json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'other', 'assumptions': TRUST, 'wall_s': round(time.time() - T0, 1), 'violations': rc,
                   'coverage': {'obligations': 0, 'discharged': 0, 'replayed_cases': len(rp), 'checker_cmd': 'python3-vt check.py ' + prop,
                                'explanation': 'no verification conditions could be generated (%s); bounded replay only' % why[:300]}}, f, indent=1)
    return rc

def decide(prop, P, work):
    import proof, poly
    rdir = mkdir(HERE + '/.work/replays')
    try:
        tus = P.get('tus') or build.KERN + ['client']
        same = build.identical(work + '/ir', 'AVX', 'AVX2', tus)
        backs = ['SSE2', 'AVX'] if same else BACKS
        build.build(work + '/ir', tus, backs)
    except BuildError as x:
        # no IR, so no obligations: replay what the property speaks about and say so
        log('the current tree does not compile to IR:\n' + str(x)[:3000])
        return undecided(prop, P, work, rdir, str(x))
    tb = time.time() - T0
    q = TIER == 'quick'
    pr = proof.Proof(work + '/ir', backs, deadline=T0 + (360 if q else 4000), verbose=bool(os.environ.get('VERIF_VERBOSE')), tus=P.get('tus'))
    units = P['units'](backs)
    pr.assumed = P.get('assumed', set())
    pr.run(units, 200 if q else 1500)
    bad = judge(P, pr, units)
    susp = pr.suspects(units)
    rp = []
    viol = None
    if bad or susp:
        log('%d of %d units not discharged; %d more rely on contracts that failed (%d contracts)' % (len(bad), len(units), len(susp), len(pr.broken)))
        for u, why, d in bad[:10]:
            log('  ', ufmt(u), '::', why[:400])
        for b, c in sorted(pr.broken)[:10]:
            r = pr.res[proof.ckey(b, c)]
            log('   contract', c, '::', r['status'], r.get('msg', '')[:300], r.get('fails', [])[:1])
        viol = do_replay(prop, P, work, [(u, sorted(pr.reach(u)), True) for u, w, d in bad] + [(u, sorted(pr.reach(u)), False) for u in susp], rp, T0 + (540 if q else 6000))
        if viol is None and susp:
            pr.deadline = T0 + (720 if q else 9000)
            pr.inline_broken(units, 150 if q else 1500)
            bad = judge(P, pr, units)
            for u, why, d in bad[:10]:
                log('  ', ufmt(u), '::', why[:400])
        elif viol is not None:
            bad += [(u, 'relies on contracts that failed: %s: %s' % (w[0], why_kern(pr, u[1], w[0])), True) for u, w in susp.items()]
    tp = time.time() - T0
    if os.environ.get('VERIF_PROF'):
        agg = {}
        for k, r in pr.res.items():
            g = agg.setdefault(k[0] + ('|' + k[2].split('|')[1] if k[0] == 'obj' else '|' + k[2].split('|')[0][:12] if k[0] in ('kern', 'mix') else ''), [0, 0, ''])
            w = r.get('wall', 0)
            g[0] += w
            g[1] += 1
            agg.setdefault('max', []).append((w, ufmt(k)))
        log(sorted(((round(v[0], 1), v[1], k) for k, v in agg.items() if k != 'max'), reverse=True)[:40])
        log(*['%.1f %s\n' % x for x in sorted(agg['max'], reverse=True)[:40]])
    nob = sum(sum(r.get('count', {}).values()) for r in pr.res.values())
    nfail = sum(1 for u, w, d in bad)
    kern_ok = sorted({(k[1], ' '.join(map(str, k[2:]))) for k, r in pr.res.items() if k[0] in ('kern', 'obj', 'mix', 'cx', 'factory', 'fdel', 'life') and r['status'] == 'ok' and not r.get('fails')})
    kern_bad = sorted({(k[1], ' '.join(map(str, k[2:]))) for k, r in pr.res.items() if k[0] in ('kern', 'obj', 'mix', 'cx', 'factory', 'fdel', 'life') and (r['status'] != 'ok' or r.get('fails'))})
    fns = sorted({f for r in pr.res.values() for f in r.get('fns', ())})
    used = {c for r in pr.res.values() for c in r.get('used', ())}
    kinds = {}
    for r in pr.res.values():
        for k, c in r.get('count', {}).items():
            kinds[k] = kinds.get(k, 0) + c
    z3n = sum(r.get('stat', {}).get('z3', 0) for r in pr.res.values())
    z3t = sum(r.get('stat', {}).get('z3t', 0.0) for r in pr.res.values())
    cmpn = {k: sum(r.get('cmp', {}).get(k, 0) for r in pr.res.values()) for k in ('cells', 'cases', 'coef', 'cover')}
    proved = not bad
    definite = [b for b in bad if b[2]]
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof' if proved else 'other',
          'coverage': {'obligations': nob + nfail, 'discharged': nob - sum(len(r.get('fails', ())) for r in pr.res.values()),
                       'checker_cmd': 'python3-vt check.py ' + prop, 'trusted_base': TRUST,
                       'backends': ['SSE2', 'AVX', 'AVX2 (same token sequence as AVX after renaming its namespace: same obligations)'] if same else BACKS, 'units': len(units), 'units_proved': len(units) - nfail,
                       'functions_under_contract': len(kern_ok), 'contracts': ['%s %s' % k for k in kern_ok], 'contracts_dropped': ['%s %s' % k for k in kern_bad],
                       'functions_executed_by_the_verifier': len(fns), 'obligations_by_kind': kinds, 'symbolic_cells_compared': cmpn,
                       'z3_queries': z3n, 'z3_seconds': round(z3t, 1), 'verifier_cpu_seconds': round(sum(r.get('wall', 0) for r in pr.res.values()), 1),
                       'build_seconds': round(tb, 1), 'proof_seconds': round(tp - tb, 1),
                       'bounded_stand_ins': [{'unit': ufmt(u), 'why': w[:300]} for u, w, d in bad][:200], 'replayed_cases': len(rp),
                       'explanation': 'contract-based deductive verification of the LLVM IR of the current sources; ' +
                       ('every obligation discharged' if proved else 'units listed under bounded_stand_ins were not decided by the verifier and only replayed on concrete inputs')},
          'assumptions': TRUST + ['contract taken on trust, its body not verified: ' + c for c in sorted(c for c in used if c in pr.assumed)], 'wall_s': round(time.time() - T0, 1), 'violations': 0}
    rc = 0
    if viol is not None:
        path = '%s/%s-%d.txt' % (rdir, prop, os.getpid())
        with open(path, 'w') as f:
            f.write('failing input for property %s on the real code\ncase: %r\n%s\n\nunits not discharged by the verifier:\n' % (prop, viol[2], viol[1]))
            for u, w, d in bad[:60]:
                f.write('%s :: %s\n' % (ufmt(u), w))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif definite:
        path = '%s/%s-%d.txt' % (rdir, prop, os.getpid())
        with open(path, 'w') as f:
            f.write('failed obligations for property %s (no failing input found)\n' % prop)
            for u, w, d in bad[:60]:
                f.write('%s :: %s\n' % (ufmt(u), w))
            for x in rp[:10]:
                f.write('\nreplayed: %s\n' % x[1])
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    ev['violations'] = rc
    with open('%s/evidence/%s.json' % (HERE, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known():
        if l.startswith('known: property=%s ' % prop):
            log('KNOWN-FINDING: ' + l[7:])
    log('%s %s: %d units, %d proved, %d obligations, %d contracts, %.0f s' % (prop, 'HELD' if rc == 0 else 'BROKEN', len(units), len(units) - nfail, nob, len(kern_ok), time.time() - T0))
    return rc

if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1]))
    except Exception:
        traceback.print_exc()
        sys.exit(2)
