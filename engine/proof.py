"""Proof runs: verify client units and, to a fixed point, every contract they rely on."""
import os, sys, time, gc
sys.setrecursionlimit(20000)
import poly, build
from val import *
import mem, ex, spec, kern, client, objs, mixed, cx, fac, life, roundtrip, pool, irparse
from mem import Fail, NeedSplit
from ex import Unsup

TL = 240
def ckey(back, c):
    """the proof task that verifies contract c"""
    return (c.split('|')[0] if c.startswith(('obj|', 'mix|')) else 'kern', back, c)
def iscontract(k):
    return k[0] in ('kern', 'obj', 'mix')
class Proof:
    def __init__(self, irdir, backs, jobs=None, deadline=None, verbose=False, tus=None):
        self.ir = irdir
        tus = tus or build.KERN + ['client']
        self.mods = {b: client.load(irdir, b, [t for t in tus if t not in build.FAC]) for b in backs}
        if any(t in build.FAC for t in tus):
            self.mods['ALL'] = client.load(irdir, 'ALL', build.FAC)
        self.jobs = jobs
        self.deadline = deadline
        self.verbose = verbose
        self.res = {}            # key -> result
        self.skip = {b: set() for b in self.mods}
        self.broken = set()
        self.assumed = set()     # contracts taken on trust (none unless a check says so)
        gc.collect(); gc.freeze()
    def work(self, key):
        kind, back = key[0], key[1]
        mods = self.mods[back]
        skip = self.skip[back]
        e = None
        ex.CUR.clear()
        try:
            if kind == 'kern':
                name = key[2]
                k = kern.kparse(name)
                e = kern.verify(mods, k, kern.contracts(skip=skip, self_=name))
            elif kind == 'obj':
                e = objs.verify(mods, key[2], skip, client.EXT)
            elif kind == 'mix':
                e = mixed.verify(mods, key[2], skip, client.EXT, objs.contracts((), skip))
            elif kind == 'factory':
                e = fac.Ex(mods)
                fac.u_factory(e, key[2:])
            elif kind == 'fdel':
                e = fac.Ex(mods)
                fac.u_deleter(e, back, key[2])
            elif kind == 'life':
                e = client.mkex(mods, skip, life.INNER[key[2]])
                life.u_life(e, *key[2:])
            elif kind == 'round':
                e = ex.Exec([], {})
                roundtrip.u_round(e, *key[2:])
            elif kind == 'cx':
                e = cx.mkex(mods)
                cx.u_cx(e, key[2])
            else:
                e = client.mkex(mods, skip, client.CLASSES[kind])
                client.UNIT[kind](e, *key[2:])
            st = {'status': 'ok', 'msg': ''}
        except Fail as x:
            st = {'status': 'fail', 'kind': getattr(x, 'kind', None) or str(x).split(':')[0], 'msg': str(x)[:800]}
        except (Unsup, NeedSplit, VErr, poly.NonMono, irparse.IRError, RecursionError) as x:
            st = {'status': 'undecided', 'msg': '%s: %s' % (type(x).__name__, str(x)[:600])}
        if e is None:
            e = ex.CUR.get('ex')
        st['count'] = dict(e.count) if e else {}
        st['fails'] = list(e.fails) if e else []
        st['used'] = sorted(e.used_contracts) if e else []
        st['fns'] = sorted(e.fn_seen) if e else []
        st['assumed'] = sorted(e.assumed) if e else []
        st['stat'] = dict(poly.STAT)
        st['cmp'] = dict(spec.CMPSTAT)
        if e and st['status'] != 'ok':
            st['where'] = list(e._stk[-3:])
        return st
    def suspects(self, units):
        """units that rely, directly or not, on a contract whose body was not verified"""
        bad = set(self.broken)
        while True:
            n = len(bad)
            for k, r in self.res.items():
                if iscontract(k) and any((k[1], c) in bad for c in r.get('used', ())):
                    bad.add((k[1], k[2]))
            if len(bad) == n:
                break
        return {u: [c for c in self.res[u].get('used', ()) if (u[1], c) in bad] for u in units
                if u in self.res and any((u[1], c) in bad for c in self.res[u].get('used', ()))}
    def reach(self, u):
        """contracts a unit relies on that failed or rely on one that failed"""
        bad = set(self.broken)
        n = -1
        while len(bad) != n:
            n = len(bad)
            for k, r in self.res.items():
                if iscontract(k) and any((k[1], c) in bad for c in r.get('used', ())):
                    bad.add((k[1], k[2]))
        out, todo = set(), [u]
        while todo:
            k = todo.pop()
            for c in self.res.get(k, {}).get('used', ()):
                if (u[1], c) in bad and c not in out:
                    out.add(c)
                    todo.append(ckey(u[1], c))
        return out
    def inline_broken(self, units, tl=TL):
        """second phase: forget contracts that failed; their bodies are executed in the callers instead"""
        for b, c in self.broken:
            self.skip[b].add(c)
        again = set(self.suspects(units))
        for k in list(self.res):
            if k in again or (iscontract(k) and (k[1], k[2]) not in self.broken and
                              any((k[1], c) in self.broken for c in self.res[k].get('used', ()))):
                del self.res[k]
        return self.run(units, tl, 2)
    def run(self, units, tl=TL, phase=1):
        """units: list of (kind, back, ...)"""
        queue = []
        queued = set()
        def add(u):
            if u not in queued and u not in self.res:
                queued.add(u)
                return [(u, tl)]
            return []
        for u in units:
            queue += add(u)
        users = {}
        def done(key, r):
            queued.discard(key)
            self.res[key] = r
            more = []
            back = key[1]
            if self.verbose:
                print(r['status'], key, r.get('wall'), r.get('msg', '')[:200], r.get('fails')[:1] if r.get('fails') else '', flush=True)
            for c in r.get('used', ()):
                users.setdefault((back, c), set()).add(key)
                k2 = ckey(back, c)
                if c in self.assumed:
                    continue
                if c in self.skip[back]:
                    more += again(key)
                else:
                    more += add(k2)
            if iscontract(key) and (r['status'] != 'ok' or r.get('fails')):
                if phase == 1:
                    self.broken.add((back, key[2]))
                    return more
                self.skip[back].add(key[2])
                for u in users.get((back, key[2]), ()):
                    if self.skip[back] and u in self.res:
                        more += again(u)
            return more
        def again(u):
            if iscontract(u) and u[2] in self.skip[u[1]]:
                return []
            self.res.pop(u, None)
            return add(u)
        pool.run_units(queue, self.work, done, self.jobs, deadline=self.deadline)
        return {u: self.res[u] for u in units if u in self.res}
