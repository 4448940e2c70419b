"""Replays suspected violations against the real library, compiled from /repo's current sources."""
import os, subprocess, concurrent.futures as cf
import build
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FL = ['-std=c++11', '-frounding-math', '-fno-finite-math-only', '-fsignaling-nans', '-fpermissive', '-fopenmp', '-DNDEBUG', '-DUNIX',
      '-DBUILD_X64', '-msse', '-msse2', '-mfpmath=sse', '-w']
BN = {'SSE2': 1, 'AVX': 2, 'AVX2': 3}
MODE = ['fwd', 'fwd0', 'fwdu', 'fwdn', 'inv', 'inv0', 'invu', 'invn']
class Replay:
    def __init__(self, work, opt='-O2', san=(), main='replay', ldflags=()):
        self.main = main
        self.ld = list(ldflags)
        self.dir = os.path.join(work, 'replay' + ('-san' if san else ''))
        self.opt = opt
        self.san = list(san)
        self.exe = None
        self.err = None
    def build(self):
        if self.exe or self.err:
            return self.exe
        os.makedirs(self.dir, exist_ok=True)
        build.config(self.dir)
        R = build.REPO
        inc = ['-I%s/cfg' % self.dir, '-I%s/inc' % R, '-I%s/src' % R]
        allb = [x for b in build.BACK.values() for x in b if x.startswith('-D')]
        jobs = []
        for b, fl in build.BACK.items():
            for t in build.KERN:
                jobs.append((['g++'] + FL + self.san + [self.opt] + fl + ['-DOTFFT_NAMESPACE=OTFFT_' + b] + inc + ['-c', '%s/src/%s.cpp' % (R, t), '-o', '%s/%s.%s.o' % (self.dir, b, t)]))
        jobs.append(['g++'] + FL + self.san + [self.opt] + allb + inc + ['-c', '%s/src/otfft.cpp' % R, '-o', self.dir + '/otfft.o'])
        jobs.append(['g++'] + FL + self.san + ['-O1'] + inc + ['-c', HERE + '/replay/%s.cpp' % self.main, '-o', self.dir + '/replay.o'])
        big = ('sixstep', 'dif16', 'dit16', 'dit8', 'dif8')
        jobs.sort(key=lambda j: not any(x in j[-3] for x in big))
        try:
            with cf.ThreadPoolExecutor(8) as p:
                list(p.map(build.run, jobs))
            objs = [j[-1] for j in jobs]
            build.run(['g++', '-fopenmp', '-rdynamic'] + self.san + self.ld + objs + ['-o', self.dir + '/replay', '-ldl'])
            self.exe = self.dir + '/replay'
        except build.BuildError as x:
            self.err = str(x)
        return self.exe
    def case(self, kind, n, back, modes=None, seed=1, threads=4, delay=0, timeout=300):
        """-> (failed, output)"""
        if not self.build():
            return None, 'replay build failed: ' + (self.err or '')
        mask = 255 if modes is None else sum(1 << MODE.index(m) for m in modes)
        cmd = [self.exe, kind, str(n), str(BN.get(back, 0)), str(mask), str(seed), str(threads)] + ([str(delay)] if delay else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return (True if n <= 1 << 16 else None), 'no result within %d s: %s' % (timeout, ' '.join(cmd[1:]))
        out = r.stdout.decode(errors='replace')
        return r.returncode != 0, 'replay %s\nexit %d\n%s' % (' '.join(cmd[1:]), r.returncode, out[-4000:])
    def survey(self, lo, hi):
        r = subprocess.run([self.exe, 'survey', str(lo), str(hi)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
        return r.returncode != 0, 'replay survey %d %d\n%s' % (lo, hi, r.stdout.decode(errors='replace')[:4000]), ('survey', lo, hi)
    def cases(self, L, jobs=4):
        if not self.build():
            return [(None, self.err, c) for c in L]
        with cf.ThreadPoolExecutor(jobs) as p:
            return [(f, o, c) for (f, o), c in zip(p.map(lambda c: self.case(*c), L), L)]

class CxReplay:
    """complex_t operations, compiled by both compilers"""
    CC = [['g++', '-O2'], ['clang++-18', '-O2'], ['g++', '-O0']]
    def __init__(self, work):
        self.dir = os.path.join(work, 'replay-cx')
    def run(self, seed):
        os.makedirs(self.dir, exist_ok=True)
        out = []
        for cc in self.CC:
            try:
                fl = cc + ['-std=c++11', '-w', '-I%s/inc' % build.REPO]
                build.run(fl + ['-c', HERE + '/harness/cx.cpp', '-o', self.dir + '/h.o'])
                build.run(fl + [HERE + '/replay/cx.cpp', self.dir + '/h.o', '-o', self.dir + '/cx'])
            except build.BuildError as x:
                out.append((None, str(x), (cc, seed)))
                continue
            r = subprocess.run([self.dir + '/cx', str(seed)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            out.append((r.returncode != 0, 'compiled with %s\n%s' % (' '.join(cc), r.stdout.decode(errors='replace')[-3000:]), (' '.join(cc), seed)))
        return out

class LifeReplay(Replay):
    """histories (what='hist') or allocation failures (what='fault')"""
    def __init__(self, work, what):
        Replay.__init__(self, work, '-O2', (), 'life', ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=aligned_alloc,--wrap=posix_memalign,--wrap=free'])
        self.what = what
    def case(self, kind, back, seed, timeout=250):
        cmd = [self.exe, self.what, kind, str(BN[back]), str(seed)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, OMP_NUM_THREADS='2'))
        except subprocess.TimeoutExpired:
            return None, 'no result within %d s: %s' % (timeout, ' '.join(cmd[1:]))
        return r.returncode != 0, '%s\nexit %d\n%s' % (' '.join(cmd[1:]), r.returncode, r.stdout.decode(errors='replace')[-3000:])

class FacReplay:
    """the public factories of the current src/otfft.cpp on simulated processors"""
    def __init__(self, work):
        self.dir = os.path.join(work, 'replay-fac')
    def run(self):
        import re
        os.makedirs(self.dir, exist_ok=True)
        build.config(self.dir)
        R = build.REPO
        d = self.dir
        allb = [x for b in build.BACK.values() for x in b if x.startswith('-D')]
        fl = ['-std=c++11', '-w', '-fPIC', '-fcf-protection=none', '-DNDEBUG', '-DUNIX', '-DBUILD_X64'] + allb + ['-I%s/cfg' % d, '-I%s/inc' % R, '-I%s/src' % R]
        out = []
        for opt in ('-O2', '-O0'):
            try:
                build.run(['g++', opt, '-mno-red-zone'] + fl + ['-S', '%s/src/otfft.cpp' % R, '-o', d + '/otfft.s'])
                s = open(d + '/otfft.s').read()
                s, n = re.subn(r'(?m)^(\s*)cpuid\b', r'\1call vp_cpuid', s)
                s, m = re.subn(r'(?m)^(\s*)xgetbv\b', r'\1call vp_xgetbv', s)
                open(d + '/otfft.s', 'w').write(s)
                build.run(['g++', '-c', d + '/otfft.s', '-o', d + '/otfft.o'])
                build.run(['g++', '-O1', '-mgeneral-regs-only'] + fl + ['-c', HERE + '/replay/cpu.cpp', '-o', d + '/cpu.o'])
                build.run(['g++', '-O1'] + fl + ['-c', HERE + '/harness/factory.cpp', '-o', d + '/h.o'])
                build.run(['g++', '-O1'] + fl + [HERE + '/replay/factory.cpp', d + '/otfft.o', d + '/cpu.o', d + '/h.o', '-o', d + '/fac', '-lpthread'])
                r = subprocess.run([d + '/fac'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            except build.BuildError as x:
                out.append((None, str(x), (opt,))); continue
            except subprocess.TimeoutExpired:
                out.append((None, 'no result', (opt,))); continue
            out.append((r.returncode != 0, 'simulated processors (%d cpuid and %d xgetbv instructions redirected, %s)\n%s' % (n, m, opt, r.stdout.decode(errors='replace')[-3000:]), (opt,)))
        return out
