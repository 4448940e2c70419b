"""Compile /repo's current sources to LLVM IR with the same front end flags for the three backends."""
import subprocess, os, sys, concurrent.futures as cf, hashlib

REPO = os.environ.get('OTFFT_REPO', '/repo')
ALL = ['-DUSE_SSE2', '-DUSE_AVX', '-DUSE_AVX2']
BACK = {'SSE2': ['-msse2', '-DUSE_SSE2'], 'AVX': ['-mavx', '-DUSE_AVX'], 'AVX2': ['-mavx2', '-DUSE_AVX2']}
COMMON = ['-std=c++11', '-fno-finite-math-only', '-fpermissive', '-fopenmp', '-DNDEBUG', '-w']
HTU = ('client', 'cx', 'factory')
FAC = ('factory', 'otfft')      # not part of a backend
KERN = ['otfft_algo_dif4', 'otfft_algo_dif8', 'otfft_algo_dif16', 'otfft_algo_dit4', 'otfft_algo_dit8',
        'otfft_algo_dit16', 'otfft_algo_sixstep', 'otfft_algo_mixed', 'otfft_algo']
PASSES = 'function(sroa,early-cse,simplifycfg),always-inline,globaldce,function(sroa,early-cse,simplifycfg,loop-simplify)'

class BuildError(Exception):
    pass

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout

def config(out):
    """the header cmake generates, in case /repo has not been configured"""
    p = '%s/cfg/otfft_config.h' % out
    if not os.path.exists(p):
        os.makedirs('%s/cfg' % out, exist_ok=True)
        t = open('%s/src/otfft_config.h.in' % REPO).read().replace('#cmakedefine', '#define')
        with open(p + '.%d' % os.getpid(), 'w') as f:
            f.write(t)
        os.replace(p + '.%d' % os.getpid(), p)

def one(back, tu, out):
    bc = '%s/%s.%s.bc' % (out, back, tu)
    ll = '%s/%s.%s.ll' % (out, back, tu)
    c, src = cmdline(back, tu, out)
    run(c + ['-O1', '-Xclang', '-disable-llvm-passes', '-c', '-emit-llvm', src, '-o', bc])
    run(['opt-18', '-passes=' + PASSES, bc, '-S', '-o', ll])
    os.unlink(bc)
    return ll

HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')

def build(out, tus=KERN + ['client'], backs=('SSE2', 'AVX', 'AVX2'), jobs=8):
    os.makedirs(out, exist_ok=True)
    config(out)
    tus = list(tus)
    big = ['otfft_algo_sixstep', 'otfft_algo_dif16', 'otfft_algo_dit16', 'otfft_algo_dit8', 'otfft_algo_dif8']
    work = sorted([('ALL' if t in FAC else b, t) for b in backs for t in tus if t not in FAC or b == backs[0]], key=lambda x: (big.index(x[1]) if x[1] in big else 9))
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(one, b, t, out): (b, t) for b, t in work}
        res = {}
        for f in cf.as_completed(fs):
            res[fs[f]] = f.result()
    return res

def cmdline(back, tu, out):
    src = '%s/%s.cpp' % (HARN, tu) if tu in HTU else '%s/src/%s.cpp' % (REPO, tu)
    flags = BACK[back] + ['-DOTFFT_NAMESPACE=OTFFT_' + back] if back in BACK else ALL
    return ['clang++-18'] + COMMON + flags + ['-I%s/cfg' % out, '-I%s/inc' % REPO, '-I%s/src' % REPO, '-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')], src

def pptext(back, tu, out):
    """digest of the preprocessed source, with the backend's namespace renamed"""
    c, src = cmdline(back, tu, out)
    t = run(c + ['-E', '-P', src], stdin=subprocess.DEVNULL)
    import re
    t = re.sub(rb'\bOTFFT_' + back.encode() + rb'\b', b'OTFFT_B', t)
    return hashlib.sha256(b' '.join(t.split())).hexdigest()

def identical(out, a, b, tus=KERN + ['client']):
    """the two backends compile the same token sequence (up to the name of their namespace) and differ in target
       attributes only, so the front end generates the same IR for both"""
    os.makedirs(out, exist_ok=True)
    config(out)
    with cf.ThreadPoolExecutor(8) as p:
        r = list(p.map(lambda k: pptext(k[0], k[1], out), [(x, t) for t in tus if t not in FAC for x in (a, b)]))
    return all(r[i] == r[i + 1] for i in range(0, len(r), 2))

if __name__ == '__main__':
    import time
    t = time.time()
    r = build(sys.argv[1])
    print(len(r), 'modules', round(time.time() - t, 1), 's')
