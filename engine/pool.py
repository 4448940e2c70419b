"""Fork-per-unit worker pool with per-unit time limits; units are plain functions run in a forked child."""
import os, sys, time, pickle, select, signal, resource, traceback

def run_units(queue, work, on_done, jobs=None, mem_gb=6, deadline=None):
    """queue: list of (key, timeout) (popped from the front, may be extended by on_done);
       work(key) -> picklable result; on_done(key, result) may return further (key, timeout) pairs"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    live = {}
    dead = []
    try:
        while queue or live:
            if deadline and time.time() > deadline:
                for fd, (pid, key, t0, tl, buf) in live.items():
                    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd)
                    on_done(key, {'status': 'timeout', 'msg': 'check deadline'})
                live = {}
                for key, tl in queue:
                    on_done(key, {'status': 'timeout', 'msg': 'check deadline'})
                del queue[:]
                break
            while queue and len(live) < jobs:
                key, tl = queue.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    rc = 0
                    try:
                        os.close(r)
                        for fd in live:
                            os.close(fd)
                        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                        t = time.time()
                        try:
                            res = work(key)
                        except BaseException as x:
                            res = {'status': 'error', 'msg': '%s: %s' % (type(x).__name__, str(x)[:600]), 'tb': traceback.format_exc()[-1500:]}
                        res['wall'] = round(time.time() - t, 3)
                        data = pickle.dumps(res)
                        while data:
                            n = os.write(w, data)
                            data = data[n:]
                    finally:
                        os._exit(rc)
                os.close(w)
                live[r] = [pid, key, time.time(), tl, b'']
            dead = [p for p in dead if os.waitpid(p, os.WNOHANG)[0] == 0]
            rd, _, _ = select.select(list(live), [], [], 0.25)
            now = time.time()
            for fd in list(live):
                L = live[fd]
                fin = None
                if fd in rd:
                    d = os.read(fd, 1 << 20)
                    if d:
                        L[4] += d
                        continue
                    try:
                        fin = pickle.loads(L[4])
                    except Exception:
                        fin = {'status': 'error', 'msg': 'worker died'}
                elif now - L[2] > L[3]:
                    os.kill(L[0], signal.SIGKILL)
                    fin = {'status': 'timeout', 'msg': 'time limit of %d s' % L[3]}
                if fin is not None:
                    # not waited for: the teardown of a big process takes longer than starting the next one
                    dead.append(L[0])
                    os.close(fd)
                    del live[fd]
                    more = on_done(L[1], fin)
                    if more:
                        queue.extend(more)
    finally:
        for p in dead:
            os.waitpid(p, 0)
        for fd, L in live.items():
            try:
                os.kill(L[0], signal.SIGKILL); os.waitpid(L[0], 0)
            except OSError:
                pass
