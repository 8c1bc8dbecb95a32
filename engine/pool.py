"""Run independent pieces of verification in forked children (each with a time and memory limit)."""
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

NCPU = max(2, min(8, os.cpu_count() or 2))


def run(tasks, timeout=120, ncpu=None, mem=6 << 30):
    """tasks: [(key, thunk)]; returns {key: (True, value) | (False, why)}"""
    ncpu = ncpu or NCPU
    todo = list(tasks)[::-1]
    live, out = {}, {}
    while todo or live:
        while todo and len(live) < ncpu:
            key, fn = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    sys.setrecursionlimit(20000)
                    try:
                        res = (True, fn())
                    except MemoryError:
                        res = (False, 'out of memory')
                    except BaseException as e:
                        res = (False, 'error: %s: %s' % (type(e).__name__, e) + '\n' + traceback.format_exc()[-1500:])
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (key, pid, time.time(), [])
        now = time.time()
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            key, pid, t0, buf = live[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(r)
            del live[r]
            _, st = os.waitpid(pid, 0)
            try:
                out[key] = pickle.loads(b''.join(buf))
            except Exception:
                out[key] = (False, 'the child ended with status %d' % st)
        for r in list(live):
            key, pid, t0, buf = live[r]
            if now - t0 > timeout:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                out[key] = (False, 'time limit of %d s' % timeout)
    return out


def fixpoint(names, attempt, deadline, timeout=120, rounds=8):
    """Modular verification.  attempt(name, installed) -> dict(ok, used, ...) assumes the contracts of `installed`.
    Functions whose contract fails are inlined in their callers, which are verified again.  Returns the results and
    the set of functions whose contract stands."""
    installed = set(names)
    pending = list(names)
    res = {}
    for rnd in range(rounds):
        left = deadline - time.time()
        if left <= 1:
            for n in pending:
                res[n] = {'ok': False, 'why': 'no time left', 'obs': [], 'used': set()}
            installed -= set(pending)
            return res, installed, False
        inst = frozenset(installed)
        got = run([(n, lambda n=n: attempt(n, inst - {n})) for n in pending], timeout=min(timeout, left))
        before = set(installed)
        for n, (good, r) in got.items():
            if not good:
                r = {'ok': False, 'why': r, 'obs': [], 'used': res.get(n, {}).get('used', set())}
            r['round'] = rnd
            res[n] = r
            if r['ok']:
                installed.add(n)
            else:
                installed.discard(n)
        gone = before - installed
        # everything that relied on a contract that no longer stands
        pending = [n for n in names if res[n]['used'] & gone]
        if not pending:
            return res, installed, True
    return res, installed, not pending
