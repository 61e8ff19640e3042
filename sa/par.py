"""Run independent obligations in parallel processes."""
import os
import pickle
import resource
import signal
import time

WORKERS = 8
MEMORY = 5 << 30        # address space of one worker
DEADLINE = [None]       # when the check has to have its answer


class TimeUp(BaseException):
    """The time of the check is over; what is not decided yet stays undecided."""


def alarm(signum, frame):
    raise TimeUp()


def parent_gone(parent):
    """End this worker with the process that waits for it."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass
    if os.getppid() != parent:
        os._exit(1)


def parallel(O, jobs, fn, workers=None):
    """fn(job) records into O; jobs are split round robin over forked workers
    whose records are merged into O in job order."""
    jobs = list(jobs)
    n = min(workers or WORKERS, os.cpu_count() or 1, max(1, len(jobs)))
    if n == 1:
        for j in jobs:
            fn(j)
        return
    kids = []
    parent = os.getpid()
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                O.done, O.violations, O.undec = {}, [], []
                out = []
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                parent_gone(parent)
                if DEADLINE[0] is not None:
                    signal.signal(signal.SIGALRM, alarm)
                    signal.setitimer(signal.ITIMER_REAL, max(0.01, DEADLINE[0] - time.time()))
                late = False
                for i in range(w, len(jobs), n):
                    O.done, O.violations, O.undec = {}, [], []
                    try:
                        if late:
                            raise TimeUp()
                        fn(jobs[i])
                    except TimeUp:
                        late = True
                        O.undecided('analysis:%d' % i, 'time is up')
                    except Exception as e:
                        if os.environ.get('SA_DEBUG') or type(e).__name__ == 'AnchorMissing':
                            raise
                        O.undecided('analysis:%d' % i, '%s: %s' % (type(e).__name__, e))
                    out.append((i, O.done, O.violations, O.undec))
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump((out, O.functions, O.files), f)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st != 0 or not data:
            raise RuntimeError('worker failed')
        out, fns, files = pickle.loads(data)
        res += out
        O.functions |= fns
        O.files.update(files)
    for _, done, viol, und in sorted(res, key=lambda x: x[0]):
        for k, v in done.items():
            if k not in O.done or v[0] == 'FAIL':
                O.done[k] = v
        O.violations += viol
        O.undec += und
