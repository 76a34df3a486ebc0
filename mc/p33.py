"""P33 concurrent calls: every schedule of two threads up to a preemption bound, at line granularity.

A controlled scheduler runs two real threads of the real code; only one runs at a time.  A context switch
can happen before any line of proadv that a thread executes."""
import sys
import threading

import numpy as np

from mc import ops
from mc.core import Space, Violation, call, note, step

ROOT = '/repo/proadv/'


class Runner(threading.Thread):
    """one controlled thread: runs op, stops before line number `stop` (None: runs through)"""

    def __init__(self, op, stop=None, at_stop=None):
        threading.Thread.__init__(self, daemon=True)
        self.op, self.stop, self.at_stop = op, stop, at_stop
        self.lines, self.out, self.fail = 0, None, None
        self.paused, self.resume = threading.Event(), threading.Event()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            if self.lines == self.stop:
                self.lines += 1
                sys.settrace(None)
                if self.at_stop is not None:
                    self.at_stop(self)
                sys.settrace(self.tracer)
                return self.line
            self.lines += 1
        return self.line

    def run(self):
        try:
            fn, args = ops.build(self.op)
            sys.settrace(self.tracer)
            try:
                self.out = fn(*args)
            except Exception as e:
                self.out = ops.Err(e)
            finally:
                sys.settrace(None)
            self.out = ops.freeze(self.out)
        except BaseException as e:
            self.fail = e
        self.paused.set()


def finish(t, what):
    t.join(100)
    if t.is_alive():
        raise Violation('%s: a thread does not finish (deadlock?)' % what)
    if t.fail is not None:
        raise t.fail


def wait(ev, what):
    if not ev.wait(100):
        raise Violation('%s: a thread does not progress (deadlock?)' % what)


def length(op):
    """number of scheduling points of an undisturbed call"""
    with np.errstate(all='ignore'):
        t = Runner(op)
        t.start()
        finish(t, str(op))
    return t.lines


def one_preemption(a, b, k):
    """a runs k lines, b runs to completion, a continues"""
    what = '%s/%s preempted before line %d by %s/%s' % (a + (k,) + b)
    inner = []

    def switch(t):
        r = Runner(b)
        inner.append(r)
        r.start()
        # a thread that waits for a lock the other one holds is not runnable: let the holder go on
        r.join(20)
        if r.is_alive():
            note('blocked_thread')
    t = Runner(a, k, switch)
    t.start()
    finish(t, what)
    if not inner:
        note('schedules_beyond_the_end')
        return 'short'
    finish(inner[0], what)
    ops.equal(t.out, ops.fresh(a), what + ': outcome of the first')
    ops.equal(inner[0].out, ops.fresh(b), what + ': outcome of the second')
    step(1, 2)
    return 'ok'


def two_preemptions(a, b, k, m):
    """a runs k lines, b runs m lines, a runs to completion, b continues"""
    what = '%s/%s to line %d, %s/%s to line %d, then both to the end' % (a + (k,) + b + (m,))
    inner = []

    def pause(r):
        r.paused.set()
        wait(r.resume, what)

    def switch(t):
        r = Runner(b, m, pause)
        inner.append(r)
        r.start()
        if not r.paused.wait(20):
            note('blocked_thread')
    t = Runner(a, k, switch)
    t.start()
    finish(t, what)
    if not inner:
        return 'short'
    inner[0].resume.set()
    finish(inner[0], what)
    ops.equal(t.out, ops.fresh(a), what + ': outcome of the first')
    ops.equal(inner[0].out, ops.fresh(b), what + ': outcome of the second')
    step(1, 2)
    return 'ok'


HEAVY = ('bivariate_kernel', 'three_dimensional_kernel', 'kernel')
# calls on a global random source are not reproducible under another schedule
SKIP = ('synthetic_noise',)


def run_points(c):
    """all preemption points of one interval of lines"""
    a, b, lo, hi = c
    with np.errstate(all='ignore'):
        for k in range(lo, hi):
            if one_preemption(a, b, k) == 'short':
                break
    return (a, b)


def run_two(c):
    a, b, k, ms = c
    with np.errstate(all='ignore'):
        for m in ms:
            if two_preemptions(a, b, k, m) == 'short':
                break
    return (a, b)


def spaces(tier):
    deep = tier == 'thorough'
    import warnings
    warnings.simplefilter('ignore')
    ops.SIZE = 40 if not deep else 70
    names = [n for n in ops.FUN if n not in SKIP]
    allo = [(n, v) for n in names for v in 'ABPQ' if ops.has(n, v)]
    ops.prepare(allo)
    N = sized([(n, 'A') for n in names])
    CH = 20

    def same_function():
        for n in names:
            L = N[(n, 'A')]
            top = L if n not in HEAVY else min(L, 400 if deep else 120)
            ch = CH if n not in HEAVY else 5
            for lo in range(0, top, ch):
                for v in 'BPQ':
                    if ops.has(n, v):
                        yield ((n, 'A'), (n, v), lo, min(top, lo + ch))

    def cross():
        pick = ['mean_value', 'linear_interpolation', 'polynomial_replacement', 'phasespace_thresholding', 'velocity_correlation', 'median', 'std', 'skewness', 'moving_average',
                'cdf', 'kurtotest', 'xyz_to_sop', 'kalman_filter', 'mode']
        for a in pick:
            for b in pick:
                if a != b:
                    L = min(N[(a, 'A')], 2000 if deep else 160)
                    for lo in range(0, L, CH):
                        yield ((a, 'A'), (b, 'B'), lo, min(L, lo + CH))

    def two():
        budget = 24 if not deep else 90
        for n in names:
            L = N[(n, 'A')]
            if n in HEAVY or L == 0:
                continue
            # all points of short calls; for long ones the first and last `budget/2` lines
            pts = list(range(L)) if L <= budget else list(range(budget // 2)) + list(range(L - budget // 2, L))
            for k in pts:
                yield ((n, 'A'), (n, 'B'), k, pts)
    return [
        Space('same-function', same_function, run_points, 'every single preemption point of every function, against another call of it (kernels: the first lines)'),
        Space('cross-function', cross, run_points, 'every single preemption point (first 160/2000 lines) for ordered pairs of 14 functions'),
        Space('two-preemptions', two, run_two, 'two preemptions: all pairs of points among the first and last lines of both calls'),
    ]


def sized(oplist):
    """scheduling points per call, measured in a child process so that this one stays fresh"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    r, s = ctx.Pipe(False)

    def child():
        out = {}
        for op in oplist:
            try:
                out[op] = length(op)
            except BaseException:
                out[op] = 0
        s.send(out)
    p = ctx.Process(target=child)
    p.start()
    s.close()
    out = r.recv()
    p.join()
    return out
