"""P29 bracketing root finder: an adversary answers the function's evaluations."""
import itertools
import math
import numpy as np
from mc import dom
from mc.core import Space, Violation, call, expect_error, note, ok, step, Err
import proadv.statistics.optimize.optimize as O


class Adversary:
    """A function defined while it is being explored: the k-th new point gets the k-th scripted answer;
    any finite set of answers is the restriction of a continuous function.  After the script,
    answers come from the tail function."""

    def __init__(self, answers, tail):
        self.answers, self.tail, self.seen, self.calls = answers, tail, {}, 0

    def __call__(self, x):
        self.calls += 1
        x = float(x)
        if x not in self.seen:
            k = len(self.seen)
            self.seen[x] = float(self.answers[k]) if k < len(self.answers) else float(self.tail(x))
        return self.seen[x]


class Real(Adversary):
    def __init__(self, f):
        Adversary.__init__(self, (), f)


def verify(f, xa, xb, xtol, rtol, maxiter, out, full, what):
    pts = f.seen
    bad = [x for x in pts if not xa <= x <= xb]
    if bad:
        raise Violation('%s evaluates the function at %r, outside [%r, %r]' % (what, bad[0], xa, xb))
    conv, root = True, None
    if full:
        r = ok(out, what)
        for key in ('root', 'function_calls', 'iterations', 'converged', 'flag'):
            if not isinstance(r, dict) or key not in r:
                raise Violation('%s: full output lacks %r: %r' % (what, key, r))
        root, conv = float(r['root']), bool(r['converged'])
        if r['function_calls'] != f.calls:
            raise Violation('%s reports %r function calls, made %d' % (what, r['function_calls'], f.calls))
        if not 0 <= r['iterations'] <= maxiter:
            raise Violation('%s reports %r iterations of at most %d' % (what, r['iterations'], maxiter))
        if not isinstance(r['flag'], str) or (r['flag'] == 'converged') != conv:
            raise Violation('%s: flag %r with converged=%r' % (what, r['flag'], conv))
    elif isinstance(out, Err):
        if not isinstance(out.exc, ValueError) or f.calls < maxiter:
            raise Violation('%s: %r after %d evaluations' % (what, out, f.calls))
        conv = False
    else:
        root = float(out)
    if f.calls > maxiter + 2:
        raise Violation('%s: %d evaluations with maxiter %d' % (what, f.calls, maxiter))
    if root is not None and not xa <= root <= xb:
        raise Violation('%s returns %r outside [%r, %r]' % (what, root, xa, xb))
    if not conv:
        if f.calls < maxiter or full and r['iterations'] != maxiter:
            raise Violation('%s gave up after %d evaluations, maxiter %d' % (what, f.calls, maxiter))
        return ('no', f.calls)
    if pts.get(root) == 0.0:
        return ('exact', f.calls)
    width = (xtol + rtol * abs(root)) * (1 + 1e-9) + 4e-16 * abs(root)
    lo = [x for x in pts if root - width <= x <= root]
    hi = [x for x in pts if root <= x <= root + width]
    near = lo + hi
    if not any(pts[x] == 0 for x in near):
        # two evaluated points with opposite signs, enclosing the root, no further apart than the tolerance
        good = any(pts[a] * pts[b] < 0 or math.copysign(1, pts[a]) != math.copysign(1, pts[b]) for a in lo for b in hi if b - a <= width)
        if not good:
            raise Violation('%s returns %r as converged, but no sign change was seen within %g of it' % (what, root, width))
    return ('converged', f.calls)


def run(c):
    xa, xb, answers, tail, kw = c
    kw = dict(kw)
    xtol, rtol, maxiter = kw.get('xtol', 1.48e-8), kw.get('rtol', 1.48e-8), kw.get('maxiter', 500)
    res = []
    fs = []
    for full in (True, False):
        f = Adversary(answers, TAILS[tail](xa, xb))
        fs.append(f)
        out = call(O.brentq, f, xa, xb, full_output=full, **kw)
        a, b = f.seen.get(float(xa)), f.seen.get(float(xb))
        if a is not None and b is not None and a != 0 and b != 0 and (a > 0) == (b > 0):
            expect_error(out, ValueError, 'brentq without a sign change')
            return 'refused'
        if a is None or b is None:
            if not (a == 0 or b == 0):
                raise Violation('an end point of the bracket was never evaluated')
        res.append(verify(f, float(xa), float(xb), xtol, rtol, maxiter, out, full, 'brentq'))
    if fs[0].seen != fs[1].seen:
        raise Violation('full_output changes the points that are evaluated')
    step(1, 1)
    return res


TAILS = {
    'step': lambda a, b: (lambda x: -1.0 if x < a + 0.37 * (b - a) else 1.0),
    'down': lambda a, b: (lambda x: 2.0 if x < a + 0.81 * (b - a) else -1e-3),
    'line': lambda a, b: (lambda x: x - (a + 0.62 * (b - a))),
    'flat': lambda a, b: (lambda x: 1e-12 * (x - (a + 0.11 * (b - a))) ** 3),
    'root': lambda a, b: (lambda x: 0.0),
    'minute': lambda a, b: (lambda x: 1e-200 * (x - (a + 0.47 * (b - a)))),
}

FUNCS = {
    'x^2-2': (lambda x: x * x - 2, 0.0, 2.0, [math.sqrt(2)]),
    'cos x-x': (lambda x: math.cos(x) - x, 0.0, 1.5, [0.7390851332151607]),
    'x^3': (lambda x: x ** 3, -1.0, 2.5, [0.0]),
    'x^9': (lambda x: x ** 9, -1.0, 2.0, None),
    'exp-5': (lambda x: math.exp(x) - 5, -3.0, 10.0, [math.log(5)]),
    'steep': (lambda x: math.tanh(200 * (x - 0.123)), -1.0, 1.0, [0.123]),
    'step': (lambda x: -1.0 if x < 0.3141592 else 1.0, -2.0, 2.0, [0.3141592]),
    'big': (lambda x: x - 123456.789, 0.0, 1e9, [123456.789]),
    'small': (lambda x: x - 1e-7, -1.0, 1.0, [1e-7]),
    'neg': (lambda x: -(x + 7.25), -100.0, 3.0, [-7.25]),
    'atan': (lambda x: math.atan(x - 3), -1e3, 1e4, [3.0]),
    'root at a': (lambda x: x - 1.0, 1.0, 4.0, [1.0]),
    'root at b': (lambda x: x - 4.0, 1.0, 4.0, [4.0]),
    'two': (lambda x: (x - 1) * (x - 2) * (x - 3), 0.0, 3.7, [1.0, 2.0, 3.0]),
    'wilk': (lambda x: math.sin(1 / (x + 0.01)), 0.05, 0.9, None),
    'minute': (lambda x: (x - 0.3) * 1e-170, 0.0, 1.0, [0.3]),
    'enormous': (lambda x: (x - 0.3) * 1e300, 0.0, 1.0, [0.3]),
    'remote': (lambda x: -1.0 if x < 1e-290 else 1.0, 0.0, 1.0, None),
    'tiny': (lambda x: x ** 3 - 1e-33, 0.0, 1.0, [1e-11]),
    'speck': (lambda x: x - 3e-40, -1.0, 1.0, [3e-40]),
    'both': (lambda x: (x - 1) * (x - 4), 1.0, 4.0, [1.0, 4.0]),
}


def run_real(c):
    name, xtol, rtol, maxiter = c
    fn, a, b, roots = FUNCS[name]
    kw = {}
    if xtol is not None:
        kw['xtol'] = xtol
    if rtol is not None:
        kw['rtol'] = rtol
    if maxiter is not None:
        kw['maxiter'] = maxiter
    xt, rt = kw.get('xtol', 1.48e-8), kw.get('rtol', 1.48e-8)
    for full in (True, False, None):
        f = Real(fn)
        out = call(O.brentq, f, a, b, **kw) if full is None else call(O.brentq, f, a, b, full_output=full, **kw)
        r = verify(f, a, b, xt, rt, kw.get('maxiter', 500), out, full, 'brentq(%s)' % name)
        if r[0] != 'no' and roots:
            x = float(out['root'] if full else out)
            e = min(abs(x - t) for t in roots)
            if e > xt + rt * abs(x) + 1e-15:
                raise Violation('brentq(%s) returns %r, roots are %r' % (name, x, roots))
        if r[0] == 'no' and name != 'remote' and kw.get('maxiter', 500) >= 500:
            raise Violation('brentq(%s) does not converge in %d iterations' % (name, kw.get('maxiter', 500)))
    step(1, 1)
    return r


INNER = {
    'brentq': lambda: O.brentq(lambda y: y ** 3 - 0.3, 0.0, 2.0),
    'brentq full': lambda: O.brentq(lambda y: y - 0.7, -1.0, 5.0, xtol=1e-3, maxiter=40, full_output=True),
    'brentq fails': lambda: call(O.brentq, lambda y: 1.0 + y * y, 0.0, 1.0),
    'fminbound': lambda: O.fminbound(lambda y: (y - 1.0) ** 2 - 9.0, 0.0, 3.0),
    'fminbound stops': lambda: O.fminbound(lambda y: -(y - 1.0) ** 2 + 1e9, 0.0, 3.0, max_evaluations=3, detailed_output=True),
}


class Nested(Real):
    """a function that itself searches a root or a minimum at every (or every second) evaluation"""

    def __init__(self, f, inner, every):
        Real.__init__(self, f)
        self.inner, self.every = inner, every

    def __call__(self, x):
        if self.every == 1 or self.calls % 2:
            INNER[self.inner]()
        v = Real.__call__(self, x)
        if self.every == 1:
            INNER[self.inner]()
        return v


def run_nested(c):
    name, inner, every, maxiter = c
    fn, a, b, roots = FUNCS[name]
    res = []
    for full in (True, False):
        f, g = Nested(fn, inner, every), Real(fn)
        x, y = call(O.brentq, f, a, b, maxiter=maxiter, full_output=full), call(O.brentq, g, a, b, maxiter=maxiter, full_output=full)
        res.append(verify(f, a, b, 1.48e-8, 1.48e-8, maxiter, x, full, 'brentq(%s) with a nested %s' % (name, inner)))
        if f.seen != g.seen or isinstance(x, Err) != isinstance(y, Err) or not isinstance(x, Err) and x != y:
            raise Violation('brentq(%s): a nested %s changes the outcome from %r to %r' % (name, inner, y, x))
        step(1, 2)
    return res


def run_bad(c):
    fn, a, b, full = c
    f = {'pos': lambda x: 1.0 + x * x, 'neg': lambda x: -1.0, 'line': lambda x: x - 0.25}[fn]
    expect_error(call(O.brentq, f, a, b, full_output=full), ValueError, 'brentq(%s, %r, %r)' % (fn, a, b))
    return 'refused'


def spaces(tier):
    deep = tier == 'thorough'
    V = (-1.0, -1e-3, 0.0, 0.5, 1.0)
    S = (-2.0, -1e-6, 1e-6, 2.0)
    d = 6 if deep else 5
    d2 = 8 if deep else 7

    def tree():
        for n in range(2, d + 1):
            for ans in itertools.product(V, repeat=n):
                for tail in ('step', 'line'):
                    yield (0.0, 1.0, ans, tail, ())

    def deeper():
        for ans in itertools.product(S, repeat=d2):
            if ans[0] * ans[1] < 0:
                yield (-1.0, 3.0, ans, 'flat', (('xtol', 1e-3), ('rtol', 1e-4)))

    def extreme():
        for ans in itertools.product((-1e-300, 1e-170, -1.0, 1e300, -3e-200), repeat=5):
            for tail in ('step', 'minute'):
                yield (-1.0, 2.0, ans, tail, ())

    def limits():
        for m in range(0, 12):
            for ans in itertools.product((-1.0, -1e-4, 1.0, 0.0), repeat=5):
                yield (2.0, 10.0, ans, 'down', (('maxiter', m),))

    def intervals():
        for a, b in ((0, 1), (-5, -1), (1e-3, 1e6), (-1e8, 1.0), (3, 4), (-1, 1)):
            for tol in ((), (('xtol', 1e-12), ('rtol', 1e-12)), (('xtol', 0.5),), (('rtol', 0.25),), (('xtol', 1e-300), ('rtol', 1e-10)), (('xtol', 0.0), ('rtol', 1e-9)), (('xtol', 1e-9), ('rtol', 0.0)), (('xtol', 0), ('rtol', 0), ('maxiter', 80))):
                for ans in itertools.product((-1.0, 1.0, 1e-5), repeat=4):
                    for tail in TAILS:
                        yield (a, b, ans, tail, tol)
    return [
        Space('adversary', tree, run, 'every answer sequence of length <= %d over 5 values, two continuations' % d),
        Space('extreme values', extreme, run, 'every answer sequence of length 5 over values from 1e-300 to 1e300'),
        Space('adversary-deep', deeper, run, 'every answer sequence of length %d over 4 values' % d2),
        Space('iteration-limits', limits, run, 'maxiter 0..11, every answer sequence of length 5 over 4 values'),
        Space('intervals', intervals, run, '6 brackets, 8 tolerance settings (zero included), 5 continuations'),
        Space('functions', lambda: ((n, xt, rt, m) for n in sorted(FUNCS) for xt in (None, 1e-12, 1e-3, 0.5, 1e-299, 0.0) for rt in (None, 1e-12, 1e-2, 0.0) for m in (None, 1000, 3, 8, 1) if (xt not in (1e-299, 0.0) or n == 'remote' or xt == 0 and rt != 0 and n in ('tiny', 'speck', 'cos x-x', 'big', 'step'))),
              run_real, '16 functions, tolerances, iteration limits'),
        Space('nested', lambda: ((n, i, e, m) for n in sorted(FUNCS) for i in sorted(INNER) for e in (1, 2) for m in (500, 6)), run_nested,
              'functions that themselves search a root or a minimum'),
        Space('refused', lambda: [(f, a, b, full) for full in (True, False) for f, a, b in
                                  (('pos', 0, 1), ('neg', -2.0, 7.0), ('line', 1.0, 2.0), ('line', 1, 1), ('line', 2.0, -1.0), ('line', 0.25, 0.25), ('line', 5, 0))],
              run_bad, 'no sign change, empty or reversed brackets'),
    ]


def constants():
    def cases():
        vals = dom.fresh_values(1e-300, 1e300, (0.5, 1.0, 2.0))
        for v in vals:
            for ans in itertools.product((-v, v, -v / 3, 1.0), repeat=4):
                for tail in ('step', 'line'):
                    yield (0.0, 1.0, ans, tail, ())
            for a, b in ((0.0, v), (-v, v), (v, 2 * v), (-3 * v, -v)):
                for ans in ((-1.0, 1.0), (1.0, -1.0), (-1.0, 1.0, 0.5, -0.25), (-1.0, 1e-3, 1.0)):
                    for tail in ('step', 'line', 'down', 'flat'):
                        if 1e-6 < v < 1e9:
                            yield (a, b, ans, tail, ())
            for kw in ((('xtol', v),), (('rtol', v),), (('xtol', v), ('rtol', v))):
                if 1e-14 < v < 1:
                    for tail in ('step', 'line', 'down', 'flat'):
                        yield (0.0, 1.0, (-1.0, 1.0), tail, kw)
        for m in dom.fresh_sizes(0, 2000):
            for tail in ('step', 'line', 'down', 'flat'):
                for ans in ((-1.0, 1.0), (-1.0, 1e-9, -1e-9, 1.0)):
                    yield (0.0, 1e6, ans, tail, (('maxiter', m),))
                    yield (0.0, 1e6, ans, tail, (('maxiter', m), ('xtol', 1e-300), ('rtol', 1e-15)))
    return [Space('source-constants', cases, run, dom.gained())]
