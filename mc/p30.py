"""P30 bounded minimiser: an adversary answers the function's evaluations."""
import itertools
import math
import numpy as np
from mc import dom
from mc.p29 import INNER, Adversary, Nested, Real
from mc.core import Space, Violation, call, expect_error, note, ok, step
import proadv.statistics.optimize.optimize as O


def verify(f, lo, hi, tol, limit, out, what):
    out = ok(out, what)
    try:
        x, fv, flag, n = out
        x, fv, flag, n = float(x), float(fv), int(flag), int(n)
    except Exception:
        raise Violation('%s: detailed output is %r' % (what, out))
    pts = f.seen
    slack = 1e-12 * max(abs(lo), abs(hi))
    bad = [t for t in pts if not lo - slack <= t <= hi + slack]
    if bad:
        raise Violation('%s evaluates the function at %r, outside [%r, %r]' % (what, bad[0], lo, hi))
    if not lo - slack <= x <= hi + slack:
        raise Violation('%s returns %r outside [%r, %r]' % (what, x, lo, hi))
    if n != f.calls:
        raise Violation('%s reports %d evaluations, made %d' % (what, n, f.calls))
    if n > max(limit, 2):
        raise Violation('%s made %d evaluations, limit %d' % (what, n, limit))
    if x not in pts or pts[x] != fv:
        raise Violation('%s: value %r is not the function value at %r (%r)' % (what, fv, x, pts.get(x)))
    best = min(pts.values())
    if fv > best:
        raise Violation('%s returns %r with value %r although %r was seen' % (what, x, fv, best))
    if flag not in (0, 1):
        raise Violation('%s: status %r' % (what, flag))
    if flag == 1 and n < limit:
        raise Violation('%s gave up after %d evaluations, limit %d' % (what, n, limit))
    if flag == 0:
        # converged: close neighbours on both sides that are not better (or the bounds)
        width = 2 * (1.5e-8 * abs(x) + tol / 3.0) * (1 + 1e-6) + 1e-12 * max(abs(lo), abs(hi))
        left = max([t for t in pts if t < x] + [lo])
        right = min([t for t in pts if t > x] + [hi])
        if x - left > width or right - x > width:
            raise Violation('%s claims convergence at %r, closest points tried are %r and %r (tolerance %g)' % (what, x, left, right, tol))
    return (flag, n)


TAILS = {
    'bowl': lambda a, b: (lambda x: (x - (a + 0.37 * (b - a))) ** 2 / (b - a) ** 2),
    'rise': lambda a, b: (lambda x: (x - a) / (b - a)),
    'fall': lambda a, b: (lambda x: (b - x) / (b - a)),
    'flat': lambda a, b: (lambda x: 0.5),
    'wave': lambda a, b: (lambda x: math.sin(25 * (x - a) / (b - a))),
}


def run(c):
    a, b, answers, tail, kw = c
    kw = dict(kw)
    tol, lim = kw.get('tolerance', 1e-5), kw.get('max_evaluations', 500)
    make = TAILS[tail](a, b) if isinstance(tail, str) else (lambda x: tail[1])
    f = Adversary(answers, make)
    r = verify(f, float(a), float(b), tol, lim, call(O.fminbound, f, a, b, detailed_output=True, **kw), 'fminbound')
    g = Adversary(answers, make)
    x = ok(call(O.fminbound, g, a, b, **kw), 'fminbound')
    if f.seen != g.seen or np.size(x) != 1 or g.seen.get(float(x)) != min(g.seen.values()):
        raise Violation('fminbound without details returns %r, best value seen is %r' % (x, min(g.seen.values())))
    step(1, 1)
    return r


FUNCS = {
    'quadratic': (lambda x: (x - 2) ** 2 + 1, -1.0, 5.0, 2.0),
    'abs': (lambda x: abs(x - 0.7), -3.0, 2.0, 0.7),
    'quartic': (lambda x: (x + 1.25) ** 4, -4.0, 4.0, None),
    'left end': (lambda x: x, 1.0, 3.0, 1.0),
    'right end': (lambda x: -x, 1.0, 3.0, 3.0),
    'exp': (lambda x: math.exp(x) - 2 * x, -2.0, 4.0, math.log(2)),
    'cos': (lambda x: math.cos(x), 2.0, 5.0, math.pi),
    'big': (lambda x: (x - 4e5) ** 2 / 1e10, 0.0, 1e6, 4e5),
    'kink': (lambda x: 3 * (x - 1) if x > 1 else -0.1 * (x - 1), -10.0, 3.0, 1.0),
    'steep': (lambda x: (x - 0.2) ** 2 * 1e12, -1.0, 1.0, 0.2),
}


def run_real(c):
    name, tol, lim = c
    fn, a, b, best = FUNCS[name]
    kw = {}
    if tol is not None:
        kw['tolerance'] = tol
    if lim is not None:
        kw['max_evaluations'] = lim
    f = Real(fn)
    out = call(O.fminbound, f, a, b, detailed_output=True, **kw)
    t = kw.get('tolerance', 1e-5)
    r = verify(f, a, b, t, kw.get('max_evaluations', 500), out, 'fminbound(%s)' % name)
    if r[0] == 0 and best is not None:
        x = float(out[0])
        if abs(x - best) > 2 * (1.5e-8 * abs(x) + t / 3.0) + 3e-8 * (1 + abs(best)):
            raise Violation('fminbound(%s) returns %r, the minimum is at %r' % (name, x, best))
    if r[0] == 1 and kw.get('max_evaluations', 500) >= 500:
        raise Violation('fminbound(%s) does not converge' % name)
    return r


def run_params(c):
    pars, a, b = c
    rec = []

    def f(x, *p):
        rec.append(p)
        return (x - p[0]) ** 2 + sum(p)
    x = float(ok(call(O.fminbound, f, a, b, pars), 'fminbound with parameters'))
    if any(p != tuple(pars) for p in rec):
        raise Violation('target called with %r, parameters are %r' % (set(rec), pars))
    want = min(max(pars[0], a), b)
    if abs(x - want) > 2e-5:
        raise Violation('fminbound with parameters %r returns %r' % (pars, x))
    y = ok(call(O.fminbound, f, a, b, parameters=pars, tolerance=1e-7, max_evaluations=200, detailed_output=True), 'fminbound')
    if abs(float(y[0]) - want) > 1e-6:
        raise Violation('fminbound with parameters %r returns %r' % (pars, y))
    return round(x, 4)


class Token:
    """an opaque parameter: equal only to itself"""


TOKENS = (2, True, 2.5, 'name', None, (1, 2), np.float32(0.5), 10 ** 30, Token(), Token)


def run_mixed(c):
    pars = tuple(TOKENS[i] for i in c)
    rec = []

    def f(x, *p):
        rec.append(p)
        return (x - 1.25) ** 2
    x = float(ok(call(O.fminbound, f, 0.0, 3.0, pars), 'fminbound with parameters %r' % (pars,)))
    for p in rec:
        if len(p) != len(pars) or any(type(a) is not type(b) or a != b for a, b in zip(p, pars)):
            raise Violation('target called with %r, parameters are %r' % (p, pars))
    if not rec or abs(x - 1.25) > 1e-4:
        raise Violation('fminbound with parameters %r returns %r' % (pars, x))
    return len(rec)


def run_nested(c):
    name, inner, every, lim = c
    fn, a, b, _ = FUNCS[name]
    f, g = Nested(fn, inner, every), Real(fn)
    x, y = [call(O.fminbound, h, a, b, max_evaluations=lim, detailed_output=True) for h in (f, g)]
    r = verify(f, a, b, 1e-5, lim, x, 'fminbound(%s) with a nested %s' % (name, inner))
    if f.seen != g.seen or [float(t) for t in x] != [float(t) for t in y]:
        raise Violation('fminbound(%s): a nested %s changes the outcome from %r to %r' % (name, inner, y, x))
    step(1, 2)
    return r


def run_bad(c):
    a, b = c
    expect_error(call(O.fminbound, lambda x: x * x, a, b), ValueError, 'fminbound on [%r, %r]' % (a, b))
    return 'refused'


def spaces(tier):
    deep = tier == 'thorough'
    V = (0.0, 1.0, -1.0, 0.25)
    d = 7 if deep else 5
    inf, nan = float('inf'), float('nan')
    return [
        Space('adversary', lambda: ((0.0, 1.0, ans, tail, ()) for n in range(1, d + 1) for ans in itertools.product(V, repeat=n) for tail in ('bowl', 'flat')), run,
              'every answer sequence of length <= %d over 4 values' % d),
        Space('adversary-deep', lambda: ((-2.0, 3.0, ans, 'bowl', (('tolerance', 1e-2),)) for ans in itertools.product((0.0, 1.0, -1.0), repeat=9 if deep else 8)), run,
              'every answer sequence of length 8/9 over 3 values'),
        Space('extreme values', lambda: ((-1.0, 2.0, ans, tail, ()) for ans in itertools.product((1e300, -1e300, 1e-300, 0.0, -1e-200), repeat=5) for tail in ('bowl', 'flat')), run,
              'every answer sequence of length 5 over values from 1e-300 to 1e300'),
        Space('nearly equal', lambda: ((-1.0, 2.0, tuple(float(o + j * np.spacing(o)) for j in ans), tail, ()) for o in (1.0, -1.0, 1e9, -1e9, 1e-9, 1e-300) for ans in itertools.product((0, 1, 2, -1), repeat=5) for tail in ('level', 'flat')),
              lambda c: run(c[:3] + (('level', c[2][0]) if c[3] == 'level' else c[3],) + c[4:]), 'every answer sequence of length 5 over adjacent floating-point numbers'),
        Space('limits', lambda: ((1.0, 9.0, ans, tail, (('max_evaluations', m),)) for m in range(2, 14) for ans in itertools.product((0.0, 1.0, -1.0), repeat=4) for tail in ('bowl', 'fall', 'wave')),
              run, 'evaluation limits 2..13'),
        Space('intervals', lambda: ((a, b, ans, tail, kw) for a, b in ((0, 1), (-5.0, -1.0), (1e-3, 1e6), (-1e6, 2.0), (2.0, 2.0 + 1e-4), (-1e-6, 1e-6), (0.0, 1e-9))
                                    for kw in ((), (('tolerance', 1e-9),), (('tolerance', 0.5),), (('tolerance', 0.0),), (('tolerance', 0),)) for ans in itertools.product((0.0, 1.0, -1.0), repeat=4) for tail in sorted(TAILS)),
              run, '7 intervals, 5 tolerances (zero included), 5 continuations'),
        Space('functions', lambda: ((n, t, m) for n in sorted(FUNCS) for t in (None, 1e-3, 1e-8, 0.1, 0.0) for m in (None, 2, 3, 5, 10, 1000)), run_real, '10 functions'),
        Space('parameters', lambda: (((p,) + q, a, b) for p in (-1.0, 0.5, 2.0, 9.0) for q in ((), (1.0,), (1.0, -3.0)) for a, b in ((0.0, 3.0), (-4.0, 5.0))), run_params, 'extra parameters'),
        Space('mixed parameters', lambda: (c for n in range(0, 3) for c in itertools.product(range(len(TOKENS)), repeat=n)), run_mixed,
              'every sequence of up to 2 extra parameters out of 10 kinds of object arrives unchanged'),
        Space('nested', lambda: ((n, i, e, m) for n in sorted(FUNCS) for i in sorted(INNER) for e in (1, 2) for m in (500, 5)), run_nested,
              'functions that themselves search a root or a minimum'),
        Space('refused', lambda: [(2.0, 1.0), (0, -5), (-inf, 1.0), (0.0, inf), (nan, 1.0), (0.0, nan), (1.0, 1.0 - 1e-9)], run_bad, 'reversed or infinite bounds'),
    ]


def constants():
    def cases():
        for v in dom.fresh_values(1e-300, 1e300, (0.5, 1.0, 2.0)):
            for ans in itertools.product((0.0, v, -v, 1.0), repeat=4):
                yield (0.0, 1.0, ans, 'bowl', ())
            if 1e-6 < v < 1e9:
                for a, b in ((0.0, v), (-v, v), (v, 2 * v), (-3 * v, -v)):
                    for tail in sorted(TAILS):
                        yield (a, b, (1.0, 0.5), tail, ())
            if 1e-9 < v < 1:
                for tail in sorted(TAILS):
                    yield (0.0, 1.0, (1.0, 0.5), tail, (('tolerance', v),))
        for m in dom.fresh_sizes(2, 2000):
            for tail in sorted(TAILS):
                yield (0.0, 1e6, (1.0, 0.5, 0.25), tail, (('max_evaluations', m),))
                yield (0.0, 1e6, (1.0, 0.5, 0.25), tail, (('max_evaluations', m), ('tolerance', 1e-9)))
    return [Space('source-constants', cases, run, dom.gained())]
