"""P36 widening root search of the kernel estimator."""
import itertools
import math
import numpy as np
from mc import dom
from mc.core import Space, Violation, as_scalar, call, note, step
import proadv.kernel.bivariate as K

TOP = 0.1


class Fn:
    """monotone function with a known sign change (or none); counts its calls"""

    def __init__(self, kind, r, sign, amp=1.0):
        self.amp = amp
        self.kind, self.r, self.sign, self.calls, self.out = kind, r, sign, 0, None

    def value(self, t):
        d = t - self.r
        return self.sign * {'line': d, 'cube': d ** 3 * 1e3 + d, 'exp': math.exp(30 * d) - 1, 'atan': math.atan(50 * d), 'step': -1.0 if d < 0 else 1.0,
                            'bend': d * (1 if d > 0 else 20.0), 'sharp': math.copysign(math.sqrt(abs(d)), d)}[self.kind]

    def __call__(self, t):
        self.calls += 1
        t = float(t)
        if not -1e-12 <= t <= TOP + 1e-12:
            self.out = t
        return self.amp * self.value(t)


def first_width(n):
    m = min(max(n, 50), 1050)
    return 1e-12 + 0.01 * (m - 50) / 1000


def run(c):
    kind, r, sign, n = c[:4]
    f = Fn(kind, r, sign, *c[4:])
    t = as_scalar(call(K.root, f, n), 'root')
    if f.out is not None:
        raise Violation('the function is evaluated at %r, outside [0, %g]' % (f.out, TOP))
    if not -1e-12 <= t <= TOP + 1e-12:
        raise Violation('root %r outside [0, %g]' % (t, TOP))
    if f.calls > 3000:
        raise Violation('%d evaluations' % f.calls)
    # the bracket [0, w] is widened by doubling until the sign changes inside it
    w = first_width(n)
    hit = r <= w
    while not hit and 2 * w < TOP:
        w *= 2
        hit = r <= w
    near = abs(r - w) < 1e-9 * w
    target = min(max(r, 0.0), TOP)
    if r >= 0 and hit and not near:
        tol = 1e-11 + 1e-9 * r
    else:
        tol = 3e-5            # minimiser of the absolute value
    if kind == 'step' and tol == 3e-5:
        return 'flat'         # every point minimises the absolute value
    if abs(t - target) > tol:
        raise Violation('root of %s changing sign at %r (n=%d): %.17g' % (kind, r, n, t))
    return round(t, 9)


def run_several(c):
    roots, sign, n = c
    out = []

    def f(t):
        t = float(t)
        if not -1e-12 <= t <= TOP + 1e-12:
            out.append(t)
        v = sign
        for r in roots:
            v *= (t - r) / (t + r)
        return v
    t = as_scalar(call(K.root, f, n), 'root')
    if out:
        raise Violation('the function is evaluated at %r, outside [0, %g]' % (out[0], TOP))
    w = first_width(n)
    while True:
        inside = [r for r in roots if r <= w]
        if any(abs(r - w) < 1e-6 * w for r in roots):
            return 'border'
        if len(inside) % 2:
            break
        if 2 * w >= TOP:
            # no bracket shows a sign change: a local minimiser of the absolute value
            if not 0 <= t <= TOP:
                raise Violation('root %r outside [0, %g]' % (t, TOP))
            return 'minimiser'
        w *= 2
    if min(abs(t - r) - 1e-9 * r for r in inside) > 1e-11:
        raise Violation('sign changes at %r, n=%d: the first bracket with a sign change is [0, %.3g], the root search returns %.17g' % (roots, n, w, t))
    return [round(math.log10(r), 3) for r in inside]


def run_nested(c):
    kind, r, s, n, kind2, r2, s2, n2 = c
    inner = Fn(kind2, r2, s2)
    out = []
    for nest in (False, True):
        f = Fn(kind, r, s)

        def g(t):
            if nest:
                K.root(inner, n2)
            v = f(t)
            if nest:
                K.root(inner, n2)
            return v
        out.append((as_scalar(call(K.root, g, n), 'root'), f.calls))
    if out[0] != out[1]:
        raise Violation('root of %s: a search inside the function changes (root, evaluations) from %r to %r' % (kind, out[0], out[1]))
    return out[0]


def spaces(tier):
    deep = tier == 'thorough'
    kinds = ('line', 'cube', 'exp', 'atan', 'step', 'bend', 'sharp')
    R = [0.0, 1e-13, 3e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 3e-4, 0.001, 0.0025, 0.004, 0.007, 0.0099, 0.0101, 0.015, 0.021, 0.03, 0.037, 0.045, 0.0501, 0.06, 0.0799, 0.081, 0.09, 0.0987]
    N = [1, 8, 49, 50, 51, 60, 100, 200, 500, 700, 999, 1000, 1049, 1050, 1051, 5000, 10 ** 6]
    if deep:
        R = sorted(set(R + [k / 500.0 for k in range(0, 50)] + [10.0 ** -k for k in range(2, 11)]))
        N = sorted(set(N + list(range(40, 1100, 23))))
    return [
        Space('roots', lambda: ((k, r, s, n) for n in N for k in kinds for r in R for s in (1, -1) if not (k == 'step' and r == 0)), run,
              '7 monotone functions of either direction, %d sign changes, %d sample counts' % (len(R), len(N))),
        Space('amplitudes', lambda: ((k, r, s, n, a) for n in (50, 500, 5000) for k in kinds for r in (0.001, 0.0101, 0.03, 0.081, 0.4) for s in (1, -1) for a in (1e-200, 1e-30, 1e-12, 1e12, 1e200)
                                     if not (k == 'step' and r > 0.1)), run, 'function values of the order 1e-200..1e200'),
        Space('several', lambda: ((rs, s, n) for k in (2, 3, 4) for rs in itertools.combinations((6e-11, 3e-10, 4e-9, 5e-8, 7e-7, 1.3e-5, 2.1e-4, 1.1e-3, 0.0047, 0.013, 0.031, 0.067), k)
                                  for s in (1, -1) for n in (8, 50, 51, 60, 200, 700, 1050, 4000)), run_several, 'every set of 2..4 sign changes out of 12: one inside the first bracket that shows a sign change'),
        Space('nested', lambda: (a + b for a in (('line', 0.003, 1, 50), ('atan', 0.0101, -1, 200), ('sharp', 0.07, 1, 1050), ('line', 0.4, 1, 50)) for b in (('line', 0.03, -1, 51), ('exp', 1e-6, 1, 5000), ('line', -0.5, 1, 100))), run_nested,
              'functions that themselves run the search'),
        Space('no-root', lambda: ((k, r, s, n) for n in N for k in kinds if k != 'step' for r in (-0.5, -0.01, 0.15, 0.4, 1.0) for s in (1, -1)), run,
              'functions without a sign change: minimiser of the absolute value'),
    ]


def constants():
    def cases():
        for n in dom.fresh_sizes(1, 10 ** 6):
            for k in ('line', 'atan', 'sharp'):
                for r in (1e-9, 1e-5, 0.003, 0.0101, 0.03, 0.07):
                    for s in (1, -1):
                        yield (k, r, s, n)
        for v in dom.fresh_values(1e-11, 0.0999):
            for k in ('line', 'atan', 'sharp'):
                for n in (8, 50, 200, 1050):
                    for s in (1, -1):
                        yield (k, v, s, n)
        for v in dom.fresh_values(1e-12, 1e12):
            for n in (50, 500):
                for r in (0.003, 0.03, 0.15):
                    yield ('line', r, 1, n, v)
    return [Space('source-constants', cases, run, dom.gained())]
