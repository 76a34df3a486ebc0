"""P20 skewness and kurtosis tests of normality."""
import math
import numpy as np
from fractions import Fraction
from mc import det, dom, ref
from mc.core import Space, Violation, as_scalar, call, expect_error, note, ok, same, step
import proadv.statistics.distributions.normal as N

MODS = ['proadv.statistics.distributions.normal', 'proadv.statistics.moment']


def moments(v):
    n = len(v)
    u, c = np.unique(v, return_counts=True)
    fr = [(Fraction(float(x)), int(k)) for x, k in zip(u, c)]
    m = sum(x * k for x, k in fr) / n
    return [sum(q * (x - m) ** k for x, q in fr) / n for k in (2, 3, 4)]


def z_skew(b1, n):
    """D'Agostino (1970): asinh transformation of the sample skewness."""
    y = b1 * math.sqrt((n + 1.0) * (n + 3) / (6.0 * (n - 2)))
    b2 = 3.0 * (n * n + 27.0 * n - 70) * (n + 1) * (n + 3) / ((n - 2.0) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * b2 - 2) - 1
    d = 1 / math.sqrt(math.log(math.sqrt(w2)))
    al = math.sqrt(2 / (w2 - 1))
    return d * math.asinh(y / al)


def z_kurt(b2, n):
    """Anscombe & Glynn (1983): cube-root transformation.  None when the transformation's denominator vanishes."""
    e = 3.0 * (n - 1) / (n + 1)
    var = 24.0 * n * (n - 2) * (n - 3) / ((n + 1.0) ** 2 * (n + 3) * (n + 5))
    x = (b2 - e) / math.sqrt(var)
    beta = 6.0 * (n * n - 5 * n + 2) / ((n + 7.0) * (n + 9)) * math.sqrt(6.0 * (n + 3) * (n + 5) / (n * (n - 2.0) * (n - 3)))
    A = 6 + 8 / beta * (2 / beta + math.sqrt(1 + 4 / beta ** 2))
    den = 1 + x * math.sqrt(2 / (A - 4))
    if abs(den) < 1e-4:
        return None
    t = math.copysign(((1 - 2 / A) / abs(den)) ** (1 / 3.0), den)
    return (1 - 2 / (9 * A) - t) / math.sqrt(2 / (9 * A))


def check(fn, v, z, what, rel=None):
    lo = 0.5 * math.erfc(-z / math.sqrt(2))
    hi = 0.5 * math.erfc(z / math.sqrt(2))
    for alt, p in (('two-sided', 2 * min(lo, hi)), ('greater', hi), ('less', lo), (None, 2 * min(lo, hi))):
        out = ok(call(fn, v.copy()) if alt is None else call(fn, v.copy(), alt), what)
        try:
            a, b = out
        except Exception:
            raise Violation('%s: expected (statistic, p-value), got %r' % (what, out))
        same(as_scalar(a, what + ' statistic'), z, 1e-8 * (1 + abs(z)) if rel is None else rel * abs(z) + 1e-13, what + ' statistic')
        pv = as_scalar(b, what + ' p-value')
        same(pv, p, 1e-8, '%s p-value (%s)' % (what, alt))
        if not -1e-12 <= pv <= 1 + 1e-12:
            raise Violation('%s p-value %r outside [0, 1]' % (what, pv))
    step(4, 8)


def judge(v, rel=None):
    v = np.array(v, dtype=float)
    n = len(v)
    m2, m3, m4 = moments(v)
    if m2 == 0 or math.sqrt(float(m2)) < 1e-4 * ref.scale(v):
        note('constant_series')
        return 'undefined'
    b1 = float(m3) / float(m2) ** 1.5
    b2 = float(m4 / m2 ** 2)
    res = []
    if n >= 8:
        z = 0.0 if m3 == 0 else z_skew(b1, n)
        check(N.skewtest, v, z, 'skewness test', rel)
        res.append(z)
    if n >= 5:
        z = z_kurt(b2, n)
        if z is None:
            note('vanishing_denominator')
        else:
            check(N.kurtotest, v, z, 'kurtosis test')
            res.append(z)
    return [round(z, 8) for z in res]


def run_bad(c):
    which, n, alt = c
    fn = getattr(N, which)
    v = dom.noise(n)
    expect_error(call(fn, v) if alt is None else call(fn, v, alt), ValueError, '%s with %d samples, alternative %r' % (which, n, alt))
    return 'refused'


def bad():
    for n in range(2, 8):
        yield ('skewtest', n, None)
        if n < 5:
            yield ('kurtotest', n, None)
    for which in ('skewtest', 'kurtotest'):
        for n in (8, 9, 20):
            for alt in ('both', '', 'twosided', 'Less', 'two_sided', 'larger', 'Greater'):
                yield (which, n, alt)


def spaces(tier):
    deep = tier == 'thorough'
    lits = [n for n in dom.literal_sizes(5, 4000, MODS, 24)]
    def nearly():
        for sh in ('noise', 'ramp', 'ties', 'spiky', 'quad'):
            for n in (4, 6, 9, 17):
                for i in (0, n // 2, 2 * n - 1):
                    for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, -1e-2, -1e-4):
                        yield (sh, n, i, e)

    def run_nearly(c):
        sh, n, i, e = c
        v = np.concatenate([dom.shape(sh, n), -dom.shape(sh, n)])
        v[i] += e * (1 + abs(v[i]))
        return judge(v, 1e-8 / max(abs(e), 1e-12) * 1e-3)

    def spiked(sh, n, h):
        v = dom.shape(sh, n).copy()
        v[n // 3] = h
        return v

    def crossing():
        # spike heights where a statistic changes its sign
        for sh in ('noise', 'ramp', 'sine', 'ties'):
            for n in (9, 20, 50):
                for w, g in ((0, lambda m, n: float(m[1])), (1, lambda m, n: float(m[2] / m[0] ** 2) - 3.0 * (n - 1) / (n + 1))):
                    def f(h):
                        m = moments(spiked(sh, n, h))
                        return m[0] > 0 and g(m, n) > 0
                    for h in det.edges(f, [x / 4.0 for x in range(-60, 61)], (1e-9, 1e-6, 1e-4, 1e-2), 6):
                        yield (sh, n, h)
    return [
        Space('nearly-symmetric', nearly, run_nearly, 'symmetric data with one sample displaced by 1e-5..1e-1: statistics close to zero, judged relatively'),
        Space('sign-changes', crossing, lambda c: judge(spiked(*c)), 'spike heights next to those where a statistic changes sign'),
        Space('words-3', lambda: ((w,) for w in dom.words((0.0, 1.0, -2.0), 5, 8)), lambda c: judge(c[0]), 'every series over 3 values, 5..8 samples'),
        Space('words-2', lambda: ((w,) for w in dom.words((1.0, 4.0), 9, 12 if deep else 11)), lambda c: judge(c[0]), 'every two-valued series, 9..11/12 samples'),
        Space('refused', bad, run_bad, 'too few samples, unknown alternatives'),
        Space('two-valued', lambda: ((n, k) for n in range(5, 90 if deep else 70) for k in range(1, n)),
              lambda c: judge([1.0] * c[1] + [-3.0] * (c[0] - c[1])), 'every two-valued distribution up to 69/89 samples'),
        Space('three-valued', lambda: ((n, j, k) for n in (8, 12, 20, 33) for j in range(0, n) for k in range(1, n - j)),
              lambda c: judge([1.0] * c[1] + [-3.0] * c[2] + [0.5] * (c[0] - c[1] - c[2])), 'every three-valued distribution of 8, 12, 20, 33 samples'),
        Space('symmetric', lambda: ((sh, n) for sh in ('noise', 'ramp', 'ties', 'spiky', 'quad') for n in range(4, 40)),
              lambda c: judge(np.concatenate([dom.shape(*c), -dom.shape(*c)])), 'symmetric data'),
        Space('shapes', lambda: ((sh, n) for sh in dom.SHAPES for n in sorted(set(list(range(5, 64)) + lits))),
              lambda c: judge(dom.shape(*c)), '19 shapes, every length 5..63 and the sizes next to the constants of the source'),
        Space('magnitudes', lambda: ((sh, n, k) for sh in ('noise', 'spiky', 'step', 'onespike') for n in (8, 20, 33) for k in (-60, -45, -30, -20, -10, 10, 20, 40, 60)),
              lambda c: judge(dom.shape(c[0], c[1]) * 2.0 ** c[2]), 'magnitudes 2^-60..2^60'),
        Space('very-long', lambda: ((sh, n) for sh in ('step', 'ties') for n in (20011, 40009, 65537, 70001, 300007)), lambda c: judge(np.round(dom.shape(*c) * 8) / 8), '20011..300007 samples'),
        Space('long', lambda: ((sh, n) for sh in ('noise', 'spiky', 'offset', 'step') for n in (100, 257, 1000, 2500, 4099)),
              lambda c: judge(dom.shape(*c)), 'long series'),
    ]


def constants():
    return [Space('source-constants', lambda: dom.fresh_series((9, 30, 120), 5, 5000, shapes=('noise', 'spiky', 'step')), lambda c: judge(dom.build(c)), dom.gained())]
