"""P19 the normal distribution's functions."""
import itertools
import math
import numpy as np
from mc import dom
from mc.core import Space, Violation, call, expect_error, ok, same, step
import proadv.statistics.distributions.normal as N

MODS = ['proadv.statistics.distributions.normal']
R2 = math.sqrt(2.0)
FAR = [s * x for s in (1, -1) for x in (float('inf'), 1e300, 1.35e154, 1e10, 1e3, 60.0, 39.5, 1e-3, 1e-8, 1e-17, 1e-160, 1e-300, 5e-324)] + [0.0, -0.0]


def Phi(x):
    return 0.5 * math.erfc(-x / R2)


def Q(x):
    return 0.5 * math.erfc(x / R2)


def logphi(x):
    return -0.5 * x * x - 0.5 * math.log(2 * math.pi)


def arr(fn, x):
    a = np.asarray(x, dtype=float)
    return np.array([fn(float(t)) for t in a.reshape(-1)]).reshape(a.shape)


def get(fn, x, what, *a):
    y = x.copy(order='K') if isinstance(x, np.ndarray) else x
    out = ok(call(fn, y, *a), what)
    try:
        out = np.asarray(out, dtype=float)
    except Exception as e:
        raise Violation('%s is not numeric: %r' % (what, e))
    if out.shape != np.shape(x):
        raise Violation('%s has shape %s for data of shape %s' % (what, out.shape, np.shape(x)))
    return out


def judge(x):
    """x: number, nested list or array"""
    f = np.asarray(x, dtype=float)
    c = get(N.cdf, x, 'cdf')
    want = arr(Phi, x)
    same(c, want, 4e-16 + 1e-12 * want, 'cdf')
    s = get(N.sf, x, 'sf')
    same(s, arr(Q, x), 1e-15, 'sf')
    same(s + c, np.ones(f.shape), 4e-16, 'cdf + sf')
    p = get(N.pdf, x, 'pdf')
    lp = arr(logphi, x)
    same(p, np.exp(lp), 1e-12 * np.exp(lp) * (1 + f * f), 'pdf')
    if np.all(np.abs(f) <= 36):
        same(get(N.log_pdf, x, 'log pdf'), lp, 1e-11 * (1 + np.abs(lp)), 'log pdf')
        same(get(N.log_cdf, x, 'log cdf'), np.log(want), 1e-11 * (1 + np.abs(np.log(want))), 'log cdf')
        step(2, 2)
    if np.all(f <= 5):
        q = arr(Q, x)
        same(get(N.log_sf, x, 'log sf'), np.log(q), 1e-12 + 1e-15 / q, 'log sf')
        step(1, 1)
    step(3, 3)
    return c


def run_par(c):
    x, std, mean = c
    x = np.asarray(x)
    z = (x.astype(float) - mean) / std
    lp = arr(logphi, z) - math.log(std)
    same(get(N.pdf, x, 'pdf', std, mean), np.exp(lp), 1e-11 * np.exp(lp) * (1 + z * z), 'pdf(std=%g, mean=%g)' % (std, mean))
    step(1, 1)
    if np.all(np.abs(z) <= 36):
        same(get(N.log_pdf, x, 'log pdf', std, mean), lp, 1e-10 * (1 + np.abs(lp)), 'log pdf(std=%g, mean=%g)' % (std, mean))
    for kw in ({'std': std}, {'mean': mean}):
        s, m = kw.get('std', 1), kw.get('mean', 0)
        z = (x.astype(float) - m) / s
        lp = arr(logphi, z) - math.log(s)
        out = ok(call(N.pdf, x.copy(), **kw), 'pdf')
        same(out, np.exp(lp), 1e-11 * np.exp(lp) * (1 + z * z), 'pdf(%r)' % kw)
    return np.exp(lp)


def run_far(c):
    """far tails, infinities and arguments next to zero"""
    x = np.array(c, dtype=float)
    w = arr(Phi, x)
    cd, sf, pd = get(N.cdf, x, 'cdf'), get(N.sf, x, 'sf'), get(N.pdf, x, 'pdf')
    same(cd, w, 4e-16 + 1e-12 * w, 'cdf')
    same(sf, arr(Q, x), 1e-15, 'sf')
    same(pd, [0.0 if abs(t) > 39 else math.exp(logphi(t)) for t in c], 1e-14, 'pdf')
    step(2, 2)
    return (cd, sf, pd)


def run_mono(c):
    grid = np.array(c)
    cd = get(N.cdf, grid, 'cdf')
    if np.any(np.diff(cd) < -2.3e-16) or cd.min() < 0 or cd.max() > 1:
        k = int(np.argmin(np.diff(cd)))
        raise Violation('cdf decreases or leaves [0, 1] near x = %.17g' % grid[k])
    sf = get(N.sf, grid, 'sf')
    if np.any(np.diff(sf) > 2.3e-16):
        raise Violation('sf increases')
    neg = get(N.cdf, -grid, 'cdf')
    same(cd + neg, np.ones(len(grid)), 4e-16, 'cdf(x) + cdf(-x)')
    pg = get(N.pdf, grid, 'pdf')
    same(pg, get(N.pdf, -grid, 'pdf'), 1e-12 * pg, 'pdf symmetry')
    return cd


FN = ('cdf', 'pdf', 'sf', 'log_cdf', 'log_pdf', 'log_sf')


def run_bad(c):
    name, kind, n, i = c
    fn = getattr(N, name)
    if kind == 'empty':
        x = [np.array([]), [], np.zeros((0, 3))][n]
        expect_error(call(fn, x), ValueError, '%s of an empty array' % name)
    else:
        v = dom.noise(n)
        v[i] = np.nan
        if kind == 'nan2':
            v = v.reshape(2, -1)
        expect_error(call(fn, v), TypeError, '%s of data with NaN' % name)
    return 'refused'


def bad():
    for name in FN:
        for k in range(3):
            yield (name, 'empty', k, 0)
        for n in (1, 2, 3, 6):
            for i in range(n):
                yield (name, 'nan', n, i)
                if n == 6:
                    yield (name, 'nan2', n, i)


def spaces(tier):
    deep = tier == 'thorough'
    A = (0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -3.0, 6.0)
    step_ = 1 / 256.0 if deep else 1 / 64.0

    def points():
        m = int(10 / step_)
        for k in range(-m, m + 1):
            yield (k * step_,)
        for k in range(10, 38):
            yield (float(k),)
            yield (-float(k),)
        for b in [1.0, R2, 1 / R2, 0.5, 5.0] + dom.literal_values(MODS, 0.01, 38.0):
            for s in (1, -1):
                for d in (0, 1):
                    x = s * b
                    yield (float(np.nextafter(x, d * 1e9 - 5e8)),)
                yield (s * b,)

    def shapes():
        base = (0.25, -1.0, 2.5, -0.75, 1.0, 3.5)
        for k in itertools.permutations(base, 4):
            yield (list(k),)
            yield (np.array(k).reshape(2, 2),)
        for sh in ((6,), (1, 6), (6, 1), (2, 3), (3, 2), (1, 2, 3), (1, 1, 6), (3, 1, 2)):
            yield (np.array(base).reshape(sh),)
            yield (np.array(base).reshape(sh).tolist(),)
            yield (np.array([-3, -1, 0, 1, 2, 4]).reshape(sh),)
            yield (np.asfortranarray(np.array(base).reshape(sh)),)
            yield (np.asfortranarray(np.array([-3, -1, 0, 1, 2, 4]).reshape(sh)),)
            yield (np.array(base).reshape(sh).T,)
            yield (np.array(base + base).reshape((2,) + sh).swapaxes(0, -1),)
        for x in range(-9, 6):
            yield (x,)
            yield (np.int64(x),)
            yield ([x, x + 1, 0],)
            yield (float(x) + 0.5,)
            yield (np.array(x * 0.5),)

    def params():
        for std in (1, 0.5, 2.0, 3, 0.05, 10.0, 250.0):
            for mean in (0, 1.5, -2, 64.0, 0.125):
                for d in ((0.0, 1.0, -2.5), (64.25, 63.0, 65.5, 60.0), (1, 2, -3), (0.125,)):
                    yield (d, std, mean)
        for k in (-100, -30, -12, -7, -4, 4, 8, 20, 100):
            for m in (0, 1.0, -4.0, 100.0):
                s = 10.0 ** k
                yield (tuple(s * (m + z) for z in (0.0, 1.0, -2.5, 0.125, 6.0)), s, m * s)
        for m in (1e6, -1e6, 1e12):
            yield (tuple(m + z for z in (0.0, 1.0, -2.5, 0.125, 6.0)), 1.0, m)
            yield (tuple(m + z for z in (0.0, 1.0, -2.5, 0.125, 6.0)), 0.5, m)
    grid = [float(x) for x in np.arange(-10, 10.0001, 1 / 128.0)]
    return [
        Space('points', points, lambda c: judge(np.array(c)), 'every multiple of %g in [-10, 10], integers to 37, neighbours of 1, sqrt 2' % step_),
        Space('words', lambda: ((w,) for w in dom.words(A, 1, 4 if deep else 3)), lambda c: judge(np.array(c[0])), 'every array over 8 values, length <= 3/4'),
        Space('shapes', shapes, lambda c: judge(c[0]), 'scalars, integers, lists, 1- to 4-dimensional arrays in row and column order'),
        Space('parameters', params, run_par, 'std and mean grids'),
        Space('refused', bad, run_bad, 'empty and NaN at every position'),
        Space('monotone', lambda: [grid[i:i + 200] for i in range(0, len(grid) - 1, 199)], run_mono, 'consecutive points of a grid of step 1/128'),
        Space('far', lambda: [(x,) for x in FAR] + list(itertools.permutations(FAR, 2)), run_far,
              'infinities, huge and subnormal arguments, singly and in every ordered pair'),
        Space('very-long', lambda: (dom.shape('spiky', n) for n in (40009, 70001)), lambda c: judge(np.clip(c, -9, 5)), '40009 and 70001 values'),
        Space('long', lambda: (dom.shape(s, n) for s in ('noise', 'noise2', 'spiky', 'alt') for n in [100, 1000, 4099] + dom.literal_sizes(2, 5000, MODS, 8)),
              lambda c: judge(np.clip(c, -9, 5)), 'long arrays'),
    ]


def constants():
    def points():
        for v in dom.fresh_values(1e-9, 37.0, (0.5, 0.97, 0.999, 1.0, 1.001, 1.03, 2.0)):
            yield (v,)
            yield (-v,)
            yield (0.5, -v, v, 3.0)

    def par():
        for v in dom.fresh_values(1e-9, 1e9):
            for m in (0, 1.0, -4.0):
                yield (tuple(v * (m + z) for z in (0.0, 1.0, -2.5, 0.125)), v, m * v)
            for s in (1, -1):
                yield (tuple(s * v + z for z in (0.0, 1.0, -2.5, 0.125)), 1.0, s * v)
    return [Space('source-constants', points, lambda c: judge(np.array(c)), dom.gained()),
            Space('source-constants-parameters', par, run_par, dom.gained()),
            Space('source-constants-sizes', lambda: dom.fresh_sizes(1, 50000), lambda n: judge(np.clip(dom.shape('noise2', n), -9, 5)), dom.gained())]
