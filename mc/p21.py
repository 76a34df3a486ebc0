"""P21 moving averages."""
import numpy as np
from mc import dom, ref
from mc.core import Space, as_series, call, expect_error, same, step
import proadv.statistics.series as S

MODS = ['proadv.statistics.series', 'proadv.statistics.descriptive']
ALPHAS = (0.2, 0.5, 1.0, 0.1, 0.05, 0.9, 0.001, 1)
CORNERS = (1e-9, 1e-4, 0.999, 1 - 1e-9)


def tol(v):
    return 1e-13 * (1e-300 + ref.scale(v)) * (10 + len(v))


def run_sma(c):
    v, w = c
    v = np.array(v)
    got = as_series(call(S.moving_average, v.copy(), w), len(v), 'moving average')
    same(got, ref.sma(v.astype(float), w), tol(v), 'moving average (window %d)' % w)
    return got


def run_ema(c):
    v, a = c
    v = np.array(v, dtype=float)
    got = as_series(call(S.exponential_moving_average, v.copy(), a), len(v), 'exponential moving average')
    same(got, ref.ema(v, a), tol(v), 'exponential moving average (alpha %g)' % a)
    if np.any(got > v.max() + tol(v)) or np.any(got < v.min() - tol(v)):
        same(0, 1, 0, 'exponential moving average within the range of the data')
    return got


def run_wma(c):
    v, p = c
    v = np.array(v)
    got = as_series(call(S.weighted_moving_average, v.copy(), p), len(v) - p, 'weighted moving average')
    same(got, ref.wma(v.astype(float), p), tol(v), 'weighted moving average (period %d)' % p)
    return got


def run_all(c):
    sh, n, w = c
    v = dom.shape(sh, n)
    a = run_sma((v, w))
    b = run_wma((v, w))
    step(1, 1)
    return (a, b)


def run_short(c):
    v = dom.shape(*c)
    for f in (S.moving_average, S.weighted_moving_average):
        for a in ((), (20,)):
            for d in (v.copy(), v.tolist()):
                expect_error(call(f, d, *a), ValueError, '%s of %d samples, window 20 %s' % (f.__name__, len(v), 'given' if a else 'by default'))
    step(4, 1)
    return 'refused'


def run_default(c):
    sh, n = c
    v = dom.shape(sh, n)
    same(as_series(call(S.moving_average, v.copy()), n), ref.sma(v, 20), tol(v), 'moving average, default window 20')
    same(as_series(call(S.exponential_moving_average, v.copy()), n), ref.ema(v, 0.2), tol(v), 'exponential moving average, default 0.2')
    same(as_series(call(S.weighted_moving_average, v.copy()), n - 20), ref.wma(v, 20), tol(v), 'weighted moving average, default period 20')
    step(2, 2)
    return 'ok'


def run_magn(c):
    sh, n, k = c
    v = dom.shape(sh, n) * 2.0 ** k
    step(7, 7)
    return [run_sma((v, w)) for w in (1, 2, n)] + [run_wma((v, w)) for w in (1, 2, n)] + [run_ema((v, a)) for a in (0.2, 1.0)]


def run_bad(c):
    fn, kind, n, w = c
    v = dom.noise(n)
    if kind == 'empty':
        as_series(call(S.moving_average, np.array([]), w), 0, 'moving average of an empty array')
    elif kind == '2d':
        expect_error(call(S.moving_average, v.reshape(2, -1), w), ValueError, 'moving average of a matrix')
    else:
        expect_error(call(getattr(S, fn), v, w), ValueError, '%s(%d samples, %r)' % (fn, n, w))
    return 'refused'


def bad():
    for n in range(1, 9):
        for w in (0, -1, -20, n + 1, n + 2, 100):
            yield ('moving_average', 'window', n, w)
            yield ('weighted_moving_average', 'period', n, w)
        for a in (0, -0.5, 1.0000001, 2, -1e-9, 0.0):
            yield ('exponential_moving_average', 'alpha', n, a)
    for w in (1, 5, 20):
        yield ('moving_average', 'empty', 0, w)
    for n in (2, 4, 6, 8):
        for w in (1, 2):
            yield ('moving_average', '2d', n, w)


def spaces(tier):
    deep = tier == 'thorough'
    nm = 8 if deep else 7
    A3 = (0.0, 1.0, -4.0)
    sizes = [100, 257, 1000, 4099] + dom.literal_sizes(20, 20000, MODS, 10)
    top = 70 if deep else 45

    def with_window():
        for w in dom.words(A3, 1, nm):
            for k in range(1, len(w) + 1):
                yield (w, k)
    return [
        Space('simple-words', with_window, run_sma, 'every series over 3 values up to %d samples, every window' % nm),
        Space('weighted-words', with_window, run_wma, 'every series over 3 values up to %d samples, every period' % nm),
        Space('exponential-words', lambda: ((w, a) for w in dom.words(A3, 1, nm) for a in ALPHAS), run_ema,
              'every series over 3 values up to %d samples, 8 smoothing factors' % nm),
        Space('integers', lambda: ((tuple(int(x) for x in w), k) for w in dom.words((0, 3, -5), 1, 5) for k in range(1, len(w) + 1)),
              lambda c: (run_sma(c), run_wma(c)), 'integer series'),
        Space('refused', bad, run_bad, 'windows, periods and factors outside the range'),
        Space('all-windows', lambda: ((sh, n, w) for sh in ('noise', 'offset', 'spiky', 'ramp', 'huge', 'tiny') for n in range(1, top) for w in range(1, n + 1)),
              run_all, '6 shapes, every length up to %d, every window' % (top - 1)),
        Space('defaults, short', lambda: ((sh, n) for sh in dom.SHAPES for n in range(1, 20)), run_short, 'default windows on shorter records'),
        Space('defaults', lambda: ((sh, n) for sh in dom.SHAPES for n in range(20, 60)), run_default, 'default parameters'),
        Space('impulses', lambda: ((n, i, w) for n in (30, 41) for i in range(n) for w in (1, 2, 3, 7, 20, n - 1, n)),
              lambda c: (run_sma((np.eye(c[0])[c[1]] * 8, c[2])), run_wma((np.eye(c[0])[c[1]] * 8, c[2])), run_ema((np.eye(c[0])[c[1]] * 8, 1.0 / c[2]))),
              'unit impulses at every position'),
        Space('magnitudes', lambda: ((sh, n, k) for sh in ('noise', 'offset', 'spiky') for n in (5, 30) for k in (-300, -100, -60, -40, -20, 20, 40, 60, 100, 300)),
              run_magn, 'magnitudes 2^-300..2^300'),
        Space('smoothing-corners', lambda: ((dom.shape(sh, n), a) for sh in ('noise', 'offset', 'spiky', 'onespike') for n in (1, 2, 7, 50, 500) for a in CORNERS), run_ema,
              'smoothing factors next to 0 and 1'),
        Space('very-long', lambda: ((sh, n, w) for sh in ('noise', 'offset') for n in (40009, 70001) for w in (1, 20, 150)), run_all, '40009 and 70001 samples'),
        Space('very-long-exponential', lambda: ((dom.shape('spiky', n), a) for n in (40009, 70001) for a in (0.2, 0.001, 1e-4)), run_ema, '40009 and 70001 samples'),
        Space('wide-windows', lambda: ((sh, n, w) for sh in ('noise', 'offset') for n in (1000, 4099) for w in (127, 128, 129, 255, 256, 257, 500, 513, 999)), run_all, 'windows up to 999'),
        Space('long', lambda: ((sh, n, w) for sh in ('noise', 'offset', 'spiky', 'huge') for n in sizes for w in (1, 2, 19, 20, 21, 64, 99) if w < n), run_all,
              'long series'),
        Space('long-exponential', lambda: ((sh, n, a) for sh in ('noise', 'offset', 'spiky') for n in sizes for a in ALPHAS),
              lambda c: run_ema((dom.shape(c[0], c[1]), c[2])), 'long series'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((9, 30), 1, 20000):
            n = c[2]
            for w in sorted({1, min(3, n), n // 2 + 1, min(n, 20)}):
                if n * w <= 1500000:
                    yield ('window', c, w)
            for a in (0.2, 0.9):
                yield ('alpha', c, a)
        for w in dom.fresh_sizes(1, 4000):
            for n in (w, w + 1, w + 40, 3 * w):
                if n * w > 1500000:
                    continue
                yield ('window', ('size', 'noise', n, 1.0), w)
        for v in dom.fresh_values(0.0, 1.0, (0.5, 0.97, 0.999, 1.0, 1.001, 1.03, 2.0)):
            for n in (1, 7, 60, 1000):
                yield ('alpha', ('size', 'spiky', n, 1.0), v)

    def run(c):
        v = dom.build(c[1])
        return (run_sma((v, c[2])), run_wma((v, c[2])))[0] if c[0] == 'window' else run_ema((v, c[2]))
    return [Space('source-constants', cases, run, dom.gained())]
