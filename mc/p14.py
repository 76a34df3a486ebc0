"""P14 pollution rate."""
import itertools
import numpy as np
from mc import det, dom, ref
from mc.core import Space, Violation, as_scalar, call, same, shared
import proadv.filtration.detection.pollution as P

MODS = ['proadv.filtration.detection.pollution', 'proadv.statistics.spread']


def judge(x, f, k, band=1e-10, m=0):
    """m: data and filtered data in units of 2^m (changes nothing)"""
    x, f = np.array(x, dtype=float), np.array(f, dtype=float)
    got = as_scalar(call(P.pollution_rate, *shared(x * 2.0 ** m, f * 2.0 ** m), k))
    thr = k * ref.std(x)
    sc = max(ref.scale(x), ref.scale(f)) * band
    d = np.abs(x - f)
    lo, hi = int(np.sum(d > thr + sc)), int(np.sum(d > thr - sc)) if band else int(np.sum(d > thr))
    n = len(x)
    if not (100.0 * lo / n - 1e-9 <= got <= 100.0 * hi / n + 1e-9):
        raise Violation('pollution rate %.10g, expected %d..%d of %d samples' % (got, lo, hi, n))
    if abs(got * n / 100.0 - round(got * n / 100.0)) > 1e-6:
        raise Violation('pollution rate %.17g is not a count over %d samples' % (got, n))
    return got


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [33, 257, 1000, 4099, 10007] + dom.literal_sizes(2, 20000, MODS, 12)

    def words():
        for n in range(1, 4 if not deep else 5):
            for x in dom.words((0.0, 1.0, -2.0, 6.0), n, n):
                for f in dom.words((0.0, 1.0, -3.0), n, n):
                    for k in (0.0, 0.5, 1.0, 2.0):
                        yield (x, f, k)

    def ties():
        for w in dom.words((-1.0, 1.0), 2, 8):
            if sum(w) == 0:
                for f in (0.0, 1.0, -1.0, 2.0):
                    for k in (1.0, 2.0, 3.0):
                        yield (w, (f,) * len(w), k)

    def sweep():
        for n in (10, 25):
            for i in range(n):
                for h in (0.5, 1.0, 2.0, 5.0, 20.0, -0.75, -1.5, -3.0, -10.0):
                    for off in (0.0, 4.0, -4.0):
                        for k in (0.5, 1.0, 3.0):
                            yield (n, i, h, off, k)

    def run_sweep(c):
        n, i, h, off, k = c
        f = dom.shape('sine', n) + off
        x = f + dom.noise(n, 3) * 0.25
        x[i] += h
        return judge(x, f, k)
    def pair(n, i, h, off):
        f = dom.shape('sine', n) + off
        x = f + dom.noise(n, 3) * 0.25
        x[i] += h
        return x, f

    def near():
        for n in (10, 37, 200):
            for i in (0, n // 2, n - 1):
                for off in (0.0, 4.0, -40.0):
                    for k in (0.1, 0.5, 1.0, 3.0):
                        def f(h):
                            x, y = pair(n, i, h, off)
                            return int(np.sum(np.abs(x - y) > k * ref.std(x)))
                        for h in det.edges(f, [x / 2.0 for x in range(-20, 21)], (1e-6, 1e-3), 8):
                            yield (n, i, h, off, k)
    def run_gap(c):
        n, i, bad, k, w = c
        f = np.zeros(n)
        x = np.array(w + (0.0,) * (n - len(w)))
        for j, b in enumerate(bad):
            f[(i + j) % n] = b
        got = as_scalar(call(P.pollution_rate, x, f, k))
        s = k * ref.std(x)
        want = 100.0 * sum(1 for a, b in zip(x.tolist(), f.tolist()) if a > b + s or a < b - s) / n
        same(got, want, 1e-9, 'pollution rate with filtered samples %r at %d' % (bad, i))
        return got

    def gaps():
        q = float('nan'), float('inf'), -float('inf')
        for n in (4, 7):
            for w in dom.words((0.0, 5.0, -3.0), 4, 4):
                for i in range(0, n):
                    for bad in [(a,) for a in q] + [(a, b) for a in q for b in q]:
                        for k in (0.3, 1.0):
                            yield (n, i, bad, k, w)
    return [
        Space('missing', gaps, run_gap, 'one or two missing or infinite filtered samples at every position'),
        Space('near-threshold', near, lambda c: judge(*pair(*c[:4]), c[4]),
              'deviations just on either side of every change of the count'),
        Space('all-words', words, lambda c: judge(*c), 'every pair of series over 4x3 values up to %d samples x 4 factors' % (4 if deep else 3)),
        Space('ties', ties, lambda c: judge(*c, band=0.0), 'exactly representable ties'),
        Space('sweep', sweep, run_sweep, 'every position x 9 deviations x offsets x factors'),
        Space('shapes', lambda: ((a, b, n, k) for a in dom.SHAPES for b in ('zero', 'sine', 'offset', 'neg', 'noise', 'noise2') for n in (5, 40)
                                 for k in (0.1, 1.0, 2.0)),
              lambda c: judge(dom.shape(c[0], c[2]), dom.shape(c[1], c[2]), c[3]), '19 x 6 shapes'),
        Space('magnitudes', lambda: ((a, n, k, m) for a in ('spiky', 'noise2', 'offset', 'onespike') for n in (7, 40) for k in (0.3, 1.0, 3.0)
                                     for m in (-60, -40, -30, -20, -10, 10, 20, 40, 60)),
              lambda c: judge(dom.shape(c[0], c[1]), dom.noise(c[1], 31) * 2, c[2], m=c[3]), 'magnitudes 2^-60..2^60'),
        Space('very-long', lambda: ((n, k) for n in (40009, 70001) for k in (0.3, 3.0)),
              lambda c: judge(dom.shape('spiky', c[0]), dom.noise(c[0], 31) * 2, c[1]), '40009 and 70001 samples'),
        Space('long', lambda: ((a, n, k) for n in sizes for a in ('spiky', 'noise2', 'offset', 'neg') for k in (0.3, 1.0, 3.0)),
              lambda c: judge(dom.shape(c[0], c[1]), dom.noise(c[1], 31) * 2, c[2]), 'sizes %s' % sizes),
        Space('measured', lambda: ((c, k) for n, st in ((64, 1500), (1000, 4000), (17999, 18000)) for c in dom.stretches(n, st, 18000) for k in (0.1, 0.5, 1.0)),
              lambda c: judge(dom.record(*c[0]), np.convolve(dom.record(*c[0]), np.ones(9) / 9, 'same'), c[1]), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((30, 200)):
            for k in (0.3, 1.0, 3.0):
                yield (c, k)
        for v in dom.fresh_values(1e-6, 100.0):
            for sh in ('spiky', 'noise2', 'offset'):
                yield (('size', sh, 60, 1.0), v)

    def run(c):
        v = dom.build(c[0])
        u = c[0][3] if c[0][0] == 'scale' else 1.0
        return (judge(v, dom.noise(len(v), 31) * 2 * u, c[1]), judge(v, dom.noise(len(v), 31) * u + np.mean(v), c[1]))
    return [Space('source-constants', cases, run, dom.gained())]
