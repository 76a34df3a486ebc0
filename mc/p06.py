"""P06 polynomial-regression replacement."""
import numpy as np
from mc import dom, ref, repl
from mc.core import Space, as_series, call, Violation
from mc.repl import R


def judge(v, s, window=100, degree=2, decimals=4, idx=None):
    v = np.array(v, dtype=float)
    i = repl.flags(s) if idx is None else idx
    kw = {}
    if window != 100:
        kw['window'] = window
    if degree != 2:
        kw['degree'] = degree
    if decimals != 4:
        kw['decimals'] = decimals
    out = as_series(call(R.polynomial_replacement, v.copy(), i, **kw), len(v))
    repl.check_frame(out, v, s, decimals, 'polynomial replacement')
    want = ref.polynomial(v, set(s), window, degree, decimals)
    sc = max(1e-300, ref.scale(v))
    repl.check_rounded(out, v, {k: w for k, (w, _) in want.items()}, decimals,
                       {k: x + (2e-6 * sc if k > 10 else 0.0) for k, (_, x) in want.items()}, 'polynomial replacement')
    return out


def spaces(tier):
    deep = tier == 'thorough'
    mid = [1, 2, 5, 10, 11, 12, 13, 20, 30]
    sizes = [99, 100, 101, 102, 130, 257, 1000] + ([4099] if deep else []) + dom.literal_sizes(
        12, 3000, repl.MODS, 12)

    def runs_only(n, shapes, longest):
        for sh in shapes:
            for s in dom.runs(n, longest):
                yield (sh, n, s)

    def params():
        for n in (30, 60):
            for window in (6, 11, 12, 20, 29, 30, 31, 100):
                for degree in (1, 2, 3):
                    for s in [(0,), (1,), (10,), (11,), (12,), (19,), (20,), (21,), (29,), (15, 16, 17), (9, 10, 11, 12),
                              (28, 29), (5, 18, 25)]:
                        yield (n, window, degree, s)
    small_subsets = 12 if deep else 9
    return [
        Space('singles', lambda: ((sh, n, (i,)) for n in mid + [40] for i in range(n) for sh in ('noise2', 'quad', 'ramp')),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every single spike position'),
        Space('first-samples', lambda: ((s,) for s in dom.subsets(small_subsets)),
              lambda c: judge(dom.noise(16), tuple(x + (13 - small_subsets) for x in c[0])),
              'every flagged subset of the %d samples around the interpolation/regression border' % small_subsets),
        Space('head-subsets', lambda: ((s,) for s in dom.subsets(8)),
              lambda c: judge(dom.noise(14, 3) * 4, c[0]), 'every flagged subset of the first 8 samples'),
        Space('runs', lambda: runs_only(40, ['noise2'], 16 if deep else 8),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every run of up to 8 (16) in 40 samples'),
        Space('pairs', lambda: (('noise2', 26, (i, j)) for i in range(26) for j in range(i + 1, 26)),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every pair of spikes in 26 samples'),
        Space('parameters', params, lambda c: judge(dom.noise(c[0]), c[3], c[1], c[2]),
              'window 6..100 x degree 1..3 x 13 flag sets'),
        Space('small-windows', lambda: ((30, w, d, s) for d in (0, 1, 2, 3, 4) for w in range(d + 1, 12) for s in [(11,), (12,), (29,), (13, 14, 15), (5, 18, 25), (9, 10, 11, 12)]),
              lambda c: judge(dom.noise(c[0]), c[3], c[1], c[2]), 'degree 0..4, every window from degree+1 to 11'),
        Space('magnitudes', lambda: ((s, k, d) for s in [(0,), (4,), (0, 1), (9, 10, 11), (12,), (30, 31), (39,), (0, 13, 26)] for k, d in ((-40, 14), (-12, 8), (0, 12), (20, 4), (40, 4), (0, -1))),
              lambda c: judge(dom.noise(40, 5) * 2.0 ** c[1], c[0], 100, 2, c[2]), 'magnitudes 2^-40..2^40, decimals -1..14'),
        Space('long-runs', lambda: ((n, i, k) for n in (130, 160) for i in (0, 1, 5, 11, 30, 95, 100, 105) for k in (17, 25, n - i)),
              lambda c: judge(dom.noise(c[0], 7), tuple(range(c[1], min(c[0], c[1] + c[2]))), 100, 1), 'runs of 17 up to the whole record (linear fit)'),
        Space('large-windows', lambda: ((n, w, d, s) for n, w in ((400, 200), (400, 257), (700, 513), (900, 700), (1500, 1024), (2600, 2500)) for d in (1, 2, 3)
                                        for s in [(w - 1,), (w,), (w + 1,), (n - 1,), (n // 2, n - 5)]),
              lambda c: judge(dom.noise(c[0], 9) + 3e-6 * (np.arange(c[0]) - c[0] / 3.0) ** 2, c[3], c[1], c[2]), 'windows of 200..2500 samples'),
        Space('decimals', lambda: ((n, s, d) for n in (14, 40) for s in [(0,), (3,), (10,), (11,), (12, 13)] for d in range(0, 9)),
              lambda c: judge(dom.noise(c[0]) * 10, c[1], 100, 2, c[2]), 'decimals 0..8'),
        Space('index-forms', lambda: ((s, k) for s in [(0,), (5,), (12,), (3, 4, 11, 12), (10, 11), (0, 1, 2), (15, 20, 30)]
                                      for k, _ in dom.index_variants(s)),
              lambda c: judge(dom.noise(40), c[0], 100, 2, 4, dict(dom.index_variants(c[0]))[c[1]]),
              '6 presentations of the same indices'),
        Space('shapes', lambda: ((sh, 40, s) for sh in dom.SHAPES if sh != 'huge'
                                 for s in [(0,), (4,), (9, 10, 11), (12,), (30, 31), (39,), (0, 13, 26)]),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), '18 signal shapes, n=40'),
        Space('long', lambda: ((n, s) for n in sizes for s in [(0,), (n // 2,), (n - 1,), (98,), (99,), (100,), (101,),
                                                               (99, 100, 101), (n - 3, n - 2), (5, n - 5)] if max(s) < n),
              lambda c: judge(dom.noise(c[0]), c[1]), 'sizes %s' % sizes),
        Space('measured', repl.measured, lambda c: judge(dom.record(*c[0]), c[1]), 'measured records, flags by deviation from the mean'),
    ]


def constants():
    def cases():
        for c, s in repl.gained((24, 60, 130), 2000):
            if len(s) <= 60:
                for d in repl.decimals(c):
                    yield (c, s, 100, 2, d)
        for w in dom.fresh_sizes(4, 1500):
            for n in (w + 30, 2 * w + 30):
                for d in (1, 2, 3):
                    for s in [(5,), (12,), (w - 1,), (w,), (w + 1,), (n - 1,)]:
                        yield (('size', 'noise', n, 1.0), s, w, d, 4)
        for d in dom.fresh_sizes(0, 5):
            for s in [(11,), (12,), (40,), (13, 14, 15)]:
                yield (('size', 'noise', 60, 1.0), s, 30, d, 4)
    return [Space('source-constants', cases, lambda c: judge(dom.build(c[0]), *c[1:]), dom.gained())]
