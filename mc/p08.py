"""P08 acceleration thresholding."""
import itertools
import math
import numpy as np
from mc import det, dom, ref
from mc.core import Space, as_indices, call, expect_error, judge_set
import proadv.filtration.detection.acceleration as A

MODS = ['proadv.filtration.detection.acceleration', 'proadv.statistics.spread']


def model(v, freq, tag, g, kg, ks, band):
    n = len(v)
    m, sd = ref.mean(v), ref.std(v)
    sc = max(1.0, ref.scale(v))
    must, may = [], []
    for i in range(n):
        acc = 0.0 if i == 0 else (v[i] - v[i - 1]) * freq
        if tag == 1:
            a, b = acc - kg * g, v[i] - (m + ks * sd)
        else:
            a, b = -kg * g - acc, (m - ks * sd) - v[i]
        ea, eb = band * max(1.0, abs(kg * g), sc * freq), band * sc * (1 + abs(ks))
        if a > ea and b > eb:
            must.append(i)
        if a > -ea and b > -eb and (band or (a > 0 and b > 0)):
            may.append(i)
    return must, may


def judge(v, freq, tag, g=980, kg=1.5, ks=1, band=1e-10, defaults=False, k=0, kf=0):
    """k: data and gravity in units of 2^k; kf: rate and gravity in units of 2^kf (exact scalings:
    the answer is that of the unscaled problem)"""
    v = np.array(v, dtype=float)
    args = (v.copy(), freq, tag) if defaults else \
        (v * 2.0 ** k, freq * 2.0 ** kf, tag, g * 2.0 ** (k + kf), kg, ks)
    out = call(A.acceleration_thresholding, *args)
    if tag not in (1, 2):
        expect_error(out, ValueError, 'tag %r' % (tag,))
        return 'refused'
    got = as_indices(out, len(v))
    must, may = model(v, freq, tag, g, kg, ks, band)
    judge_set(got, must, may)
    return got


def spaces(tier):
    deep = tier == 'thorough'
    nm = 7 if deep else 6
    sizes = [33, 100, 257, 1000, 4099, 10007] + dom.literal_sizes(2, 20000, MODS, 12)

    def words():
        for w in dom.words((0.0, 1.0, -2.0, 5.0), 1, nm):
            for tag in (1, 2):
                yield (w, 1.0, tag, 1.0, 1.5, 1)

    def params():
        for w in dom.words((0.0, 1.0, -2.0), 1, 5 if deep else 4):
            for tag in (1, 2):
                for freq in (0.5, 4.0):
                    for kg in (0.0, 1.0, 3.0, -1.0):
                        for ks in (0, 0.5, 2.0, -0.75):
                            for g in (2.0, 0.0, -2.0):
                                yield (w, freq, tag, g, kg, ks)

    def ties():
        # values, means and deviations exactly representable: strict comparisons decide
        for w in dom.words((-1.0, 1.0), 2, 8):
            if sum(w) == 0:                       # mean 0, deviation 1
                for tag in (1, 2):
                    for ks in (0, 0.5, 1, 2):
                        for kg in (0.0, 1.0, 2.0, 4.0):
                            yield (w, 1.0, tag, 1.0, kg, ks)
        for w in dom.words((-3.0, 3.0, 0.0, 1.0), 2, 5):
            for tag in (1, 2):
                for kg in (1.0, 2.0, 3.0, 6.0):   # acceleration ties; deviation factor out of reach of rounding
                    if abs(ref.std(w) * 0 - 0) == 0 and float(sum(w)) % len(w) == 0:
                        yield (w, 1.0, tag, 1.0, kg, 0)

    def big():
        for n in sizes:
            for sh in ('noise2', 'spiky', 'onespike', 'offset', 'step', 'neg'):
                for tag in (1, 2):
                    for freq in (25, 100.0):
                        yield (sh, n, freq, tag, 0)
                        yield (sh, n, freq, tag, 1)

    def shapes():
        for sh in dom.SHAPES:
            for n in (1, 2, 3, 16, 17, 50):
                for tag in (1, 2):
                    for kg in (0.01, 1.5):
                        for ks in (0, 1, 2.5):
                            yield (sh, n, 50.0, tag, 10.0, kg, ks)

    def near():
        for b, n in (('noise', 24), ('noise2', 60), ('offset', 33), ('sine', 200)):
            for i in (1, n // 3, n // 2, n - 1):
                for tag in (1, 2):
                    for freq, g in ((25, 980), (30, 980), (7, 2.0), (3, 9.81), (33.3, 980), (128.0, 980.0), (100, 9.81), (0.1, 0.3)):
                        for kg, ks in ((1.5, 1), (1, 2.5), (0.2, 0.3)):
                            top = max(4.0 * kg * g / freq, 8.0)
                            grid = [top * x / 24 for x in (range(25) if tag == 1 else range(0, -25, -1))]
                            f = lambda h: model(spiked(b, n, i, h), freq, tag, g, kg, ks, 1e-10)[1]
                            for h in det.edges(f, grid, (1e-6, 1e-3), 4):
                                yield (b, n, i, h, freq, tag, g, kg, ks)

    def spiked(b, n, i, h):
        v = dom.shape(b, n).copy()
        v[i] += h
        return v

    def scaled():
        for sh in ('noise2', 'spiky', 'onespike', 'step'):
            for n in (5, 40):
                for tag in (1, 2):
                    for k in (-60, -40, -20, -10, 10, 20, 40, 60):
                        for kf in (-12, 0, 12):
                            yield (sh, n, tag, k, kf)
    return [
        Space('near-threshold', near, lambda c: judge(spiked(*c[:4]), *c[4:]),
              'spike heights just on either side of every change of verdict, 8 rates and gravities x 3 factor pairs'),
        Space('magnitudes', scaled,
              lambda c: judge(dom.shape(c[0], c[1]), 1.0, c[2], 2.0, 1.5, 1.0, k=c[3], kf=c[4]),
              'data in units of 2^-60..2^60, rates in units of 2^-12..2^12'),
        Space('very-long', lambda: ((n, tag) for n in (40009, 70001) for tag in (1, 2)),
              lambda c: judge(dom.shape('spiky', c[0]), 1.0, c[1], 2.0, 1.5, 1.0), '40009 and 70001 samples'),
        Space('all-words', words, lambda c: judge(*c), 'every series over 4 values up to %d samples x 2 directions' % nm),
        Space('parameters', params, lambda c: judge(*c), 'every series over 3 values up to 5 x thresholds (zero and negative ones included) x rate'),
        Space('ties', ties, lambda c: judge(*c, band=0.0), 'exactly representable threshold ties (strict comparison)'),
        Space('bad-tag', lambda: ((n, t) for n in (1, 3) for t in (0, 3, -1, None, '1', 10)),
              lambda c: judge(dom.noise(c[0]), 1.0, c[1]), 'tags other than 1 and 2'),
        Space('shapes', shapes, lambda c: judge(dom.shape(c[0], c[1]), *c[2:]), '19 shapes'),
        Space('long', big, lambda c: judge(dom.shape(c[0], c[1]) * 30, c[2], c[3], defaults=True) if c[4] else
              judge(dom.shape(c[0], c[1]), c[2], c[3], 5.0, 1.5, 1.0), 'sizes %s' % sizes),
        Space('measured', lambda: ((c, tag, kg) for n, st in ((64, 1500), (1000, 4000), (17999, 5000)) for c in dom.stretches(n, st, 18000) for tag in (1, 2) for kg in (0.2, 0.5, 1.5)),
              lambda c: judge(dom.record(*c[0]), 100.0, c[1], 980.0, c[2], 1.0), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((30, 200)):
            for tag in (1, 2):
                yield (c, 1.0, tag, 2.0, 1.5, 1.0)
                yield (c, 1.0, tag, max(0.1, c[3] / 4 if c[0] != 'size' else 2.0), 0.5, 0.5)
        for v in dom.fresh_values(1e-9, 1e9):
            for tag in (1, 2):
                for sh in ('spiky', 'noise2'):
                    c = ('size', sh, 60, 1.0)
                    yield (c, v, tag, v, 1.5, 1.0)
                    yield (('scale', sh, 60, v), 1.0, tag, v, 1.0, 1.0)
                    if v < 100:
                        yield (c, 1.0, tag, 2.0, v, 0.5)
                        yield (c, 1.0, tag, 0.5, 0.5, v)
                        yield (c, 100.0, tag, 980.0 / 100, v, v / 8)
    return [Space('source-constants', cases, lambda c: judge(dom.build(c[0]), *c[1:]), dom.gained())]
