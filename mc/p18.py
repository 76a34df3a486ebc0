"""P18 skewness and kurtosis."""
import math
import numpy as np
from fractions import Fraction
from mc import dom, ref
from mc.core import Space, Violation, as_scalar, call, note, same, step
import proadv.statistics.moment as M

MODS = ['proadv.statistics.moment', 'proadv.statistics.spread', 'proadv.statistics.descriptive']


def judge(v):
    v = np.array(v, dtype=float)
    n = len(v)
    fr = [Fraction(float(x)) for x in v] if n <= 400 else None
    if fr:
        m = sum(fr) / n
        m2, m3, m4 = [float(sum((x - m) ** k for x in fr) / n) for k in (2, 3, 4)]
    else:
        m = math.fsum(v) / n
        m2, m3, m4 = [math.fsum((float(x) - m) ** k for x in v) / n for k in (2, 3, 4)]
    sc = ref.scale(v)
    if m2 == 0 or m2 < (1e-6 * sc) ** 2:
        note('constant_series')
        return 'undefined'
    # conditioning of the central moments under rounding of the mean
    rel = 1e-14 * (1 + sc / math.sqrt(m2)) * (10 + n / 50.0)
    skew, kurt = m3 / m2 ** 1.5, m4 / m2 ** 2
    same(as_scalar(call(M.skewness, v.copy()), 'skewness'), skew, 1e-11 * (1 + abs(skew)) + rel * math.sqrt(n), 'skewness')
    same(as_scalar(call(M.kurtosis, v.copy()), 'kurtosis'), kurt, (1e-11 + rel) * (1 + kurt) * 5, 'kurtosis')
    step(1, 1)
    return (round(skew, 9), round(kurt, 9))


def run_ints(c):
    """whole numbers, however narrow"""
    w, kind = c
    a = np.array(w, dtype=kind)
    fr = [Fraction(x) for x in w]
    m = sum(fr) / len(fr)
    m2, m3, m4 = [float(sum((x - m) ** k for x in fr) / len(fr)) for k in (2, 3, 4)]
    if m2 == 0:
        return 'undefined'
    for d in (a, a.tolist()):
        same(as_scalar(call(M.skewness, d), 'skewness'), m3 / m2 ** 1.5, 1e-10, 'skewness of %s data' % kind)
        same(as_scalar(call(M.kurtosis, d), 'kurtosis'), m4 / m2 ** 2, 1e-10 * (1 + m4 / m2 ** 2), 'kurtosis of %s data' % kind)
    step(1, 4)
    return round(m4 / m2 ** 2, 9)


def run_matrix(c):
    w, shape = c
    a = np.array(w, dtype=float).reshape(shape)
    want = ref_kurt(w)
    if want is None:
        return 'undefined'
    keep = a.copy()
    same(as_scalar(call(M.kurtosis, a), 'kurtosis of a matrix'), want, 1e-11 * (1 + want) * 5, 'kurtosis of a matrix')
    if not np.array_equal(a, keep) or a.shape != shape:
        raise Violation('kurtosis modified its argument')
    same(as_scalar(call(M.kurtosis, a.tolist()), 'kurtosis of nested lists'), want, 1e-11 * (1 + want) * 5, 'kurtosis of nested lists')
    step(1, 2)
    return round(want, 9)


def ref_kurt(w):
    fr = [Fraction(x) for x in w]
    m = sum(fr) / len(fr)
    m2, m4 = [sum((x - m) ** k for x in fr) / len(fr) for k in (2, 4)]
    return None if m2 == 0 else float(m4 / m2 ** 2)


def run_nan(c):
    w, k = c
    v = np.array(w, dtype=float)
    v[k] = np.nan
    got = as_scalar(call(M.kurtosis, v), 'kurtosis with NaN')
    if not math.isnan(got):
        raise Violation('kurtosis of data with NaN at %d: %r, expected NaN' % (k, got))
    return 'nan'


def spaces(tier):
    deep = tier == 'thorough'
    nm = 7 if deep else 6
    sizes = [64, 100, 257, 1000, 4099, 10007] + dom.literal_sizes(2, 20000, MODS, 12)
    small = [round(float(x) * 7, 2) for x in dom.noise(24, 5)] + [0.1, 0.2, 0.7, 1e-3, 1.1, -0.3, 33.33, 1e5 + 0.1]
    return [
        Space('few samples', lambda: ((a, b) for a in small for b in small), lambda c: judge(c), 'every pair of 32 decimal values'),
        Space('three samples', lambda: ((a, b, c) for a in small[::2] for b in small[::3] for c in small[1::4]), lambda c: judge(c), 'triples of decimal values'),
        Space('all-words', lambda: ((w,) for w in dom.words((0.0, 1.0, -2.0, 5.0), 2, nm)), lambda c: judge(*c),
              'every series over 4 values up to %d samples' % nm),
        Space('integers', lambda: ((w, k) for k, al in (('int8', (-128, -20, 0, 40, 127)), ('uint8', (0, 3, 200, 255)), ('int16', (-32768, 5, 300, 32767)), ('uint32', (0, 4294967295, 100000)), ('int64', (-3000000, 1, 2000000)))
                                   for w in dom.words(al, 2, 6 if deep else 5)), run_ints, 'every series over the extremes of five integer types'),
        Space('two-valued', lambda: ((n, k) for n in range(2, 80) for k in range(1, n)),
              lambda c: judge([1.0] * c[1] + [-3.0] * (c[0] - c[1])), 'every two-valued distribution up to 79 samples'),
        Space('matrices', lambda: ((w, sh) for w in dom.words((0.0, 1.0, -2.0), 4, 6) for sh in {4: [(2, 2), (4, 1), (1, 2, 2)], 6: [(2, 3), (3, 2), (1, 6)]}.get(len(w), [])),
              run_matrix, 'every series over 3 values of 4 and 6 samples as matrix'),
        Space('missing', lambda: ((w, k) for w in dom.words((0.0, 1.0, -2.0), 2, 4) for k in range(len(w))), run_nan, 'NaN at every position'),
        Space('shapes', lambda: ((sh, n) for sh in dom.SHAPES for n in range(2, 70)), lambda c: judge(dom.shape(*c)),
              '19 shapes, every length 2..69'),
        Space('magnitudes', lambda: ((sh, k) for sh in ('noise', 'spiky', 'step', 'onespike') for k in list(range(-60, 64, 4)) + [-200, -120, -90, 90, 120, 200]),
              lambda c: judge(dom.shape(c[0], 25) * 2.0 ** c[1]), 'magnitudes 2^-200..2^200'),
        Space('offsets', lambda: ((sh, o) for sh in ('noise', 'spiky', 'step') for o in (1.0, -10.0, 1000.0, -4096.0)),
              lambda c: judge(dom.shape(c[0], 25) + c[1]), 'offsets up to 4096'),
        Space('very-long', lambda: ((sh, n) for n in (40009, 70001) for sh in ('spiky', 'ramp')), lambda c: judge(dom.shape(*c)), '40009 and 70001 samples'),
        Space('long', lambda: ((sh, n) for n in sizes for sh in ('noise', 'spiky', 'ramp', 'offset')),
              lambda c: judge(dom.shape(*c)), 'sizes %s' % sizes),
        Space('measured', lambda: (c for n, st in ((64, 1500), (1000, 4000), (17999, 18000)) for c in dom.stretches(n, st, 18000)),
              lambda c: judge(dom.record(*c)), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    return [Space('source-constants', lambda: dom.fresh_series((9, 30, 201), 2, 60000, vlo=1e-9, shapes=('noise', 'spiky', 'step')), lambda c: judge(dom.build(c)), dom.gained())]
