"""P16 order statistics and spread."""
import itertools
import math
import numpy as np
from fractions import Fraction
from mc import dom, ref
from mc.core import Space, Violation, as_scalar, call, expect_error, ok, same, step
import proadv.statistics.descriptive as D
import proadv.statistics.spread as SP

MODS = ['proadv.statistics.descriptive', 'proadv.statistics.spread']


def judge(v):
    v = np.array(v, dtype=float)
    s = sorted(v.tolist())
    n = len(s)
    sc = max(1e-300, ref.scale(v))
    res = []

    def num(fn, want, tol, what):
        got = as_scalar(call(fn, v.copy()), what)
        same(got, want, tol, what)
        res.append(got)
    num(D.min, s[0], 0.0, 'minimum')
    num(D.max, s[-1], 0.0, 'maximum')
    num(D.median, ref.median(v), 1e-15 * sc, 'median')
    # the mean is known to d = n eps * scale; its error enters the variance in second order only
    d, sd = 4e-16 * (n + 8) * sc, math.sqrt(ref.var(v))
    tolv = 1e-13 * (10 + math.sqrt(n)) * sd * sd + 8 * sd * d / (n + 8) + 4 * d * d + 1e-300 * sc
    num(SP.variance, ref.var(v), tolv, 'variance')
    num(SP.std, ref.std(v), math.sqrt(tolv) if ref.var(v) <= tolv else tolv / ref.std(v) + 1e-15 * sc, 'standard deviation')
    step(5, 5)
    out = ok(call(D.mode, v.copy()), 'mode')
    try:
        val, cnt = out
        val, cnt = float(val), int(cnt)
    except Exception:
        raise Violation('mode: expected (value, count), got %r' % (out,))
    best = max(s.count(x) for x in set(s)) if n <= 400 else None
    if best is None:
        u, c = np.unique(v, return_counts=True)
        best = int(c.max())
        winners = [float(x) for x in u[c == best]]
    else:
        winners = sorted(x for x in set(s) if s.count(x) == best)
    if cnt != best or val != winners[0]:
        raise Violation('mode: got (%r, %r), most frequent value is %r with %d occurrences' % (val, cnt, winners[0], best))
    return res + [val, cnt]


def judge_offset(w, off):
    """spread of data far from zero: an error of the order of offset^2 would hide in a relative tolerance"""
    d = np.array(w, dtype=float)
    v = d + off
    want = ref.var(d)
    same(as_scalar(call(SP.variance, v.copy()), 'variance'), want, 1e-4, 'variance of data around %g' % off)
    same(as_scalar(call(SP.std, v.copy()), 'std'), math.sqrt(want), 1e-4 if want > 0 else 1e-2, 'standard deviation of data around %g' % off)
    same(as_scalar(call(D.median, v.copy()), 'median'), ref.median(d) + off, 0.0, 'median')
    step(3, 3)
    return want


INTS = {'int8': (-128, 127, 100, 3), 'uint8': (255, 0, 200, 7), 'int16': (-32768, 32767, 30001, -5), 'uint16': (65535, 40000, 1, 0), 'int32': (-2 ** 31, 2 ** 31 - 1, 2 ** 30 + 7, 12),
        'uint32': (2 ** 32 - 1, 2 ** 31, 5, 0), 'int64': (2 ** 53 + 1, -2 ** 62 - 3, 2 ** 53 + 3, 4), 'uint64': (2 ** 63 + 1, 2 ** 53 + 3, 9, 0), 'float32': (0.1, 1e38, -2.5, 1e-40),
        'bool': (True, False), 'list': (2 ** 53 + 1, -7, 2 ** 53 + 3, 40)}


def judge_typed(t, w):
    """the same definitions for every numeric type, at the ends of its range"""
    a = np.array([INTS[t][k] for k in w], dtype=object if t == 'list' else t)
    vals = [x.item() if hasattr(x, 'item') else x for x in a]
    arg = (lambda: list(vals)) if t == 'list' else a.copy
    for fn, want, what in ((D.min, min(vals), 'minimum'), (D.max, max(vals), 'maximum')):
        got = ok(call(fn, arg()), what)
        if np.size(got) != 1 or not got == want or (int(got) != int(want)):
            raise Violation('%s of %s %r: got %r, expected %r' % (what, t, vals, got, want))
    fr = [Fraction(x) for x in vals]
    s = sorted(fr)
    n = len(s)
    med = float((s[(n - 1) // 2] + s[n // 2]) / 2)
    eps = 1e-6 if t == 'float32' else 1e-12
    if t != 'bool':
        same(as_scalar(call(D.median, arg()), 'median'), med, eps * abs(float(s[(n - 1) // 2])) + eps * abs(float(s[n // 2])), 'median of %s %r' % (t, vals))
    big = max(abs(float(x)) for x in fr) + 1.0
    if t != 'float32':
        m = sum(fr) / n
        var = float(sum((x - m) ** 2 for x in fr) / n)
        d = 1e-15 * big
        tv = eps * var + 4 * math.sqrt(var) * d + 4 * d * d
        same(as_scalar(call(SP.variance, arg()), 'variance'), var, tv, 'variance of %s %r' % (t, vals))
        same(as_scalar(call(SP.std, arg()), 'standard deviation'), math.sqrt(var), eps * math.sqrt(var) + min(math.sqrt(tv), tv / math.sqrt(var) if var > 0 else 1e300), 'standard deviation of %s %r' % (t, vals))
    val, cnt = ok(call(D.mode, arg()), 'mode')
    best = max(vals.count(x) for x in vals)
    win = min(x for x in vals if vals.count(x) == best)
    if int(cnt) != best or val != win or int(val) != int(win):
        raise Violation('mode of %s %r: got (%r, %r), expected (%r, %r)' % (t, vals, val, cnt, win, best))
    step(5, 5)
    return (str(min(vals)), str(max(vals)), med, best)


def judge_extreme(v):
    """minimum and maximum also of data with infinities"""
    v = np.array(v, dtype=float)
    same(as_scalar(call(D.min, v.copy()), 'minimum'), min(v.tolist()), 0.0, 'minimum')
    same(as_scalar(call(D.max, v.copy()), 'maximum'), max(v.tolist()), 0.0, 'maximum')
    step(1, 1)
    return (min(v.tolist()), max(v.tolist()))


FN = {'min': lambda x: D.min(x), 'max': lambda x: D.max(x), 'median': lambda x: D.median(x), 'variance': lambda x: SP.variance(x),
      'std': lambda x: SP.std(x)}


def run_bad(c):
    name, kind, n, i = c
    fn = FN[name]
    if kind == 'empty':
        expect_error(call(fn, np.array([])), ValueError, '%s of an empty array' % name)
    elif kind == 'nan':
        v = dom.noise(n)
        v[i] = np.nan
        expect_error(call(fn, v), ValueError, '%s of data with NaN' % name)
    elif kind == 'str':
        v = [float(x) for x in dom.noise(n)]
        v[i] = 'x'
        expect_error(call(fn, np.array(v, dtype=object)), TypeError, '%s of data with a string' % name)
    elif kind == 'strarray':
        expect_error(call(fn, np.array(['1', '2', '3'][:n])), TypeError, '%s of an array of strings' % name)
    elif kind == '2d':
        expect_error(call(fn, dom.noise(4).reshape(2, 2)), ValueError, '%s of a matrix' % name)
    return 'refused'


def bad():
    for name in FN:
        yield (name, 'empty', 0, 0)
        for n in (1, 2, 3):
            yield (name, 'strarray', n, 0)
        for n in (1, 2, 5):
            for i in range(n):
                yield (name, 'str', n, i)
                if name in ('min', 'max'):
                    yield (name, 'nan', n, i)
        if name in ('median', 'variance', 'std'):
            yield (name, '2d', 4, 0)


def spaces(tier):
    deep = tier == 'thorough'
    nm = 8 if deep else 7
    sizes = [64, 100, 101, 257, 1000, 4099, 10007] + dom.literal_sizes(2, 20000, MODS, 12)
    lits = [x for x in dom.literal_values(MODS, 1e-9, 1e12)]

    def magn():
        for k in list(range(-30, 60, 6)) + [-200, -120, -60, -45, 80, 120, 200]:
            for sh in ('noise', 'ties', 'offset', 'neg', 'spiky'):
                yield (sh, 9, 2.0 ** k)
        for x in lits:
            for sh in ('ties', 'offset', 'spiky'):
                yield (sh, 9, x)
    return [
        Space('all-words', lambda: ((w,) for w in dom.words((0.0, 1.0, -2.0, 5.0), 1, nm)), lambda c: judge(*c),
              'every series over 4 values up to %d samples' % nm),
        Space('offsets', lambda: ((w, s * 2.0 ** k) for w in dom.words((0.0, 1.0, -2.0, 5.0), 1, 5 if deep else 4) for k in (10, 20, 26, 30) for s in (1, -1)), lambda c: judge_offset(*c),
              'every series over 4 values up to 4 (5) samples around 2^10..2^30, either sign'),
        Space('refused', bad, run_bad, 'empty, NaN, strings at every position, matrices'),
        Space('permutations', lambda: ((p,) for p in itertools.permutations((-4.0, -1.5, 0.0, 2.0, 2.0, 9.0, 30.0))), lambda c: judge(*c),
              'every order of 7 values'),
        Space('sizes', lambda: ((sh, n) for sh in dom.SHAPES for n in range(1, 70)), lambda c: judge(dom.shape(*c)),
              '19 shapes, every length 1..69'),
        Space('magnitudes', magn, lambda c: judge(dom.shape(c[0], c[1]) * c[2]), 'magnitudes 2^-200..2^200'),
        Space('infinite', lambda: ((w,) for w in dom.words((np.inf, -np.inf, 1.0, -2.0, 1.7e308), 1, 4)), lambda c: judge_extreme(*c),
              'minimum and maximum of every series over 5 values including both infinities, up to 4 samples'),
        Space('types', lambda: ((t, w) for t in INTS for w in dom.words(range(len(INTS[t])), 1, 4)), lambda c: judge_typed(*c),
              'every series over 4 extreme values of 10 numeric types and of whole numbers in a list, up to 4 samples'),
        Space('very-long', lambda: ((sh, n) for n in (40009, 70001) for sh in ('ties', 'spiky')), lambda c: judge(dom.shape(*c)), '40009 and 70001 samples'),
        Space('long', lambda: ((sh, n) for n in sizes for sh in ('noise', 'ties', 'offset', 'spiky', 'ramp')),
              lambda c: judge(dom.shape(*c)), 'sizes %s' % sizes),
    ]


def constants():
    return [Space('source-constants', lambda: dom.fresh_series((9, 30, 201), 1, 100000, shapes=('noise', 'spiky', 'ties')), lambda c: judge(dom.build(c)), dom.gained())]
