"""The gallery: every check also judges one series (and flag set, and pair of components) for every
structural feature a branch of the code could be keyed on - see dom.gal and dom.gallery_masks.  The
features were chosen by instrumenting every public function and listing those no case exercised."""
import importlib
import math

import numpy as np

from mc import dom, repl
from mc.core import Known, Space, Violation, as_series, call, note, ok, step

BOUND = '%d series structures' % len(dom.GALLERY)


def flagged(sizes, names=None, most=None, long=()):
    for name, n in dom.gallery(sizes, names, long):
        ms = dom.gallery_masks(n, dom.gal(name, n))
        for s in ms if most is None else ms[:1] + ms[1 + (n + len(name)) % most::most]:
            yield (name, n, s)


def unsorted(sizes, names):
    for name in names:
        for n in sizes:
            for s in dom.gallery_masks(n, dom.gal(name, n)):
                if len(s) > 1:
                    for k in range(len(list(dom.permuted(s)))):
                        yield (name, n, s, k)


def form(s, k):
    return list(dom.permuted(s))[k]


def both_nan(n):
    """a sample that is missing and flagged, others missing and not flagged"""
    for a in (0, 1, n // 2, n - 1):
        for b in (0, n // 2, n - 2):
            for s in ((a,), (a, b), (n // 3,), tuple(range(n // 3, n // 2 + 1))):
                yield a, b, tuple(sorted(set(s)))


EPS = (0.0, 1e-9, 1e-5, -4e-5, 1e-4, -4e-4, 1e-3, 0.01, -0.3)


def slight(n, sets):
    """flagged samples that hardly differ from the smooth record around them: (curve, n, flags, deviation)"""
    for k in range(4):
        for s in sets:
            for e in EPS:
                yield (k, n, s, e)


def curve(c):
    i = (np.arange(c[1]) - c[1] / 2.0) / 8.0
    v = (np.full(c[1], 1.25), 0.5 * i + 1, i * i - 3, 0.25 * i ** 3 - i)[c[0]]
    v[list(c[2])] += c[3]
    return v


def p01(m, deep):
    names = list(m.METHODS)
    few = ['const tenth', 'some -0', 'palindrome', 'period3', 'plateau', 'asc', 'desc ties', 'majority', 'masked', 'giant-', 'off 2^14', 'very wide', 'cents', 'all neg', 'sum zero', 'slow', 'line up', 'period5', 'tiny', 'huge', 'minute', 'off 2^24'] + dom.OUTLYING

    def ok(k, n, s):
        return m.applies(k, n, s) and not (k == 'ssa' and n > 40) and not (k == 'polynomial_replacement' and len(s) > 40)

    def cases():
        for name, n, s in flagged((9, 20, 64, 100), few, None if deep else 3):
            for k in names:
                if ok(k, n, s):
                    yield (k, name, n, s)

    def mixed():
        for name, n, s, k in unsorted((8, 20, 64), ('cents', 'walk')):
            for q in names:
                if ok(q, n, s):
                    yield (q, name, n, s, k)

    def run_par(c):
        q, name, n, s, p = c
        v = dom.gal(name, n)
        keep = v.copy()
        kw = dict(p)
        out = as_series(call(getattr(repl.R, q), v, repl.flags(s), **kw), n, q)
        if not np.array_equal(v, keep):
            raise Violation('%s modified its input' % q)
        repl.check_frame(out, keep, s, kw['decimals'] if 'decimals' in kw else 4 if q in ('polynomial_replacement',) else None, '%s(%r)' % (q, kw))
        return out

    def parameters():
        P = {'linear_interpolation': [{'decimals': d} for d in (0, 1, 3, 6, 10)], 'cubic_12points_polynomial': [{'decimals': d} for d in (0, 1, 3, 6, 10)],
             'polynomial_replacement': [{'decimals': d} for d in (0, 1, 3, 6, 10)] + [{'degree': d} for d in (0, 1, 3)] + [{'window': w} for w in (6, 15, 40)] + [{'window': 12, 'degree': 1, 'decimals': 2}],
             'simple_moving_average': [{'window_size': w} for w in (1, 2, 7, 19)], 'exponential_moving_average': [{'alpha': a} for a in (0.01, 0.5, 1.0)],
             'weighted_moving_average': [{'period': w} for w in (2, 3, 7)], 'ssa': [{'fs': a, 'f': b} for a, b in ((10, 2), (100, 21), (3, 1))],
             'kalman_filter': [dict(zip(('initial_state', 'initial_covariance', 'process_noise', 'measurement_noise'), [np.array([[x]]) for x in p])) for p in ((0.0, 1.0, 0.0, 1.0), (10.0, 10.0, 0.001, 15.0))]}
        for q in P:
            for kw in P[q]:
                for name in ('cents', 'thirds', 'walk', 'masked', 'majority', 'off -2^8'):
                    for n in (20, 64):
                        for s in ((), (0,), (5,), (11, 12), (4, 9, 10, 11), (0, 2, 3)):
                            yield (q, name, n, s, tuple(kw.items()))

    def run_mixed(c):
        q, name, n, s, k = c
        v = dom.gal(name, n)
        fn, dec = m.METHODS[q]
        i = form(s, k)
        keep, ki = v.copy(), i.copy()
        out = as_series(call(fn, v, i), n, q)
        if not (np.array_equal(v, keep) and np.array_equal(i, ki)):
            raise Violation('%s modified its input' % q)
        repl.check_frame(out, keep, s, dec, q)
        return out
    return [Space('gallery', cases, lambda c: m.judge(c[0], dom.gal(c[1], c[2]), c[3]), '%d structures x flag sets by structure x 12 methods' % len(few)),
            Space('gallery-unsorted', mixed, run_mixed, 'flags descending, rotated, repeated, interleaved x 12 methods'),
            Space('gallery-parameters', parameters, run_par, 'other decimals, windows, degrees, factors, periods, rates and filter parameters')]


def p02(m, deep):
    return [Space('gallery', lambda: flagged(dom.GSIZES, None, None if deep else 3, (1000,)), lambda c: m.judge(dom.gal(c[0], c[1]), c[2]), BOUND + ' x flag sets by structure'),
            Space('gallery-unsorted', lambda: unsorted((8, 20, 64), ('cents', 'walk', 'asc')), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], form(c[2], c[3])), 'flags descending, rotated, repeated, interleaved')]


p03 = p02


def dec(name):
    return 12 if name in ('tiny', 'minute') else 4


def p04(m, deep):
    return [Space('gallery', lambda: flagged(dom.GSIZES, None, None if deep else 3, (1000,)), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], dec(c[0])), BOUND + ' x flag sets by structure'),
            Space('gallery-unsorted', lambda: unsorted((8, 20, 64), ('cents', 'walk', 'asc')), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], 4, form(c[2], c[3])), 'flags descending, rotated, repeated, interleaved'),
            Space('gallery-decimals', lambda: ((g, 20, s, d) for g in dom.EXACT for s in ((0,), (5, 6, 11), (18, 19)) for d in (0, 1, 2, 3, 6, 10)),
                  lambda c: m.judge(dom.gal(c[0], c[1]), c[2], c[3]), 'structures x decimals')]


def p05(m, deep):
    sizes = (20, 61, 64, 100, 300) if deep else (20, 64, 100)
    inner = [(s, d) for s in ((40,), (35, 36, 37), (33, 50), (31, 45, 46, 60)) for d in (0, 1, 2, 3, 6, 10)]
    return [Space('gallery', lambda: flagged(sizes, None, None if deep else 2, (1000,)), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], dec(c[0])), BOUND + ' x flag sets by structure'),
            Space('gallery-unsorted', lambda: unsorted((20, 64, 100), ('cents', 'walk', 'asc')), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], 4, form(c[2], c[3])), 'flags descending, rotated, repeated, interleaved'),
            Space('slight', lambda: slight(100, ((31,), (40,), (69,), (70,), (5,), (0,), (99,), (40, 41, 42), (33, 35, 37), (68, 69, 70), (0, 1))), lambda c: m.judge(curve(c), c[2]), 'flagged samples within 1e-9..0.3 of smooth curves'),
            Space('gallery-decimals', lambda: ((g, 100, s, d) for g in dom.EXACT for s, d in inner), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], c[3]), 'structures x decimals')]


def p06(m, deep):
    def ok(c):
        return len(c[2]) <= (60 if c[1] <= 130 else 12)
    names = [g for g in dom.GALLERY if g not in ('huge', 'minute', 'very wide')]
    return [Space('gallery', lambda: (c for c in flagged((9, 12, 20, 49, 64, 120), names, None if deep else 3) if ok(c)),
                  lambda c: m.judge(dom.gal(c[0], c[1]), c[2], 100, 2, dec(c[0])), BOUND + ' x flag sets by structure'),
            Space('gallery-unsorted', lambda: (c for c in unsorted((12, 20, 49), ('cents', 'walk', 'asc'))), lambda c: m.judge(dom.gal(c[0], c[1]), c[2], 100, 2, 4, form(c[2], c[3])), 'flags descending, rotated, repeated, interleaved'),
            Space('slight', lambda: slight(49, ((0,), (5,), (11,), (30,), (48,), (0, 1), (10, 11, 12), (30, 31, 32), (20, 30, 40))), lambda c: m.judge(curve(c), c[2], 15, 2, 4), 'flagged samples within 1e-9..0.3 of smooth curves'),
            Space('gallery-parameters', lambda: ((g, 40, s, w, d, q) for g in names if g not in dom.EXTREME and g not in dom.OFFSET for s in ((11,), (20, 21, 30), (39,)) for w, d, q in ((100, 1, 4), (15, 1, 2), (15, 2, 6), (12, 3, 0), (30, 2, 3), (8, 0, 4))),
                  lambda c: m.judge(dom.gal(c[0], c[1]), c[2], c[3], c[4], c[5]), 'structures x windows x degrees x decimals')]


def p07(m, deep):
    names = [g for g in dom.GALLERY if g not in ('very wide', 'off 2^24', 'minute', 'huge')]

    def cases():
        for name, n, s in flagged((9, 20, 49, 64, 100, 300), names, None if deep else 4):
            yield (name, n, s)

    def run(c):
        name, n, s = c
        v = dom.gal(name, n)
        out = [m.judge_sma(v, s, w) for w in sorted({1, 5, n // 2, n})] + [m.judge_ema(v, s, a) for a in (0.2, 0.9)]
        u = 2.0 ** 40 if name == 'big' else 2.0 ** -40 if name == 'tiny' else 1.0
        out += [m.judge_kalman(v, s, (p[0] * u, p[1] * u * u, p[2] * u * u, p[3] * u * u), 'matrix') for p in m.KPAR[1:5]]
        step(8, 8)
        try:
            m.judge_wma(v, s, 4)
        except Known:
            pass
        return out

    def ssa():
        for name, n, s in flagged((16, 30), dom.MODEST, None if deep else 4):
            for fs, f in ((10, 2), (100, 21)):
                yield (name, n, s, fs, f)

    def run_un(c):
        name, n, s, k = c
        v = dom.gal(name, n)
        i = form(s, k)
        m.put(v, s, m.ref.sma(v, 5), as_series(call(m.R.simple_moving_average, v.copy(), i, 5), n), 1e-11 * m.ref.scale(v), 'SMA replacement')
        m.put(v, s, m.ref.ema(v, 0.3), as_series(call(m.R.exponential_moving_average, v.copy(), i, 0.3), n), 1e-11 * m.ref.scale(v), 'EMA replacement')
        p = m.KPAR[1]
        m.put(v, s, m.ref.kalman(v, *p), as_series(call(m.R.kalman_filter, v.copy(), i, *[np.array([[x]]) for x in p]), n), 1e-9 * max(m.ref.scale(v), p[0]), 'Kalman replacement')
        m.put(v, s, m.S.ssa(v.copy(), 10, 2), as_series(call(m.R.ssa, v.copy(), i, 10, 2), n), 2e-4, 'SSA replacement')
        step(3, 3)
        return 'ok'
    def gone():
        for n in (12, 30):
            for a, b, s in both_nan(n):
                yield (n, a, b, s)

    def run_gone(c):
        # missing samples: still the smoother's own value at the flagged position
        n, a, b, s = c
        v = dom.gal('cents', n)
        v[a] = v[b] = np.nan
        p = [np.array([[x]]) for x in m.KPAR[1]]
        for what, got, own in (('SMA', call(m.R.simple_moving_average, v.copy(), repl.flags(s), 5), call(m.S.moving_average, v.copy(), 5)),
                               ('EMA', call(m.R.exponential_moving_average, v.copy(), repl.flags(s), 0.3), call(m.S.exponential_moving_average, v.copy(), 0.3)),
                               ('Kalman', call(m.R.kalman_filter, v.copy(), repl.flags(s), *p), call(m.S.kalman_filter, v.copy(), *p))):
            own = np.array([float(np.asarray(x).reshape(-1)[0]) for x in own])
            m.put(v, s, own, as_series(got, n), 1e-11 * m.ref.scale(v), what + ' replacement with missing samples')
        step(5, 3)
        return 'ok'
    return [Space('gallery', cases, run, BOUND + ' x flag sets by structure'),
            Space('gallery-missing', gone, run_gone, 'one or two missing samples, flagged or not'),
            Space('gallery-ssa', ssa, lambda c: m.judge_ssa(dom.gal(c[0], c[1]), c[2], c[3], c[4]), 'structures x flag sets'),
            Space('gallery-unsorted', lambda: unsorted((20, 40), ('cents', 'walk')), run_un, 'flags descending, rotated, repeated, interleaved')]


def p08(m, deep):
    def cases():
        for name, n in dom.gallery(dom.GSIZES, None, (1000, 10000)):
            for tag in (1, 2):
                yield (name, n, tag, 1.0, 2.0, 1.5, 1.0)
                yield (name, n, tag, 4.0, 1.0, 0.2, 0.3)
                if deep:
                    yield (name, n, tag, 0.5, 9.81, 0.05, 2.5)
    return [Space('gallery', cases, lambda c: m.judge(dom.gal(c[0], c[1]), c[3], c[2], c[4], c[5], c[6]), BOUND + ' x 2 directions x factors')]


def scales(names, sizes, ks, long=()):
    for name, n in dom.gallery(sizes, names, long):
        for k in ks:
            yield (name, n, k)


def p09(m, deep):
    def run(c):
        v = dom.gal(c[0], c[1]) * 2.0 ** c[2]
        return m.judge(v), m.judge(v - v.mean())
    return [Space('gallery', lambda: scales(None, dom.GSIZES, (0, 6) if deep else (3,), (1000, 3000)), run, BOUND + ', as they are and centred')]


def p10(m, deep):
    def run(c):
        v = dom.gal(c[0], c[1])
        a = m.judge(v, defaults=True)
        m.judge(v, 0.5, 1.0)
        step(2, 2)
        return a, m.judge(v, 3.0, 0.3)
    return [Space('gallery', lambda: dom.gallery(dom.GSIZES, None, (1000, 3000)), run, BOUND + ' x 3 threshold pairs')]


def p11(m, deep):
    return [Space('gallery', lambda: scales([g for g in dom.GALLERY if g not in dom.EXTREME], dom.GSIZES, (0, 3, 8) if deep else (3,), (1000,)),
                  lambda c: m.judge(dom.gal(c[0], c[1]) * 2.0 ** c[2], 1 + c[1] % 2, 0.5), BOUND)]


def trios(sizes, names, deep):
    for name, n in dom.gallery(sizes, names):
        for i, a in enumerate(dom.PARTNERS):
            b = dom.PARTNERS[(3 * i + n + len(name)) % len(dom.PARTNERS)]
            yield (name, n, a, b, (i + n) % 3)


def trio(c):
    x = dom.gal(c[0], c[1])
    t = [x, dom.partner(c[2], x), dom.partner(c[3], x)]
    return t[-c[4]:] + t[:-c[4]] if c[4] else t


def p12(m, deep):
    return [Space('gallery', lambda: trios((9, 20, 64, 100) if not deep else dom.GSIZES, [g for g in dom.GALLERY if g not in ('huge', 'minute', 'big')], deep), lambda c: m.judge(*trio(c)),
                  BOUND + ' x 20 relations between the components'),
            Space('gallery-long', lambda: ((g, 1000, a, 'noise', k) for g in dom.OUTLYING for k, a in enumerate(('plus noise', 'reversed', 'rolled'))), lambda c: m.judge(*trio(c)), '1000 samples')]


def p13(m, deep):
    def pairs():
        for name, n in dom.gallery((9, 20, 49), [g for g in dom.MODEST]):
            for i, a in enumerate(('plus noise', 'minus noise', 'noise', 'small', 'large', 'reversed', 'rolled', 'squared')):
                if deep or (i + n + len(name)) % 3 == 0:
                    yield (name, n, a, 8 + i % 4)

    def run_pair(c):
        x = dom.gal(c[0], c[1]) / 4
        return m.judge_pair(x, dom.partner(c[2], x), c[3])
    return [Space('gallery-pair', pairs, run_pair, BOUND + ' x 8 relations'),
            Space('gallery-3d', lambda: ((g, n) for g, n in dom.gallery((16, 25, 50), dom.MODEST)), lambda c: m.judge_3d(dom.gal(*c) / 4, 10 + c[1] % 3), BOUND)]


def p14(m, deep):
    def cases():
        for name, n in dom.gallery((9, 20, 64, 100, 1000)):
            for i, a in enumerate(dom.PARTNERS):
                if deep or n < 64 or i % 5 == len(name) % 5:
                    yield (name, n, a, (0.0, 0.3, 1.0, 2.5)[(i + n) % 4])

    def run(c):
        x = dom.gal(c[0], c[1])
        return m.judge(x, dom.partner(c[2], x), c[3]), m.judge(dom.partner(c[2], x), x, c[3])
    return [Space('gallery', cases, run, BOUND + ' x 20 relations between raw and filtered series')]


def p15(m, deep):
    def cases():
        for i, (name, n) in enumerate(dom.gallery((16, 40), dom.MODEST)):
            for d in m.DETECT:
                yield (name, n, d)

    def run(c):
        v = dom.gal(c[0], c[1])
        out = []
        for r in m.REPLACE:
            w = v
            for _ in range(2):
                w, idx = m.one_step(w, c[2], r)
                step(1, 1)
                if not len(idx):
                    break
            out.append(w)
        return out
    return [Space('gallery', cases, run, BOUND + ' x 5 detectors x 7 replacements, two passes')]


def p16(m, deep):
    return [Space('gallery', lambda: dom.gallery(dom.GSIZES + (1, 2, 3, 5), None, (1000, 10000)), lambda c: m.judge(dom.gal(*c)), BOUND)]


def p17(m, deep):
    def run(c):
        v = dom.gal(*c)
        return [m.judge_num(v, f) for f in ('array', 'list', 'tuple')]
    return [Space('gallery', lambda: dom.gallery(dom.GSIZES + (1, 2, 3), [g for g in dom.GALLERY], (1000, 10000)), run, BOUND + ' in 3 containers')]


def p18(m, deep):
    return [Space('gallery', lambda: dom.gallery(dom.GSIZES + (2, 3, 4, 5), None, (1000, 10000)), lambda c: m.judge(dom.gal(*c)), BOUND)]


def p20(m, deep):
    return [Space('gallery', lambda: dom.gallery(dom.GSIZES + (10, 16, 97, 1000), [g for g in dom.GALLERY if g not in ('huge', 'minute', 'very wide')]), lambda c: m.judge(dom.gal(*c)), BOUND)]


def p21(m, deep):
    def cases():
        for name, n in dom.gallery(dom.GSIZES, None, (1000,)):
            for w in sorted({1, 2, 5, n // 2, n - 1, n}):
                yield (name, n, w)

    def run(c):
        v = dom.gal(c[0], c[1])
        step(2, 2)
        return (m.run_sma((v, c[2])), m.run_wma((v, c[2])), m.run_ema((v, 1.0 / c[2])))
    return [Space('gallery', cases, run, BOUND + ' x 6 windows')]


def p22(m, deep):
    def cases():
        for name, n in dom.gallery((13, 20, 30, 49, 64), [g for g in dom.GALLERY if g not in ('huge', 'minute', 'off 2^24')]):
            for fs, f in m.FF if deep else m.FF[n % 2::2]:
                if math.ceil(fs / f) <= n:
                    yield (name, n, fs, f)
    return [Space('gallery', cases, lambda c: m.run((dom.gal(c[0], c[1]), c[2], c[3])), BOUND + ' x windows')]


def p23(m, deep):
    def cases():
        for name, n in dom.gallery(dom.GSIZES, [g for g in dom.GALLERY if g not in dom.EXTREME], (1000,)):
            for p in ((10.0, 10.0, 0.001, 15.0), (0.0, 1.0, 0.5, 0.25), (-3.5, 0.0, 1.0, 1.0), (0.0, 1e6, 0.0, 0.01)):
                yield (name, n) + p
    return [Space('gallery', cases, lambda c: m.run((dom.gal(c[0], c[1]),) + c[2:] + ('array',)), BOUND + ' x 4 parameter vectors')]


def p24(m, deep):
    return [Space('gallery', lambda: trios(dom.GSIZES + (1000,), None, deep), lambda c: m.judge(*trio(c)), BOUND + ' x 20 relations between the components')]


def p25(m, deep):
    def cases():
        for name, n in dom.gallery((20, 49, 64, 100, 300), [g for g in dom.GALLERY]):
            for b, ov, one in ((8, 50, True), (16, 0, False), (15, 75, True), (n // 2, 50, True), (n, 50, False), (20, 25, None)):
                if b <= n:
                    yield (name, n, 10.0, ov, b, one)
    return [Space('gallery', cases, lambda c: m.run((dom.gal(c[0], c[1]),) + c[2:]), BOUND + ' x 6 block layouts')]


def p31(m, deep):
    def cases():
        for name, n in dom.gallery((9, 20, 100)):
            for i, a in enumerate(dom.PARTNERS):
                if a not in ('constant', 'zero') and (deep and n < 100 or (i + n + len(name)) % (3 if n < 20 else 5 if n < 100 else 9) == 0):
                    yield (name, n, a, (4, 7, 8, 9, 13, 16)[(i + n) % 6])

    def run(c):
        x = dom.gal(c[0], c[1])
        y = dom.partner(c[2], x)
        if not (np.ptp(x) > 1e-9 * np.max(np.abs(x)) and np.ptp(y) > 1e-9 * np.max(np.abs(y))):
            note('no_extent')
            return 'degenerate'
        return m.judge(x, y, 0.1, 0.2, c[3])
    return [Space('gallery', cases, run, BOUND + ' x 18 relations, 6 grids')]


def p35(m, deep):
    names = [g for g in dom.GALLERY if g not in ('huge', 'minute')]

    def rho():
        for i, (name, n) in enumerate(dom.gallery((9, 20, 64), names)):
            for a in ('negated', 'noise', 'small', 'zero', 'affine'):
                yield (name, n, a, (0.0, 0.3, -0.7, 1.5)[i % 4])

    def run_rho(c):
        x = dom.gal(c[0], c[1])
        u = np.max(np.abs(x)) or 1.0
        return m.run_rho((x, dom.partner(c[2], x), c[3], 0.5 * u, 2 * u))
    return [Space('gallery-derivatives', lambda: dom.gallery(dom.GSIZES, names, (1000,)), lambda c: m.run_der(dom.gal(*c)), BOUND),
            Space('gallery-parameters', lambda: dom.gallery(dom.GSIZES, names, (1000,)), lambda c: m.run_par(dom.gal(*c)), BOUND),
            Space('gallery-coordinate', rho, run_rho, BOUND + ' x 5 relations'),
            Space('gallery-correlation', lambda: trios((9, 20, 100), names, deep), lambda c: m.run_cor(trio(c)), BOUND + ' x 20 relations')]


def p19(m, deep):
    def run(c):
        x = dom.gal(c[0], c[1])
        u = np.max(np.abs(x)) or 1.0
        return m.judge(x * (c[2] / u)), m.run_par((x, 0.75 * u, 0.25 * u))
    return [Space('gallery', lambda: ((g, n, k) for g, n in dom.gallery(dom.GSIZES, [g for g in dom.GALLERY if g not in ('huge', 'minute')]) for k in (1.0, 4.5, 20.0)), run, BOUND + ' x 3 ranges')]


def p26(m, deep):
    def cases():
        for i, (name, n) in enumerate(dom.gallery((9, 20, 64, 100), None, (1000,))):
            for off in (0.0, 0.5, -2.0):
                for p in (1, 10, 33.4, 50, 100) if deep else ((10, 50), (1, 100), (33.4, 20))[i % 3]:
                    yield (name, n, off, p, (i, n))

    def run(c):
        x = dom.gal(c[0], c[1])
        x = x + c[2] * (np.max(np.abs(x)) or 1.0)
        mu = abs(math.fsum(x) / len(x))
        if 0 < mu < 1e-6 * np.max(np.abs(x)) or c[0] in ('huge', 'minute'):
            return 'no mean'
        return m.run_seed((x, c[3], c[4][0]))
    return [Space('gallery', cases, run, BOUND + ' x 3 means x percentages'),
            Space('very long', lambda: ((n, p) for n, p in ((20011, 1), (20011, 2.5), (70001, 0.5))), lambda c: m.run_seed((dom.noise(c[0]) + 3, c[1], 7)), '20011 and 70001 samples')]


def same_value(got, want, what, tol=1e-12):
    got, want = [[np.asarray(y, dtype=complex) for y in (x if isinstance(x, tuple) else (x,))] for x in (got, want)]
    if len(got) != len(want) or any(a.shape != b.shape or not np.all(np.abs(a - b) <= tol * (1e-300 + np.abs(b).max(initial=0))) for a, b in zip(got, want)):
        raise Violation('%s: %r, expected %r' % (what, got, want))


def p27(m, deep):
    """the same request in other words: number types, containers, upper case, keywords"""
    one = {'float64': np.float64, 'zero-dim': np.array}
    two = {'list': list, 'tuple': tuple, 'array': np.array, 'numpy scalars': lambda w: [np.float64(x) for x in w], 'read-only': lambda w: np.frombuffer(np.array(w, dtype=float).tobytes())}
    orders = {'int64': np.int64, 'int8': np.int8, 'float': float, 'uint': np.uint16}

    def cases():
        for q in (1, 2, 3, 6):
            for o in ('nd', 'zps', 'sop'):
                for ag, sr in ((False, None), (True, None), (False, 8), (False, 8.0)):
                    for bt in ('lp', 'hp', 'bp', 'bs'):
                        for k in list(one if len(bt) == 2 and bt[1:] == 'p' and bt[0] in 'lh' else two):
                            yield (q, o, ag, sr, bt, k, 'w')
                        for k in orders:
                            yield (q, o, ag, sr, bt, k, 'order')
                        for k in ('upper', 'mixed', 'keywords', 'positional', 'integers', 'rate'):
                            yield (q, o, ag, sr, bt, k, 'words')

    def run(c):
        q, o, ag, sr, bt, k, what = c
        w = 0.25 if bt in ('lp', 'hp') else [0.25, 0.625]
        if sr or ag:
            w = 2 if bt in ('lp', 'hp') else [1, 3]
        rest = (ag, o, sr)
        want = call(m.B.butterworth, q, w if isinstance(w, list) else float(w), bt, *rest)
        ww, qq, b2, o2, sr2 = w, q, bt, o, sr
        if what == 'w':
            ww = (two if isinstance(w, list) else one)[k](w)
        elif what == 'order':
            qq = orders[k](q)
        elif k == 'upper':
            b2, o2 = bt.upper(), o.upper()
        elif k == 'mixed':
            b2, o2 = bt.capitalize(), o.capitalize()
        elif k == 'rate' and sr:
            sr2 = np.int64(sr) if isinstance(sr, int) else np.float64(sr)
        if k == 'keywords':
            got = call(m.B.butterworth, sr=sr, output=o, ag=ag, btype=bt, w=w, q=q)
        elif k == 'positional':
            got = call(m.B.butterworth, q, ww, bt, ag, o, sr)
        else:
            got = call(m.B.butterworth, qq, ww, b2, output=o2, **({'ag': True} if ag else {'sr': sr2} if sr else {}))
        same_value(ok(got, 'butterworth%r' % (c,)), ok(want, 'butterworth'), 'butterworth, %s as %s' % (what, k))
        return 'same'
    return [Space('words', cases, run, 'number types, containers, upper case and keywords of every kind of request')]


NUM = {'int': int, 'float64': np.float64, 'int64': np.int64, 'float32': np.float32, 'int8': np.int8}
RES = {'float64': np.float64, 'zero-dim': np.array, 'longdouble': np.longdouble}


def p29(m, deep):
    import proadv.statistics.optimize.optimize as O
    fs = {'cubic': lambda x: float(x) ** 3 - 5, 'line': lambda x: 2 - float(x), 'signs': lambda x: 1 if x > 1.25 else -1, 'whole': lambda x: float(x) - 1,
          'exp': lambda x: math.exp(float(x)) - 3}

    def run(c):
        f, a, b, ka, kb, kr, full = c
        g = fs[f] if kr is None else (lambda x: RES[kr](fs[f](x)))
        want = call(O.brentq, fs[f], float(a), float(b), full_output=full)
        got = call(O.brentq, g, NUM[ka](a), NUM[kb](b), full_output=full)
        ok(want, 'brentq')
        ok(got, 'brentq')
        x, y = (got['root'], want['root']) if full else (got, want)
        if not abs(float(x) - float(y)) <= 3e-8 * (1 + abs(y)):
            raise Violation('brentq of %s in [%r, %r]: %r, expected %r' % (f, NUM[ka](a), NUM[kb](b), x, y))
        if full and (bool(got['converged']) is not True or got['flag'] != want['flag']):
            raise Violation('brentq report %r, expected %r' % (got, want))
        return round(float(y), 6)
    return [Space('number types', lambda: ((f, a, b, ka, kb, kr, full) for f in fs for a, b in ((0, 3), (1, 4), (-2, 3)) for ka in NUM for kb in NUM for kr in [None] + list(RES) for full in (False, True)
                                           if (fs[f](a) > 0) != (fs[f](b) > 0)), run, 'ends and values of several number types')]


def p30(m, deep):
    import proadv.statistics.optimize.optimize as O
    fs = {'bowl': lambda x: (float(x) - 1.5) ** 2, 'line': lambda x: -float(x), 'abs': lambda x: abs(float(x) - 0.75), 'cos': lambda x: math.cos(2 * float(x))}

    def run(c):
        f, a, b, ka, kb, kr, full = c
        g = fs[f] if kr is None else (lambda x: RES[kr](fs[f](x)))
        want = ok(call(O.fminbound, fs[f], float(a), float(b), detailed_output=full), 'fminbound')
        got = ok(call(O.fminbound, g, NUM[ka](a), NUM[kb](b), detailed_output=full), 'fminbound')
        x, y = (got[0], want[0]) if full else (got, want)
        if not abs(float(x) - float(y)) <= 1e-4:
            raise Violation('fminbound of %s in [%r, %r]: %r, expected %r' % (f, NUM[ka](a), NUM[kb](b), x, y))
        if full and (int(got[2]) != int(want[2]) or abs(float(got[1]) - float(want[1])) > 1e-4):
            raise Violation('fminbound report %r, expected %r' % (got, want))
        return round(float(y), 4)
    return [Space('number types', lambda: ((f, a, b, ka, kb, kr, full) for f in fs for a, b in ((0, 3), (1, 4), (-2, 1)) for ka in NUM for kb in NUM for kr in [None] + list(RES) for full in (False, True)), run,
                  'bounds and values of several number types')]


def p36(m, deep):
    import proadv.kernel.bivariate as K

    def run(c):
        n, kn, r, s, kr = c
        f = lambda t: (RES[kr] if kr else float)(s * (float(t) - r))
        want = ok(call(K.root, lambda t: s * (float(t) - r), n), 'root')
        got = ok(call(K.root, f, {'int64': np.int64, 'float': float, 'int32': np.int32}[kn](n)), 'root')
        if not abs(float(got) - float(want)) <= 3e-5:
            raise Violation('root of a line through %r for n=%r (%s): %r, expected %r' % (r, n, kn, got, want))
        return round(float(want), 6)
    return [Space('number types', lambda: ((n, kn, r, s, kr) for n in (1, 50, 51, 400, 1049, 1050, 9000) for kn in ('int64', 'float', 'int32') for r in (1e-6, 0.003, 0.02, 0.09, 0.3) for s in (1, -1) for kr in (None,) + tuple(RES)),
                  run, 'counts and values of several number types')]


def of(prop, tier):
    fn = globals().get(prop.lower())
    return fn(importlib.import_module('mc.' + prop.lower()), tier == 'thorough') if fn else []
