"""Further values of every numeric parameter.  The values were chosen by recording the parameters of
every call the other spaces make and listing the classes (zero, one, negative, whole numbers of integer
type, beyond 1, beyond 100, below 1e-3, more than the record holds) in which a parameter had no value."""
import importlib
import math

import numpy as np

from mc import dom, ops
from mc.core import Space, Violation, as_indices, as_scalar, call, same, step

SHAPES = ('spiky', 'noise2', 'onespike', 'neg', 'offset')


def p08(m, deep):
    F = (0, 0.0, 1, 25, 100.0, -4.0, 12500.0, 3e5, 1e-3, np.float32(25), np.int64(25))
    G = (980, 9.81, 0, -3.5, 1e-4, 2e6, np.int64(3))
    KG = (0, 1, 1.5, 150, 1e-5, -2, np.float32(0.5))
    KS = (0, 1, 2.5, -1, 130, 1e-4, np.int64(1))

    def cases():
        for sh in SHAPES:
            for tag in (1, 2):
                for i, f in enumerate(F):
                    for j, g in enumerate(G):
                        for a, kg in enumerate(KG):
                            for b, ks in enumerate(KS):
                                if deep or (i + 2 * j + 3 * a + 5 * b) % 7 == 0:
                                    yield (sh, 25, f, tag, g, kg, ks)

    def run(c):
        sh, n, f, tag, g, kg, ks = c
        v = dom.shape(sh, n)
        got = as_indices(call(m.A.acceleration_thresholding, v.copy(), f, tag, g, kg, ks), n)
        must, may = m.model(v.tolist(), float(f), tag, float(g), float(kg), float(ks), 1e-10)
        m.judge_set(got, must, may)
        return got
    return [Space('parameter-values', cases, run, '%d rates x %d gravities x %d x %d factors of various types' % (len(F), len(G), len(KG), len(KS)))]


def p10(m, deep):
    C1 = (0, 0.0, 1, 2, 1.5, -0.5, 0.01, 1e-4, 10.7, 1e3, np.float32(1.5), np.int64(2))
    C2 = (0, 0.1, 1, 2, 1.35, 2.7, -1.0, 1e-4, 100, np.float32(1.5), np.int64(3))

    def cases():
        for sh in SHAPES + ('noise', 'sine', 'zero', 'const'):
            for n in (2, 9, 40):
                for a in C1:
                    for b in C2:
                        yield (sh, n, a, b)
    return [Space('parameter-values', cases, lambda c: m.judge(dom.shape(c[0], c[1]), c[2], c[3]), '%d x %d factors of various types' % (len(C1), len(C2)))]


def p11(m, deep):
    IT = (0, 1, 2, -1, 7, 1.0, np.int64(1), np.int64(3), np.float64(2.0))
    CM = (0, 0.0, 1, -1, 0.3, -2.5e-5, 1e6, -150.0, np.float32(0.1), np.int64(4))
    return [Space('parameter-values', lambda: ((sh, n, it, cm) for sh in SHAPES + ('noise',) for n in (12, 60) for it in IT for cm in CM),
                  lambda c: m.judge(dom.shape(c[0], c[1]) * 4, c[2], c[3]), '%d iteration numbers x %d carried means' % (len(IT), len(CM)))]


def p14(m, deep):
    K = (0, 1, 2, 3, 7, 100, 0.3, 1e-4, 1e3, np.float32(0.5), np.int64(2))
    return [Space('parameter-values', lambda: ((a, b, n, k) for a in SHAPES + ('noise', 'zero') for b in ('zero', 'sine', 'offset', 'noise', 'neg') for n in (1, 2, 7, 25, 60) for k in K),
                  lambda c: m.judge(dom.shape(c[0], c[2]), dom.shape(c[1], c[2]), c[3]), '%d factors of various types' % len(K))]


def p28(m, deep):
    W = (1, 2, 50, 150.0, 1e5, 1e-4, 0.3, np.float32(2), np.int64(3))
    SYS = (([], [-1.0], 1.0), ([0.5], [-1.0, -2.0], 2.0), (m.roots([m.S_UNITS[6]]), m.roots([m.S_UNITS[4], m.S_UNITS[5]]), -0.75), ([], m.roots([m.S_UNITS[4], ('r', -0.25), ('r', -5.5)]), 3))

    def cases():
        for z, p, k in SYS:
            for a in W:
                for kind in ('low', 'high', 'bilinear'):
                    yield (kind, z, p, k, (a,))
                for b in W:
                    if 1e-3 < float(b) / float(a) < 1e3:
                        for kind in ('band', 'stop'):
                            yield (kind, z, p, k, (a, b))
    return [Space('parameter-values', cases, m.run_map, '4 systems x frequencies 1e-4..1e5 of various types')]


def p29(m, deep):
    TOL = (2.0, 0.5, 1, 1e-2, 1e-6, 4e-14)
    B = ((0.0, 1.0), (0.001, 0.0025), (150.0, 400.0), (-300.0, -120.0), (-0.0004, 0.0002), (-7.0, 1e4), (0, 3), (-2, 5))

    def cases():
        for a, b in B:
            for x in TOL:
                for r in TOL:
                    for tail in m.TAILS:
                        if tail != 'minute':
                            for ans in ((), (-1.0, 1.0), (1.0, -1.0, 0.25), (-3.0, 2.0, 1.0, -1.0)):
                                yield (a, b, ans, tail, (('xtol', x), ('rtol', r)))
    return [Space('parameter-values', cases, m.run, '8 brackets x 36 pairs of tolerances, adversarial answers')]


def p30(m, deep):
    TOL = (2.0, 1, 150.0, 0.5, 1e-2, 1e-5, 1e-8)
    LIM = (1, 2, 3, 7, 1000)
    B = ((-1.0, 0.0), (-3, 0), (0.0, 0.004), (150.0, 900.0), (1e-5, 1.0), (-500.0, -100.5), (-1e-4, 1e-4), (0, 2))

    def cases():
        for a, b in B:
            for t in TOL:
                for lim in LIM:
                    for tail in m.TAILS:
                        for ans in ((), (1.0, -1.0), (0.0, 0.0, 0.5), (-1.0, 1.0, -2.0)):
                            yield (a, b, ans, tail, (('tolerance', t), ('max_evaluations', lim)))
    return [Space('parameter-values', cases, m.run, '8 intervals x 7 tolerances x 5 limits, adversarial answers')]


def p17(m, deep):
    A = (True, False, 3, 2.5, '4', 'x', -1)

    def cases():
        for n in range(1, 5 if deep else 4):
            for w in dom.words(A, n, n):
                if any(isinstance(x, bool) for x in w) and any(not isinstance(x, str) for x in w):
                    for t in (list, tuple):
                        yield (t.__name__, w)

    def run(c):
        w = (list if c[0] == 'list' else tuple)(c[1])
        nums = [float(x) for x in w if not isinstance(x, str) or x == '4']
        same(as_scalar(call(m.D.mean, w), 'mean'), sum(nums) / len(nums), 1e-12, 'mean of %r' % (w,))
        return sum(nums)
    return [Space('truth-values', cases, run, 'every sequence of up to 3/4 truth values, numbers and strings')]


def p31(m, deep):
    H = (0, 0.0, 1e-4, 0.02, 0.3, 1, 2, 7.5, np.float32(0.25), np.int64(1))

    def cases():
        for a, b in (('noise', 'noise2'), ('offset', 'spiky')):
            for hx in H:
                for hy in H:
                    for g in (5, 8, np.int64(9)) if not deep else (5, 8, 16, np.int64(9)):
                        yield (a, b, 20, hx, hy, g)
            for g in (2, 64, 65) + ((100, 128) if deep else ()):
                for h in ((0.05, 0.2), (0.5, 0.01)):
                    yield (a, b, 40, h[0], h[1], g)
    return [Space('parameter-values', cases, lambda c: m.judge(dom.shape(c[0], c[2]), dom.shape(c[1], c[2]), c[3], c[4], c[5]), 'bandwidths 0..7.5 of various types, grids up to 128')]


def p35(m, deep):
    S = (0.5, 1, 2.0, np.float32(0.5), 150.0, 1e-4)
    LAM = (1, 2, 100, 0.05, 1e-4, 1.5, np.int64(3), np.float32(1.5))
    T = (0, 0.0, 1e-4, -1e-4, 1e-7, 0.3, 1, -1, math.pi / 2, math.pi, 10, -100.0)

    def axes():
        for a in S:
            for b in S:
                for lam in LAM:
                    for t in T:
                        yield (a, b, t, lam)

    def rhos():
        for a in (0.5, 1, 3, 1e-4, 200.0, np.float32(2)):
            for b in (0.25, 1, 2, 1e-4, 200.0, np.int64(3)):
                for t in T:
                    for x, y in (('noise', 'noise2'), ('ramp', 'neg')):
                        yield (dom.shape(x, 9), dom.shape(y, 9), t, a, b)
    return [Space('parameter-values-axes', axes, m.run_ab, '6 x 6 deviations x 8 thresholds x 13 angles'),
            Space('parameter-values-coordinate', rhos, m.run_rho, '6 x 6 axes x 13 angles')]


WHOLE = {'int8': (-127, 127, 100, 3, -1), 'uint8': (255, 0, 200, 7, 1), 'int16': (-32767, 32767, 30001, -5, 1), 'uint16': (65535, 40000, 1, 0, 12), 'int32': (-2 ** 31 + 1, 2 ** 31 - 1, 2 ** 30 + 7, 12, -1),
         'uint32': (2 ** 32 - 1, 0, 3, 70000, 2 ** 31), 'int64': (-2 ** 40, 2 ** 40, 3, 0, 7)}


def whole(what, make, n=4, extra=30):
    """series of whole numbers, however narrow their type: the answer is that for the same values as doubles"""
    def cases():
        for t, al in WHOLE.items():
            for w in dom.words(al, n, n):
                yield (t, w)
            for sh in SHAPES:
                for rep in (1, 3):
                    yield (t, (sh, extra, rep))

    def run(c):
        t, w = c
        if isinstance(w[0], str):
            v = dom.shape(w[0], w[1])
            al = WHOLE[t]
            v = np.round(min(al) + (v - v.min()) / ((v.max() - v.min()) or 1.0) * (max(al) - min(al)) / w[2]).astype(t)
        else:
            v = np.array(w, dtype=t)
        keep = v.copy()
        got, want = make(v), make(v.astype(float))
        if not np.array_equal(v, keep):
            raise Violation('the data of the caller was modified')
        ops.equal(ops.freeze(got), ops.freeze(want), '%s of %s' % (what, t), 1e-8)
        step(1, 1)
        return ops.freeze(want)[0][0]
    return [Space('integer-storage', cases, run, 'every series of %d extreme values (short of the most negative integer, which has no absolute value) and 5 shapes, 7 integer types' % n)]


def rev(v):
    return np.roll(v[::-1], 1)


def w08():
    from mc.p08 import A
    return whole('acceleration thresholding', lambda v: [call(A.acceleration_thresholding, v, 10.0, t, 9.81, 1.5, 1) for t in (1, 2)])


def w09():
    import proadv.filtration.detection.phasespace as P
    return whole('phase-space thresholding', lambda v: call(P.phasespace_thresholding, v))


def w10():
    import proadv.filtration.detection.phasespace as P
    return whole('premodification', lambda v: call(P.phasespace_thresholding_premodification, v))


def w11():
    import proadv.filtration.detection.spherical as S
    return whole('spherical thresholding', lambda v: call(S.spherical_phasespace_thresholding, v, 2, 0.5))


def w12():
    import proadv.filtration.detection.correlation as C
    return whole('velocity correlation', lambda v: call(C.velocity_correlation, v, rev(v), np.roll(v, 2)))


def w14():
    import proadv.filtration.detection.pollution as P
    return whole('pollution rate', lambda v: call(P.pollution_rate, v, rev(v), 0.5))


def of(prop, tier):
    return values(prop, tier) + whole_numbers(prop)


def whole_numbers(prop):
    fn = globals().get('w' + prop.lower()[1:])
    return fn() if fn else []


def values(prop, tier):
    fn = globals().get(prop.lower())
    return fn(importlib.import_module('mc.' + prop.lower()), tier == 'thorough') if fn else []
