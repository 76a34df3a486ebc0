"""P11 three-dimensional phase-space thresholding."""
import numpy as np
from mc import det, dom, ref
from mc.core import Space, Violation, as_indices, call, judge_set, note, step
import proadv.filtration.detection.spherical as S

MODS = ['proadv.filtration.detection.spherical']


def judge(c, iteration=1, c_mean=0.0):
    c = np.array(c, dtype=float)
    got = as_indices(call(S.spherical_phasespace_thresholding, c.copy(), iteration, c_mean), len(c))
    must, may = det.spherical(c)
    judge_set(got, must, may)
    if len(may) > len(must):
        note('undecided_near_threshold')
    if must:
        note('with_definite_spikes')
    return got


def run_sweep(c):
    base, n, i, h, it = c
    v = dom.shape(base, n) * 4
    v[i] += h
    return judge(v, it, 0.25 * it)


def run_scaled(c):
    base, n, i, h, k = c
    v = dom.shape(base, n) * 4
    v[i] += h
    return judge(v / k)


def run_pair(c):
    n, i, j, s, q = c
    v = np.zeros(n) if q is None else dom.noise(n, 5) * q
    v[i] += s
    v[j] -= s
    return judge(v)


def spaces(tier):
    deep = tier == 'thorough'
    nm = 7 if deep else 6
    sizes = [64, 100, 257, 1000] + ([4099] if deep else []) + dom.literal_sizes(3, 4000, MODS, 12)
    heights = [2, 4, 6, 8, 10, 14, 20, 40, 120, -3, -5, -7, -9, -12, -18, -30, -80]
    def slowly(w, amp, n, i, h):
        t = np.arange(n)
        v = amp * np.sin(w * t + 0.3) + 0.25 * dom.noise(n, 3)
        v[i] += h
        return v

    def slow():
        for n in (60, 150):
            for w, amp in ((0.01, 1000.0), (0.03, 100.0), (0.03, 1000.0), (0.06, 300.0), (0.15, 40.0)):
                for i in (1, n // 2, n - 2):
                    for sg in (1, -1):
                        f = lambda h: det.spherical(slowly(w, amp, n, i, h))[1]
                        for h in det.edges(f, [sg * x for x in (0.5, 1, 2, 3, 4, 6, 8, 12, 16, 24, 40)], (1e-4, 3e-3, 0.03), 4):
                            yield (w, amp, n, i, h)
    return [
        Space('slow-motion', slow, lambda c: judge(slowly(*c)), 'small spikes on slow large motion (rotation by a small angle), heights on either side of every change of verdict'),
        Space('all-words', lambda: ((w,) for w in dom.words((0.0, 8.0, -8.0, 40.0), 2, nm)), lambda c: judge(*c),
              'every series over 4 values up to %d samples' % nm),
        Space('one-spike', lambda: ((b, 24, i, h, it) for b in ('noise', 'sine') for h in heights for i in range(24) for it in (1, 2)),
              run_sweep, 'every position x 17 heights x 2 backgrounds, first and later iteration'),
        Space('iterations', lambda: ((b, 24, i, h, it, m) for b in ('noise', 'spiky') for i in (3, 12) for h in (4, 8, 14, 40) for it in list(range(1, 131)) + [200, 256, 1000, 10 ** 6]
                                     for m in (0.0, -3.5)),
              lambda c: judge(dom.shape(c[0], c[1]) * 4 + c[3] * np.eye(c[1])[c[2]], c[4], c[5]), 'iterations 1..130 and beyond, two carried means'),
        Space('shapes', lambda: ((sh, n) for sh in dom.SHAPES for n in list(range(2, 60)) + [100, 200]),
              lambda c: judge(dom.shape(*c)), '19 shapes, n 2..200'),
        Space('scales', lambda: ((sh, k) for sh in ('spiky', 'onespike', 'noise2') for k in list(range(-3, 12)) + [16, 20, 25]),
              lambda c: judge(dom.shape(c[0], 60) * 2.0 ** c[1]), 'magnitudes 2^-3..2^25'),
        Space('opposite-spikes', lambda: ((n, i, j, s, q) for n in (16, 24) for i in range(n) for j in range(n) if i != j
                                          for s in (0.25, 0.5, 0.875, 2.0, 9.0) for q in ((None, s / 64) if n == 16 else (None,))), run_pair,
              'every ordered pair of opposite spikes, amplitudes from 0.25, quiet or noisy background'),
        Space('small-amplitude', lambda: ((b, 24, i, h, k) for b in ('noise', 'sine') for i in range(24) for h in heights for k in (16, 64)),
              lambda c: run_scaled(c), 'one spike at every position x 17 heights, amplitudes down to 1/64'),
        Space('long', lambda: ((sh, n) for n in sizes for sh in ('spiky', 'onespike', 'noise2', 'offset')),
              lambda c: judge(dom.shape(*c) * 8), 'sizes %s' % sizes),
        Space('measured', lambda: (c for n, st in ((64, 500), (300, 1500), (1000, 4000)) for c in dom.stretches(n, st, 18000)),
              lambda c: judge(dom.record(*c)), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((30, 150), 2, 4000, 0.05, 1e5):
            yield (c, 1, 0.0)
        for it in dom.fresh_sizes(1, 10 ** 6):
            yield (('scale', 'spiky', 60, 4.0), it, 0.5)
        for v in dom.fresh_values(1e-6, 1e6):
            for s in (1, -1):
                yield (('scale', 'spiky', 60, 4.0), 2, s * v)
    return [Space('source-constants', cases, lambda c: judge(dom.build(c[0]), *c[1:]), dom.gained())]
