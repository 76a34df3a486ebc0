"""P12 velocity correlation."""
import numpy as np
from mc import det, dom, ref
from mc.core import Space, as_indices, shared, call, judge_set, note
import proadv.filtration.detection.correlation as C

MODS = ['proadv.filtration.detection.correlation', 'proadv.filtration.detection.poincare', 'proadv.statistics.spread']


def judge(u, v, w, k=0, off=0.0):
    """k: all components in units of 2^k; off: about another mean velocity (neither changes the answer)"""
    u, v, w = [np.array(x, dtype=float) for x in (u, v, w)]
    got = as_indices(call(C.velocity_correlation, (u + off) * 2.0 ** k, (v - off) * 2.0 ** k, (w + 2 * off) * 2.0 ** k), len(u))
    must, may = det.correlation(u, v, w)
    judge_set(got, must, may)
    x = shared(*[(u + off) * 2.0 ** k, (v - off) * 2.0 ** k, (w + 2 * off) * 2.0 ** k])
    if x[0] is x[1] or x[0] is x[2] or x[1] is x[2]:
        judge_set(as_indices(call(C.velocity_correlation, *x), len(u)), must, may)
    if len(may) > len(must):
        note('undecided_near_threshold')
    if must:
        note('with_definite_spikes')
    return got


def run_sweep(c):
    n, comp, i, h = c
    x = [dom.noise(n, 3) * 2, dom.noise(n, 5), dom.noise(n, 7) * 0.5]
    for k in comp:
        x[k] = x[k].copy()
        x[k][i] += h
    return judge(*x)


def trio(n, comp, i, h, mix):
    a, b, d = dom.noise(n, 3), dom.noise(n, 5), dom.noise(n, 7)
    x = [2 * a, mix[0] * a + b, mix[1] * a + 0.5 * d]
    x[comp] = x[comp].copy()
    x[comp][i] += h
    return x


def unequal(n, comp, i, h, a, b, mix):
    u, v, w = trio(n, comp, i, h, mix)
    return u, v * 2.0 ** a, w * 2.0 ** b


def near():
    grid = [x / 2.0 for x in range(-18, 19)]
    for n in (24, 57, 200):
        for mix in ((0.0, 0.0), (1e-3, -1e-3), (0.05, 0.5), (-0.7, 2.0), (1.9, -1.9)):
            for comp in range(3):
                for i in (0, n // 3, n - 1):
                    for h in det.edges(lambda h: det.correlation(*trio(n, comp, i, h, mix))[1], grid, most=6):
                        yield (n, comp, i, h, mix)


def run_magn(c):
    n, i, h, k, off = c
    x = [dom.noise(n, 3) * 2, dom.noise(n, 5), dom.noise(n, 7) * 0.5]
    x[i % 3] = x[i % 3].copy()
    x[i % 3][i] += h
    return judge(*x, k=k, off=off)


def run_mix(c):
    n, i, h, ca, cb = c
    a, b, d = dom.noise(n, 3), dom.noise(n, 5), dom.noise(n, 7)
    u = a
    v = ca * a + b * 0.5
    w = cb * a + d * 0.25
    v = v.copy()
    v[i] += h
    return judge(u, v, w)


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [64, 100, 257, 1000] + ([4099, 10007] if deep else [2500]) + dom.literal_sizes(3, 6000, MODS, 12)
    heights = [1, 2, 3, 4, 5, 6, 8, 12, 30, -1.5, -2.5, -3.5, -4.5, -5.5, -7, -10, -25]
    shp = ['noise', 'noise2', 'spiky', 'onespike', 'sine', 'step', 'quad', 'const', 'zero', 'ramp', 'offset', 'ties', 'alt']

    def words():
        for n in range(2, 4 if not deep else 5):
            ws = list(dom.words((0.0, 1.0, -2.0), n, n))
            for u in ws:
                for v in ws:
                    for w in ws:
                        yield (u, v, w)

    def words_long():
        for u in dom.words((0.0, 1.0, 7.0), 6, 7 if deep else 6):
            n = len(u)
            yield (u, tuple(dom.noise(n, 3)), tuple(dom.noise(n, 4)))
            yield (tuple(dom.noise(n, 3)), u, tuple(dom.noise(n, 4)))
            yield (tuple(dom.noise(n, 3)), tuple(dom.noise(n, 4)), u)
    return [
        Space('all-words', words, lambda c: judge(*c), 'every triple of series over 3 values, n 2..%d' % (4 if deep else 3)),
        Space('near-threshold', near, lambda c: judge(*trio(*c)),
              'spike heights just on either side of every change of verdict, 5 degrees of correlation'),
        Space('component-words', words_long, lambda c: judge(*c), 'every 6-sample series in each component'),
        Space('one-spike', lambda: ((24, comp, i, h) for comp in [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]
                                    for i in range(24) for h in heights), run_sweep,
              'every position x 17 heights x every subset of components'),
        Space('correlated', lambda: ((24, i, h, ca, cb) for i in range(0, 24, 3) for h in (0, 3, -3, 8) for ca in (-2, -0.5, 0.25, 0.75, 3)
                                     for cb in (-1.5, 0.5, 1.25)), run_mix, 'correlated components of either sign'),
        Space('shapes', lambda: ((a, b, c, n) for n in (2, 9, 40) for a in shp for b in shp for c in shp),
              lambda c: judge(dom.shape(c[0], c[3]), dom.shape(c[1], c[3])[::-1], dom.shape(c[2], c[3]) * 3),
              'every triple of 13 shapes'),
        Space('magnitudes', lambda: ((n, i, h, k, off) for n in (7, 24) for i in range(0, n, 3) for h in (0.0, 4.0, -9.0)
                                     for k in (-30, -20, -10, 0, 10, 20, 30) for off in (0.0, 64.0, -512.0)),
              run_magn, 'magnitudes 2^-30..2^30, mean velocities up to 1024 in that unit'),
        Space('unequal', lambda: ((n, comp, i, h, a, b, mix) for n in (24, 60) for comp in range(3) for i in (0, n // 2, n - 1) for h in (0.0, 3.0, -5.0, 9.0)
                                  for a in (-13, -7, 7, 13) for b in (-13, -7, 0, 7, 13) for mix in ((0.0, 0.0), (0.5, -0.5), (-0.125, 1.5))),
              lambda c: judge(*unequal(*c)), 'components of magnitudes up to 2^26 apart'),
        Space('very-long', lambda: ((n,) for n in (40009, 70001)),
              lambda c: judge(*[dom.shape(s, c[0]) for s in ('spiky', 'noise2', 'onespike')]), '40009 and 70001 samples'),
        Space('long', lambda: ((a, n) for n in sizes for a in range(4)),
              lambda c: judge(*[dom.shape(['spiky', 'noise2', 'onespike', 'sine', 'noise', 'offset'][(c[0] + k) % 6], c[1])[::(-1) ** k]
                                for k in range(3)]), 'sizes %s' % sizes),
        Space('measured', lambda: ((c, k) for n, st in ((64, 500), (300, 1500), (1000, 4000), (17999, 18000)) for c in dom.stretches(n, st, 18000) if c[1] == 0 for k in ((0, 1, 2), (2, 0, 1), (1, 2, 0), (1, 0, 2))),
              lambda c: judge(*[dom.record(c[0][0], k, *c[0][2:]) for k in c[1]]), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((30, 150), 2, 10000, 1e-6, 1e5):
            for k in range(3):
                yield (c, k, 1.0)
            yield (c, 0, c[3])

    def run(c):
        a, n = dom.build(c[0]), c[0][2]
        x = [a, dom.noise(n, 5) * c[2], dom.noise(n, 7) * 0.5 * c[2]]
        x = x[-c[1]:] + x[:-c[1]] if c[1] else x
        return judge(*x)
    return [Space('source-constants', cases, run, dom.gained())]
