"""P09 phase-space thresholding."""
import numpy as np
from mc import det, dom, ref
from mc.core import Space, as_indices, call, judge_set, note
import proadv.filtration.detection.phasespace as P
import proadv.filtration.detection.poincare as Q

MODS = ['proadv.filtration.detection.phasespace', 'proadv.filtration.detection.poincare', 'proadv.statistics.spread']


def judge(c):
    c = np.array(c, dtype=float)
    got = as_indices(call(P.phasespace_thresholding, c.copy()), len(c))
    must, may = det.pst(c)
    judge_set(got, must, may)
    if len(may) > len(must):
        note('undecided_near_threshold')
    return got


def spike_sweep(n, heights, base):
    """a spike of every height at every position: crosses every threshold from both sides"""
    for h in heights:
        for i in range(n):
            yield (base, n, i, h)


def run_sweep(c):
    base, n, i, h = c
    v = dom.shape(base, n).copy()
    v[i] += h
    return judge(v)


def run_two(c):
    n, i, j, h = c
    v = dom.noise(n, 3).copy()
    v[i] += h
    v[j] -= h
    return judge(v)


def background(b, n):
    if b == 'slow':
        return np.sin(np.arange(n) / 40.0)
    if b == 'mixed':
        return np.sin(np.arange(n) / 30.0) + 0.05 * dom.noise(n, 7)
    return dom.shape(b, n)


def spiked(b, n, i, h, centre):
    v = background(b, n).copy()
    v[i] += h
    return v - v.mean() if centre else v


def near():
    grid = [x / 4.0 for x in range(-16, 17)]
    for b, n in (('noise', 24), ('noise', 100), ('noise2', 57), ('sine', 30), ('slow', 400), ('mixed', 300), ('slow', 1000)):
        for i in sorted(set((0, 1, n // 3, n // 2, 2 * n // 3, n - 2, n - 1))):
            for centre in (False, True):
                g = grid if b != 'slow' else [x / 8 for x in grid]
                for h in det.edges(lambda h: det.pst(spiked(b, n, i, h, centre))[1], g, most=4 if n > 100 else 8):
                    yield (b, n, i, h, centre)


def spaces(tier):
    deep = tier == 'thorough'
    nm = 8 if deep else 7
    sizes = [64, 100, 257, 1000] + ([4099, 10007] if deep else [2500]) + dom.literal_sizes(3, 6000, MODS, 12)
    heights = [0.5, 1, 1.5, 2, 2.5, 3, 4, 6, 10, 30, -0.75, -1.25, -1.75, -2.25, -3, -5, -20]
    return [
        Space('all-words', lambda: ((w,) for w in dom.words((0.0, 1.0, -1.0, 4.0), 2, nm)), lambda c: judge(*c),
              'every series over 4 values up to %d samples' % nm),
        Space('one-spike', lambda: spike_sweep(24, heights, 'noise'), run_sweep,
              'every position x 17 heights on a 24-sample background'),
        Space('one-spike-smooth', lambda: spike_sweep(30, [h * 0.3 for h in heights], 'sine'), run_sweep,
              'every position x 17 heights on a smooth background'),
        Space('near-threshold', near, lambda c: judge(spiked(*c)),
              'spike heights just on either side of every change of verdict, 7 backgrounds, centred or not'),
        Space('two-spikes', lambda: ((24, i, j, h) for i in range(24) for j in range(24) if i != j for h in (2.0, 3.0, 8.0)),
              run_two, 'every ordered pair of positions, opposite spikes'),
        Space('shapes', lambda: ((sh, n) for sh in dom.SHAPES for n in list(range(2, 60)) + [100, 200]
                                 if sh not in ('const',)),
              lambda c: judge(dom.shape(*c)), '18 shapes, n 2..200'),
        Space('centred', lambda: ((sh, n) for sh in dom.SHAPES for n in (20, 33, 64, 128, 300) if sh != 'const'),
              lambda c: judge(dom.shape(*c) - dom.shape(*c).mean()), 'fluctuations about the mean'),
        Space('zero', lambda: ((n,) for n in (2, 3, 10, 100)), lambda c: judge(np.zeros(c[0])), 'all-zero fluctuations'),
        Space('scales', lambda: ((sh, k) for sh in ('spiky', 'onespike', 'noise2') for k in range(-3, 20)),
              lambda c: judge(dom.shape(c[0], 60) * 2.0 ** c[1]), 'magnitudes 2^-3..2^19'),
        Space('magnitudes', lambda: ((sh, n, k) for sh in ('spiky', 'onespike', 'noise2', 'sine') for n in (7, 60)
                                     for k in (-20, -10, -6, 25, 30, 40, 60)),
              lambda c: judge(dom.shape(c[0], c[1]) * 2.0 ** c[2]), 'magnitudes 2^-20..2^60'),
        Space('very-long', lambda: ((sh, n) for n in (40009, 70001) for sh in ('spiky', 'onespike')),
              lambda c: judge(dom.shape(*c)), '40009 and 70001 samples'),
        Space('long', lambda: ((sh, n) for n in sizes for sh in ('spiky', 'onespike', 'noise2', 'sine')),
              lambda c: judge(dom.shape(*c)), 'sizes %s' % sizes),
        Space('measured', lambda: (c for n, st in ((64, 500), (300, 1500), (1000, 4000), (17999, 18000)) for c in dom.stretches(n, st, 18000)),
              lambda c: judge(dom.record(*c) - dom.record(*c).mean()), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    return [Space('source-constants', lambda: dom.fresh_series((30, 200), 2, 20000, 1e-3, 1e6), lambda c: judge(dom.build(c)), dom.gained())]
