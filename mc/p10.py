"""P10 phase-space pre-modification."""
import itertools
import numpy as np
from mc import det, dom, ref
from mc.core import Space, Violation, as_indices, as_series, call, judge_set, note, ok, same
import proadv.filtration.detection.phasespace as P

MODS = ['proadv.filtration.detection.phasespace', 'proadv.filtration.replacement.replacements']


def judge(d, c1=1.5, c2=1.35, band=1e-10, defaults=False, k=0):
    d = np.array(d, dtype=float)
    n = len(d)
    arg = d * 2.0 ** k
    given = arg.copy()
    out = ok(call(P.phasespace_thresholding_premodification, arg) if defaults else
             call(P.phasespace_thresholding_premodification, arg, c1, c2))
    if not np.array_equal(arg, given):
        raise Violation('the caller\'s data was modified')
    try:
        data, un = out
    except Exception:
        raise Violation('expected (data, unremovable indices), got %r' % (out,))
    data = as_series(data, n, 'processed data') * 2.0 ** -k
    un = as_indices(un, n, 'unremovable indices')
    um, uy, rm, ry = det.premodification(d, c1, c2, band)
    judge_set(un, um, uy, 'unremovable samples')
    amb = sorted(ry - rm)
    if len(amb) > 6:
        note('undecided_near_threshold')
        return 'undecided'
    choices = [s for k in range(len(amb) + 1) for s in itertools.combinations(amb, k)]
    err = None
    for extra in choices:
        removed = rm | set(extra)
        exp = d.copy()
        for i, w in ref.last_valid(d, removed).items():
            exp[i] = data[i] if w is None else w
        try:
            same(data, exp, 0.0, 'processed data (removable: %s)' % sorted(removed)[:20])
            return data
        except Violation as v:
            err = err or v
    raise err


def spaces(tier):
    deep = tier == 'thorough'
    nm = 8 if deep else 7
    sizes = [64, 257, 1000, 4099, 10007] + dom.literal_sizes(2, 20000, MODS, 12)

    def params():
        for w in dom.words((0.0, 1.0, -1.0, 6.0), 1, 5):
            for c1 in (0.5, 1.0, 3.0):
                for c2 in (0.5, 1.0, 2.0):
                    yield (w, c1, c2)

    def two():
        for i in range(16):
            for length in (1, 2, 3, 4):
                for h in (-20.0, 5.0, 20.0):
                    yield (i, length, h)

    def run_two(c):
        v = dom.noise(16).copy()
        for j in range(c[0], min(16, c[0] + c[1])):
            v[j] = c[2] * (1 if j % 2 else 1.5)
        return judge(v, defaults=True)
    def spiked(b, n, i, h):
        v = dom.shape(b, n).copy()
        v[i] = h
        return v

    def near():
        for b, n in (('noise', 16), ('noise2', 57), ('sine', 30), ('spiky', 101), ('noise', 400)):
            for i in sorted(set((0, 1, n // 3, n // 2, n - 2, n - 1))):
                for c1, c2 in ((1.5, 1.35), (0.5, 1.0), (1.0, 2.0)):
                    f = lambda h: det.premodification(spiked(b, n, i, h), c1, c2)
                    for h in det.edges(lambda h: (f(h)[1], f(h)[3]), [x / 2.0 for x in range(-20, 21)], (1e-6, 1e-3), 8):
                        yield (b, n, i, h, c1, c2)
    return [
        Space('near-threshold', near, lambda c: judge(spiked(*c[:4]), *c[4:]),
              'heights just on either side of every change of verdict, 5 backgrounds x 3 factor pairs'),
        Space('all-words', lambda: ((w,) for w in dom.words((0.0, 1.0, -1.0, 6.0), 1, nm)),
              lambda c: judge(c[0], defaults=True), 'every series over 4 values up to %d samples' % nm),
        Space('parameters', params, lambda c: judge(*c), 'every series up to 5 samples x 9 threshold pairs'),
        Space('runs', two, run_two, 'runs of large samples of either sign at every position'),
        Space('shapes', lambda: ((sh, n) for sh in dom.SHAPES for n in list(range(1, 50)) + [100]),
              lambda c: judge(dom.shape(*c), defaults=True), '19 shapes, n 1..100'),
        Space('magnitudes', lambda: ((sh, n, k) for sh in ('spiky', 'onespike', 'noise2', 'neg') for n in (7, 60)
                                     for k in (-60, -40, -30, -20, -10, 10, 20, 30, 40, 60)),
              lambda c: judge(dom.shape(c[0], c[1]), defaults=True, k=c[2]), 'magnitudes 2^-60..2^60'),
        Space('very-long', lambda: ((sh, n) for n in (40009, 70001) for sh in ('spiky', 'onespike')),
              lambda c: judge(dom.shape(*c), defaults=True), '40009 and 70001 samples'),
        Space('long', lambda: ((sh, n) for n in sizes for sh in ('spiky', 'onespike', 'noise2', 'neg')),
              lambda c: judge(dom.shape(*c), defaults=True), 'sizes %s' % sizes),
        Space('measured', lambda: (c for n, st in ((64, 500), (1000, 4000), (17999, 18000)) for c in dom.stretches(n, st, 18000)),
              lambda c: judge(dom.record(*c) - dom.record(*c).mean(), defaults=True), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((30, 200)):
            yield (c, 1.5, 1.35)
        for v in dom.fresh_values(1e-3, 50.0):
            for sh in ('spiky', 'noise2', 'onespike'):
                yield (('size', sh, 60, 1.0), v, 1.35)
                yield (('size', sh, 60, 1.0), 1.5, v)
    return [Space('source-constants', cases, lambda c: judge(dom.build(c[0]), *c[1:]), dom.gained())]
