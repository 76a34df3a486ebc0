"""P04 linear interpolation."""
import itertools
import numpy as np
from mc import dom, ref, repl
from mc.core import Space, as_series, call, same
from mc.repl import R


def judge(v, s, decimals=4, idx=None):
    v = np.array(v, dtype=float)
    i = repl.flags(s) if idx is None else idx
    out = as_series(call(R.linear_interpolation, v.copy(), i) if decimals == 4
                    else call(R.linear_interpolation, v.copy(), i, decimals), len(v))
    repl.check_frame(out, v, s, decimals, 'linear interpolation')
    repl.check_rounded(out, v, ref.linear(v, set(s)), decimals, {}, 'linear interpolation')
    return out


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [64, 257, 1000, 4099, 10007] + ([2048, 2500, 32771] if deep else []) + dom.literal_sizes(2, 20000, repl.MODS, 12)

    def variants():
        for n in range(1, 7):
            for s in dom.subsets(n):
                for k, _ in dom.index_variants(s):
                    yield (n, s, k)

    def run_variant(c):
        n, s, k = c
        return judge(dom.noise(n) * 3, s, 4, dict(dom.index_variants(s))[k])

    def missing():
        # flagged samples that are already NaN
        for n in range(2, 6):
            for s in dom.subsets(n, 1, n - 1):
                for m in dom.subsets(len(s), 1):
                    yield (n, s, tuple(s[k] for k in m))

    def run_missing(c):
        n, s, m = c
        v = np.array(dom.noise(n) * 4)
        v[list(m)] = np.nan
        return judge(v, s)
    return [
        Space('all-words', lambda: repl.small(6 if not deep else 7), lambda c: judge(*c),
              'every series over 4 values up to %d samples x every flagged subset' % (6 if not deep else 7)),
        Space('near', lambda: repl.small(5 if not deep else 6, (1.0, 1.0005, 1.00004, 1.01)), lambda c: judge(*c),
              'samples that differ by 0.00004 to 0.01 only: every series up to %d samples x every flagged subset' % (5 if not deep else 6)),
        Space('index-forms', variants, run_variant, 'n<=6, every subset, 6 presentations of the same indices'),
        Space('decimals', lambda: ((n, s, d) for n in (3, 6, 9) for s in dom.runs(n) for d in range(0, 9)),
              lambda c: judge(dom.noise(c[0]) * 10, c[1], c[2]), 'decimals 0..8, every run'),
        Space('missing', missing, run_missing, 'n<=5, flagged samples that are NaN, every subset'),
        Space('runs', lambda: repl.masks(24 if not deep else 48, ['noise2', 'quad']),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every run, pair, comb and complement'),
        Space('shapes', lambda: ((sh, n, s) for sh in dom.SHAPES for n in (17, 40) for s in repl.sparse_masks(n)),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), '19 signal shapes'),
        Space('magnitudes', lambda: ((n, s, k, d) for n in (6, 17) for s in repl.sparse_masks(n) for k, d in ((-40, 14), (-30, 12), (-12, 8), (-12, 4), (0, 12), (20, 4), (40, 4), (20, -2), (0, -1))),
              lambda c: judge(dom.noise(c[0], 5) * 2.0 ** c[2], c[1], c[3]), 'magnitudes 2^-40..2^40, decimals -2..14'),
        Space('very long', lambda: ((n, s) for n in (300, 40009, 70001) for s in repl.wide_masks(n)), lambda c: judge(dom.noise(c[0]), c[1]),
              'more than 65536 samples, flags around the powers of two, long runs'),
        Space('long', lambda: ((n, s) for n in sizes for s in repl.sparse_masks(n)),
              lambda c: judge(dom.noise(c[0]), c[1]), 'sizes %s' % sizes),
        Space('measured', repl.measured, lambda c: judge(dom.record(*c[0]), c[1]), 'measured records, flags by deviation from the mean'),
    ]


def constants():
    return [Space('source-constants', lambda: ((c, s, d) for c, s in repl.gained() for d in repl.decimals(c)), lambda c: judge(dom.build(c[0]), c[1], c[2]), dom.gained())]
