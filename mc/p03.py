"""P03 mean / median value replacement."""
import itertools
import numpy as np
from mc import dom, ref, repl
from mc.core import Space, as_series, call, same, step
from mc.repl import R


def judge(v, s, idx=None):
    v = np.array(v, dtype=float)
    res = []
    for name, model in (('mean_value', ref.mean), ('median_value', ref.median)):
        out = as_series(call(getattr(R, name), v.copy(), repl.flags(s) if idx is None else idx), len(v))
        exp = v.copy()
        exp[list(s)] = model(v)
        tol = np.zeros(len(v))
        tol[list(s)] = 1e-12 * max(1e-300, ref.scale(v)) * (1 if name == 'median_value' else max(1, len(v) / 100.0))
        same(out, exp, tol, name)
        res.append(out)
    step(1, 1)
    return res


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [64, 257, 1000, 4099, 10007] + ([2048, 2500, 32771] if deep else []) + dom.literal_sizes(
        2, 20000, repl.MODS + ['proadv.statistics.descriptive'], 12)

    def variants():
        for n in range(1, 7):
            for s in dom.subsets(n):
                for k, _ in dom.index_variants(s):
                    if k == 'tuple':
                        continue     # numpy reads a tuple as coordinates; not an index list
                    yield (n, s, k)

    def run_variant(c):
        n, s, k = c
        idx = dict(dom.index_variants(s))[k]
        if isinstance(idx, list) and not idx:
            idx = np.zeros(0, dtype=int)
        return judge(dom.noise(n), s, idx)
    return [
        Space('all-words', lambda: repl.small(6 if not deep else 7), lambda c: judge(*c),
              'every series over 4 values up to %d samples x every flagged subset' % (6 if not deep else 7)),
        Space('index-forms', variants, run_variant, 'n<=6, every subset, presentations of the same indices'),
        Space('runs', lambda: repl.masks(16 if not deep else 30, ['noise', 'square']),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every run, pair, comb and complement'),
        Space('shapes', lambda: ((sh, n, s) for sh in dom.SHAPES for n in (17, 18) for s in repl.sparse_masks(n)),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), '19 signal shapes, odd and even length'),
        Space('magnitudes', lambda: ((n, s, k, o) for n in (6, 17) for s in repl.sparse_masks(n)[::3] for k in (-300, -60, -12, 30, 60, 300) for o in (0.0, 1000.0)),
              lambda c: judge((dom.noise(c[0]) + c[3]) * 2.0 ** c[2], c[1]), 'magnitudes 2^-300..2^300, with and without offset'),
        Space('infinite', lambda: ((w, s) for sgn in (1, -1) for n in range(1, 6) for w in dom.words((sgn * np.inf, 1.0, -2.0), n, n) for s in dom.subsets(n)), lambda c: judge(*c),
              'every series over 3 values with an infinite one up to 5 samples x every subset'),
        Space('very long', lambda: ((n, s) for n in (40009, 70001) for s in repl.wide_masks(n)[::2]), lambda c: judge(dom.noise(c[0]), c[1]),
              'more than 65536 samples'),
        Space('long', lambda: ((n, s) for n in sizes for s in repl.sparse_masks(n)[::5]),
              lambda c: judge(dom.noise(c[0]), c[1]), 'sizes %s' % sizes),
    ]


def constants():
    return [Space('source-constants', repl.gained, lambda c: judge(dom.build(c[0]), c[1]), dom.gained())]
