"""P02 last valid data."""
import numpy as np
from mc import dom, ref, repl
from mc.core import Space, Violation, as_series, call, ok, same, step
from mc.repl import R


def judge(v, s, idx=None):
    v = np.array(v, dtype=float)
    out = as_series(call(R.last_valid_data, v.copy(), repl.flags(s) if idx is None else idx), len(v))
    want = ref.last_valid(v, set(s))
    exp = v.copy()
    for i, w in want.items():
        exp[i] = out[i] if w is None else w
    same(out, exp, 0.0, 'last valid data')
    return out


TYPES = {
    'int64': (np.int64, (0, 2 ** 53 + 1, -2 ** 60 - 1, 7)), 'uint64': (np.uint64, (0, 2 ** 63 + 1, 2 ** 53 + 3, 5)), 'int8': (np.int8, (-128, 127, 0, 3)), 'uint8': (np.uint8, (255, 0, 128, 1)),
    'float32': (np.float32, (0.1, -3e38, 1e-40, 2.5)), 'float64': (np.float64, (1e300, -5e-324, 0.1, -0.0)), 'inf': (np.float64, (np.inf, -np.inf, 1.0, 2.0)),
    'missing': (np.float64, (np.nan, 1.0, -2.0, np.inf)),
}


def judge_type(t, w, s):
    """the held value is the valid sample itself, whatever its type"""
    dt, vals = TYPES[t]
    a = np.array([vals[k] for k in w], dtype=dt)
    out = ok(call(R.last_valid_data, a.copy(), repl.flags(s)), 'last_valid_data')
    if np.shape(out) != a.shape:
        raise Violation('last_valid_data: shape %s' % (np.shape(out),))
    src = list(range(len(w)))
    free = [i for i in src if i not in s]
    for i in s:
        before = [j for j in free if j < i]
        src[i] = before[-1] if before else (free[0] if free else None)
    for i, j in enumerate(src):
        if j is not None and a[j] != a[j]:
            if out[i] == out[i]:
                raise Violation('last_valid_data on %s: sample %d became %r, expected a missing value' % (t, i, out[i]))
            continue
        if j is not None and out[i] != a[j] or j is not None and (int(out[i]) != int(a[j]) if np.isfinite(float(a[j])) else False):
            raise Violation('last_valid_data on %s: sample %d became %r, expected %r' % (t, i, out[i], a[j]))
    step(1, len(w))
    return [str(x) for x in out]


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [64, 257, 1000, 4099, 10007] + ([2048, 2500, 32771] if deep else []) + dom.literal_sizes(2, 20000, repl.MODS, 12)

    def variants():
        for n in range(1, 7):
            for s in dom.subsets(n):
                for k, _ in dom.index_variants(s):
                    yield (n, s, k)

    def run_variant(c):
        n, s, k = c
        return judge(dom.noise(n), s, dict(dom.index_variants(s))[k])

    def long():
        for n in sizes:
            for s in repl.sparse_masks(n):
                yield (n, s)
    return [
        Space('all-words', lambda: repl.small(6 if not deep else 7), lambda c: judge(*c),
              'every series over 4 values up to %d samples x every flagged subset' % (6 if not deep else 7)),
        Space('types', lambda: ((t, w, s) for t in TYPES for n in range(1, 5) for w in dom.words(range(4), n, n) for s in dom.subsets(n)), lambda c: judge_type(*c),
              'every series over 4 extreme values of 8 types (missing and infinite samples among them) up to 4 samples x every subset'),
        Space('index-forms', variants, run_variant, 'n<=6, every subset, 6 presentations of the same indices'),
        Space('runs', lambda: repl.masks(24 if not deep else 40, ['noise', 'ramp']),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every run, pair, comb and complement'),
        Space('shapes', lambda: ((sh, 17, s) for sh in dom.SHAPES for s in repl.sparse_masks(17)),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), '19 signal shapes'),
        Space('very long', lambda: ((n, s) for n in (300, 40009, 70001) for s in repl.wide_masks(n)), lambda c: judge(dom.noise(c[0]), c[1]),
              'more than 65536 samples, flags around the powers of two, long runs'),
        Space('long', long, lambda c: judge(dom.noise(c[0]), c[1]), 'sizes %s' % sizes),
    ]


def constants():
    return [Space('source-constants', repl.gained, lambda c: judge(dom.build(c[0]), c[1]), dom.gained())]
