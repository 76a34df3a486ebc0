"""P05 twelve-point cubic replacement."""
import numpy as np
from mc import dom, ref, repl
from mc.core import Space, as_series, call, expect_error, Violation
from mc.repl import R


def judge(v, s, decimals=4, idx=None):
    v = np.array(v, dtype=float)
    i = repl.flags(s) if idx is None else idx
    out = as_series(call(R.cubic_12points_polynomial, v.copy(), i) if decimals == 4
                    else call(R.cubic_12points_polynomial, v.copy(), i, decimals), len(v))
    repl.check_frame(out, v, s, decimals, '12-point cubic')
    want = ref.cubic12(v, set(s), decimals)
    repl.check_rounded(out, v, {k: w for k, (w, _) in want.items()}, decimals,
                       {k: x for k, (_, x) in want.items()}, '12-point cubic')
    return out


def cubics(n):
    """genuinely cubic signals: an interior spike must be restored exactly."""
    i = (np.arange(n) - n / 2.0) / 8.0
    for k, (a, b, c, d) in enumerate([(0, 0, 0, 1), (0, 0, 1, 0), (0, 1, 0, 0), (1, 0, 0, 0), (0.5, -1, 2, 3)]):
        yield a * i ** 3 + b * i ** 2 + c * i + d


def run_exact(c):
    n, k, s = c
    v = list(cubics(n))[k]
    bad = v.copy()
    bad[list(s)] += 50.0
    out = as_series(call(R.cubic_12points_polynomial, bad, repl.flags(s)), n)
    # isolated runs inside the record: cubic interpolation restores a cubic
    for i in s:
        if abs(out[i] - v[i]) > 1e-4:
            raise Violation('12-point cubic: a cubic signal is not restored at %d: %.10g, expected %.10g'
                            % (i, out[i], v[i]))
    return out


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [63, 100, 257, 1000, 4099] + ([2048, 10007] if deep else []) + dom.literal_sizes(25, 20000, repl.MODS, 12)
    small_sizes = list(range(1, 30)) if deep else [1, 2, 3, 5, 12, 13, 24, 25, 26]
    mid = [59, 60, 61, 62, 63, 64, 65, 66, 68, 72, 80, 90]

    def bad():
        for n in (1, 26, 80):
            for i in (-1, -5, -n, n, n + 1, 10 ** 6):
                yield (n, (i,))
                if n > 1:
                    yield (n, (0, i))
        yield ('2d', (3,))
        yield ('0d', (0,))

    def run_bad(c):
        n, idx = c
        if n == '2d':
            v = np.arange(60.0).reshape(2, 30)
        elif n == '0d':
            v = np.float64(3.0)
        else:
            v = dom.noise(n)
        out = call(R.cubic_12points_polynomial, v, np.array(idx))
        expect_error(out, ValueError, '12-point cubic with indices %s' % (idx,))
        return 'ValueError'

    def singles():
        for n in mid:
            for i in range(n):
                for sh in ('noise2', 'quad', 'sine'):
                    yield (sh, n, (i,))

    def tails():
        # exactly m valid samples after the first interior spike: just enough, or one short
        for n in (62, 64, 75):
            for i in sorted({31, 32, n - 32, n - 31}):
                rest = list(range(i + 1, n))
                for m in range(1, 15):
                    for keep in (rest[:m], rest[-m:], rest[::2][:m], rest[1::2][:m]):
                        yield ('noise2', n, (i,) + tuple(j for j in rest if j not in keep))

    def two():
        n = 76
        for i in range(27, 49):
            for length in range(1, 16):
                for j in [0] + list(range(i + length + 1, min(n, i + length + 14))):
                    yield ('noise2', n, tuple(range(i, i + length)) + ((j,) if j else ()))

    def exact():
        for n in (70, 90, 131):
            for k in range(5):
                for i in range(31, n - 30 - 12):
                    for length in (1, 2, 3, 6):
                        if i + length <= n - 31:
                            yield (n, k, tuple(range(i, i + length)))
    return [
        Space('short', lambda: ((sh, n, s) for n in small_sizes for sh in ('noise2', 'ramp')
                                for s in repl.sparse_masks(n)),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'records shorter than 30 samples (all near a boundary)'),
        Space('singles', singles, lambda c: judge(dom.shape(c[0], c[1]), c[2]),
              'every single spike position, n in %s' % mid),
        Space('exact-cubic', exact, run_exact, 'cubic signals, every interior position, runs of 1,2,3,6'),
        Space('few-following', tails, lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'exactly 1..14 valid samples after an interior spike, in 4 arrangements'),
        Space('run-then-spike', two, lambda c: judge(dom.shape(c[0], c[1]), c[2]),
              'every run of up to 15 in the interior, alone and followed by another spike'),
        Space('runs', lambda: repl.masks(66 if deep else 34, ['noise2']),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), 'every run, pair, comb and complement'),
        Space('decimals', lambda: ((n, s, d) for n in (40, 80) for s in repl.sparse_masks(n) for d in (0, 1, 2, 3, 6, 8)),
              lambda c: judge(dom.noise(c[0]) * 10, c[1], c[2]), 'decimals 0..8'),
        Space('index-forms', lambda: ((s, k) for s in [(5,), (40,), (3, 4, 41, 42), (35, 36, 50), (0, 79), (60, 61, 62)]
                                      for k, _ in dom.index_variants(s)),
              lambda c: judge(dom.noise(80), c[0], 4, dict(dom.index_variants(c[0]))[c[1]]),
              '6 presentations of the same indices'),
        Space('shapes', lambda: ((sh, 90, s) for sh in dom.SHAPES for s in repl.sparse_masks(90)),
              lambda c: judge(dom.shape(c[0], c[1]), c[2]), '19 signal shapes, n=90'),
        Space('long-runs', lambda: ((n, i, k, j) for n in (140, 200) for i in (29, 30, 31, 45) for k in list(range(13, n - i - 5, 9)) + [n - i - 42, n - i - 30] for j in (0, 3, 14)),
              lambda c: judge(dom.noise(c[0], 7), tuple(range(c[1], c[1] + c[2])) + ((c[1] + c[2] + c[3],) if c[3] and c[1] + c[2] + c[3] < c[0] else ())),
              'runs of 13 up to the whole record, alone and followed by another spike'),
        Space('magnitudes', lambda: ((s, k, d) for s in repl.sparse_masks(80)[::3] for k, d in ((-40, 14), (-12, 8), (0, 12), (20, 4), (40, 4), (0, -1))),
              lambda c: judge(dom.noise(80, 5) * 2.0 ** c[1], c[0], c[2]), 'magnitudes 2^-40..2^40, decimals -1..14'),
        Space('very long', lambda: ((n, s) for n in (40009, 70001) for s in repl.wide_masks(n) if len(s) < 50), lambda c: judge(dom.noise(c[0]), c[1]),
              'more than 65536 samples, flags around the powers of two'),
        Space('refused', bad, run_bad, 'invalid indices and shapes'),
        Space('long', lambda: ((n, s) for n in sizes for s in repl.sparse_masks(n)),
              lambda c: judge(dom.noise(c[0]), c[1]), 'sizes %s' % sizes),
        Space('measured', repl.measured, lambda c: judge(dom.record(*c[0]), c[1]), 'measured records, flags by deviation from the mean'),
    ]


def constants():
    return [Space('source-constants', lambda: ((c, s, d) for c, s in repl.gained((40, 100, 400)) if len(s) < 400 for d in repl.decimals(c)),
                  lambda c: judge(dom.build(c[0]), c[1], c[2]), dom.gained())]
