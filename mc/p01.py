"""P01 frame condition of all replacement methods."""
import itertools
import numpy as np
from mc import dom, ref, repl
from mc.core import Err, Space, Violation, as_series, call, ok, step
from mc.repl import R

K = [np.array([[x]]) for x in (1.0, 2.0, 0.1, 3.0)]
METHODS = {
    # name: (call, documented rounding, positions it applies to)
    'last_valid_data': (lambda v, s: R.last_valid_data(v, s), None),
    'mean_value': (lambda v, s: R.mean_value(v, s), None),
    'median_value': (lambda v, s: R.median_value(v, s), None),
    'linear_interpolation': (lambda v, s: R.linear_interpolation(v, s), 4),
    'linear_interpolation-2': (lambda v, s: R.linear_interpolation(v, s, decimals=2), 2),
    'cubic_12points_polynomial': (lambda v, s: R.cubic_12points_polynomial(v, s), 4),
    'simple_moving_average': (lambda v, s: R.simple_moving_average(v, s, max(1, min(40, len(v) // 2))), None),
    'exponential_moving_average': (lambda v, s: R.exponential_moving_average(v, s), None),
    'weighted_moving_average': (lambda v, s: R.weighted_moving_average(v, s, 1), None),
    'ssa': (lambda v, s: R.ssa(v, s, 2, 1), None),
    'kalman_filter': (lambda v, s: R.kalman_filter(v, s, *K), None),
    'polynomial_replacement': (lambda v, s: R.polynomial_replacement(v, s), 4),
}

NANNABLE = [m for m in METHODS if m not in ('ssa', 'polynomial_replacement')]


def applies(name, n, s):
    if name == 'weighted_moving_average':
        return n > 1 and (not s or max(s) < n - 1)   # elsewhere: recorded finding of P07
    if name == 'ssa':
        return n >= 3
    return True


def judge(name, v, s, readonly=False):
    fn, dec = METHODS[name]
    v = np.array(v, dtype=float)
    idx = repl.flags(s)
    keep_v, keep_i = v.copy(), idx.copy()
    if readonly:
        v.setflags(write=False)
        idx.setflags(write=False)
    raw = call(fn, v, idx)
    if not (np.array_equal(v, keep_v, equal_nan=True) and np.array_equal(idx, keep_i)):
        raise Violation('%s modified its input' % name)
    out = as_series(raw, len(v), name)
    if isinstance(raw, np.ndarray) and np.shares_memory(raw, v):
        raise Violation('%s returned (a view of) its input array' % name)
    repl.check_frame(out, keep_v, s, dec, name)
    return out


def spaces(tier):
    deep = tier == 'thorough'
    nm = 5 if deep else 4
    out = []
    names = list(METHODS)

    def small():
        for w, s in repl.small(nm, (0.0, 1.0, -3.0, 0.12345)):
            for m in names:
                if applies(m, len(w), s):
                    yield (m, w, s)

    def medium():
        for n in [7, 12, 30, 65, 80]:
            for sh in ('noise2', 'offset', 'const', 'spiky'):
                for s in repl.sparse_masks(n):
                    for m in names:
                        if applies(m, n, s) and (m != 'ssa' or n < 40):
                            yield (m, sh, n, s)

    def shapes():
        for sh in dom.SHAPES:
            for s in [(), (0,), (5,), (11, 12), (40,), (40, 41, 42), (69,)]:
                for m in names:
                    if applies(m, 70, s) and m != 'ssa':
                        yield (m, sh, 70, s)
    sizes = [257, 1000, 4099] + ([10007] if deep else []) + dom.literal_sizes(2, 12000, repl.MODS, 12)

    def long():
        for n in sizes:
            for s in repl.sparse_masks(n)[:40:3]:
                for m in names:
                    if applies(m, n, s) and m != 'ssa' and not (m == 'polynomial_replacement' and len(s) > 50):
                        yield (m, 'noise', n, s)

    def scaled():
        for k in (-60, -30, -12, 30, 60):
            for n in (12, 70):
                for s in repl.sparse_masks(n)[:60:4]:
                    for m in names:
                        if applies(m, n, s) and (m != 'ssa' or n < 40):
                            yield (m, n, s, k)

    def wide():
        for n in (40009, 70001):
            for s in repl.wide_masks(n):
                for m in names:
                    if m not in ('ssa', 'weighted_moving_average', 'kalman_filter') and not (m == 'polynomial_replacement' and len(s) > 10):
                        yield (m, n, s)
    def missing():
        for x in (np.nan, np.inf, -np.inf, (np.inf, -np.inf), (-np.inf, np.nan), (np.inf, np.inf)):
            for n in (5, 12, 70):
                for i in range(0, n, max(1, n // 12)):
                    for s in [(), (0,), (i,), (n // 2, n // 2 + 1)] + ([(n - 1,)] if n > 5 else []):
                        for m in NANNABLE:
                            if applies(m, n, s):
                                yield (m, n, i, x, s)

    def run_missing(c):
        v = dom.noise(c[1], 7)
        for k, x in enumerate(c[3] if isinstance(c[3], tuple) else (c[3],)):
            v[(c[2] + 2 * k) % len(v)] = x
        return judge(c[0], v, c[4])
    return [
        Space('missing', missing, run_missing, 'one or two NaN or infinite samples at many positions, flagged or not'),
        Space('magnitudes', scaled, lambda c: judge(c[0], dom.noise(c[1], 7) * 2.0 ** c[3], c[2]), 'magnitudes 2^-60..2^60'),
        Space('very long', wide, lambda c: judge(c[0], dom.noise(c[1]), c[2]), 'more than 65536 samples, flags around the powers of two'),
        Space('all-words', small, lambda c: judge(*c), 'every series over 4 values up to %d x every subset x 12 methods' % nm),
        Space('read-only', lambda: ((m, n, s) for m in names for n in (1, 2, 5, 12, 64) for s in repl.sparse_masks(n)[:12]
                                    if applies(m, n, s)),
              lambda c: judge(c[0], dom.noise(c[1]), c[2], True), 'read-only inputs'),
        Space('medium', medium, lambda c: judge(c[0], dom.shape(c[1], c[2]), c[3]), 'n 7..80, 4 shapes, structured flag sets'),
        Space('shapes', shapes, lambda c: judge(c[0], dom.shape(c[1], c[2]), c[3]), '19 shapes, n=70'),
        Space('long', long, lambda c: judge(c[0], dom.shape(c[1], c[2]), c[3]), 'sizes %s' % sizes),
    ]


def constants():
    """next to the constants the source has gained"""
    names = list(METHODS)

    def cases():
        for c in dom.fresh_series((24, 70), 3, 3000, shapes=('noise',)):
            for s in ((0,), (1, c[2] // 2), tuple(range(c[2] // 2, min(c[2] - 1, c[2] // 2 + 4)))):
                for m in names:
                    if applies(m, c[2], s) and (m != 'ssa' or c[2] < 40):
                        yield (m, c, s)
        for n in [40, 130] + dom.fresh_sizes(60, 3000, 4):
            for s in dom.fresh_masks(n):
                for m in names:
                    if applies(m, n, s) and m != 'ssa' and not (m == 'polynomial_replacement' and len(s) > 50):
                        yield (m, ('size', 'noise', n, 1.0), s)
    return [Space('source-constants', cases, lambda c: judge(c[0], dom.build(c[1]), c[2]), dom.gained())]
