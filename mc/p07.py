"""P07 smoother-based replacements: the flagged sample takes the smoother's value at its own position."""
import numpy as np
from mc import dom, ref, repl
from mc.core import Err, Known, Space, Violation, as_series, call, expect_error, same, step
from mc.repl import R
import proadv.statistics.series as S


def put(v, s, series, out, tol, what):
    exp = np.array(v, dtype=float)
    exp[list(s)] = np.asarray(series, dtype=float)[list(s)]
    t = np.zeros(len(v))
    t[list(s)] = tol
    same(out, exp, t, what)
    return out


def judge_sma(v, s, w):
    v = np.array(v, dtype=float)
    out = call(R.simple_moving_average, v.copy(), repl.flags(s), w)
    if w > len(v) or w <= 0:
        expect_error(out, ValueError, 'simple moving average with window %d of %d samples' % (w, len(v)))
        return 'refused'
    return put(v, s, ref.sma(v, w), as_series(out, len(v)), 1e-10 * max(1e-300, ref.scale(v)), 'SMA replacement')


def judge_ema(v, s, a):
    v = np.array(v, dtype=float)
    out = call(R.exponential_moving_average, v.copy(), repl.flags(s), a)
    if not 0 < a <= 1:
        expect_error(out, ValueError, 'exponential moving average with alpha %g' % a)
        return 'refused'
    return put(v, s, ref.ema(v, a), as_series(out, len(v)), 1e-11 * max(1e-300, ref.scale(v)), 'EMA replacement')


def judge_wma(v, s, p):
    v = np.array(v, dtype=float)
    n = len(v)
    out = call(R.weighted_moving_average, v.copy(), repl.flags(s), p)
    if p > n or p <= 0:
        expect_error(out, ValueError, 'weighted moving average with period %d of %d samples' % (p, n))
        return 'refused'
    tol = 1e-11 * max(1e-300, ref.scale(v))
    if not s:
        same(as_series(out, n), v, 0.0, 'WMA replacement without flagged samples')
        return 'same'
    w = ref.wma(v, p)
    if not isinstance(out, Err) and min(s) >= p:
        # what the property asks for: the average of the `period` samples before the spike
        try:
            aligned = np.full(n, np.nan)
            aligned[p:] = w
            return put(v, s, aligned, as_series(out, n), tol, 'WMA replacement')
        except Violation:
            pass
    # the recorded defect, exactly: the window that STARTS at the spike, or a refusal when there is none
    if max(s) >= n - p:
        if isinstance(out, Err) and isinstance(out.exc, (IndexError, TypeError)):
            raise Known('wma-replacement-misaligned')
        raise Violation('WMA replacement at %s of %d samples, period %d: %s' % (s, n, p, repr(out)[:300]))
    put(v, s, w.tolist() + [np.nan] * p, as_series(out, n), tol, 'WMA replacement')
    raise Known('wma-replacement-misaligned')


def judge_ssa(v, s, fs, f):
    v = np.array(v, dtype=float)
    series = call(S.ssa, v.copy(), fs, f)
    out = call(R.ssa, v.copy(), repl.flags(s), fs, f)
    if isinstance(series, Err):
        if not isinstance(out, Err):
            raise Violation('SSA replacement returns %r where SSA itself %r' % (out, series))
        return 'refused'
    return put(v, s, series, as_series(out, len(v)), 2e-4, 'SSA replacement')


def judge_kalman(v, s, par, form):
    v = np.array(v, dtype=float)
    arg = [np.array([[x]]) for x in par] if form == 'matrix' else list(par)
    out = call(R.kalman_filter, v.copy(), repl.flags(s), *arg)
    return put(v, s, ref.kalman(v, *par), as_series(out, len(v)),
               1e-9 * max(ref.scale(v), abs(par[0])), 'Kalman replacement')


def judge_default(sh, n, s):
    """documented defaults: window 20, smoothing factor 0.2, period 20"""
    v = dom.shape(sh, n)
    t = 1e-11 * max(1e-300, ref.scale(v))
    put(v, s, ref.sma(v, 20), as_series(call(R.simple_moving_average, v.copy(), repl.flags(s)), n), t, 'SMA replacement, default window')
    put(v, s, ref.ema(v, 0.2), as_series(call(R.exponential_moving_average, v.copy(), repl.flags(s)), n), t, 'EMA replacement, default factor')
    a, b = call(R.weighted_moving_average, v.copy(), repl.flags(s)), call(R.weighted_moving_average, v.copy(), repl.flags(s), 20)
    if isinstance(a, Err) or isinstance(b, Err):
        if type(a) is not type(b):
            raise Violation('WMA replacement with the default period %r, with period 20 %r' % (a, b))
    else:
        same(as_series(a, n), as_series(b, n), 0.0, 'WMA replacement, default period')
    step(3, 2)
    return 'ok'


def judge_short(sh, n, s):
    """the defaults on a record shorter than the default window: refused like the window given explicitly"""
    v = dom.shape(sh, n)
    for name, f in (('SMA', R.simple_moving_average), ('WMA', R.weighted_moving_average)):
        for d in (v.copy(), v.tolist()):
            for extra in ((), (20,)):
                expect_error(call(f, d, repl.flags(s), *extra), ValueError, '%s replacement of %d samples, window 20 %s' % (name, n, 'given' if extra else 'by default'))
    same(as_series(call(R.exponential_moving_average, v.copy(), repl.flags(s)), n), as_series(call(R.exponential_moving_average, v.copy(), repl.flags(s), 0.2), n), 0.0, 'EMA replacement, default factor')
    step(8, 1)
    return 'refused'


def magnitudes(n, s, k, o):
    v = (dom.noise(n, 5) + o) * 2.0 ** k
    u = 2.0 ** k
    return (judge_sma(v, s, 5), judge_ema(v, s, 0.3), judge_kalman(v, s, (u, u * u, 0.5 * u * u, 2 * u * u), 'matrix'))


KPAR = [(0.0, 1.0, 0.0, 1.0), (10.0, 10.0, 0.001, 15.0), (-2.0, 0.5, 1.0, 0.25), (3.0, 0.0, 0.5, 2.0), (1.0, 2.0, 4.0, 0.0), (0.0, 1e-9, 1e-9, 0.0), (0.5, 1e-9, 0.0, 1e-9), (2.0, 1e9, 1e6, 1e7)]


def spaces(tier):
    deep = tier == 'thorough'
    nm = 5 if deep else 4
    vals = (0.0, 1.0, -3.0)
    sizes = [21, 40, 64, 100, 300, 1000] + ([4099] if deep else []) + dom.literal_sizes(
        3, 3000, repl.MODS + ['proadv.statistics.series'], 12)

    def small(extra):
        for w, s in repl.small(nm, vals):
            for e in extra(len(w)):
                yield (w, s, e)

    def medium(ns, extra, shapes=('noise2', 'spiky', 'offset')):
        for sh in shapes:
            for n in ns:
                for s in repl.sparse_masks(n)[::1 if n < 90 or deep else 7 if n < 600 else 29]:
                    for e in extra(n):
                        yield (sh, n, s, e)

    def sh(c):
        return dom.shape(c[0], c[1])
    return [
        Space('sma-words', lambda: small(lambda n: range(-1, n + 2)), lambda c: judge_sma(*c),
              'every series over 3 values up to %d x every subset x every window -1..n+1' % nm),
        Space('sma', lambda: medium(sizes, lambda n: sorted({w for w in (1, 2, 3, 7, 20, n - 1, n) if 1 <= w <= n})),
              lambda c: judge_sma(sh(c), c[2], c[3]), 'sizes %s' % sizes),
        Space('ema-words', lambda: small(lambda n: (-0.5, 0.0, 0.125, 0.2, 0.5, 1.0, 1.5)), lambda c: judge_ema(*c),
              'every series x every subset x 7 smoothing factors'),
        Space('ema', lambda: medium(sizes, lambda n: (0.01, 0.2, 0.9, 1.0)), lambda c: judge_ema(sh(c), c[2], c[3]),
              'sizes %s' % sizes),
        Space('wma-words', lambda: small(lambda n: range(-1, n + 2)), lambda c: judge_wma(*c),
              'every series x every subset x every period -1..n+1'),
        Space('wma', lambda: medium([9, 20, 21, 25, 40, 64, 300], lambda n: sorted({w for w in (1, 2, 5, 20, n - 1, n) if 1 <= w <= n})),
              lambda c: judge_wma(sh(c), c[2], c[3]), 'n 9..300'),
        Space('kalman-words', lambda: small(lambda n: [(p, f) for p in range(len(KPAR)) for f in ('matrix', 'scalar')]),
              lambda c: judge_kalman(c[0], c[1], KPAR[c[2][0]], c[2][1]), 'every series x every subset x 8 parameter sets x 2 forms'),
        Space('kalman', lambda: medium([25, 100, 400], lambda n: range(len(KPAR)), ('noise2', 'offset')),
              lambda c: judge_kalman(sh(c), c[2], KPAR[c[3]], 'matrix'), 'n 25, 100, 400'),
        Space('defaults', lambda: ((sh, n, s) for sh in ('noise2', 'offset') for n in (20, 21, 40, 64) for s in repl.sparse_masks(n)), lambda c: judge_default(*c), 'default window, factor and period'),
        Space('defaults, short', lambda: ((sh, n, s) for sh in dom.SHAPES for n in range(2, 20) for s in {(0,), (n // 2,), (n - 1,), (0, n - 1)}), lambda c: judge_short(*c), 'default windows on shorter records'),
        Space('magnitudes', lambda: ((n, s, k, o) for n in (12, 40) for s in repl.sparse_masks(n)[::4] for k in (-60, -12, 30, 60) for o in (0.0, 100.0)),
              lambda c: magnitudes(*c), 'magnitudes 2^-60..2^60, with and without offset'),
        Space('very long', lambda: ((n, s) for n in (40009, 70001) for s in repl.wide_masks(n)[::2]), lambda c: (judge_sma(dom.noise(c[0]), c[1], 300), judge_ema(dom.noise(c[0]), c[1], 0.01))[0][:5],
              'more than 65536 samples'),
        Space('ssa', lambda: medium([12, 25, 40, 70], lambda n: [(4, 1), (10, 2), (10, 1), (25, 2.5)], ('noise2', 'spiky', 'sine')),
              lambda c: judge_ssa(sh(c), c[2], *c[3]), 'n 12..70, 4 frequency pairs'),
    ]


def constants():
    def cases():
        for c, s in repl.gained((24, 60), 3000):
            yield ('data', c, s)
        for w in dom.fresh_sizes(1, 2500):
            for n in (w, w + 1, w + 30):
                for s in [(n // 2,), (0,), (n - 1,), tuple(range(n // 3, n // 3 + 5))]:
                    if max(s) < n:
                        yield ('window', n, s, w)
        for v in dom.fresh_values(0.0, 1e9):
            for s in [(0,), (12,), (23,), (5, 6, 7)]:
                if v <= 1:
                    yield ('alpha', 24, s, v)
                for par in ((v, 1.0, 0.5, 2.0), (1.0, v, 0.5, 2.0), (1.0, 1.0, v, 2.0), (1.0, 1.0, 0.5, v)):
                    yield ('kalman', 24, s, par)

    def run(c):
        if c[0] == 'data':
            v = dom.build(c[1])
            n = len(v)
            return [judge_sma(v, c[2], max(1, min(5, n))), judge_ema(v, c[2], 0.3), judge_kalman(v, c[2], (1.0, 2.0, 0.5, 2.0), 'matrix')][0]
        v = dom.noise(c[1], 3) * 4
        if c[0] == 'window':
            try:
                judge_wma(v, c[2], c[3])
            except Known:
                pass
            return judge_sma(v, c[2], c[3])
        return judge_ema(v, c[2], c[3]) if c[0] == 'alpha' else judge_kalman(v, c[2], c[3], 'matrix')
    return [Space('source-constants', cases, run, dom.gained())]
