"""P15 despiking histories: explicit-state search over detect -> replace steps on the real code."""
import numpy as np
from mc import det, dom, ref, repl
from mc.core import CUR, Space, Violation, as_indices, as_series, call, canon, note, ok, same, step
from mc.repl import R
import mc.core as core
import proadv.filtration.detection.acceleration as A
import proadv.filtration.detection.phasespace as P
import proadv.filtration.detection.spherical as S
import proadv.filtration.detection.trivariatekernel as T
import proadv.filtration.detection.correlation as C

DETECT = {
    'acc+': lambda v: A.acceleration_thresholding(v, 1.0, 1, 2.0, 1.0, 1.0),
    'acc-': lambda v: A.acceleration_thresholding(v, 1.0, 2, 2.0, 1.0, 1.0),
    'pst': lambda v: P.phasespace_thresholding(v - np.mean(v)),
    'sph': lambda v: S.spherical_phasespace_thresholding(v - np.mean(v), 1, float(np.mean(v))),
    'corr': lambda v: C.velocity_correlation(v, np.roll(v, 3), v[::-1]),
}
REPLACE = {
    'last': (lambda v, s: R.last_valid_data(v, s), None),
    'mean': (lambda v, s: R.mean_value(v, s), None),
    'median': (lambda v, s: R.median_value(v, s), None),
    'linear': (lambda v, s: R.linear_interpolation(v, s), 4),
    'cubic': (lambda v, s: R.cubic_12points_polynomial(v, s), 4),
    'poly': (lambda v, s: R.polynomial_replacement(v, s), 4),
    'sma': (lambda v, s: R.simple_moving_average(v, s, 5), None),
}
# replacements that only ever interpolate between values of the record
INSIDE = ('last', 'mean', 'median', 'linear', 'sma')


def one_step(v, d, r):
    """one real despiking step with all its observable guarantees; returns the next state"""
    n = len(v)
    frozen = v.copy()
    idx = as_indices(call(DETECT[d], v), n, d)
    if not np.array_equal(v, frozen):
        raise Violation('detector %s modified the record' % d)
    fn, dec = REPLACE[r]
    out = as_series(call(fn, v, idx), n, r)
    if not np.array_equal(v, frozen):
        raise Violation('replacement %s modified the record' % r)
    repl.check_frame(out, v, [int(i) for i in idx], dec, '%s after %s' % (r, d))
    if not np.all(np.isfinite(out)):
        raise Violation('%s after %s left non-finite samples at %s' % (r, d, np.nonzero(~np.isfinite(out))[0][:10]))
    e = 1e-9 * max(1.0, ref.scale(v)) + (0.51 * 10.0 ** -dec if dec is not None else 0.0)
    if r in INSIDE and (out.min() < v.min() - e or out.max() > v.max() + e):
        raise Violation('%s after %s widened the range of the record: [%g, %g] -> [%g, %g]'
                        % (r, d, v.min(), v.max(), out.min(), out.max()))
    return out, idx


def search(case):
    """breadth-first over every sequence of (detector, replacement) steps from one record"""
    sh, n, depth, ds, rs = case
    v0 = dom.shape(sh, n) * 1.0
    seen = {v0.tobytes()}
    frontier = [((), v0)]
    for _ in range(depth):
        nxt = []
        for hist, v in frontier:
            for d in ds:
                for r in rs:
                    core.step(2, 1)
                    out, idx = one_step(v, d, r)
                    again, _ = one_step(v.copy(), d, r)     # same state, same step, same successor
                    same(again, out, 1e-9 * max(1.0, ref.scale(v)), 'step (%s, %s) repeated' % (d, r))
                    if len(idx) == 0:
                        dec = REPLACE[r][1]
                        same(out, v if dec is None else np.around(v, dec), 1e-12 * max(1.0, ref.scale(v)),
                             'clean record after (%s, %s)' % (d, r))
                    k = np.around(out, 9).tobytes()
                    if k not in seen:
                        seen.add(k)
                        note('reachable_records')
                        nxt.append((hist + ((d, r),), out))
                    else:
                        note('merged_records')
        frontier = nxt
    return len(seen)


def spaces(tier):
    deep = tier == 'thorough'
    D, Rn = tuple(DETECT), tuple(REPLACE)

    def roots():
        for sh in ('spiky', 'onespike', 'noise2', 'step', 'ties', 'sine', 'offset', 'quad'):
            for n in (14, 40, 75):
                for d in D:
                    yield (sh, n, 2, (d,), Rn)

    def deeper():
        for sh in ('spiky', 'onespike', 'ties'):
            for n in (16, 40):
                for d in D:
                    for r in Rn:
                        yield (sh, n, 3 if deep else 2, (d,) + tuple(x for x in D if x != d)[:1 if not deep else 2], (r, Rn[(Rn.index(r) + 1) % len(Rn)]))

    def mixed():
        for sh in ('spiky', 'onespike', 'noise2', 'ties'):
            yield (sh, 30, 2, D, Rn)

    def small():
        for w in dom.words((0.0, 1.0, 12.0), 6, 6 if not deep else 7):
            yield w

    def run_small(w):
        v = np.array(w)
        res = []
        for d in ('acc+', 'pst', 'sph'):
            for r in ('last', 'linear', 'median'):
                core.step(1, 1)
                out, _ = one_step(v, d, r)
                out, _ = one_step(out, d, r)
                res.append(out)
        return res
    return [
        Space('histories', roots, search, 'all 2-step histories with one detector and every replacement, 8 records x 3 sizes'),
        Space('mixed', mixed, search, 'all 2-step histories over 5 detectors x 7 replacements'),
        Space('deeper', deeper, search, 'all %d-step histories over pairs of detectors and replacements' % (3 if deep else 2)),
        Space('words', small, run_small, 'every 6-sample record over 3 values, two passes'),
    ]
