"""P23 Kalman filter."""
import itertools
import numpy as np
from mc import dom, ref
from mc.core import Space, Violation, call, ok, same
import proadv.statistics.series as S


def run(c):
    v, x0, p0, q, r, form = c
    v = np.array(v, dtype=float)
    mk = {'array': lambda x: np.array([[float(x)]]), 'list': lambda x: [[x]], 'int': lambda x: np.array([[x]])}[form]
    out = ok(call(S.kalman_filter, v.copy() if form != 'list' else v.tolist(), mk(x0), mk(p0), mk(q), mk(r)), 'Kalman filter')
    if len(out) != len(v):
        raise Violation('Kalman filter: %d values for %d samples' % (len(out), len(v)))
    got = []
    for o in out:
        a = np.asarray(o, dtype=float)
        if a.size != 1:
            raise Violation('Kalman filter: an estimate has shape %s' % (a.shape,))
        got.append(float(a.reshape(-1)[0]))
    sc = max(ref.scale(v), abs(x0), 1e-300)
    want = ref.kalman(v, float(x0), float(p0), float(q), float(r))
    same(np.array(got), want, sc * (1e-10 + 1e-14 * (p0 + q) / r), 'Kalman filter(x0=%g, P0=%g, Q=%g, R=%g)' % (x0, p0, q, r))
    return got


PARAMS = [(x0, p0, q, r) for x0 in (0.0, 10.0, -3.5) for p0 in (0.0, 1.0, 10.0, 1e6) for q in (0.0, 0.001, 1.0, 50.0) for r in (15.0, 0.01, 1.0)]


def spaces(tier):
    deep = tier == 'thorough'
    nm = 6 if deep else 5
    core = [p for p in PARAMS if p[0] != -3.5 and p[1] in (1.0, 10.0) and p[2] in (0.0, 0.001, 1.0)] + [(-3.5, 0.0, 50.0, 0.01)]
    return [
        Space('words', lambda: ((w,) + p + ('array',) for w in dom.words((0.0, 1.0, -4.0), 0, nm) for p in core), run,
              'every series over 3 values up to %d samples, %d parameter vectors' % (nm, len(core))),
        Space('parameters', lambda: ((dom.shape(sh, n),) + p + ('array',) for sh in ('noise', 'offset', 'spiky', 'step', 'ramp') for n in (1, 2, 10, 33) for p in PARAMS),
              run, '144 parameter vectors'),
        Space('forms', lambda: ((dom.noise(9), x0, p0, q, r, form) for form in ('list', 'int') for x0 in (0, 10, -3) for p0 in (1, 10) for q in (0, 1, 3) for r in (1, 15)),
              run, 'integer and nested-list parameters'),
        Space('impulses', lambda: ((np.eye(24)[i] * 5,) + p + ('array',) for i in range(24) for p in core), run, 'impulse at every position'),
        Space('magnitudes', lambda: ((dom.shape(sh, 20) * 2.0 ** k, 10.0 * 2.0 ** k, p0 * 4.0 ** j, q * 4.0 ** j, r * 4.0 ** j, 'array') for sh in ('noise', 'offset', 'spiky')
                                     for k in (-100, -60, -30, -10, 0, 10, 30, 60, 100) for j in (-50, -20, -10, 0, 10, 20, 50) for p0, q, r in ((10.0, 0.001, 15.0), (1.0, 0.5, 0.25))),
              run, 'data in units of 2^-100..2^100, covariances in units of 4^-50..4^50'),
        Space('corners', lambda: ((dom.shape(sh, n), x0, p0, q, r, 'array') for sh in ('noise', 'offset') for n in (1, 2, 50) for x0 in (0.0, -1e6, 1e6) for p0 in (0.0, 1e-12, 1e12)
                                  for q in (0.0, 1e-12, 1e6) for r in (1e-6, 1.0, 1e9)), run, 'parameters near 0 and very large'),
        Space('very-long', lambda: ((dom.shape('spiky', n), 10.0, 10.0, q, 15.0, 'array') for n in (5000, 20011) for q in (0.0, 0.001)), run, '5000 and 20011 samples'),
        Space('shapes', lambda: ((dom.shape(sh, n), 10.0, 10.0, 0.001, 15.0, 'array') for sh in dom.SHAPES for n in list(range(1, 40)) + [100, 300, 1200]), run, '19 shapes'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((9, 40), 1, 5000):
            for p in ((10.0, 10.0, 0.001, 15.0), (0.0, 1.0, 0.5, 0.25)):
                yield (dom.build(c),) + p + ('array',)
        for v in dom.fresh_values(0.0, 1e9):
            for p in ((v, 1.0, 0.5, 2.0), (-v, 1.0, 0.5, 2.0), (1.0, v, 0.5, 2.0), (1.0, 1.0, v, 2.0), (1.0, 1.0, 0.5, v), (1.0, v, v, v), (1.0, 0.0, 0.0, v), (1.0, v, 0.0, 2.0), (1.0, 0.0, v, 2.0)):
                if p[3] > 0:
                    for n in (3, 40, 400):
                        yield (dom.noise(n, 3) * 4,) + p + ('array',)
    return [Space('source-constants', cases, run, dom.gained())]
