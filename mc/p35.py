"""P35 building blocks of the phase-space detectors: ellipse axes, ellipse coordinate, derivatives, parameters."""
import math
import numpy as np
from mc import det, dom, ref
from mc.core import Space, Violation, as_scalar, as_series, call, note, ok, same, shared, step
import proadv.filtration.detection.correlation as C
import proadv.filtration.detection.phasespace as P
import proadv.filtration.detection.poincare as Q

MODS = ['proadv.filtration.detection.phasespace', 'proadv.filtration.detection.poincare', 'proadv.filtration.detection.correlation']


def pair(out, what):
    ok(out, what)
    try:
        a, b = out
    except Exception:
        raise Violation('%s: expected two numbers, got %r' % (what, out))
    return as_scalar(a, what), as_scalar(b, what)


def run_ab(c):
    s1, s2, theta, lam = c
    a, b = pair(call(Q.calculate_ab, s1, s2, theta, lam), 'ellipse axes')
    kind, wa, wb = det.axes(lam * s1, lam * s2, theta)
    if kind == 'fuzzy':
        note('undecided')
        return 'fuzzy'
    if kind == 'none':
        # no such ellipse: axes so large that nothing lies outside
        if not (a >= 1e10 and b >= 1e10):
            raise Violation('ellipse axes %r, %r although no ellipse with these extents exists' % (a, b))
        return 'none'
    same(a, wa, 1e-7 * wa, 'first axis')
    same(b, wb, 1e-7 * wb, 'second axis')
    # the extents of the rotated ellipse
    same(a * a * math.cos(theta) ** 2 + b * b * math.sin(theta) ** 2, (lam * s1) ** 2, 1e-6 * (a * a + b * b), 'extent along the first axis')
    return (round(a, 6), round(b, 6))


def run_rho(c):
    x, y, theta, a, b = c
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    got = as_series(call(Q.calculate_rho, *shared(x, y), theta, a, b), len(x), 'ellipse coordinate')
    want = np.array([det.rho(float(p), float(q), theta, a, b) for p, q in zip(x, y)])
    sc = (ref.scale(x) + ref.scale(y)) / min(a, b)
    same(got, want, 1e-12 * (want + sc * sc) + 1e-300, 'ellipse coordinate')
    return got


def run_scalar(c):
    x, y, theta, a, b = c
    got = as_scalar(call(Q.calculate_rho, x, y, theta, a, b), 'ellipse coordinate of one point')
    want = det.rho(x, y, theta, a, b)
    same(got, want, 1e-11 * (want + ((abs(x) + abs(y)) / min(a, b)) ** 2), 'ellipse coordinate of one point')
    return got


def run_der(c):
    v = np.array(c, dtype=float)
    out = ok(call(P.calculate_derivatives, v.copy()), 'derivatives')
    try:
        d1, d2 = out
    except Exception:
        raise Violation('derivatives: expected two series, got %r' % (out,))
    d1, d2 = as_series(d1, len(v), 'first derivative'), as_series(d2, len(v), 'second derivative')
    e1 = det.central(v)
    same(d1, e1, 0.51e-4 + 1e-15 * ref.scale(v), 'first derivative')
    same(d2, det.central(e1), 1.02e-4 + 1e-15 * ref.scale(v), 'second derivative')
    # the central difference of the first derivative as it is reported
    same(d2, det.central(d1), 0.51e-4 + 1e-15 * ref.scale(v), 'second derivative, from the reported first one')
    return (d1, d2)


def run_par(c):
    v = np.array(c, dtype=float)
    d1 = det.central(v)
    d2 = det.central(d1)
    out = ok(call(P.calculate_parameters, *shared(v, d1, d2)), 'parameters')
    if len(out) != 11:
        raise Violation('parameters: %d values' % len(out))
    got = [as_scalar(x, 'parameter') for x in out]
    lam = math.sqrt(2 * math.log(len(v)))
    s0, s1, s2 = ref.std(v), ref.std(d1), ref.std(d2)
    sc = 1e-11 * max(1e-300, ref.scale(v))
    e = 1e-6 * max(1e-300, ref.scale(v))
    for name, g, w in zip(('std', 'std of the first derivative', 'std of the second derivative'), got, (s0, s1, s2)):
        same(g, w, sc if w > e else e, name)
    same(got[3], lam, 1e-12 * (1 + lam), 'universal threshold')
    for name, g, w in zip(('a1', 'b1', 'a2', 'b2'), got[5:9], (s0, s1, s1, s2)):
        same(g, lam * w, lam * (sc if w > e else e), name)
    den = float(np.sum(v * v))
    if den == 0:
        return 'zero'
    th = math.atan(float(np.sum(v * d2)) / den)
    same(got[4], th, 1e-10, 'angle')
    kind, a, b = det.axes(lam * s0, lam * s2, th)
    if kind == 'ok':
        same(got[9], a, 1e-6 * a, 'a3')
        same(got[10], b, 1e-6 * b, 'b3')
    else:
        note('no_ellipse')
    return [round(x, 8) for x in got[:9]]


def run_cor(c):
    u, v, w = [np.array(x, dtype=float) for x in c]
    out = ok(call(C.calculate_parameters, *shared(u, v, w)), 'correlation parameters')
    if len(out) != 4:
        raise Violation('correlation parameters: %d values' % len(out))
    got = [as_scalar(x, 'correlation parameter') for x in out]
    lam = math.sqrt(2 * math.log(len(u)))
    same(got[0], lam, 1e-12 * (1 + lam), 'universal threshold')
    for name, g, x in zip('uvw', got[1:], (u, v, w)):
        s = ref.std(x)
        same(g, s, 1e-11 * ref.scale(x) if s > 1e-6 * ref.scale(x) else 1e-6 * ref.scale(x), 'standard deviation of ' + name)
    return [round(x, 8) for x in got]


def spaces(tier):
    deep = tier == 'thorough'
    nm = 8 if deep else 7
    S = (0.25, 1.0, 1.5, 3.0, 10.0)
    T = [k * math.pi / 32 for k in range(-48, 49)] + [0.01, -0.01, 0.3, -0.3, 0.78, 0.79]
    sizes = [100, 257, 1000] + dom.literal_sizes(2, 6000, MODS, 12)

    def rhos():
        for th in T[::1 if deep else 3]:
            for a, b in ((1.0, 1.0), (2.0, 0.5), (0.25, 8.0)):
                for sh in (('noise', 'noise2'), ('ramp', 'neg'), ('spiky', 'zero'), ('zero', 'offset')):
                    yield (dom.shape(sh[0], 9), dom.shape(sh[1], 9), th, a, b)

    def points():
        V = (0.0, 1.0, -2.0, 0.5)
        for x in V:
            for y in V:
                for th in T[::6]:
                    for a, b in ((1.0, 1.0), (2.0, 0.5), (0.25, 8.0)):
                        yield (x, y, th, a, b)
    return [
        Space('axes', lambda: ((a, b, t, lam) for a in S for b in S for t in T for lam in (0.5, 1.1774100225154747, 3.0)), run_ab,
              '5x5 deviations x 103 angles x 3 thresholds'),
        Space('axes-zero', lambda: ((a, b, t, 2.0) for a, b in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0)) for t in (0.0, 0.1, -0.4, 1.2)), run_ab, 'components without spread'),
        Space('coordinate', rhos, run_rho, 'angles x axes x shapes'),
        Space('coordinate-point', points, run_scalar, 'single points'),
        Space('derivatives', lambda: dom.words((0.0, 1.0, -2.0, 5.5), 1, nm), run_der, 'every series over 4 values up to %d samples' % nm),
        Space('derivative-shapes', lambda: (dom.shape(sh, n) for sh in dom.SHAPES for n in list(range(1, 40)) + sizes), run_der, '19 shapes'),
        Space('parameters', lambda: dom.words((0.0, 1.0, -2.0, 5.5), 2, nm - 1), run_par, 'every series over 4 values up to %d samples' % (nm - 1)),
        Space('parameter-shapes', lambda: (dom.shape(sh, n) for sh in dom.SHAPES for n in list(range(2, 40)) + sizes), run_par, '19 shapes'),
        Space('axes-magnitudes', lambda: ((a * 2.0 ** k, b * 2.0 ** k, t, 3.0) for a in (0.5, 2.0) for b in (0.5, 1.0) for t in T[::5] for k in (-60, -40, -30, -20, -10, 10, 20, 24)), run_ab,
              'deviations in units of 2^-60..2^24'),
        Space('parameter-magnitudes', lambda: (dom.shape(sh, n) * 2.0 ** k for sh in ('noise', 'spiky', 'onespike', 'sine') for n in (3, 30) for k in (-60, -40, -30, -20, -10, 10, 20, 24)), run_par,
              'magnitudes 2^-60..2^24'),
        Space('correlation', lambda: ((dom.shape(a, n), dom.shape(b, n) * 2, dom.shape(c, n)[::-1]) for a in ('noise', 'spiky', 'const', 'offset') for b in ('noise2', 'ramp', 'zero')
                                      for c in ('step', 'sine', 'neg') for n in list(range(2, 30)) + sizes), run_cor, 'shape triples, n 2..29 and long'),
    ]


def constants():
    def series():
        return (dom.build(c) for c in dom.fresh_series((30, 200), 2, 6000, 1e-6, 1e5))

    def axes():
        for v in dom.fresh_values(1e-9, 1e6):
            for t in (0.0, 0.2, -0.4, 1.2, -2.0):
                for s1, s2, lam in ((v, v, 2.0), (v, 2 * v, 2.0), (1.0, 1.5, v)):
                    yield (s1, s2, t, lam)
            if v < 2:
                yield (1.0, 1.5, v, 2.0)
                yield (1.0, 1.5, -v, 2.0)

    def rhos():
        for v in dom.fresh_values(1e-9, 1e6):
            for a, b in ((v, v), (v, 3 * v), (2 * v, v / 2)):
                yield (dom.noise(9) * v, dom.noise(9, 5) * v, 0.3, a, b)
                yield (dom.noise(9), dom.noise(9, 5), 0.3, a, b)
    return [Space('source-constants-derivatives', series, run_der, dom.gained()), Space('source-constants-parameters', series, run_par, dom.gained()),
            Space('source-constants-axes', axes, run_ab, dom.gained()), Space('source-constants-coordinate', rhos, run_rho, dom.gained())]
