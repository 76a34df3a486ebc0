"""P27 Butterworth design."""
import cmath
import itertools
import math
import numpy as np
from mc import dom
from mc.filt import sos_at, tf_at, zpk_at
from mc.core import Space, Violation, call, expect_error, note, ok, step
import proadv.statistics.signal.butter as B

PI = math.pi


def prototype(q):
    return [-cmath.exp(1j * PI * m / (2.0 * q)) for m in range(-q + 1, q, 2)]


def ideal(q, w, btype, s):
    """analog Butterworth response at s for critical frequencies w (rad/s)"""
    if btype == 'lp':
        u = s / w
    elif btype == 'hp':
        u = w / s
    else:
        bw, c2 = w[1] - w[0], w[0] * w[1]
        u = (s * s + c2) / (bw * s)
        if btype == 'bs':
            if u == 0:
                return 0j
            u = 1 / u
    h = 1 + 0j
    for p in prototype(q):
        h /= (u - p)
    return h


def warp(w):
    """bilinear prewarping, w relative to Nyquist, sampling rate 2"""
    return [4 * math.tan(PI * x / 2) for x in w] if isinstance(w, (list, tuple)) else 4 * math.tan(PI * w / 2)


def get(c):
    q, w, btype, ag, sr, output = c
    kw = {}
    if ag:
        kw['ag'] = True
    if sr is not None:
        kw['sr'] = sr
    ww = np.array(w) if isinstance(w, tuple) and len(w) % 2 == 0 and q % 2 else (list(w) if isinstance(w, tuple) else w)
    return ok(call(B.butterworth, q, ww, btype, output=output, **kw), 'butterworth%r' % (c,))


def run(c):
    q, w, btype, ag, sr = c
    rel = w if sr is None else (tuple(2.0 * x / sr for x in w) if isinstance(w, tuple) else 2.0 * w / sr)
    aw = rel if ag else warp(rel)
    z, p, k = get(c + ('zps',))
    z, p = np.asarray(z).reshape(-1), np.asarray(p).reshape(-1)
    k = complex(k)
    n = q if btype in ('lp', 'hp') else 2 * q
    if len(p) != n:
        raise Violation('%d poles for order %d %s' % (len(p), q, btype))
    if ag:
        if not np.all(p.real < 0):
            raise Violation('unstable: a pole has nonnegative real part')
    elif not np.all(np.abs(p) < 1):
        raise Violation('unstable: a pole lies on or outside the unit circle (%.17g)' % np.abs(p).max())
    if abs(k.imag) > 1e-12 * abs(k):
        raise Violation('complex gain')
    b, a = get(c + ('nd',))
    sos = get(c + ('sop',))
    for name, x in (('numerator', b), ('denominator', a), ('sections', sos)):
        if np.iscomplexobj(x) and np.abs(np.asarray(x).imag).max() > 1e-9 * np.abs(x).max():
            raise Violation('%s is complex' % name)
    b, a = np.real(b), np.real(a)
    sos = np.asarray(sos)
    if sos.ndim != 2 or sos.shape[1] != 6:
        raise Violation('sections have shape %s' % (sos.shape,))
    pts = []
    if ag:
        lo, hi = (aw, aw) if not isinstance(aw, tuple) else (aw[0], aw[1])
        for r in (0.01, 0.3, 0.8, 1.0, 1.25, 3.0, 50.0):
            pts += [lo * r, hi * r]
        pts.append(math.sqrt(lo * hi))
        pts = [(1j * x, 1j * x) for x in pts] + [(complex(0.7 * lo, 0.4 * hi),) * 2]
    else:
        th = [x * PI for x in (0.02, 0.13, 0.35, 0.5, 0.66, 0.85, 0.97)]
        th += [x * PI for x in (rel if isinstance(rel, tuple) else (rel,))]
        for t in th:
            zz = cmath.exp(1j * t)
            pts.append((zz, 4 * (zz - 1) / (zz + 1)))
        zz = complex(1.2, 0.5)
        pts.append((zz, 4 * (zz - 1) / (zz + 1)))
    first = []
    for at, s in pts:
        want = ideal(q, aw, btype, s)
        got = zpk_at(z, p, k, at)
        # distance to the closest pole limits what rounding of a pole costs
        gap = min([abs(at - x) / max(abs(x), 1e-300) for x in p] + [1.0])
        # roots found as a +- sqrt(a^2 - c^2) carry the rounding of the largest one
        tol = 1e-12 * (1 + n) / gap + 1e-14 * n * max(abs(x) for x in p) / max(min(abs(at - x) for x in p), 1e-300)
        # and to the closest zero
        zg = min([abs(at - x) / max(abs(x), abs(at), 1e-300) for x in z] + [1.0])
        tz = tol + 1e-13 * n / max(zg, 1e-9)
        if abs(got - want) > tz * abs(want) + 1e-13:
            raise Violation('zeros/poles/gain: response at %s is %s, a Butterworth filter has %s' % (at, got, want))
        first.append(got)
        for form, (h, e) in (('polynomials', tf_at(b, a, at)), ('sections', sos_at(sos, at))):
            if h is None or e > 1e-3 * (abs(want) + 1e-6):
                note('ill_conditioned_' + form)
                continue
            # a repeated zero is only known to eps^(1/m): its contribution vanishes in absolute terms
            if abs(h - want) > tz * abs(want) + 1e-9 * (1 if form == 'polynomials' else 1e-2) + 100 * e:
                raise Violation('%s: response at %s is %s, a Butterworth filter has %s' % (form, at, h, want))
            step(0, 1)
    step(2, 1)
    return [round(abs(x), 7) for x in first]


def run_cut(c):
    """-3 dB at every critical frequency, unit gain in the middle of the pass band"""
    q, w, btype, ag, sr = c
    z, p, k = get(c + ('zps',))
    ws = w if isinstance(w, tuple) else (w,)
    for x in ws:
        r = x if sr is None else 2.0 * x / sr
        at = 1j * r if ag else cmath.exp(1j * PI * r)
        h = abs(zpk_at(z, p, k, at))
        if abs(h - math.sqrt(0.5)) > 1e-6:
            raise Violation('gain %.9g at the critical frequency %g' % (h, x))
    return 'half power'


def run_bad(c):
    args, kw, err = c
    expect_error(call(B.butterworth, *args, **kw), err, 'butterworth(%r, %r)' % (args, kw))
    return 'refused'


def bad():
    V = ValueError
    for q in (1, 2, 5):
        for w in (0.0, -0.1, 1.0, 1.5):
            for bt in ('lp', 'hp'):
                yield ((q, w, bt), {}, V)
        for w in ((0.0, 0.5), (-0.2, 0.4), (0.2, 1.0), (0.2, 1.4), (0.5, 0.2), (0.4, 0.4)):
            for bt in ('bp', 'bs'):
                yield ((q, list(w), bt), {}, V)
        for w in ((0.0, 0.5), (5.0, 2.0), (3.0, 3.0), (-1.0, 2.0)):
            for bt in ('bp', 'bs'):
                yield ((q, list(w), bt), {'ag': True}, V)
        for sr in (0.5, 1.0, 2.0, 2.5, 10.0, 1000.0):
            for o in ('nd', 'zps', 'sop'):
                for a, b in ((0.1, 0.5), (0.1, 0.6), (0.4, 0.2), (0.0, 0.2), (-0.1, 0.2), (0.2, 0.2), (0.6, 0.9), (0.1, 5.0), (0.5, 0.75)):
                    for bt in ('bp', 'bs'):
                        yield ((q, [a * sr, b * sr], bt), {'sr': sr, 'output': o}, V)
                for a in (0.0, -0.1, 0.5, 0.51, 0.75, 1.0, 3.0):
                    for bt in ('lp', 'hp'):
                        yield ((q, a * sr, bt), {'sr': sr, 'output': o}, V)
        for bt in ('lp', 'hp'):
            yield ((q, [0.2, 0.4], bt), {}, V)
            yield ((q, [0.2, 0.4], bt), {'ag': True}, V)
            yield ((q, [], bt), {}, V)
            yield ((q, [0.1, 0.2, 0.3], bt), {}, V)
            yield ((q, 0.0, bt), {'ag': True}, V)
            yield ((q, -3.0, bt), {'ag': True}, V)
            yield ((q, 10.0, bt), {'ag': True, 'sr': 100.0}, V)
            for sr in (10.0, 8.0, 20.0):
                yield ((q, sr / 2, bt), {'sr': sr}, V)
                yield ((q, sr, bt), {'sr': sr}, V)
            yield ((q, 1.0, bt), {'sr': [10.0, 20.0]}, V)
            for o in ('ba', 'zpk', 'sos', ''):
                yield ((q, 0.3, bt), {'output': o}, V)
        for bt in ('bp', 'bs'):
            yield ((q, 0.3, bt), {}, V)
            yield ((q, 0.3, bt), {'ag': True}, V)
            for w in ([], [0.3], [0.1, 0.2, 0.3], [0.1, 0.2, 0.3, 0.4]):
                yield ((q, w, bt), {}, V)
                yield ((q, w, bt), {'ag': True}, V)
                yield ((q, w, bt), {'sr': 4.0, 'output': 'sop'}, V)
        for bt in ('lowpass', 'xx', 'b'):
            yield ((q, 0.3, bt), {}, (NotImplementedError, V))
    for q in (-1, -3, 2.5, 0.5):
        yield ((q, 0.3, 'lp'), {}, V)


def spaces(tier):
    deep = tier == 'thorough'
    Q = range(1, 9 if deep else 7)
    W = [x / 20.0 for x in range(1, 20)]

    def digital():
        for q in Q:
            for w in W:
                for bt in ('lp', 'hp'):
                    yield (q, w, bt, False, None)
            for i in range(0, len(W), 1 if deep else 2):
                for j in range(i + 1, len(W), 1 if deep else 2):
                    for bt in ('bp', 'bs'):
                        yield (q, (W[i], W[j]), bt, False, None)

    def analog():
        ws = (0.01, 0.5, 1.0, 2.0, 6.25, 30.0, 1000.0)
        for q in Q:
            for w in ws:
                for bt in ('lp', 'hp'):
                    yield (q, w, bt, True, None)
            for w in itertools.combinations(ws, 2):
                for bt in ('bp', 'bs'):
                    yield (q, w, bt, True, None)

    def rates():
        for sr in (0.04, 0.75, 1.0, 2.5, 3.7, 10, 25.0, 33.3, 100, 44100.0):
            for q in Q:
                for f in (0.05, 0.2, 0.33, 0.45):
                    for bt in ('lp', 'hp'):
                        yield (q, f * sr, bt, False, sr)
                for f in ((0.05, 0.2), (0.1, 0.4), (0.3, 0.45)):
                    for bt in ('bp', 'bs'):
                        yield (q, (f[0] * sr, f[1] * sr), bt, False, sr)
                if sr in (10, 100):
                    yield (q, int(2 * sr) // 10, 'lp', False, sr)
                    yield (q, (int(sr) // 10, int(4 * sr) // 10), 'bp', False, sr)

    def corners():
        for q in range(1, 5):
            for w in (1e-6, 1e-5, 5e-5, 1e-4, 1e-3, 1e-2, 0.99, 0.999, 0.9999, 1 - 5e-5, 1 - 1e-5, 1 - 1e-6):
                for bt in ('lp', 'hp'):
                    yield (q, w, bt, False, None)
            for c in (0.1, 0.37, 0.5, 0.81):
                for d in (1e-5, 1e-4, 1e-3, 4e-3, 1e-2):
                    for bt in ('bp', 'bs'):
                        if q <= 2 or d > 1e-4:
                            yield (q, (c, c + d), bt, False, None)
            for d in (1e-5, 1e-4, 1e-3, 1e-2):
                yield (q, (d, 1 - d), 'bp', False, None)
                yield (q, (d, 1 - d), 'bs', False, None)

    def high():
        for q in list(range(7, 31)) + ([40, 50] if deep else []):
            for w in (0.1, 0.3, 0.5, 0.8):
                for bt in ('lp', 'hp'):
                    yield (q, w, bt, False, None)
            for w in ((0.2, 0.6), (0.3, 0.4)):
                for bt in ('bp', 'bs'):
                    if q <= 20:
                        yield (q, w, bt, False, None)
            for bt in ('lp', 'hp'):
                yield (q, 2.0, bt, True, None)
            if q <= 15:
                yield (q, (1.0, 4.0), 'bp', True, None)

    def default():
        for q in Q:
            for w in ([0.1, 0.4], [0.2, 0.7]):
                for bt in ('BP', None):
                    yield (q, w, bt)

    def run_default(c):
        q, w, bt = c
        b, a = ok(call(B.butterworth, q, w) if bt is None else call(B.butterworth, q, w, bt), 'butterworth')
        for t in (0.1, 0.25, 0.4, 0.6, 0.9):
            at = cmath.exp(1j * PI * t)
            h, e = tf_at(b, a, at)
            want = ideal(q, warp(tuple(w)), 'bp', 4 * (at - 1) / (at + 1))
            if h is not None and e < 1e-3 and abs(h - want) > 1e-9 + 100 * e:
                raise Violation('default band pass, numerator and denominator: response %s at %g, expected %s' % (h, t, want))
        return 'default'
    return [
        Space('digital', digital, run, 'orders %s, every critical frequency k/20 and every pair' % list(Q)),
        Space('analog', analog, run, 'orders %s, 7 critical frequencies and all pairs' % list(Q)),
        Space('high-orders', high, run, 'orders 7..30, band filters up to 20'),
        Space('rates', rates, run, '10 sampling rates, fractional ones included'),
        Space('corners', corners, run, 'orders 1..4, frequencies next to 0 and the Nyquist frequency, bands down to 1e-5 wide'),
        Space('cutoff', lambda: (c for g in (digital, analog, rates, corners) for c in g()), run_cut, 'half power at every critical frequency'),
        Space('defaults', default, run_default, 'default type and output, upper case'),
        Space('refused', bad, run_bad, 'documented refusals'),
    ]


def constants():
    def cases():
        for q in dom.fresh_sizes(1, 30):
            for bt in ('lp', 'hp'):
                yield (q, 0.3, bt, False, None)
                yield (q, 2.0, bt, True, None)
            if q <= 15:
                for bt in ('bp', 'bs'):
                    yield (q, (0.2, 0.6), bt, False, None)
                    yield (q, (1.0, 4.0), bt, True, None)
        for v in dom.fresh_values(1e-6, 1e6):
            for q in (1, 2, 3):
                for bt in ('lp', 'hp'):
                    yield (q, v, bt, True, None)
                    yield (q, 0.2 * v, bt, False, v)
                    yield (q, v, bt, False, 5.0 * v)
                    for w in (v, 1 - v):
                        if 1e-6 <= w <= 1 - 1e-6:
                            yield (q, w, bt, False, None)
                for bt in ('bp', 'bs'):
                    yield (q, (v, 3 * v), bt, True, None)
                    yield (q, (0.1 * v, 0.3 * v), bt, False, v)
                    for w in ((v, 0.9), (0.05, v), (0.3, 0.3 + v)):
                        if 0 < w[0] < w[1] < 0.999 and w[1] - w[0] > 1e-3 and w[0] > 1e-4:
                            yield (q, w, bt, False, None)
    return [Space('source-constants', cases, run, dom.gained()), Space('source-constants-cutoff', cases, run_cut, dom.gained())]
