"""P28 frequency transformations and representations of a rational transfer function."""
import itertools
import math
import numpy as np
from mc import dom
from mc.filt import poly_at, sos_at, tf_at, zpk_at
from mc.core import Space, Violation, call, expect_error, note, ok, shared, step
import proadv.statistics.signal.butter as B

POINTS = (0.37 + 0.9j, -1.3 + 2.1j, 2.9 - 0.45j, 0.05 + 0.21j, -4.0 - 3.3j, 1j * 1.7)
S_UNITS = (('r', -1.0), ('r', -0.25), ('r', 2.0), ('r', -5.5), ('c', (-0.5, 1.5)), ('c', (-2.0, 0.25)), ('c', (0.75, 3.0)))
Z_UNITS = (('r', 0.5), ('r', -0.8), ('r', 0.0), ('r', -1.0), ('c', (0.6, 0.5)), ('c', (-0.25, 0.875)), ('c', (0.0, 1.0)))


def roots(units):
    out = []
    for k, v in units:
        out += [v] if k == 'r' else [complex(*v), complex(v[0], -v[1])]
    return out


def systems(alphabet, most_z, most_p, most):
    """every conjugate-closed multiset of zeros and poles"""
    for np_ in range(0, most_p + 1):
        for P in itertools.combinations_with_replacement(alphabet, np_):
            for nz in range(0, most_z + 1):
                for Z in itertools.combinations_with_replacement(alphabet, nz):
                    z, p = roots(Z), roots(P)
                    if len(p) <= most and len(z) <= most:
                        yield z, p


def three(out, what):
    try:
        z, p, k = out
        return np.asarray(z, dtype=complex).reshape(-1), np.asarray(p, dtype=complex).reshape(-1), complex(k)
    except Exception as e:
        raise Violation('%s: expected (zeros, poles, gain), got %r (%s)' % (what, out, e))


def close(got, want, what, rel=1e-7, unit=1.0):
    if not np.isfinite(abs(want)) or abs(want) > 1e12 * unit:
        note('pole_of_the_reference')
        return
    if not abs(got - want) <= rel * abs(want) + 1e-9 * unit:
        raise Violation('%s: %s, expected %s' % (what, got, want))


def run_map(c):
    kind, z, p, k, par = c
    call_args = {'low': (par[0],), 'high': (par[0],), 'band': par, 'stop': par, 'bilinear': (par[0],)}[kind]
    if k == -0.5 and kind != 'bilinear' and set(par) == {1.0}:
        call_args = ()       # the documented defaults
    fn = {'low': B.low_to_low, 'high': B.low_to_high, 'band': B.low_to_band, 'stop': B.low_to_stop, 'bilinear': B.bilinear}[kind]
    zi, pi = (list(z), list(p)) if len(z) % 2 else (np.array(z), np.array(p))
    if list(z) == list(p):
        pi = zi
    if len(p) < len(z):
        expect_error(call(fn, zi, pi, k, *call_args), ValueError, '%s with more zeros than poles' % kind)
        return 'refused'
    Z, P, K = three(ok(call(fn, zi, pi, k, *call_args), kind), kind)
    m = 2 if kind in ('band', 'stop') else 1
    if len(P) != m * len(p):
        raise Violation('%s: %d poles from %d' % (kind, len(P), len(p)))
    unit = 1.0 if kind == 'bilinear' else par[0] if par[0] < 1e-2 or par[0] > 1e2 else 1.0
    for s in POINTS:
        s = s * unit
        if kind == 'low':
            u = s / par[0]
        elif kind == 'high':
            u = par[0] / s
        elif kind == 'bilinear':
            u = 2 * par[0] * (s - 1) / (s + 1)
        else:
            u = (s * s + par[0] ** 2) / (par[1] * s)
            if kind == 'stop':
                u = 1 / u
        # cancellation in s +- sqrt(s^2 - c^2): a root near zero is known to eps * largest root
        sens = 1e-9
        big = max([abs(x) for x in list(Z) + list(P)] + [unit])
        near = min([abs(s - x) for x in list(Z) + list(P)] + [unit])
        sens = max(sens, 1e-13 * big / max(near, 1e-6 * unit) * 10 * (1 + len(Z) + len(P)))
        # the image point must not sit on a root of the prototype
        un = min([abs(u - x) / max(1.0, abs(u)) for x in list(z) + list(p)] + [1.0])
        if un < 1e-6:
            note('image_on_root')
            continue
        close(zpk_at(Z, P, K, s), zpk_at(z, p, k, u), '%s%r: response at %s' % (kind, call_args, s), max(sens, 1e-13 / un), min(1.0, abs(k)) if abs(k) <= 1 else abs(k))
        step(0, 1)
    return [complex(round(x.real, 6), round(x.imag, 6)) for x in P]


def run_tf(c):
    z, p, k = c
    out = ok(call(B.xyz_to_ptf, z, p, k), 'xyz_to_ptf')
    try:
        b, a = out
    except Exception:
        raise Violation('xyz_to_ptf: expected (numerator, denominator), got %r' % (out,))
    b, a = np.atleast_1d(b), np.atleast_1d(a)
    if len(b) != len(z) + 1 or len(a) != len(p) + 1:
        raise Violation('xyz_to_ptf: degrees %d/%d for %d zeros and %d poles' % (len(b) - 1, len(a) - 1, len(z), len(p)))
    if np.iscomplexobj(b) or np.iscomplexobj(a):
        raise Violation('xyz_to_ptf: complex coefficients for conjugate roots')
    for s in POINTS:
        bv, be = poly_at(b, s)
        av, ae = poly_at(a, s)
        bw = zpk_at(z, [], k, s)
        aw = zpk_at(p, [], 1, s)
        if abs(bv - bw) > 1e-9 * abs(bw) + be:
            raise Violation('numerator at %s is %s, expected %s' % (s, bv, bw))
        if abs(av - aw) > 1e-9 * abs(aw) + ae:
            raise Violation('denominator at %s is %s, expected %s' % (s, av, aw))
    return (list(b), list(a))


def run_rows(c):
    """several outputs: one row of zeros and one gain each, common poles"""
    Z, p, k, form = c
    z = [list(r) for r in Z] if form == 'list' else np.array(Z)
    out = ok(call(B.xyz_to_ptf, z, p, list(k) if form == 'list' else np.array(k)), 'xyz_to_ptf')
    try:
        b, a = [np.asarray(x) for x in out]
    except Exception:
        raise Violation('xyz_to_ptf: expected (numerators, denominator), got %r' % (out,))
    if b.shape != (len(Z), len(Z[0]) + 1) or a.shape != (len(p) + 1,):
        raise Violation('xyz_to_ptf: shapes %s and %s for %d x %d zeros and %d poles' % (b.shape, a.shape, len(Z), len(Z[0]), len(p)))
    for s in POINTS:
        for i, row in enumerate(Z):
            want = zpk_at(row, [], k[i] if len(k) > 1 else k[0], s)
            got, e = poly_at(b[i], s)
            if abs(got - want) > 1e-9 * abs(want) + e:
                raise Violation('numerator %d at %s is %s, expected %s' % (i, s, got, want))
        av, ae = poly_at(a, s)
        aw = zpk_at(p, [], 1, s)
        if abs(av - aw) > 1e-9 * abs(aw) + ae:
            raise Violation('denominator at %s is %s, expected %s' % (s, av, aw))
    return np.round(b, 9)


def run_sop(c):
    z, p, k, pg, ag = c
    kw = {} if pg is None else {'pg': pg}
    if ag:
        kw['ag'] = True
    out = call(B.xyz_to_sop, *shared(z, p), k, **kw)
    ml = pg == 'ml' or (pg is None and ag)
    if ml and len(z) > len(p):
        expect_error(out, ValueError, 'more zeros than poles')
        return 'refused'
    sos = np.asarray(ok(out, 'xyz_to_sop(%r)' % kw))
    n = max(len(z), len(p))
    want_n = max(1, (n + 1) // 2)
    if sos.shape != (want_n, 6) or np.iscomplexobj(sos):
        raise Violation('sections: shape %s (%s), expected (%d, 6) real' % (sos.shape, sos.dtype, want_n))
    shift = 0 if ml else len(p) - len(z)
    for s in POINTS:
        want = zpk_at(z, p, k, s) * s ** shift
        got, e = sos_at(sos, s)
        if got is None:
            note('ill_conditioned')
            continue
        if abs(got - want) > 1e-9 * abs(want) + 10 * e:
            raise Violation('sections %r: response at %s is %s, expected %s' % (kw, s, got, want))
    return np.round(sos, 9)


def run_bad(c):
    what, args, kw = c
    expect_error(call(getattr(B, what), *args, **kw), ValueError, '%s%r' % (what, args))
    return 'refused'


def bad():
    lone = ([0.5 + 0.25j], [0.5 + 0.25j, 0.1], [0.5 + 0.25j, 0.5 + 0.25j], [0.5 + 0.25j, 0.4 - 0.25j], [0.3 + 0.1j, 0.3 - 0.1j, 0.2j])
    for z in lone:
        for other in ([0.1, 0.2, 0.3, 0.4], [0.5, 0.5]):
            yield ('xyz_to_sop', (np.array(z), np.array(other), 1.0), {})
            yield ('xyz_to_sop', (np.array(other), np.array(z), 1.0), {})
    for pg in ('nearest', '', 'xx'):
        yield ('xyz_to_sop', (np.array([0.5]), np.array([0.25]), 1.0), {'pg': pg})
    for pg in ('nr', 'kd'):
        yield ('xyz_to_sop', (np.array([0.5]), np.array([0.25]), 1.0), {'pg': pg, 'ag': True})
    yield ('xyz_to_sop', (np.array([0.5]), np.array([0.25]), 1.0 + 1j), {})
    yield ('bilinear', ([-1.0], [-2.0], 1.0, None), {})
    yield ('bilinear', ([-1.0], [-2.0], 1.0, [1.0, 2.0]), {})
    for q in (-1, -2, 1.5, 0.25):
        yield ('buttap', (q,), {})


def run_order(c):
    """order and duplication of the roots' presentation do not matter"""
    z, p, k, pg = c
    base = None
    for zz in set(itertools.permutations(z)):
        for pp in set(itertools.permutations(p)):
            run_sop((list(zz), list(pp), k, pg, False))
            run_tf((list(zz), list(pp), k))
            step(2, 2)
    return 'ok'


def spaces(tier):
    deep = tier == 'thorough'
    alpha = S_UNITS if deep else S_UNITS[:6]

    def maps():
        for z, p in systems(alpha, 2, 3 if deep else 2, 6):
            if not p:
                continue
            for k in (1.0, -0.5):
                for kind, pars in (('low', ((1.0,), (0.5,), (40.0,))), ('high', ((1.0,), (0.5,), (40.0,))), ('bilinear', ((1.75,), (4.0,), (25,))),
                                   ('band', ((1.0, 1.0), (0.53, 14.0), (10.0, 0.5))), ('stop', ((1.0, 1.0), (0.53, 14.0), (10.0, 0.5)))):
                    for par in pars:
                        if kind in ('high', 'stop') and 0.0 in z:
                            continue
                        yield (kind, z, p, k, par)

    def corners():
        for z, p in systems(alpha[:5], 1, 2, 4):
            if not p or len(z) > len(p):
                continue
            for k in (1e-12, -1e9, 1.0):
                for kind, pars in (('low', ((1e-6,), (1e-3,), (1e6,))), ('high', ((1e-6,), (1e-3,), (1e6,))), ('bilinear', ((0.05,), (200,))),
                                   ('band', ((1e-5, 1e-5), (1e-3, 5e-4), (1e5, 3e5))), ('stop', ((1e-5, 1e-5), (1e-3, 5e-4), (1e5, 3e5)))):
                    for par in pars:
                        yield (kind, z, p, k, par)

    def gain_maps():
        for z, p in systems(alpha[:5], 1, 2, 4):
            if not p or len(z) > len(p):
                continue
            for k in (0, 0.0, 2, -3, np.float64(0.5), np.int64(4)):
                for kind, par in (('low', (0.5,)), ('high', (2,)), ('band', (2, 3)), ('stop', (0.53, 14.0)), ('bilinear', (2,))):
                    yield (kind, z, p, k, par)

    def many():
        for n in (5, 8, 12, 15, 16, 17, 20, 24, 31, 32, 33):
            ang = [math.pi * (2 * i + 1) / (2 * n) for i in range(n)]
            p = [complex(-math.sin(a), math.cos(a)) for a in ang]
            for z in ([], [-0.5], [-0.25 + 1.5j, -0.25 - 1.5j]):
                for kind, par in (('low', (1.25,)), ('high', (1.25,)), ('band', (1.5, 2.0)), ('stop', (1.5, 2.0)), ('bilinear', (1.0,))):
                    yield (kind, z, p, 1.0, par)

    def gains():
        for z, p in systems(Z_UNITS, 2, 2, 4):
            for k in (1e-12, -1e-9, 1e9, -1e-200, 7, 0, 0.0):
                yield (z, p, k)

    def tfs():
        for z, p in systems(S_UNITS, 3, 3 if deep else 2, 6):
            for k in (1.0, -2.5):
                yield (z, p, k)

    def sops():
        for z, p in systems(Z_UNITS, 3, 3, 6 if deep else 5):
            for pg, ag in ((None, False), ('nr', False), ('kd', False), ('ml', False)):
                yield (z, p, 0.75, pg, ag)

    def asops():
        for z, p in systems(S_UNITS, 2 if not deep else 3, 3, 6):
            for pg in (None, 'ml'):
                yield (z, p, -3.0, pg, True)

    def orders():
        for z, p in systems(Z_UNITS[:5], 2, 2, 4):
            for pg in ('nr', 'kd', 'ml'):
                if pg == 'ml' and len(z) > len(p):
                    continue
                if len(z) + len(p) >= 3 and len(z) <= 4 and len(p) <= 4 and (deep or len(z) + len(p) <= 6):
                    yield (z, p, 1.5, pg)

    def close_roots():
        for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12):
            units = (('c', (0.6, 0.6 * e)), ('c', (-0.5, 0.5 * e)), ('r', 0.6 * (1 + 3 * e)), ('r', -0.5), ('c', (0.6 * (1 + e), 0.5)), ('c', (0.6, 0.5)))
            for z, p in systems(units, 2, 2, 4):
                yield (z, p, 0.75)

    def protos():
        for q in list(range(1, 41)) + [64, 100]:
            yield (q,)

    def run_proto(c):
        q = c[0]
        z, p, k = three(ok(call(B.buttap, q), 'buttap'), 'buttap')
        if len(z) != 0 or len(p) != q:
            raise Violation('prototype of order %d has %d zeros, %d poles' % (q, len(z), len(p)))
        for w in (0.1, 0.5, 1.0, 1.5, 4.0):
            g = abs(zpk_at(z, p, k, 1j * w))
            want = (1 + w ** (2 * q)) ** -0.5
            if abs(g - want) > 1e-10 * want:
                raise Violation('prototype of order %d: |H(%g)| = %.12g, expected %.12g' % (q, w, g, want))
        if np.any(p.real >= 0):
            raise Violation('prototype pole in the right half plane')
        return 'ok'
    def rows():
        R = ((0.5, -0.8), (-1.0, 2.0), (0.0, 3.0), (-0.25, -0.25))
        C = ((0.6 + 0.5j, 0.6 - 0.5j), (1j, -1j), (-0.25 + 0.875j, -0.25 - 0.875j))
        for m in (1, 2, 3):
            for S in (R, C):
                for Z in itertools.product(S, repeat=m):
                    for p in ((0.5, -0.25), (0.5, 0.3 + 0.2j, 0.3 - 0.2j)):
                        for k in ((2.0,), (1.0, -0.5, 3.0)[:m], (0.25, 4.0, 0.0)[:m]):
                            for form in ('list', 'array'):
                                yield (Z, p, k, form)
    return [
        Space('several-outputs', rows, run_rows, 'one to three rows of zeros with one common or individual gains'),
        Space('transformations', maps, run_map, 'every conjugate-closed set of up to 2 zero and 2/3 pole groups, 5 transformations, 3 parameter sets'),
        Space('corners', corners, run_map, 'frequencies 1e-6..1e6, gains 1e-12..1e9'),
        Space('gain-kinds', gain_maps, run_map, 'gains zero, whole, negative and numpy numbers in the transformations'),
        Space('many-poles', many, run_map, 'up to 33 poles with 0..2 zeros'),
        Space('gains', gains, lambda c: (run_tf(c), [run_sop(c + (pg, False)) for pg in ('nr', 'kd')])[0], 'gains 1e-200..1e9 in polynomials and sections'),
        Space('close-roots', close_roots, lambda c: [run_sop(c + (pg, False)) for pg in ('nr', 'kd', 'ml') if pg != 'ml' or len(c[0]) <= len(c[1])][0],
              'complex roots 1e-1..1e-12 away from the real axis or from each other'),
        Space('polynomials', tfs, run_tf, 'every conjugate-closed set of up to 3 zero and 2/3 pole groups'),
        Space('sections-digital', sops, run_sop, 'every conjugate-closed set of up to 3+3 groups, 4 pairings'),
        Space('sections-analog', asops, run_sop, 'every conjugate-closed set, analog'),
        Space('root-order', orders, run_order, 'every permutation of the zeros and poles'),
        Space('prototypes', protos, run_proto, 'orders 1..40, 64 and 100'),
        Space('refused', bad, run_bad, 'unpaired complex roots, unknown pairings, complex gain'),
    ]


def constants():
    some = [([], [-1.0]), ([-0.25], [-1.0, -5.5]), ([-0.5 + 1.5j, -0.5 - 1.5j], [-2.0 + 0.25j, -2.0 - 0.25j, -1.0])]
    some_z = [([], [0.5]), ([0.5], [-0.8, 0.5]), ([0.6 + 0.5j, 0.6 - 0.5j], [-0.25 + 0.875j, -0.25 - 0.875j, 0.5])]

    def maps():
        for v in dom.fresh_values(1e-5, 1e5):
            for z, p in some:
                for kind, par in (('low', (v,)), ('high', (v,)), ('band', (v, v)), ('stop', (v, v)), ('band', (v, v / 3)), ('stop', (v, v / 3))):
                    yield (kind, z, p, 1.0, par)
                if 0.05 <= v <= 200:
                    yield ('bilinear', z, p, 1.0, (v,))
                for kind in ('low', 'high'):
                    yield (kind, z, p, v, (1.5,))
            for s in (1, -1):
                for kind, par in (('low', (1.5,)), ('high', (1.5,)), ('band', (1.0, 0.5)), ('stop', (1.0, 0.5))):
                    if v < 1e3:
                        yield (kind, [s * v / 2], [s * v, -1.0], 1.0, par)

    def forms():
        for v in dom.fresh_values(1e-12, 1e9):
            for z, p in some_z:
                yield (z, p, v)
                yield (z, p, -v)
            if v < 0.9:
                yield ([complex(0.5, v), complex(0.5, -v)], [complex(-0.3, v / 2), complex(-0.3, -v / 2), 0.1], 0.75)
                yield ([0.5, 0.5 * (1 - v)], [complex(v, 0.4), complex(v, -0.4)], 0.75)
        for n in dom.fresh_sizes(1, 12):
            yield ([(-1) ** k * 0.8 * (k + 1) / (n + 1) for k in range(n)], [(-1) ** k * 0.7 * (k + 1) / (n + 1) for k in range(n)], 0.75)
    return [Space('source-constants', maps, run_map, dom.gained()),
            Space('source-constants-forms', forms, lambda c: (run_tf(c), [run_sop(c + (pg, False)) for pg in ('nr', 'kd')])[0], dom.gained())]
