"""P24 turbulent kinetic energy and Reynolds stresses."""
import itertools
import math
import numpy as np
from fractions import Fraction
from mc import dom, ref
from mc.core import Space, Violation, as_scalar, call, ok, same, shared, step
import proadv.statistics.signal.fluid as F

MODS = ['proadv.statistics.signal.fluid', 'proadv.statistics.descriptive']
NAMES = ('uu', 'vv', 'ww', 'uv', 'uw', 'vw')


def cov(a, b):
    n = len(a)
    if n <= 60:
        fa, fb = [Fraction(float(x)) for x in a], [Fraction(float(x)) for x in b]
        ma, mb = sum(fa) / n, sum(fb) / n
        return float(sum((x - ma) * (y - mb) for x, y in zip(fa, fb)) / n)
    ma, mb = ref.mean(a), ref.mean(b)
    return math.fsum((float(x) - ma) * (float(y) - mb) for x, y in zip(a, b)) / n


def judge(u, v, w):
    u, v, w = [np.array(x) for x in (u, v, w)]
    c = [cov(u, u), cov(v, v), cov(w, w), cov(u, v), cov(u, w), cov(v, w)]
    su, sv, sw = [ref.scale(x) + 1e-300 for x in (u, v, w)]
    # a mean is known to d = n eps * scale; its error enters the covariances in second order only
    n = len(u)
    d = [4e-16 * (n + 8) * s for s in (su, sv, sw)]
    g = [math.sqrt(c[i]) + d[i] for i in range(3)]
    e = 1e-13 * (10 + math.sqrt(n))
    t = [e * g[i] * g[j] + 4 * (g[i] * d[j] + g[j] * d[i]) / (n + 8) + 4 * d[i] * d[j] + 1e-300 for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))]
    out = ok(call(F.reynolds_stresses, *shared(u, v, w)), 'Reynolds stresses')
    if len(out) != 6:
        raise Violation('Reynolds stresses: %d values' % len(out))
    for name, g, x, s in zip(NAMES, out, c, t):
        same(as_scalar(g, name), x, s, 'Reynolds stress ' + name)
    k = as_scalar(call(F.kinetic_turbulent_energy, *shared(u, v, w)), 'kinetic energy')
    same(k, 0.5 * (c[0] + c[1] + c[2]), t[0] + t[1] + t[2], 'turbulent kinetic energy')
    step(1, 7)
    return [round(float(g), 9) for g in out] + [round(k, 9)]


def judge_offset(u, v, w, offs):
    d = [np.array(x, dtype=float) for x in (u, v, w)]
    c = [cov(d[0], d[0]), cov(d[1], d[1]), cov(d[2], d[2]), cov(d[0], d[1]), cov(d[0], d[2]), cov(d[1], d[2])]
    a = [x + o for x, o in zip(d, offs)]
    out = ok(call(F.reynolds_stresses, *[x.copy() for x in a]), 'Reynolds stresses')
    for name, g, x in zip(NAMES, out, c):
        same(as_scalar(g, name), x, 1e-4, 'Reynolds stress %s with mean flow %r' % (name, offs))
    k = as_scalar(call(F.kinetic_turbulent_energy, *[x.copy() for x in a]), 'kinetic energy')
    same(k, 0.5 * (c[0] + c[1] + c[2]), 1e-4, 'turbulent kinetic energy with mean flow %r' % (offs,))
    step(1, 7)
    return [round(x, 6) for x in c]


def spaces(tier):
    deep = tier == 'thorough'
    A = (0.0, 1.0, -2.0)

    def words():
        for n in (1, 2, 3):
            for u in itertools.product(A, repeat=n):
                for v in itertools.product(A, repeat=n):
                    for w in itertools.product(A, repeat=n) if n < 3 or deep else list(itertools.product((0.0, 1.0), repeat=n)):
                        yield (u, v, w)

    def shapes():
        for a, b, c in itertools.product(('noise', 'offset', 'spiky', 'ramp', 'step', 'neg', 'const', 'huge', 'tiny'), repeat=3):
            for n in (5, 24, 41):
                yield (a, b, c, n)
        for n in range(1, 70):
            for a, b, c in itertools.permutations(('noise', 'offset', 'spiky')):
                yield (a, b, c, n)
        for n in [100, 1000, 4099] + dom.literal_sizes(2, 20000, MODS, 6):
            for a, b, c in itertools.permutations(('noise', 'offset', 'spiky')):
                yield (a, b, c, n)

    def ints():
        for u in itertools.product((0, 3, -4), repeat=2):
            for v in itertools.product((0, 3, -4), repeat=2):
                yield (u, v, (1, 5))
                yield (list(u), list(v), [7, -2])
    return [
        Space('words', words, lambda c: judge(*c), 'every triple of series over 3 (2) values up to 3 samples'),
        Space('shapes', shapes, lambda c: judge(*[dom.shape(s, c[3]) * (1 if k == 0 else 0.5 * k) for k, s in enumerate(c[:3])]), '9^3 shape combinations, every length'),
        Space('mean flow', lambda: ((u, v, w, o) for u in itertools.product(A, repeat=3) for v in ((0.0, 1.0, -2.0), (1.0, 1.0, 0.0), (-2.0, 0.0, 0.0)) for w in ((1.0, -2.0, 0.0), (0.0, 0.0, 1.0))
                                    for o in itertools.product((0.0, 2.0 ** 20, -2.0 ** 26), repeat=3)), lambda c: judge_offset(*c), 'every mean flow out of 3^3 per triple'),
        Space('weak turbulence', lambda: ((o, k, n) for o in itertools.product((0.0, 3.0, -100.0, 5e3, 1e5), repeat=3) for k in (1.0, 2.0 ** -8, 2.0 ** -14, 2.0 ** -20) for n in (5, 24)),
              lambda c: judge(*[dom.noise(c[2], 3 + 2 * i) * c[1] + o for i, o in enumerate(c[0])]), 'fluctuations from 1 down to 1e-6 in mean flows up to 1e5'),
        Space('magnitudes', lambda: ((a, n, k) for a in itertools.permutations(('noise', 'offset', 'spiky')) for n in (3, 40) for k in (-200, -100, -60, -40, -30, -20, 20, 40, 60, 100, 200)),
              lambda c: judge(*[dom.shape(s, c[1]) * 2.0 ** c[2] for s in c[0]]), 'magnitudes 2^-200..2^200'),
        Space('unequal magnitudes', lambda: ((e, n) for e in itertools.product((-40, -12, 0, 20), repeat=3) for n in (3, 20)),
              lambda c: judge(*[dom.shape(s, c[1]) * 2.0 ** k for s, k in zip(('noise', 'offset', 'spiky'), c[0])]), 'components of different magnitude'),
        Space('very-long', lambda: ((n,) for n in (40009, 70001)), lambda c: judge(*[dom.shape(s, c[0]) for s in ('noise', 'offset', 'spiky')]), '40009 and 70001 samples'),
        Space('integers', ints, lambda c: judge(*c), 'integer series'),
        Space('measured', lambda: (c for n, st in ((64, 1500), (1000, 4000), (17999, 18000)) for c in dom.stretches(n, st, 18000) if c[1] == 0),
              lambda c: judge(*[dom.record(c[0], k, *c[2:]) for k in range(3)]), 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((9, 40), 1, 50000):
            for k in range(3):
                yield (c, k, 1.0)
            yield (c, 0, c[3])

    def run(c):
        a, n = dom.build(c[0]), c[0][2]
        x = [a, dom.noise(n, 5) * c[2], dom.noise(n, 7) * 0.5 * c[2]]
        return judge(*(x[-c[1]:] + x[:-c[1]] if c[1] else x))
    return [Space('source-constants', cases, run, dom.gained())]
