"""P26 synthetic pollution: every answer of the random source."""
import itertools
from fractions import Fraction
import numpy as np
from mc import dom, ref
from mc.core import Space, Violation, as_series, call, expect_error, note, same
import proadv.statistics.signal.synthetic as SY


SIGMA = 0.05


class Script:
    """Stands in for the random source.  Integer draws follow the script first (honouring the requested
    range) and then walk through the range, so that every request is eventually served; normal
    draws follow a fixed pattern.  Anything else reaches the real generator."""

    def __init__(self, draws, normals):
        self.draws, self.normals, self.k, self.used, self.drawn = list(draws), normals, 0, 0, 0
        self.real = {n: getattr(np.random, n) for n in ('randint', 'normal')}

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is not None:
            return self.real['randint'](low, high, size, dtype)
        self.used += 1
        k, self.k = self.k, self.k + 1
        if k < len(self.draws):
            return int(low + self.draws[k] % (high - low))
        return int(low + (k - len(self.draws)) % (high - low))

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.drawn += 1
        if size is None:
            return loc + scale * self.normals[0]
        n = int(np.prod(size))
        return (loc + scale * np.array([self.normals[i % len(self.normals)] for i in range(n)])).reshape(size)

    def __enter__(self):
        np.random.randint, np.random.normal = self.randint, self.normal
        return self

    def __exit__(self, *a):
        np.random.randint, np.random.normal = self.real['randint'], self.real['normal']


def judge(data, percent, out, normals=None):
    n = len(data)
    m = ref.mean(data)
    got = as_series(out, n, 'polluted data')
    diff = got - np.array(data, dtype=float)
    pos = [i for i in range(n) if got[i] != data[i]]
    want = int(Fraction(n) * Fraction(str(percent)) / 100)
    if percent == 0 or m == 0:
        want = 0
    if len(pos) != want:
        raise Violation('%g%% of %d samples: %d samples changed, expected %d (changed: %s)' % (percent, n, len(pos), want, pos[:20]))
    for k, i in enumerate(pos):
        a = diff[i] / m
        if (a > 0) != (k % 2 == 0):
            raise Violation('spike %d (sample %d) has the sign of its predecessor: %s' % (k, i, diff[pos][:10]))
        e = 1e-9 * (1 + ref.scale(data) / abs(m))
        if not percent - e <= abs(a) <= percent + 0.5 + e:
            raise Violation('spike %d (sample %d) has amplitude %.9g times the mean, expected %g plus a small random part' % (k, i, a, percent))
        if normals is not None and not any(abs(abs(a) - percent - SIGMA * abs(z)) <= e for z in normals):
            raise Violation('spike %d (sample %d) has amplitude %.9g times the mean: the random part is none of the draws %s of a '
                            'normal variable with deviation %g' % (k, i, a, normals, SIGMA))
    return pos


def run(c):
    data, percent, draws, normals = c
    with Script(draws, normals) as s:
        out = call(SY.synthetic_noise, np.array(data), percent)
    pos = judge(data, percent, out, normals if s.drawn else None)
    note('scripted_draws' if s.used else 'unscripted_runs')
    return (pos, s.used)


def run_seed(c):
    data, percent, seed = c
    np.random.seed(seed)
    return judge(data, percent, call(SY.synthetic_noise, np.array(data), percent))


def run_spread(c):
    """the random parts of all planted spikes together look like draws with the documented deviation"""
    data, percent, seeds = c
    parts = []
    for seed in range(seeds):
        np.random.seed(seed)
        out = call(SY.synthetic_noise, np.array(data), percent)
        pos = judge(data, percent, out)
        parts += [abs((out[i] - data[i]) / ref.mean(data)) - percent for i in pos]
    rms = float(np.sqrt(np.mean(np.square(parts))))
    if not 0.8 * SIGMA < rms < 1.2 * SIGMA:
        raise Violation('random part of %d spikes has a root mean square of %.4g, expected %g' % (len(parts), rms, SIGMA))
    return len(parts)


def run_reach(c):
    """every sample can be chosen, and different histories give different pollution"""
    n, percent = c
    data = dom.noise(n) + 5.0
    hit, sets = set(), set()
    for seed in range(60 * n):
        np.random.seed(seed)
        with Script([seed + j * (1 + seed // n) for j in range(n)], (0.5, -1.0)):
            p = judge(data, percent, call(SY.synthetic_noise, data.copy(), percent))
        hit |= set(p)
        sets.add(tuple(p))
    if hit != set(range(n)):
        raise Violation('samples %s are never polluted' % sorted(set(range(n)) - hit))
    return sorted(hit)


def run_bad(c):
    n, percent = c
    expect_error(call(SY.synthetic_noise, dom.noise(n) + 3, percent), ValueError, '%g%% of %d samples' % (percent, n))
    return 'refused'


def spaces(tier):
    deep = tier == 'thorough'

    def scripted():
        for n in range(1, 5 if not deep else 6):
            data = tuple(float(x) for x in (dom.noise(n) + 4))
            for k in range(0, n + 1):
                percent = 100.0 * k / n
                if int(Fraction(n) * Fraction(str(percent)) / 100) != k:
                    percent = 100.0 * k / n + 1e-6
                for draws in itertools.product(range(n), repeat=min(k + 2, n + 1)):
                    for normals in ((0.0,), (1.0, -2.0, 0.5)):
                        yield (data, percent, draws, normals)

    def seeds():
        for sh in ('offset', 'neg', 'ramp', 'const'):
            for n in (1, 7, 10, 24, 57, 100):
                for percent in (0, 1, 4, 5, 10, 12.5, 25, 29, 33.4, 50, 58, 75, 99, 100):
                    for seed in range(4 if not deep else 20):
                        yield (dom.shape(sh, n) - (0 if sh != 'ramp' else 1000), percent, seed)

    def magn():
        for k in range(-20, 40, 5):
            for s in (1, -1):
                for percent in (0.5, 20, 100):
                    yield (tuple(s * 2.0 ** k * (4 + dom.noise(8))), percent, 3)
    return [
        Space('scripted-draws', scripted, run, 'every sequence of integer draws (collisions included), up to 4/5 samples, every number of spikes'),
        Space('refused', lambda: [(n, p) for n in (1, 4, 10) for p in (100.5, 101, 150, 200, 1000)], run_bad, 'more than 100 percent'),
        Space('collisions', lambda: ((tuple(float(x) for x in dom.noise(n) + 4), p, (a,) * rep + tail, (1.0, -0.5)) for n in (2, 5, 10) for p in (50, 100)
                                     for a in (0, n - 1) for rep in (10, 100, 1000, 5000, 20000) for tail in ((), (a, 0, a, 1) * 50)), run, 'one sample drawn again and again, up to 20000 times'),
        Space('seeds', seeds, run_seed, '14 percentages, 6 sizes, fixed seeds'),
        Space('magnitudes', magn, run_seed, 'magnitudes 2^-20..2^35'),
        Space('integers', lambda: ((tuple(range(3, 3 + n)), p, s) for n in (4, 10, 25) for p in (0, 10, 20, 50, 100) for s in range(4)), run_seed, 'integer data'),
        Space('reachable', lambda: [(n, p) for n in (2, 3, 5, 8, 12) for p in (50, 25, 20, 12.5) if int(n * p / 100) >= 1], run_reach, 'every sample is polluted by some draw'),
        Space('deviation', lambda: [(dom.shape('offset', 400), p, 20) for p in (25, 50, 100)], run_spread, 'deviation of the random part over 2000+ spikes'),
        Space('long', lambda: ((dom.shape('offset', n), p, 1) for n in (1000, 2048) for p in (1, 5, 20, 50)), run_seed, 'long series'),
    ]


def constants():
    def cases():
        for n in dom.fresh_sizes(1, 4000):
            for p in (1, 10, 50):
                yield (dom.shape('offset', n), p, 1)
        for v in dom.fresh_values(0.0, 100.0):
            for n in (7, 40, 100):
                yield (dom.shape('offset', n), v, 2)
        for v in dom.fresh_values(1e-3, 1e9):
            for s in (1, -1):
                yield (s * v * (1 + dom.noise(24) / 8), 25, 3)
    return [Space('source-constants', cases, run_seed, dom.gained())]
