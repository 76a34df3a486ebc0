"""P22 singular spectrum analysis."""
import math
import numpy as np
from mc import dom, ref
from mc.core import Space, as_series, call, note, same
import proadv.statistics.series as S

MODS = ['proadv.statistics.series']


def mobility(a):
    L = len(a)
    d = np.diff(a)
    return math.sqrt(math.fsum(d * d)) / (L - 1) / (math.sqrt(math.fsum(a * a)) / L)


def reference(v, fs, f):
    """filtered series, or None when the choice of components is too close to call."""
    n = len(v)
    L = int(math.ceil(fs / f))
    k = n - L + 1
    X = np.array([[v[i + j] for j in range(k)] for i in range(L)])
    U, sv, _ = np.linalg.svd(X, full_matrices=False)
    lam = sv ** 2
    if lam[0] == 0:
        return np.zeros(n)
    thr = mobility(np.array([math.sin(2 * math.pi * i * f / fs) for i in range(L)]))
    P = np.zeros((L, L))
    relevant = [i for i in range(len(lam)) if lam[i] > 1e-16 * lam[0]]
    for a in range(len(relevant)):
        i = relevant[a]
        # weight of an unreliable component is bounded by its singular value
        if sv[i] < 1e-7 * max(1.0, sv[0]):
            continue
        if any(abs(lam[i] - lam[j]) < 1e-7 * lam[0] for j in relevant if j != i and sv[j] >= 1e-7 * max(1.0, sv[0])):
            return None
        m = mobility(U[:, i])
        # 1.5e-4 L: the implementation may round the norms to four decimals
        if abs(m - thr) <= thr * 1.5e-4 * L + 1e-6:
            return None
        if m < thr:
            P += np.outer(U[:, i], U[:, i])
    Y = P @ X
    out = np.zeros(n)
    cnt = np.zeros(n)
    for i in range(L):
        for j in range(k):
            out[i + j] += Y[i, j]
            cnt[i + j] += 1
    return out / cnt


def run(c, form=None):
    v, fs, f = c
    v = np.array(v, dtype=float)
    want = reference(v, fs, f)
    got = as_series(call(S.ssa, v.copy() if form is None else v.astype(int).tolist() if form == 'list' else v.astype(form), fs, f), len(v), 'ssa')
    if want is None:
        note('component_choice_too_close_to_call')
        return 'ambiguous'
    same(got, want, 0.5e-4 + 1e-5 + 1e-8 * ref.scale(v), 'ssa(fs=%g, f=%g)' % (fs, f))
    if ref.scale(v) < 1e6:
        same(got, np.round(got * 1e4) / 1e4, 1e-9, 'ssa rounded to four decimals')
    return got


FF = ((3, 1), (10, 4), (100, 30), (25, 5), (100, 21), (50, 7), (100, 11), (64, 5))


def spaces(tier):
    deep = tier == 'thorough'
    nm = 8 if deep else 7

    def words():
        for w in dom.words((0.0, 1.0, -3.0), 3, nm):
            for fs, f in ((3, 1), (10, 4), (4, 1), (10, 2), (100.0, 33.5)):
                if math.ceil(fs / f) <= len(w):
                    yield (w, fs, f)

    def shapes():
        for sh in ('noise', 'noise2', 'spiky', 'sine', 'step', 'quad', 'offset', 'square', 'ramp', 'const', 'ties', 'cubic', 'alt', 'tiny', 'huge', 'onespike'):
            for n in range(3, 60 if deep else 44):
                for fs, f in FF:
                    if math.ceil(fs / f) <= n:
                        yield (dom.shape(sh, n), fs, f)

    def windows():
        for sh in ('noise', 'spiky', 'sine', 'offset'):
            for n in (24, 31, 40):
                for L in range(3, n + 1):
                    for eps in (0.0, 0.25, 0.75):
                        f = 100.0 / (L - eps)
                        if eps or 100 % L == 0:
                            yield (dom.shape(sh, n), 100.0, f if eps else 100 // L)

    def impulses():
        for n in (12, 20):
            for i in range(n):
                for fs, f in FF:
                    if math.ceil(fs / f) <= n:
                        yield (dom.noise(n) + 20 * np.eye(n)[i], fs, f)
    def run_typed(c):
        v, fs, f, t = c
        return run((v, fs, f), t)

    def typed():
        for t, top in (('int8', 127), ('uint8', 255), ('int16', 32767), ('uint16', 65535), ('int32', 2 ** 20), ('int64', 2 ** 20), ('float32', 1000), ('list', 1000)):
            for sh in ('noise', 'spiky', 'sine', 'offset'):
                for n in (14, 30):
                    x = dom.shape(sh, n)
                    lo = 0 if t[0] == 'u' else -top
                    x = np.round(lo + (x - x.min()) / np.ptp(x) * (top - lo))
                    for fs, f in FF:
                        if math.ceil(fs / f) <= n:
                            yield (x, fs, f, t)
    return [
        Space('types', typed, run_typed, '5 integer widths filling their range, single precision, lists'),
        Space('words', words, run, 'every series over 3 values, 3..%d samples, windows 3..5' % nm),
        Space('shapes', shapes, run, '16 shapes, every length, windows 3..13'),
        Space('windows', windows, run, 'every window length 3..n'),
        Space('just-off', lambda: ((dom.shape(sh, 30), 100.0, 100.0 / (L + s * e)) for sh in ('noise', 'spiky', 'offset') for L in range(3, 14)
                                   for e in (0.1, 3e-2, 1e-2, 4e-3, 1e-3, 1e-4, 1e-5, 1e-6) for s in (1, -1)), run, 'rate ratios just above and below every integer 3..13'),
        Space('impulses', impulses, run, 'one spike at every position'),
        Space('magnitudes', lambda: ((dom.shape(sh, n) * 2.0 ** k, fs, f) for sh in ('noise', 'spiky', 'sine', 'offset') for n in (14, 30) for fs, f in FF for k in (-10, -5, 5, 10, 20, 30, 40) if math.ceil(fs / f) <= n),
              run, 'magnitudes 2^-10..2^40'),
        Space('rates', lambda: ((dom.shape(sh, 30), fs * s, f * s) for sh in ('noise', 'spiky', 'offset') for fs, f in FF for s in (2.0 ** -20, 2.0 ** -6, 2.0 ** 6, 2.0 ** 20)), run,
              'sampling rates from 1e-6 to 1e8'),
        Space('long', lambda: ((dom.shape(sh, n), fs, f) for sh in ('noise', 'spiky', 'sine', 'offset') for n in [150, 300] + dom.literal_sizes(30, 500, MODS, 6)
                               for fs, f in FF + ((100, 5), (25, 1))), run, 'long series'),
        Space('measured', lambda: ((dom.record(*c), 100, f) for c in dom.stretches(200, 3000, 18000) for f in (30, 11, 5)), run, 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((16, 40), 13, 500, 1e-2, 1e8):
            for fs, f in FF[1::2]:
                if math.ceil(fs / f) <= c[2]:
                    yield (dom.build(c), fs, f)
        for v in dom.fresh_values(1e-6, 1e6):
            for r in (3, 4.5, 10, 12.3):
                yield (dom.noise(40, 3) * 4, v, v / r)
                yield (dom.noise(40, 3) * 4, v * r, v)
        for L in dom.fresh_sizes(3, 120):
            for e in (0.25, 0.75):
                yield (dom.noise(max(L, 40) + 20, 3) * 4, 100.0, 100.0 / (L - e))
    return [Space('source-constants', cases, run, dom.gained())]
