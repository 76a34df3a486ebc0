"""P25 power spectra (averaged, windowed, overlapping blocks)."""
import math
import numpy as np
from mc import dom, ref
from mc.core import Space, Violation, call, ok, same, step
import proadv.statistics.signal.spectrum as SP

MODS = ['proadv.statistics.signal.spectrum']
_cos = {}


def dft_power(x):
    """|DFT|^2 from the definition"""
    n = len(x)
    if n not in _cos:
        t = np.arange(n)
        ang = 2 * math.pi * (np.outer(t, t) % n) / n
        if len(_cos) > 40:
            _cos.clear()
        _cos[n] = (np.cos(ang), np.sin(ang))
    c, s = _cos[n]
    return (c @ x) ** 2 + (s @ x) ** 2


def reference(v, fs, overlap, block, onesided):
    win = np.array([0.5 - 0.5 * math.cos(2 * math.pi * i / (block - 1)) for i in range(block)]) if block > 1 else np.ones(1)
    hop = block - int(block * overlap / 100)
    acc, m, s = np.zeros(block), 0, 0
    while s + block <= len(v):
        seg = v[s:s + block]
        acc += dft_power((seg - ref.mean(seg)) * win)
        m += 1
        s += hop
    p = acc / m / (fs * math.fsum(win * win))
    if not onesided:
        return np.array([(k if 2 * k < block else k - block) * fs / block for k in range(block)]), p
    half = block // 2 + 1
    q = p[:half].copy()
    for k in range(1, half):
        if 2 * k != block:
            q[k] *= 2
    return np.array([k * fs / block for k in range(half)]), q


def run(c):
    v, fs, overlap, block, one = c
    v = np.array(v, dtype=float)
    kw = {}
    if overlap is not None:
        kw['overlap'] = overlap
    if block is not None:
        kw['block'] = block
    if one is not None:
        kw['onesided'] = one
    out = ok(call(SP.power_spectra, v.copy(), fs, **kw), 'power_spectra')
    try:
        f, p = out
    except Exception:
        raise Violation('power_spectra: expected (frequencies, spectrum), got %r' % (type(out),))
    fr, pr = reference(v, fs, 50 if overlap is None else overlap, 2048 if block is None else block, True if one is None else one)
    f, p = np.asarray(f, dtype=float), np.asarray(p, dtype=float)
    if one is False and len(f) == len(fr) and len(f) % 2 == 0:
        # the Nyquist line may be reported as +fs/2 or -fs/2
        k = len(f) // 2
        f = f.copy()
        f[k] = -abs(f[k])
    same(f, fr, 1e-12 * fs, 'frequencies')
    same(p, pr, 1e-9 * pr + 1e-12 * (pr.max() if pr.size else 0) + 1e-15 * len(v) * ref.scale(v) ** 2 / fs, 'spectral density')
    return p


def spaces(tier):
    deep = tier == 'thorough'
    bl = (4, 5, 6, 8) if not deep else (3, 4, 5, 6, 7, 8)

    def words():
        for w in dom.words((0.0, 1.0, -3.0), 4, 8 if deep else 7):
            for b in bl:
                if b <= len(w):
                    for ov in (0, 25, 50, 75):
                        for one in (True, False):
                            yield (w, 10.0, ov, b, one)

    def overlaps():
        for sh in ('noise', 'spiky', 'offset'):
            for n in (40, 53, 64):
                for b in list(range(3, 21)) + [32, 40]:
                    for ov in range(0, 96, 5) if not deep else range(0, 100):
                        for one in (True, False):
                            yield (dom.shape(sh, n), 25.0, ov, b, one)

    def shapes():
        for sh in dom.SHAPES:
            for n in (16, 33, 100):
                for b in (16, 15, 9):
                    for fs in (1.0, 100, 0.25, 44100.0):
                        for one in (True, False, None):
                            yield (dom.shape(sh, n), fs, None, b, one)

    def tones():
        for b in (16, 25, 32):
            for k in range(0, b // 2 + 1):
                for ph in (0.0, 0.5):
                    for ov in (0, 50, 70):
                        yield (np.cos(2 * np.pi * (k * np.arange(3 * b) / b) + ph) * 4 + 1.0, 50.0, ov, b, True)
    sizes = [256, 500, 1000] + [s for s in dom.literal_sizes(3, 2100, MODS, 8)]
    return [
        Space('words', words, run, 'every series over 3 values, 4..7 samples, blocks 4..8, 4 overlaps'),
        Space('overlaps', overlaps, run, 'every block length 3..20, overlaps 0..95'),
        Space('shapes', shapes, run, '19 shapes, 4 sampling rates, default overlap'),
        Space('every-overlap', lambda: ((dom.shape(sh, 2 * b + 31), 25.0, ov, b, True) for b in (50, 100, 125) for sh in ('noise', 'spiky') for ov in list(range(0, 99)) + [0.5, 12.5, 33.4, 66.7, 97.25]), run,
              'every whole overlap percentage 0..98 and some fractional ones, blocks 50, 100, 125'),
        Space('tones', tones, run, 'a tone at every line of the spectrum'),
        Space('magnitudes', lambda: ((dom.shape(sh, 40) * 2.0 ** k, fs, 50, b, one) for sh in ('noise', 'offset', 'spiky') for k in (-200, -100, -60, -40, -20, 20, 40, 60, 100, 200)
                                     for fs in (1e-6, 1.0, 1e9) for b in (8, 15) for one in (True, False)), run, 'magnitudes 2^-200..2^200, rates 1e-6..1e9'),
        Space('very-long', lambda: ((dom.shape('spiky', n), 100.0, ov, 128, True) for n in (40009, 70001) for ov in (0, 50)), run, '40009 and 70001 samples'),
        Space('defaults', lambda: ((dom.shape(sh, n), fs, None, None, one) for sh in ('noise', 'offset') for n in (2048, 3072, 5000) for fs in (25, 100.0) for one in (None, False)), run,
              'default block of 2048'),
        Space('long', lambda: ((dom.shape(sh, 2300), 100.0, ov, b, True) for sh in ('noise', 'spiky') for b in sizes for ov in (0, 50, 66)), run, 'block sizes %s' % sizes),
        Space('measured', lambda: ((dom.record(*c), 100.0, ov, b, one) for c in dom.stretches(1000, 4000, 18000) for ov in (0, 50, 75) for b in (128, 255) for one in (True, False)), run, 'measured velocity records, stretches of several lengths'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((40, 130), 16, 20000):
            for b, one in ((16, True), (15, False)):
                yield (dom.build(c), 25.0, 50, b, one)
        for b in dom.fresh_sizes(3, 1500):
            for n in (b, b + 1, 3 * b):
                for ov in (0, 50, 66):
                    for one in (True, False):
                        yield (dom.noise(n, 3), 25.0, ov, b, one)
        for v in dom.fresh_values(1e-9, 1e9):
            for one in (True, False):
                yield (dom.noise(60, 3), v, 50, 16, one)
                if v < 95:
                    yield (dom.noise(160, 3), 25.0, v, 40, one)
                    yield (dom.noise(160, 3), 25.0, int(v), 40, one)
    return [Space('source-constants', cases, run, dom.gained())]
