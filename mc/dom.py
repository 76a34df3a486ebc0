"""Finite alphabets and enumerations shared by the checks."""
import ast
import importlib.util
import itertools

import numpy as np


def words(alphabet, nmin, nmax):
    """Every word over the alphabet, shortest first (the trie in breadth-first order)."""
    for n in range(nmin, nmax + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield w


def subsets(n, kmin=0, kmax=None):
    for k in range(kmin, (n if kmax is None else kmax) + 1):
        for c in itertools.combinations(range(n), k):
            yield c


def runs(n, longest=None):
    """Every contiguous run of positions in a series of n samples."""
    for length in range(1, (longest or n) + 1):
        for start in range(0, n - length + 1):
            yield tuple(range(start, start + length))


def noise(n, seed=1):
    """A fixed, aperiodic series in [-1, 1) with dyadic values (exactly representable, exact sums)."""
    out = np.empty(n)
    s = seed * 2654435761 % 2 ** 32
    for i in range(n):
        s = (1664525 * s + 1013904223) % 2 ** 32
        out[i] = ((s >> 12) % 2048 - 1024) / 1024.0
    return out


def shape(name, n):
    i = np.arange(n)
    if name == 'ramp':
        return i.astype(float)
    if name == 'fall':
        return (n - 1 - i) * 0.5 - 3.0
    if name == 'const':
        return np.full(n, 2.5)
    if name == 'zero':
        return np.zeros(n)
    if name == 'alt':
        return np.where(i % 2 == 0, 1.0, -1.0)
    if name == 'square':
        return np.where((i // 5) % 2 == 0, 4.0, -2.0)
    if name == 'quad':
        return (i - n / 2.0) ** 2 / 8.0
    if name == 'cubic':
        return ((i - n // 2) / 8.0) ** 3 - (i - n // 2) / 4.0
    if name == 'noise':
        return noise(n)
    if name == 'noise2':
        return noise(n, 7) * 8.0
    if name == 'offset':
        return noise(n, 3) * 0.5 + 64.0
    if name == 'neg':
        return noise(n, 5) - 32.0
    if name == 'spiky':
        a = noise(n, 11)
        for k in range(3, n, 13):
            a[k] = 24.0 if (k // 13) % 2 == 0 else -24.0
        return a
    if name == 'onespike':
        a = noise(n, 13) * 0.25
        if n:
            a[n // 2] = 40.0
        return a
    if name == 'sine':
        return np.round(np.sin(2 * np.pi * i / 17.0) * 512) / 512
    if name == 'step':
        return np.where(i < n // 2, -1.0, 3.0)
    if name == 'tiny':
        return noise(n, 17) / 2.0 ** 20
    if name == 'huge':
        return noise(n, 19) * 2.0 ** 30
    if name == 'ties':
        return np.round(noise(n, 23) * 2) / 2
    raise KeyError(name)


SHAPES = ['ramp', 'fall', 'const', 'zero', 'alt', 'square', 'quad', 'cubic', 'noise', 'noise2', 'offset', 'neg',
          'spiky', 'onespike', 'sine', 'step', 'tiny', 'huge', 'ties']


_records = {}


def record(name, component, start, n):
    """a stretch of a measured velocity record that comes with the repository (cm/s); noise of that
    kind when the file is missing"""
    from mc.core import REPO
    import os
    if name not in _records:
        path = os.path.join(REPO, 'dataset', name + '.csv')
        try:
            _records[name] = np.loadtxt(path, delimiter=',', skiprows=1)
        except Exception:
            _records[name] = np.array([20 + 8 * noise(20000, 3), -15 + 8 * noise(20000, 5), -4 + 3 * noise(20000, 7)]).T
    return _records[name][start:start + n, component].copy()


def stretches(n, step, most=20000):
    for name in ('first', 'second'):
        for c in range(3):
            for start in range(0, most - n, step):
                yield (name, c, start, n)


def source_literals(*module_names):
    """Numbers the CURRENT source of the given modules mentions.  They only widen the alphabets
    (sizes, windows, magnitudes next to every constant the code could branch on); they never
    take part in a verdict.  Constants with a side effect on exactness are left to the caller."""
    found = set()
    for name in module_names:
        try:
            path = importlib.util.find_spec(name).origin
            tree = ast.parse(open(path, encoding='utf8').read())
        except Exception:
            continue
        for node in ast.walk(tree):
            v = _fold(node)
            if v is not None:
                found.add(float(v))
    return found


def _fold(node):
    """the value of a numeric constant expression such as 4096, 2 ** 12, 1 << 14 or 64 * 1024"""
    if isinstance(node, ast.Constant):
        return node.value if isinstance(node.value, (int, float)) and not isinstance(node.value, bool) else None
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(node.op, ast.Pow) and 0 <= b <= 64:
                return a ** b
            if isinstance(node.op, ast.LShift) and 0 <= b <= 64:
                return a << b
            if isinstance(node.op, ast.Mult):
                return a * b
            if isinstance(node.op, ast.Sub):
                return a - b
            if isinstance(node.op, ast.Add):
                return a + b
        except Exception:
            return None
    return None


def literal_sizes(lo, hi, modules, cap=24):
    """Sizes adjacent to the integer constants of the source, within [lo, hi]; of more than cap the
    largest, because the small sizes are enumerated anyway."""
    out = set()
    for c in source_literals(*modules):
        if c == c and abs(c) < 1e9 and c == int(c):
            out |= {int(c) - 1, int(c), int(c) + 1}
    return sorted(s for s in out if lo <= s <= hi)[-cap:]


def literal_values(modules, lo=0.0, hi=1e12):
    """Magnitudes from the source, for use as data values."""
    return sorted(abs(c) for c in source_literals(*modules) if lo <= abs(c) <= hi)


def index_forms(idx, n):
    """The same set of flagged positions as callers present it."""
    idx = sorted(idx)
    yield 'array', np.array(idx, dtype=int)
    yield 'list', [int(i) for i in idx]


def index_variants(idx):
    """Equivalent presentations: order, repetition, container and integer width."""
    idx = sorted(idx)
    rev = idx[::-1]
    dup = sorted(idx + idx[:2])
    yield 'list', list(idx)
    yield 'tuple', tuple(idx)
    yield 'int32', np.array(idx, dtype=np.int32)
    yield 'reversed', np.array(rev, dtype=int)
    yield 'duplicated', np.array(dup, dtype=int)
    if len(idx) > 2:
        yield 'rotated', np.array(idx[1:] + idx[:1], dtype=int)


# ---- change-directed alphabets ----------------------------------------------------------------
# constants.json counts the numeric constants of the package as it was when the bounds of the checks
# were chosen.  A constant the current source has in excess of that is a place where the code may have
# learnt to branch, to clip or to round: sizes, counts, magnitudes and parameters on both sides of it
# are added to the alphabets.  On the unchanged tree there is none and the spaces are empty.

_fresh = None


def package_constants():
    from collections import Counter
    import glob
    import os
    from mc.core import REPO
    out = Counter()
    for path in sorted(glob.glob(os.path.join(REPO, 'proadv', '**', '*.py'), recursive=True)):
        try:
            tree = ast.parse(open(path, encoding='utf8').read())
        except Exception:
            continue
        for node in ast.walk(tree):
            v = _fold(node)
            if isinstance(v, (int, float)) and v == v and abs(v) < 1e300:
                out['%.17g' % abs(float(v))] += 1
    return out


def fresh(cap=8):
    global _fresh
    if _fresh is None:
        import json
        import os
        if os.environ.get('MC_FRESH'):       # to try the spaces out on any tree
            _fresh = sorted(float(x) for x in os.environ['MC_FRESH'].split(','))
            return fresh(cap)
        try:
            base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'constants.json')))
            now = package_constants()
            _fresh = sorted(float(k) for k in now if now[k] > base.get(k, 0) and float(k) not in (0.0, 1.0, 2.0))
        except Exception:
            _fresh = []
    # of too many, the least usual ones: small integers are inside the ordinary bounds
    return sorted(_fresh, key=lambda c: (c == int(c) and c <= 10, c))[:cap]


def fresh_values(lo=0.0, hi=1e12, factors=(0.5, 0.97, 1.0, 1.03, 2.0)):
    """magnitudes on both sides of every fresh constant; 10^-c for a small integer c, which may be
    a number of decimals"""
    out = set()
    for c in fresh():
        out |= {c * f for f in factors}
        if c == int(c) and 3 <= c <= 15:
            out |= {10.0 ** -c * f for f in (0.5, 3.0, 40.0)}
    return sorted(v for v in out if lo <= v <= hi)


def fresh_sizes(lo, hi, cap=24):
    out = set()
    for c in fresh():
        if c == int(c) and c < 1e9:
            c = int(c)
            out |= {c - 1, c, c + 1, c + 2, 2 * c, 2 * c + 1}
    return sorted(s for s in out if lo <= s <= hi)[:cap]


def fresh_series(sizes=(24, 130), lo=1, hi=20000, vlo=1e-15, vhi=1e12, shapes=('noise', 'spiky')):
    """series next to every fresh constant: in length, scale, offset, and the height of one spike"""
    for n in fresh_sizes(lo, hi):
        for sh in shapes:
            yield ('size', sh, n, 1.0)
    for n in sizes:
        for v in fresh_values(vlo, vhi):
            for sh in shapes:
                yield ('scale', sh, n, v)
            yield ('offset', 'noise', n, v)
            yield ('offset', 'noise', n, -v)
            yield ('peak', 'noise', n, v)
            yield ('peak', 'noise', n, -v)


def build(case):
    kind, sh, n, v = case
    a = shape(sh, n)
    if kind == 'scale':
        return a * v
    if kind == 'offset':
        return a + v
    if kind == 'peak':
        a[n // 2] = v
    return a


def fresh_masks(n):
    """flag sets next to every fresh constant: runs inside, leading and trailing, single positions, counts,
    fractions of the length, gaps between flags"""
    out = []
    ks = set()
    for c in fresh():
        if c == int(c) and c <= n:
            ks |= {int(c) - 1, int(c), int(c) + 1}
        if 0 < c < 1:
            ks |= {int(c * n), int(c * n) + 1}
        if 1 < c <= 100:
            ks |= {int(c / 100 * n), int(c / 100 * n) + 1}
    for k in sorted(k for k in ks if 0 < k < n):
        a = max(1, (n - k) // 2)
        out += [tuple(range(a, min(n - 1, a + k))), tuple(range(k)), tuple(range(n - k, n)), (k,), (n - 1 - k,),
                tuple(int(i) for i in np.unique(np.linspace(0, n - 1, k).astype(int))),
                tuple(range(1, n, k)), tuple(i for i in range(n) if i % k != 0)]
    return [s for s in dict.fromkeys(out) if len(s) < n]


def gained():
    return 'sizes, magnitudes, counts and parameters next to the constants the source has gained: %s' % (fresh() or 'none')


# ---- gallery ------------------------------------------------------------------------------------
# One series for every structural feature a branch could be keyed on (see "gallery" in DESIGN.md):
# symmetry, periodicity, plateaus, ties, order, position and sign of the extremes, sign pattern,
# zero mean/median/skewness, offset and dynamic range, smoothness, placement of outliers.

def _spikes(n, where, seed=29, scale=0.25):
    a = noise(n, seed) * scale
    for k, h in where:
        if -n <= k < n:
            a[k] = h
    return a


def gal(name, n):
    i = np.arange(n)
    x = noise(n, 31)
    h = n // 2
    if name == 'const+':
        return np.full(n, 3.0)
    if name == 'const-':
        return np.full(n, -1.25)
    if name == 'const tenth':
        return np.full(n, 0.1)
    if name == '-0':
        return np.where(i % 3 == 0, -0.0, 0.0)
    if name == 'some -0':
        return np.where(i % 4 == 1, -0.0, x)
    if name == 'palindrome':
        return np.where(i < n - 1 - i, x, x[::-1]) * 2
    if name == 'antisym':
        a = np.where(i < n - 1 - i, x, -x[::-1]) * 2
        if n % 2:
            a[h] = 0.0
        return a
    if name in ('period2', 'period3', 'period4', 'period5', 'period7'):
        return noise(int(name[6:]), 37)[i % int(name[6:])] * 3
    if name == 'halves const':
        return np.where(i < h, x, 0.75)
    if name == 'const halves':
        return np.where(i < h, -0.5, x)
    if name == 'plateau':
        return np.where((i >= n // 4) & (i < n - n // 4), 0.5, x)
    if name == 'plateau max':
        return np.where((i >= n // 3) & (i < n - n // 3), 2.0, x)
    if name == 'ends flat':
        return np.where((i < n // 3) | (i >= n - n // 3), 0.25, x * 2)
    if name == 'level shift':
        return x * 0.25 + np.where(i < h, 0.0, 8.0)
    if name == 'levels':
        return np.where(i < n // 3, 1.0, np.where(i < 2 * n // 3, -2.0, 5.0))
    if name == 'scale shift':
        return x * np.where(i < h, 0.0625, 4.0)
    if name == 'line up':
        return 0.25 * i - 1.5
    if name == 'line down':
        return 5.0 - 0.5 * i
    if name == 'line origin':
        return i * 1.0
    if name == 'line noise':
        return 0.5 * i + x * 0.125
    if name == 'parabola':
        return (i - (n - 1) / 2.0) ** 2 / 4
    if name == 'zigzag':
        return np.where(i % 2 == 0, 1.0, -1.0) * (1 + np.abs(x))
    if name == 'zigzag shrink':
        return np.where(i % 2 == 0, 1.0, -1.0) * (1.0 + (n - i) / 8.0)
    if name == 'asc':
        return np.sort(x) * 4
    if name == 'desc':
        return -np.sort(x) * 4
    if name == 'asc ties':
        return np.floor(i / 3.0)
    if name == 'desc ties':
        return -np.floor(i / 4.0) + 2
    if name == 'two valued':
        return np.where(noise(n, 41) > 0.25, 1.0, -2.0)
    if name == 'rare value':
        return np.where(i == h, 7.0, 2.0)
    if name == 'rare negative':
        return np.where(i == n // 3, -7.0, 1.0)
    if name == 'three valued':
        return np.where(x > 0.3, 1.0, np.where(x < -0.3, -1.0, 0.0))
    if name == 'majority':
        return np.where(noise(n, 43) > -0.25, 0.5, x * 4)
    if name == 'majority zero':
        return np.where(noise(n, 43) > -0.25, 0.0, x * 4)
    if name == 'pairs':
        return np.repeat(noise(h + 1, 47), 2)[:n] * 2
    if name == 'first two equal':
        a = x.copy()
        a[1:2] = a[0]
        return a
    if name == 'last two equal':
        a = x.copy()
        a[-2:-1] = a[-1]
        return a
    if name == 'ends equal':
        a = x.copy()
        a[-1] = a[0]
        return a
    if name == 'max first':
        return _spikes(n, [(0, 3.0)])
    if name == 'max last':
        return _spikes(n, [(-1, 3.0)])
    if name == 'min first':
        return _spikes(n, [(0, -3.0)])
    if name == 'min last':
        return _spikes(n, [(-1, -3.0)])
    if name == 'max min ends':
        return _spikes(n, [(0, 2.0), (-1, -2.0)])
    if name == 'max=-min':
        return _spikes(n, [(h, 4.0), (n // 4, -4.0)])
    if name == 'max tie':
        return _spikes(n, [(1, 4.0), (h, 4.0), (-2, 4.0)])
    if name == 'min tie':
        return _spikes(n, [(2, -4.0), (h, -4.0)])
    if name == 'extremes adjacent':
        return _spikes(n, [(h, 4.0), (h + 1, -3.0)])
    if name == 'run3':
        return _spikes(n, [(h - 1, 6.0), (h, 6.0), (h + 1, 6.0)])
    if name == 'run3 mixed':
        return _spikes(n, [(h - 1, 6.0), (h, -7.0), (h + 1, 5.0)])
    if name == 'two apart':
        return _spikes(n, [(h - 1, 6.0), (h + 1, 6.5)])
    if name == 'second':
        return _spikes(n, [(1, 6.0)])
    if name == 'second last':
        return _spikes(n, [(-2, -6.0)])
    if name == 'both ends':
        return _spikes(n, [(0, 6.0), (-1, 6.0)])
    if name == 'many':
        return _spikes(n, [(k, 8.0 if k % 2 else -8.0) for k in range(4, n, max(9, n // 12))])
    if name == 'many up':
        return _spikes(n, [(k, 8.0) for k in range(5, n, max(11, n // 9))])
    if name == 'graded':
        return _spikes(n, [(k, (j + 1) * (1.0 if j % 2 else -1.0)) for j, k in enumerate(range(3, n, max(7, n // 10)))])
    if name == 'giant':
        return _spikes(n, [(n // 3, 1024.0)])
    if name == 'giant-':
        return _spikes(n, [(2 * n // 3, -65536.0)])
    if name == 'masked':
        return _spikes(n, [(n // 4, 4096.0), (h, 6.0), (n - 4, -6.0)])
    if name == 'off 2^4':
        return x + 16.0
    if name == 'off -2^8':
        return x - 256.0
    if name == 'off 2^14':
        return x + 16384.0
    if name == 'off 2^24':
        return x + 2.0 ** 24
    if name == 'wide':
        return x * 2.0 ** (-(i % 7) * 5.0)
    if name == 'very wide':
        return x * 2.0 ** (20.0 - (i % 9) * 8.0)
    if name == 'growing':
        return x * 2.0 ** (i * 16.0 / n)
    if name == 'slow':
        return np.round(np.sin(2 * np.pi * i / (n + 0.0)) * 1024) / 1024
    if name == 'slow2':
        return np.round(np.cos(np.pi * (i + 0.5) / n) * 4096) / 1024
    if name == 'fast':
        return np.where(i % 2 == 0, 1.0, -1.0) + x / 16
    if name == 'beat':
        return np.round(np.sin(i * 0.9) * np.sin(i * 0.05) * 256) / 64
    if name == 'exact tone':
        return np.round(np.cos(2 * np.pi * i / 8.0) * 2 ** 20) / 2 ** 20
    if name == 'ints':
        return np.round(x * 9)
    if name == 'big ints':
        return np.round(x * 4000)
    if name == 'halves':
        return np.round(x * 7) + 0.5
    if name == 'thirds':
        return np.round(x * 9) / 3.0
    if name == 'cents':
        return np.round(x * 500) / 100.0
    if name == 'some ints':
        return np.where(i % 2 == 0, np.round(x * 5), x * 5)
    if name == 'all neg':
        return -np.abs(x) - 0.125
    if name == 'all pos':
        return np.abs(x) * 4 + 0.0625
    if name == 'max zero':
        return -np.abs(np.where(i == h, 0.0, x))
    if name == 'min zero':
        return np.abs(np.where(i == n // 3, 0.0, x))
    if name == 'sum zero':
        a = x.copy()
        a[-1] -= a.sum()
        return a
    if name == 'mean one':
        return gal('sum zero', n) + 1.0
    if name == 'median zero':
        a = x * 2 + 0.5
        o = np.argsort(a, kind='stable')
        lo, hi = o[(n - 1) // 2], o[n // 2]
        a = a - (a[lo] + a[hi]) / 2
        return a
    if name == 'skew-':
        return -(x * 1.5 + 1.5) ** 3 + 1
    if name == 'skew+':
        return (x * 1.5 + 1.5) ** 3 - 2
    if name == 'flat top':
        return np.clip(x * 3, -0.75, 0.75)
    if name == 'gentle':
        return 5 + x * 2.0 ** -9
    if name == 'trend season':
        return 0.125 * i + noise(4, 53)[i % 4] + x / 32
    if name == 'walk':
        return np.cumsum(x) / 2
    if name == 'tiny':
        return x * 2.0 ** -40
    if name == 'big':
        return x * 2.0 ** 40
    if name == 'huge':
        return x * 2.0 ** 110
    if name == 'minute':
        return x * 2.0 ** -110
    raise KeyError(name)


EXACT = ['const+', 'const-', 'const tenth', '-0', 'some -0', 'palindrome', 'antisym', 'period2', 'period3', 'period4', 'period5', 'period7',
         'halves const', 'const halves', 'plateau', 'plateau max', 'ends flat', 'level shift', 'levels', 'scale shift',
         'line up', 'line down', 'line origin', 'line noise', 'parabola', 'zigzag', 'zigzag shrink', 'asc', 'desc', 'asc ties',
         'desc ties', 'two valued', 'rare value', 'rare negative', 'three valued', 'majority', 'majority zero', 'pairs',
         'first two equal', 'last two equal', 'ends equal', 'slow', 'slow2', 'fast', 'beat', 'exact tone', 'ints', 'big ints',
         'halves', 'thirds', 'cents', 'some ints', 'all neg', 'all pos', 'max zero', 'min zero', 'sum zero', 'mean one',
         'median zero', 'skew-', 'skew+', 'flat top', 'gentle', 'trend season', 'walk']
OUTLYING = ['max first', 'max last', 'min first', 'min last', 'max min ends', 'max=-min', 'max tie', 'min tie',
            'extremes adjacent', 'run3', 'run3 mixed', 'two apart', 'second', 'second last', 'both ends', 'many', 'many up', 'graded',
            'giant', 'giant-', 'masked']
OFFSET = ['off 2^4', 'off -2^8', 'off 2^14', 'off 2^24', 'wide', 'very wide', 'growing']
EXTREME = ['tiny', 'big', 'huge', 'minute']
GALLERY = EXACT + OUTLYING + OFFSET + EXTREME
MODEST = EXACT + OUTLYING + OFFSET[:2]
GSIZES = (8, 9, 20, 49, 64, 100, 300)


def gallery(sizes=GSIZES, names=None, long=()):
    for n in sizes:
        for name in names or GALLERY:
            yield (name, n)
    for n in long:
        for name in OUTLYING + ['slow', 'slow2', 'plateau', 'level shift', 'majority', 'period5', 'walk', 'off 2^4']:
            if names is None or name in names:
                yield (name, n)


def gallery_masks(n, v=None):
    """flag sets by structure: none, ends, runs, combs, complements, all, the extremes of the series"""
    out = [(), (0,), (n - 1,), (0, n - 1), (n // 2,), (0, 1, 2), (n - 3, n - 2, n - 1), (n // 3, n // 3 + 1, n // 3 + 4), tuple(range(n // 4, n - n // 4)),
           tuple(range(0, n, 2)), tuple(range(1, n, 2)), tuple(i for i in range(n) if i != n // 2), tuple(range(1, n)), tuple(range(n - 1))]
    if v is not None and n:
        a, b = int(np.argmax(v)), int(np.argmin(v))
        out += [(a,), (b,), tuple(sorted({a, b})), tuple(int(k) for k in np.nonzero(v == np.max(v))[0])]
    return [s for s in dict.fromkeys(out) if all(0 <= k < n for k in s)]


def permuted(idx):
    """unsorted presentations of the same positions"""
    idx = list(idx)
    yield np.array(idx[::-1], dtype=int)
    if len(idx) > 2:
        h = len(idx) // 2
        yield np.array(idx[h:] + idx[:h], dtype=int)
        yield np.array(sorted(idx + idx[::2]), dtype=int)
        yield np.array(idx[1::2] + idx[::2], dtype=int)


def partner(kind, x):
    """a second component in a given relation to the first"""
    n = len(x)
    e = noise(n, 59)
    s = float(np.max(np.abs(x))) if n else 0.0
    s = s if s > 0 else 1.0
    if kind == 'same':
        return x.copy()
    if kind == 'object':
        return x
    if kind == 'negated':
        return -x
    if kind == 'reversed':
        return x[::-1].copy()
    if kind == 'sorted':
        return np.sort(x)
    if kind == 'rolled':
        return np.roll(x, 1)
    if kind == 'doubled':
        return x * 2
    if kind == 'affine':
        return -0.5 * x + s * 4
    if kind == 'plus noise':
        return x + e * (s / 16)
    if kind == 'minus noise':
        return e * (s / 8) - x
    if kind == 'noise':
        return e * s
    if kind == 'small':
        return e * (s * 2.0 ** -10)
    if kind == 'large':
        return e * (s * 2.0 ** 10)
    if kind == 'squared':
        return x * (x / s)
    if kind == 'magnitude':
        return np.abs(x)
    if kind == 'constant':
        return np.full(n, s / 2)
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'shifted':
        return x + s
    if kind == 'one differs':
        y = x.copy()
        y[n // 2] += s
        return y
    if kind == 'half same':
        return np.where(np.arange(n) < n // 2, x, e * s)
    raise KeyError(kind)


PARTNERS = ['same', 'object', 'negated', 'reversed', 'sorted', 'rolled', 'doubled', 'affine', 'plus noise', 'minus noise', 'noise', 'small', 'large',
            'squared', 'magnitude', 'constant', 'zero', 'shifted', 'one differs', 'half same']
