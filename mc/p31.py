"""P31 bivariate kernel density on a grid."""
import itertools
import math
import numpy as np
from mc import dom, ref
from mc.core import Space, Violation, call, note, ok, same, step
import proadv.kernel.bivariate as K

MODS = ['proadv.kernel.bivariate']


def smoother(grid, h):
    """heat kernel with reflecting boundaries on the cell centres, bandwidth h"""
    S = np.zeros((grid, grid))
    c = (np.arange(grid) + 0.5) / grid
    for k in range(grid):
        w = (1.0 if k == 0 else 2.0) * math.exp(-(k * math.pi * h) ** 2 / 2) / grid
        b = np.cos(math.pi * k * c)
        S += w * np.outer(b, b)
    return S


def cells(x, grid):
    """bin of every sample; None = too close to a cell border to call"""
    lo, hi = float(min(x)), float(max(x))
    out = []
    for t in x:
        u = (float(t) - lo) / (hi - lo) * grid
        if t == hi:
            out.append(grid - 1)
        elif t == lo:
            out.append(0)
        elif abs(u - round(u)) < 1e-9:
            return None
        else:
            out.append(int(math.floor(u)))
    return out


def judge(x, y, hx, hy, grid, form='array'):
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    data = np.array([x, y])
    out = ok(call(K.bivariate_kernel, data.copy() if form == 'array' else data.tolist(), hx, hy, grid), 'bivariate_kernel')
    try:
        d, mx, my = [np.asarray(o, dtype=float) for o in out]
    except Exception as e:
        raise Violation('bivariate_kernel: expected (density, x mesh, y mesh): %r' % (e,))
    if d.shape != (grid, grid):
        raise Violation('density has shape %s, expected %d x %d' % (d.shape, grid, grid))
    sx, sy = x.max() - x.min(), y.max() - y.min()
    gx = np.linspace(x.min(), x.max(), grid)
    gy = np.linspace(y.min(), y.max(), grid)
    same(mx, np.tile(gx, (grid, 1)), 1e-9 * (ref.scale(x) + sx), 'x mesh')
    same(my, np.tile(gy[:, None], (1, grid)), 1e-9 * (ref.scale(y) + sy), 'y mesh')
    if d.min() < 0:
        raise Violation('negative density %r' % d.min())
    cx, cy = cells(x, grid), cells(y, grid)
    unit = 1.0 / (sx * sy)
    total = d.sum() * sx * sy / grid ** 2
    if cx is None or cy is None:
        note('sample_on_cell_border')
    else:
        H = np.zeros((grid, grid))
        for a, b in zip(cx, cy):
            H[a, b] += 1.0 / len(x)
        want = (smoother(grid, hx) @ H @ smoother(grid, hy).T) * grid ** 2 * unit
        neg = want < 0
        want = np.where(neg, 0.0, want).T
        # clipped cells may carry a tiny positive value instead of zero
        tol = 1e-9 * (want.max() + unit) + np.where(neg.T, 1e-12, 0.0)
        same(d, want, tol, 'density')
    # total mass is one (clipping negative lobes can only add)
    if total < 1 - 1e-9:
        raise Violation('density integrates to %.12g' % total)
    if min(hx, hy) * grid >= 2.0 and total > 1 + 1e-6:
        raise Violation('density integrates to %.12g' % total)
    return np.round(d * sx * sy, 6)


def spaces(tier):
    deep = tier == 'thorough'
    P = ((0.0, 0.0), (1.0, 0.3), (0.37, 1.0), (0.61, 0.13))

    def words():
        for n in (3, 4) if not deep else (3, 4, 5):
            for w in itertools.product(range(4), repeat=n):
                xs, ys = [P[i][0] for i in w], [P[i][1] for i in w]
                if max(xs) > min(xs) and max(ys) > min(ys):
                    for g in (4, 7):
                        yield (xs, ys, 0.25, 0.5, g)

    def grids():
        for a, b in (('noise', 'noise2'), ('offset', 'spiky'), ('ramp', 'noise'), ('step', 'sine')):
            for n in (8, 25, 60):
                for g in list(range(3, 20)) + [32, 33] + ([64] if deep else []):
                    for h in ((0.1, 0.1), (0.05, 0.4)):
                        yield (dom.shape(a, n), dom.shape(b, n), h[0], h[1], g)

    def widths():
        for hx in (0.01, 0.05, 0.1, 0.2, 0.5, 1.0, 3.0):
            for hy in (0.01, 0.1, 0.3, 2.0):
                for g in (8, 13, 16):
                    for s in (1.0, -3.0, 1e4, 1e-3):
                        yield (dom.noise(30) * s, dom.noise(30, 5) * 2 + 7, hx, hy, g)
    return [
        Space('words', words, lambda c: judge(*c), 'every sequence of 3..4/5 samples out of 4 points, two grids'),
        Space('grids', grids, lambda c: judge(*c), 'every grid size 3..19, 32, 33'),
        Space('bandwidths', widths, lambda c: judge(*c), '28 bandwidth pairs, 4 scales'),
        Space('ranges', lambda: ((dom.noise(25, 3) * 2.0 ** k + o * 2.0 ** k, dom.noise(25, 5) * 2.0 ** j - o * 2.0 ** j, 0.1, 0.2, 9)
                                 for k in (-40, -20, -15, -10, 0, 10, 20, 40) for j in (-40, -20, -15, -10, 0, 10, 20, 40) for o in (0.0, 100.0, -1000.0)),
              lambda c: judge(*c), 'data ranges 2^-40..2^40 in either component, away from zero'),
        Space('transposed', lambda: ((dom.noise(20, s), dom.noise(20, s + 3) * 4, 0.1, 0.3, g) for s in range(1, 9) for g in (6, 9)), swap, 'exchanging the components transposes the density'),
        Space('lists', lambda: ((dom.noise(n), dom.noise(n, 5), 0.2, 0.1, g, 'list') for n in (4, 9) for g in (5, 8)), lambda c: judge(*c), 'nested lists'),
        Space('crowded', lambda: ((n, m, h, g) for n in (200, 254, 255, 256, 257, 300, 513, 1100, 33000, 66000) for m in (1, 3, 7) for h in ((0.1, 0.1), (0.3, 0.05)) for g in (4, 8)),
              lambda c: judge(*crowd(*c[:2]), c[2][0], c[2][1], c[3]), 'up to 66000 samples in one cell'),
        Space('long', lambda: ((dom.shape(a, n), dom.shape(b, n), 0.05, 0.08, 64) for a, b in (('noise', 'spiky'), ('offset', 'sine'), ('noise2', 'ramp')) for n in (300, 1500)), lambda c: judge(*c), 'long series, grid 64'),
    ]


def crowd(n, m):
    """n samples at one place, m others"""
    x = np.concatenate([np.full(n, 0.3), [0.0, 1.0], 0.61 * np.ones(m)])
    y = np.concatenate([np.full(n, 2.9), [5.0, 0.0], 1.7 * np.ones(m)])
    return x, y


def swap(c):
    x, y, hx, hy, g = c
    a = ok(call(K.bivariate_kernel, np.array([x, y]), hx, hy, g), 'bivariate_kernel')[0]
    b = ok(call(K.bivariate_kernel, np.array([y, x]), hy, hx, g), 'bivariate_kernel')[0]
    same(np.asarray(a), np.asarray(b).T, 1e-9 * np.max(a), 'exchanged components')
    step(1, 1)
    return np.round(a, 6)


def constants():
    def cases():
        for c in dom.fresh_series((12, 60), 3, 3000, 1e-9, 1e9):
            v = dom.build(c)
            yield (v, dom.noise(len(v), 5), 0.1, 0.2, 9)
            yield (dom.noise(len(v), 5), v, 0.1, 0.2, 9)
        for g in dom.fresh_sizes(3, 130):
            yield (dom.noise(25), dom.noise(25, 5), 0.1, 0.2, g)
        for h in dom.fresh_values(0.005, 5.0):
            for g in (8, 13):
                yield (dom.noise(25), dom.noise(25, 5), h, 0.2, g)
                yield (dom.noise(25), dom.noise(25, 5), 0.2, h, g)
    return [Space('source-constants', cases, lambda c: judge(*c), dom.gained())]
