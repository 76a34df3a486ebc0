"""P13 kernel-density detection (pairwise kernel, 3-D detector, profile cut-offs)."""
import inspect
import itertools
import math
import numpy as np
from mc import det, dom, ref
from mc.core import Err, Space, Violation, as_indices, as_scalar, call, judge_set, note, ok, same, step
import proadv.filtration.detection.bivariatekernel as B
import proadv.filtration.detection.trivariatekernel as T
import proadv.kernel.bivariate as KB

MODS = ['proadv.filtration.detection.trivariatekernel', 'proadv.filtration.detection.bivariatekernel']


def kde(x, y, gx, gy):
    """direct Gaussian KDE with Scott's factor, straight from the definition"""
    n = len(x)
    f2 = n ** (-1.0 / 3.0)                      # (n^(-1/6))^2
    mx, my = ref.mean(x), ref.mean(y)
    sxx = math.fsum((a - mx) ** 2 for a in x) / (n - 1) * f2
    syy = math.fsum((a - my) ** 2 for a in y) / (n - 1) * f2
    sxy = math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / (n - 1) * f2
    d = sxx * syy - sxy * sxy
    if not d > 1e-12 * sxx * syy:
        return None
    out = np.zeros((len(gx), len(gy)))
    for a, b in zip(x, y):
        dx = (gx - a)[:, None]
        dy = (gy - b)[None, :]
        out += np.exp(-(syy * dx * dx - 2 * sxy * dx * dy + sxx * dy * dy) / (2 * d))
    return out / (n * 2 * math.pi * math.sqrt(d))


def cut(profile, peak_i, c, grid, dens):
    """indices of the cut-offs, and whether any decision was too close to call"""
    f = profile
    d = np.concatenate(([0.0], np.diff(f))) * grid / dens
    close = False

    def hit(i):
        nonlocal close
        r, s = f[i] / f[peak_i], abs(d[i])
        if abs(r - c) < 1e-7 or abs(s - c) < 1e-7 * max(1.0, abs(c)):
            close = True
        return r <= c and s <= c
    lo = next((i for i in range(peak_i - 1, 0, -1) if hit(i)), 0)
    hi = next((i for i in range(peak_i + 1, len(f) - 1) if hit(i)), len(f) - 1)
    return lo, hi, close


def model(u, w, grid):
    """-> None when undefined/undecidable, else (must, may, density)"""
    n = len(u)
    su, sw = float(np.sum(u)), float(np.sum(w))
    num = n * float(np.sum(u * w)) - su * sw
    den = n * float(np.sum(u * u)) - su * su
    if den <= 0:
        return None
    th = math.atan2(num, den)
    ut = u * math.cos(th) + w * math.sin(th)
    wt = w * math.cos(th) - u * math.sin(th)
    if min(ref.std(ut), ref.std(wt)) <= 1e-7 * (ref.scale(u) + ref.scale(w)):
        return None                 # collinear: no density on the plane
    gx = np.linspace(ut.min(), ut.max(), grid)
    gy = np.linspace(wt.min(), wt.max(), grid)
    dens = kde(ut, wt, gx, gy)
    if dens is None:
        return None
    pk = float(dens.max())
    peaks = [tuple(int(v) for v in q) for q in np.argwhere(dens > pk * (1 - 1e-7))]
    if len(peaks) > 6:
        return ('tie', dens)
    if len(peaks) > 1:
        # equal peaks: the ellipse of any one of them
        alt = [verdict(u, w, ut, wt, gx, gy, dens, q, grid) for q in peaks]
        return ('tie', dens) if any(a[0] == 'tie' for a in alt) else ('any', [a[:2] for a in alt], dens)
    return verdict(u, w, ut, wt, gx, gy, dens, peaks[0], grid)


def verdict(u, w, ut, wt, gx, gy, dens, peak, grid):
    n = len(u)
    pi, pj = peak
    pk = dens[pi, pj]
    lam = math.sqrt(2 * math.log(n))
    cu, cw = lam * ref.std(u) / math.sqrt(n), lam * ref.std(w) / math.sqrt(n)
    ul, uu, c1 = cut(dens[:, pj], pi, cu, grid, pk)
    wl, wu, c2 = cut(dens[pi, :], pj, cw, grid, pk)
    if c1 or c2:
        return ('tie', dens)
    um, wm = (gx[uu] + gx[ul]) / 2, (gy[wu] + gy[wl]) / 2
    a, b = gx[uu] - um, gy[wu] - wm
    if a == 0 or b == 0:
        return ('tie', dens)
    rho = ((ut - um) / a) ** 2 + ((wt - wm) / b) ** 2
    must, may = det.classify(rho, 1e-7)
    return must, may, dens


def judge_pair(u, w, grid):
    u, w = np.array(u, dtype=float), np.array(w, dtype=float)
    m = model(u, w, grid)
    out = call(T.kernel, u.copy(), w.copy(), grid)
    if m is None:
        note('degenerate_inputs')
        return 'degenerate'
    ok(out, 'kernel')
    try:
        idx, est = out
    except Exception:
        raise Violation('kernel: expected (indices, estimation), got %r' % (out,))
    est = np.asarray(est, dtype=float)
    dens = m[-1]
    if est.shape != (grid, grid):
        raise Violation('kernel: density of shape %s on a %d grid' % (est.shape, grid))
    same(est, dens, 1e-7 * dens.max(), 'kernel density estimate')
    idx = as_indices(idx, len(u))
    if m[0] == 'tie':
        note('undecided_near_threshold')
        return 'tie'
    if m[0] == 'any':
        note('equal_peaks')
        got = set(int(i) for i in idx)
        if not any(must <= got <= may for must, may in m[1]):
            raise Violation('flagged samples %s: none of the %d equal density peaks gives these (%s)' % (sorted(got), len(m[1]), [sorted(a) for a, _ in m[1]][:4]))
        return idx
    judge_set(idx, m[0], m[1])
    return idx


def judge_3d(c, grid):
    c = np.array(c, dtype=float)
    d1 = det.central(c)
    d2 = det.central(d1)
    must, may, fuzzy = set(), set(), False
    for x, y in ((c, d1), (c, d2), (d1, d2)):
        m = model(x, y, grid)
        if m is None:
            note('degenerate_inputs')
            return 'degenerate'
        if m[0] in ('tie', 'any'):
            fuzzy = True
            continue
        must |= m[0]
        may |= m[1]
    if fuzzy:
        note('undecided_near_threshold')
        may = set(range(len(c)))
    got = as_indices(call(T.three_dimensional_kernel, c.copy(), grid), len(c))
    judge_set(got, must, may)
    return got


def helper(name, arity):
    fn = getattr(B, name, None)
    try:
        return fn if fn is not None and len(inspect.signature(fn).parameters) == arity else None
    except (TypeError, ValueError):
        return None


def judge_cut(prof, peak_i, c1, c2, grid=1, dens=1.0):
    """the documented profile cut-offs, in the module that offers nothing else"""
    f = np.array(prof, dtype=float)
    n = len(f)
    v = np.arange(n) * 0.5 - 1.0
    dens = np.linspace(1, 2, n) if dens == 'varying' else dens
    d = np.concatenate(([0.0], np.diff(f))) * grid / dens
    good = [f[i] / f[peak_i] <= c1 and abs(d[i]) <= c2 for i in range(n)]
    lo = next((i for i in range(peak_i - 1, 0, -1) if good[i]), 0)
    hi = next((i for i in range(peak_i + 1, n - 1) if good[i]), n - 1)
    res = []
    for mod in (B,):
        # the module offers nothing but these two helpers; one with another signature is another helper
        fn = helper('_cutoff', 7)
        if fn is None:
            continue
        out = ok(call(fn, dens, v.copy(), c1, c2, f.copy(), peak_i, grid), 'cut-off')
        same(np.array(out, dtype=float), [v[lo], v[hi]], 0.0, 'cut-off velocities of %s' % mod.__name__)
        res.append(tuple(out))
    return res


def judge_derivative(v):
    v = np.array(v, dtype=float)
    fn = helper('_derivative', 1)
    if fn is None:
        return 'absent'
    exp = np.zeros(len(v))
    for i in range(1, len(v) - 1):
        b, f = v[i] - v[i - 1], v[i + 1] - v[i]
        exp[i] = f if abs(b) > abs(f) else b
    same(ok(call(fn, v.copy())), exp, 0.0, 'one-sided derivative')
    return exp


def judge_rotation(x, y):
    """angle of the regression line of y on x, as the bivariate workflow uses it"""
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    fn = getattr(KB, '_rotation', None)
    try:
        if fn is None or len(inspect.signature(fn).parameters) != 2:
            return 'absent'
    except (TypeError, ValueError):
        return 'absent'
    mx, my = ref.mean(x), ref.mean(y)
    num = math.fsum((a - mx) * (b - my) for a, b in zip(x, y))
    den = math.fsum((a - mx) ** 2 for a in x)
    if den <= 1e-20 * ref.scale(x) ** 2 or (num == 0 and den == 0):
        return 'degenerate'
    same(as_scalar(call(fn, x.copy(), y.copy()), 'rotation'), math.atan(num / den), 1e-9 * (1 + (ref.scale(x) / math.sqrt(den / len(x))) ** 2 * (1 + ref.scale(y) / ref.scale(x))), 'regression angle')
    return round(math.atan(num / den), 9)


def spaces(tier):
    deep = tier == 'thorough'
    nm = 6 if deep else 5
    sizes = [100, 257] + ([1000] if deep else []) + dom.literal_sizes(5, 600, MODS, 9)

    def words():
        for n in (4, 5):
            for u in dom.words((0.0, 1.0, 5.0), n, n):
                for sd in (3, 4):
                    yield (u, tuple(dom.noise(n, sd) * 4), 8)
                    yield (tuple(dom.noise(n, sd) * 4), u, 8)

    def sweep():
        for i in range(20):
            for h in (0.0, 1.0, 2.0, 3.0, 5.0, 9.0, -1.5, -2.5, -4.0, -7.0):
                for grid in (8, 15):
                    yield (i, h, grid)

    def mk(i, h):
        u = dom.noise(20, 5).copy()
        u[i] += h
        return u

    def profiles():
        for n in range(3, 7):
            for f in dom.words((0.25, 1.0, 2.0), n, n):
                gd = [(1, 1.0), (3, 2.0)] + ([(2, 'varying')] if n < 6 else [])
                for p in range(n):
                    if f[p] == max(f):
                        for c1 in (0.125, 0.5, 1.0):
                            for c2 in (0.0, 0.75, 1.0, 4.0):
                                for g, d in gd:
                                    yield (f, p, c1, c2, g, d)

    def shapes3():
        for sh in dom.SHAPES:
            for n in (12, 25, 40):
                for grid in (8, 16):
                    for k in (2.0 ** -10, 0.05, 1.0, 20.0):
                        yield (sh, n, grid, k)
    return [
        Space('pair-words', words, lambda c: judge_pair(*c), 'every 4- and 5-sample series over 3 values against a fixed partner'),
        Space('pair-spike', sweep, lambda c: judge_pair(mk(c[0], c[1]), dom.noise(20, 9) * 0.5, c[2]),
              'spike at every position x 10 heights x 2 grids'),
        Space('pair-symmetric', lambda: ((u, w, g) for n in (3, 4, 5) for u in dom.words((0.0, 1.0, 5.0), n, n) for w in dom.words((0.0, 2.0), n, n) for g in (8, 9)),
              lambda c: judge_pair(list(c[0]) + [-x for x in c[0]], [float(x) for x in c[1]] + [-x for x in c[1]], c[2]), 'every pair of series over 3 x 2 values and its mirror image: equal density peaks'),
        Space('pair-correlated', lambda: ((i, h, a) for i in range(0, 20, 2) for h in (0.0, 2.0, -5.0) for a in (-2.0, -0.5, 0.5, 2.0)),
              lambda c: judge_pair(mk(c[0], c[1]), c[2] * mk(c[0], 0.0) + dom.noise(20, 21) * 0.25, 12),
              'correlated pairs of either sign'),
        Space('3d-spike', sweep, lambda c: judge_3d(mk(c[0], c[1]), c[2]), 'spike at every position x 10 heights x 2 grids'),
        Space('3d-shapes', shapes3, lambda c: judge_3d(dom.shape(c[0], c[1]) * c[3], c[2]), '19 shapes x 3 sizes x 2 grids x 4 magnitudes'),
        Space('3d-long', lambda: ((sh, n, g) for n in sizes for sh in ('spiky', 'onespike', 'noise') for g in (16, 33, 64)),
              lambda c: judge_3d(dom.shape(c[0], c[1]) * 0.25, c[2]), 'sizes %s, grids 16, 33, 64' % sizes),
        Space('pair-long', lambda: ((n, j, sh) for n in (300, 513, 600, 1025, 1500) for j in range(-16, 9) for sh in ('spiky', 'noise')),
              lambda c: judge_pair(dom.shape(c[2], c[0]) * 2.0 ** (c[1] / 2), dom.noise(c[0], 9) * 2.0 ** (c[1] / 2 - 1), 16), '300..1500 samples, 25 magnitudes'),
        Space('pair-grids', lambda: ((i, h, g) for g in (3, 4, 5, 25, 50, 65, 80, 100, 129, 150, 200, 257) for i in (0, 7, 19) for h in (0.0, 3.0, -7.0)),
              lambda c: judge_pair(mk(c[0], c[1]), dom.noise(20, 9) * 0.5, c[2]), 'grids of 3..257 points'),
        Space('3d-grids', lambda: ((sh, g, k) for g in (5, 50, 65, 100, 129) for sh in ('spiky', 'onespike', 'noise') for k in (0.05, 0.25, 1.0)),
              lambda c: judge_3d(dom.shape(c[0], 40) * c[2], c[1]), 'grids of 5..129 points'),
        Space('3d-scales', lambda: ((n, j) for n in (200, 600, 1100) for j in range(-14, 9, 2 if not deep else 1)),
              lambda c: judge_3d(dom.shape('spiky', c[0]) * 2.0 ** (c[1] / 2), 16), '200..1100 samples, magnitudes 2^-7..2^4'),
        Space('cut-offs', profiles, lambda c: judge_cut(*c), 'every profile over 3 levels up to 6 points x every peak x thresholds x grid factor and density'),
        Space('derivative', lambda: ((w,) for w in dom.words((0.0, 1.0, -2.0, 5.0), 1, nm)), lambda c: judge_derivative(*c),
              'every series over 4 values up to %d samples' % nm),
        Space('3d-measured', lambda: ((c, g) for n, st in ((64, 1500), (200, 6000)) for c in dom.stretches(n, st, 18000) for g in (16, 32)),
              lambda c: judge_3d((dom.record(*c[0]) - dom.record(*c[0]).mean()) * 0.1, c[1]), 'measured velocity records, stretches of several lengths'),
        Space('pair-measured', lambda: ((c, g) for n, st in ((64, 1500), (200, 6000)) for c in dom.stretches(n, st, 18000) if c[1] < 2 for g in (16, 32)),
              lambda c: judge_pair(dom.record(*c[0]) * 0.1, dom.record(c[0][0], c[0][1] + 1, *c[0][2:]) * 0.1, c[1]), 'measured velocity records, stretches of several lengths'),
        Space('regression-angle', lambda: ((u, v) for n in (2, 3) for u in dom.words((0.0, 1.0, -2.0, 5.0), n, n) for v in dom.words((0.0, 1.0, -3.0), n, n)), lambda c: judge_rotation(*c),
              'every pair of series over 4 x 3 values of 2 and 3 samples'),
        Space('regression-angle-shapes', lambda: ((a, b, n) for a in dom.SHAPES for b in ('noise', 'spiky', 'ramp', 'neg') for n in (4, 25, 100)),
              lambda c: judge_rotation(dom.shape(c[0], c[2]), dom.shape(c[1], c[2])), '19 x 4 shapes'),
    ]


def constants():
    def cases():
        for c in dom.fresh_series((25, 60), 4, 1500, 1e-4, 1e3):
            yield ('pair', c, 12)
            if c[0] != 'offset' or c[3] < 50:
                yield ('3d', c, 12)
        for g in dom.fresh_sizes(3, 300):
            for sh in ('spiky', 'noise', 'onespike'):
                yield ('pair', ('size', sh, 40, 1.0), g)
                if 5 <= g <= 130:
                    yield ('3d', ('scale', sh, 40, 0.25), g)

    def run(c):
        v = dom.build(c[1])
        return judge_pair(v, dom.noise(len(v), 9) * 0.5 * (c[1][3] if c[1][0] == 'scale' else 1.0), c[2]) if c[0] == 'pair' else judge_3d(v, c[2])
    return [Space('source-constants', cases, run, dom.gained())]
