"""Reference detectors; each returns (must, may): definite spikes, and those plus the undecidable ones."""
import math
import numpy as np
from mc import ref

BAND = 1e-7


def central(c, decimals=None):
    n = len(c)
    d = np.zeros(n)
    d[1:-1] = (c[2:] - c[:-2]) / 2
    return d if decimals is None else np.around(d, decimals)


def axes(r1, r2, theta):
    """semi-axes of the ellipse with extents r1 (first axis) and r2 (second axis) rotated by theta:
    a^2 cos^2 + b^2 sin^2 = r1^2 ; a^2 sin^2 + b^2 cos^2 = r2^2.   -> ('ok'|'none'|'fuzzy', a, b)"""
    c2, s2 = math.cos(theta) ** 2, math.sin(theta) ** 2
    fact = c2 * c2 - s2 * s2
    if math.isnan(fact):
        return 'none', 0, 0
    if abs(fact) < 1e-6:
        return 'fuzzy', 0, 0
    A = (r1 * r1 * c2 - r2 * r2 * s2) / fact
    B = (r2 * r2 * c2 - r1 * r1 * s2) / fact
    eps = 1e-9 * max(r1 * r1, r2 * r2) / abs(fact)
    if abs(A) <= eps or abs(B) <= eps:
        return ('none' if r1 == 0 and r2 == 0 else 'fuzzy'), 0, 0
    if A < 0 or B < 0:
        return 'none', 0, 0
    return 'ok', math.sqrt(A), math.sqrt(B)


def rho(x, y, theta, a, b):
    ct, st = math.cos(theta), math.sin(theta)
    return ((x * ct + y * st) / a) ** 2 + ((y * ct - x * st) / b) ** 2


def classify(values, band=BAND):
    must = set(int(i) for i in np.nonzero(values > 1 + band)[0])
    may = set(int(i) for i in np.nonzero(values >= 1 - band)[0])
    return must, may


def edges(f, grid, offsets=(3e-6, 1e-4, 3e-3), most=12):
    """parameter values just on either side of every change of the reference verdict f between the
    points of the grid (found by bisection on the reference alone)"""
    out, last = [], None
    for h in grid:
        now = f(h)
        if last is not None and now != last[1]:
            a, b = last[0], h
            va = last[1]
            for _ in range(60):
                m = (a + b) / 2
                if m == a or m == b:
                    break
                if f(m) == va:
                    a = m
                else:
                    b = m
            for e in offsets:
                w = e * max(abs(a), abs(b), 1e-6)
                out += [a - w, b + w]
            if len(out) >= most * 2 * len(offsets):
                break
        last = (h, now)
    return out


def everything(n):
    return set(), set(range(n))


def pst(c):
    c = np.asarray(c, dtype=float)
    n = len(c)
    dc = central(c, 4)
    dc2 = central(dc, 4)
    lam = math.sqrt(2 * math.log(n))
    s0, s1, s2 = ref.std(c), ref.std(dc), ref.std(dc2)
    must, may = set(), set()

    def add(mm):
        must.update(mm[0])
        may.update(mm[1])
    for (x, y, sx, sy) in ((c, dc, s0, s1), (dc, dc2, s1, s2)):
        a, b = lam * sx, lam * sy
        if a == 0 or b == 0:
            # a direction without spread: samples at its centre are not outliers, others are off the scale
            if np.any(x != 0) and a == 0 or np.any(y != 0) and b == 0:
                add(everything(n))
            continue
        if min(a, b) < 1e-9 * max(1.0, ref.scale(c)):
            add(everything(n))
            continue
        add(classify((x / a) ** 2 + (y / b) ** 2))
    den = float(np.sum(c ** 2))
    if den == 0:
        return must, may
    theta = math.atan(float(np.sum(c * dc2)) / den)
    kind, a, b = axes(lam * s0, lam * s2, theta)
    if kind == 'fuzzy' or (kind == 'none' and (s0 == 0 or s2 == 0) and n > 0):
        add(everything(n))
    elif kind == 'ok':
        add(classify(rho(c, dc2, theta, a, b)))
    return must, may


def correlation(u, v, w):
    n = len(u)
    u, v, w = [np.asarray(x, dtype=float) - ref.mean(x) for x in (u, v, w)]
    lam = math.sqrt(2 * math.log(n))
    must, may = set(), set()
    for x, y in ((u, v), (u, w), (v, w)):
        den = float(np.sum(x ** 2))
        if den == 0:
            continue               # no principal axis: the pair cannot flag anything
        theta = math.atan(float(np.sum(x * y)) / den)
        r1, r2 = lam * ref.std(x), lam * ref.std(y)
        kind, a, b = axes(r1, r2, theta)
        if kind == 'none':
            a = b = 1e10
            kind = 'ok'
        if kind == 'fuzzy':
            if r2 == 0:            # y constant: degenerate ellipse, nothing can be flagged
                continue
            may |= set(range(n))
            continue
        m, y_ = classify(rho(x, y, theta, a, b))
        must |= m
        may |= y_
    return must, may


def spherical(c):
    """outside the ellipsoid in rotated (c, dc, dc2) space; the band covers the 4-decimal arithmetic."""
    c = np.asarray(c, dtype=float)
    n = len(c)
    f = np.around(c - ref.mean(c), 4)
    dc = np.gradient(f)
    dc2 = np.gradient(dc)
    theta = float(np.around(math.atan2(float(np.sum(f * dc2)), float(np.sum(f ** 2))), 4))
    if theta == 0:
        x, y, z = f, dc, dc2
    else:
        ct, st = float(np.around(math.cos(theta), 4)), float(np.around(math.sin(theta), 4))
        x, y, z = np.around(f * ct + dc2 * st, 4), np.around(dc, 4), np.around(dc2 * ct - f * st, 4)
    lam = math.sqrt(2 * math.log(n))
    a, b, k = lam * ref.std(x), lam * ref.std(y), lam * ref.std(z)
    if not np.any(x) and not np.any(y) and not np.any(z):
        return set(), set()
    if min(a, b, k) < 5e-3:
        return everything(n)
    must, may = set(), set()
    for i in range(n):
        q = (x[i] / a) ** 2 + (y[i] / b) ** 2 + (z[i] / k) ** 2
        r = math.sqrt(x[i] ** 2 + y[i] ** 2 + z[i] ** 2)
        if r == 0:
            continue
        t = 1 / math.sqrt(q)                     # projection onto the ellipsoid
        x2, y2, z2 = t * x[i], t * y[i], t * z[i]
        dis = (t * r) ** 2 - r * r
        # coordinates and axes are carried to 4 decimals, then the projection and its squared height are
        d1 = 1e-4 * (1 + abs(f[i]) + abs(dc2[i]))
        lo = min(a, b, k)
        e = (2 * r * (1 + t * t) * d1 + 2 * (t * r) ** 2 * (d1 * t + 1e-4) / lo
             + 1e-4 * (abs(x2) + abs(y2) + abs(z2)) + 1e-4 * k * k * (abs(x2) / a ** 2 + abs(y2) / b ** 2) + 1e-4)
        if dis < -2 * e - 1e-6:
            must.add(i)
        if dis < 2 * e + 1e-6:
            may.add(i)
    return must, may


def premodification(d, c1, c2, band=1e-10):
    """(unremovable must/may, removable must/may)"""
    d = np.asarray(d, dtype=float)
    n = len(d)
    med = ref.median(d)
    mad = ref.median(np.abs(d - med))
    sc = max(1e-300, ref.scale(d))
    e = band * sc
    thr = c2 * mad * math.sqrt(2 * math.log(n))
    un_must = set(i for i in range(n) if abs(d[i]) <= c1 * mad - e or (band == 0 and abs(d[i]) <= c1 * mad))
    un_may = set(i for i in range(n) if abs(d[i]) <= c1 * mad + e)
    if mad == 0:
        e2 = 0.0
    else:
        e2 = e * (1 + abs(c2) * 5)
    rm_must = set(i for i in range(n) if abs(d[i]) > thr + e2)
    rm_may = set(i for i in range(n) if abs(d[i]) > thr - e2)
    if mad == 0:
        un_must = set(i for i in range(n) if d[i] == 0)
        un_may = set(un_must)
        rm_may = set(rm_must)
    return un_must, un_may, rm_must, rm_may
