"""Reference models: deliberately boring, straight from the definitions, sharing no code with proadv."""
import math

import numpy as np


# ---------------------------------------------------------------- replacement
def neighbours(n, flagged):
    """the nearest unflagged position before and after every position"""
    before, after, j = [None] * n, [None] * n, None
    for i in range(n):
        before[i] = j
        j = j if i in flagged else i
    j = None
    for i in range(n - 1, -1, -1):
        after[i] = j
        j = j if i in flagged else i
    return before, after


def last_valid(v, flagged):
    """value per flagged position; None = nothing is specified (no valid sample at all)."""
    n = len(v)
    out = {}
    before, after = neighbours(n, flagged)
    for i in flagged:
        j = before[i] if before[i] is not None else after[i]
        out[i] = None if j is None else float(v[j])
    return out


def linear(v, flagged):
    """exact (unrounded) linear interpolation; NaN samples do not enter the mean."""
    n = len(v)
    vals = [float(x) for x in v if not math.isnan(x)]
    mean = math.fsum(vals) / len(vals) if vals else float('nan')
    out = {}
    before, after = neighbours(n, flagged)
    for i in flagged:
        a, b = before[i], after[i]
        if a is None or b is None:
            out[i] = mean
        else:
            out[i] = float(v[a]) + (float(v[b]) - float(v[a])) * (i - a) / (b - a)
    return out


def rounded(x, decimals):
    return float(np.around(x, decimals))


def cubic12(v, flagged, decimals=4):
    """(value, slack) per flagged position."""
    from scipy.interpolate import CubicSpline
    n = len(v)
    unit = 10.0 ** -decimals
    lin = linear(v, flagged)
    cur = np.array(v, dtype=float)
    fuzzy = set()
    out = {}
    for i in sorted(flagged):
        after = [j for j in range(i + 1, n) if j not in flagged][:12]
        if i <= 30 or i >= n - 30 or len(after) < 12:
            cur[i] = rounded(lin[i], decimals)
            out[i] = (lin[i], 0.0)
            fuzzy.add(i)
        else:
            pos = list(range(i - 12, i)) + after
            cur[i] = float(CubicSpline(pos, cur[pos], bc_type='not-a-knot')(i))
            soft = any(p in fuzzy for p in pos)
            out[i] = (cur[i], 3 * unit if soft else 0.0)
            if soft:
                fuzzy.add(i)
    return out


def polynomial(v, flagged, window=100, degree=2, decimals=4):
    n = len(v)
    unit = 10.0 ** -decimals
    lin = linear(v, flagged)
    cur = np.array(v, dtype=float)
    mean = math.fsum(float(x) for x in v) / n
    fuzzy = set()
    out = {}
    for i in sorted(flagged):
        if i == 0:
            cur[i] = mean
            out[i] = (mean, 0.0)
        elif i <= 10:
            cur[i] = rounded(lin[i], decimals)
            out[i] = (lin[i], 0.0)
            fuzzy.add(i)
        else:
            lo = 0 if i <= window - 1 else i - window
            # fit in coordinates relative to i: the prediction is the constant term
            t = np.arange(lo - i, 0) / float(max(i - lo, 1))
            A = np.vander(t, degree + 1, increasing=True)
            coef = np.linalg.lstsq(A, cur[lo:i], rcond=None)[0]
            cur[i] = coef[0]
            soft = any(lo <= p < i for p in fuzzy)
            out[i] = (cur[i], 4 * unit if soft else 0.0)
            if soft:
                fuzzy.add(i)
    return out


# ---------------------------------------------------------------- smoothers
_memo = {}


def memo(fn):
    """the reference of one (series, parameter) is shared by all flag sets"""
    def wrapped(v, *a):
        v = np.asarray(v, dtype=float)
        key = (fn.__name__, v.tobytes(), a)
        if key not in _memo:
            if len(_memo) > 4000:
                _memo.clear()
            _memo[key] = fn(v, *a)
        return _memo[key].copy()
    return wrapped


@memo
def sma(v, w):
    n = len(v)
    out = np.empty(n)
    for i in range(n):
        lo = 0 if i < w else i - w + 1
        out[i] = math.fsum(float(x) for x in v[lo:i + 1]) / (i + 1 - lo)
    return out


@memo
def ema(v, alpha):
    out = np.empty(len(v))
    for i in range(len(v)):
        # closed form of the recursion
        out[i] = v[0] if i == 0 else out[i - 1] + alpha * (v[i] - out[i - 1])
    return out


@memo
def wma(v, period):
    """one value per window of `period` samples that has a following sample."""
    n = len(v)
    tot = period * (period + 1) / 2.0
    return np.array([math.fsum((k + 1) * float(v[s + k]) for k in range(period)) / tot
                     for s in range(0, n - period)])


@memo
def kalman(v, x0, p0, q, r):
    """scalar random-walk Kalman filter, in information form."""
    x, p = float(x0), float(p0)
    out = np.empty(len(v))
    for i, z in enumerate(v):
        p = p + q
        g = p / (p + r)
        x = x + g * (z - x)
        p = p * r / (p + r)
        out[i] = x
    return out


# ---------------------------------------------------------------- statistics
def mean(v):
    return math.fsum(float(x) for x in v) / len(v)


def var(v):
    m = mean(v)
    return math.fsum((float(x) - m) ** 2 for x in v) / len(v)


def std(v):
    return math.sqrt(var(v))


def median(v):
    s = sorted(float(x) for x in v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def scale(v):
    a = np.abs(np.asarray(v, dtype=float))
    a = a[np.isfinite(a)]
    return float(a.max()) if a.size else 0.0
