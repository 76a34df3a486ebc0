"""Evaluating filters at points of the complex plane, with error estimates."""
import math
import numpy as np

EPS = 2.3e-16


def zpk_at(z, p, k, s):
    """response of zeros/poles/gain at s"""
    h = complex(k)
    for a in np.asarray(z).reshape(-1):
        h *= (s - a)
    for a in np.asarray(p).reshape(-1):
        h /= (s - a)
    return h


def poly_at(c, s):
    """value and rounding bound of a polynomial (highest power first)"""
    v, m, a = 0j, 0.0, abs(s)
    for x in np.asarray(c).reshape(-1):
        v = v * s + complex(x)
        m = m * a + abs(complex(x))
    return v, m * len(np.asarray(c).reshape(-1)) * 30 * EPS


def tf_at(b, a, s):
    bv, be = poly_at(b, s)
    av, ae = poly_at(a, s)
    if abs(av) <= 2 * ae:
        return None, None
    h = bv / av
    return h, be / (abs(av) - ae) + abs(h) * ae / (abs(av) - ae)


def sos_at(sos, s):
    h, err = 1 + 0j, 0.0
    for row in np.asarray(sos, dtype=float):
        v, e = tf_at(row[:3], row[3:], s)
        if v is None:
            return None, None
        err = err * abs(v) + e * abs(h) + err * e
        h *= v
    return h, err
