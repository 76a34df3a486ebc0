"""Catalogue of calls of the public interface, shared by the history, schedule and container checks.

Every operation is (function name, variant).  build(op) makes fresh arguments; the variants of one
function are chosen to look alike (same length, same end points, same sum) so that anything
remembered from an earlier call under too weak a key shows."""
import math
import multiprocessing as mp
import os
import pickle
import signal

import numpy as np

from mc import dom
from mc.core import Err, Hang, Violation, call, same

import proadv
import proadv.filtration.detection.acceleration as ACC
import proadv.filtration.detection.correlation as COR
import proadv.filtration.detection.phasespace as PST
import proadv.filtration.detection.poincare as POI
import proadv.filtration.detection.pollution as POL
import proadv.filtration.detection.spherical as SPH
import proadv.filtration.detection.trivariatekernel as TRI
import proadv.filtration.replacement.replacements as R
import proadv.kernel.bivariate as KB
import proadv.statistics.descriptive as D
import proadv.statistics.distributions.normal as N
import proadv.statistics.moment as M
import proadv.statistics.optimize.optimize as O
import proadv.statistics.series as S
import proadv.statistics.signal.butter as B
import proadv.statistics.signal.fluid as F
import proadv.statistics.signal.spectrum as PS
import proadv.statistics.signal.synthetic as SY
import proadv.statistics.spread as SP

SIZE = 70        # long enough for the twelve-point cubic


def base(n=None):
    n = n or SIZE
    v = dom.noise(n) * 4
    v[n // 2] = 30.0
    v[n // 2 + 3] = -25.0
    return v + 1.5


def permuted(v):
    w = v.copy()
    k = len(v) // 3
    w[1:-1] = np.concatenate([v[1 + k:-1], v[1:1 + k]])
    return w


def nudged(v):
    """same length, ends, extremes, median and sum, other values"""
    w = v.copy()
    mid, hi, lo = np.median(v), v.max(), v.min()
    a = [i for i in range(1, len(v) - 1) if mid < v[i] < hi]
    b = [i for i in range(1, len(v) - 1) if lo < v[i] < mid]
    i, j = a[len(a) // 2], b[len(b) // 2]
    d = 2.0 ** np.floor(np.log2(0.9 * min(hi - w[i], w[j] - lo)))
    w[i] += d
    w[j] -= d
    return w


def series(variant, n=None):
    v = base(n)
    if variant == 'S':
        return nudged(v)
    if variant == 'B':       # same length, ends and sum
        w = v.copy()
        w[1:-1] = v[1:-1][::-1]
        hi, lo = int(np.argmax(w)), int(np.argmin(w))
        w[hi] -= 2.0
        w[lo] += 2.0
        return w
    if variant == 'C':
        return base(n)[:-5] * 0.5 + 0.25
    if variant == 'D':       # the same values in another order, same ends
        return permuted(v)
    return v


def flags(variant, n):
    variant = {'D': 'A', 'S': 'A'}.get(variant, variant)
    f = {'A': [0, 7, 11, 33, 34, 36, n - 1], 'B': [3, 7, 12, 32, 35, 36, n - 4], 'C': [5, 20, n - 2],
         'R': list(range(8, 13)) + list(range(30, 36)) + [n - 2, n - 1]}[variant]
    return np.array(f, dtype=int)


def second(variant, n=None):
    v = dom.noise(n or SIZE, 7) * 2 - 0.5
    if variant == 'B':
        return v[::-1] * np.where(np.arange(len(v)) % 3 == 0, 1.0, 0.5)
    if variant == 'C':
        return v[:-5] * 3
    if variant == 'D':
        return permuted(v)
    if variant == 'S':
        return nudged(v)
    return v


def third(variant, n=None):
    v = dom.noise(n or SIZE, 31) + 0.25
    if variant == 'B':
        return v[::-1] * np.where(np.arange(len(v)) % 3 == 0, 1.0, 0.5)
    if variant == 'C':
        return v[:-5] * 2
    if variant == 'D':
        return permuted(v)
    if variant == 'S':
        return nudged(v)
    return v


def repl(*extra, **kw):
    def mk(variant):
        v = series(variant, kw.get('n'))
        return (v, flags(variant, len(v))) + extra
    return mk


def one(*extra, **kw):
    n = kw.get('n')

    def mk(variant):
        return (series(variant, n),) + extra
    return mk


def kal(variant):
    variant = {'D': 'A', 'S': 'A'}.get(variant, variant)
    x = {'A': 10.0, 'B': -3.0, 'C': 1.0}[variant]
    return (np.array([[x]]), np.array([[10.0]]), np.array([[0.5]]), np.array([[2.0 + x * x]]))


def root_fn(variant):
    r = {'A': 0.3, 'B': 0.7, 'C': 0.55}[variant]
    return (lambda x: x ** 3 - r ** 3, 0.0, 1.0)


def zpk(variant):
    p = {'A': [-1.0, -0.5 + 1j, -0.5 - 1j], 'B': [-2.0, -0.25 + 1j, -0.25 - 1j], 'C': [-1.5, -3.0]}[variant]
    z = {'A': [-4.0], 'B': [-5.0], 'C': []}[variant]
    return (np.array(z), np.array(p), 0.5)


def digital(variant):
    p = {'A': [0.5, 0.3 + 0.4j, 0.3 - 0.4j], 'B': [0.25, 0.3 + 0.6j, 0.3 - 0.6j], 'C': [0.1, -0.3]}[variant]
    z = {'A': [-1.0, 0.5], 'B': [-1.0, 0.75], 'C': [0.2]}[variant]
    return (np.array(z), np.array(p), 0.5)


def tri(variant):
    return (series(variant), second(variant), third(variant))


# name -> (function getter, argument maker); getters look the attribute up at call time
FUN = {
    'last_valid_data': (lambda: R.last_valid_data, repl()),
    'mean_value': (lambda: R.mean_value, repl()),
    'median_value': (lambda: R.median_value, repl()),
    'linear_interpolation': (lambda: R.linear_interpolation, repl()),
    'cubic_12points_polynomial': (lambda: R.cubic_12points_polynomial, repl(n=70)),
    'repl.simple_moving_average': (lambda: R.simple_moving_average, repl(5)),
    'repl.exponential_moving_average': (lambda: R.exponential_moving_average, repl(0.3)),
    'repl.weighted_moving_average': (lambda: R.weighted_moving_average, lambda v: (series(v), np.array({'A': [3, 7], 'B': [4, 7], 'C': [2, 30]}[v]), 5)),
    'repl.ssa': (lambda: R.ssa, repl(100, 21)),
    'repl.kalman_filter': (lambda: R.kalman_filter, lambda v: repl()(v) + kal(v)),
    'polynomial_replacement': (lambda: R.polynomial_replacement, repl(20, 2, 4)),
    'pollution_rate': (lambda: POL.pollution_rate, lambda v: (series(v), second(v)[:len(series(v))], 0.5)),
    'acceleration_thresholding': (lambda: ACC.acceleration_thresholding, lambda v: (series(v), 100.0, 2 if v == 'B' else 1)),
    'phasespace_thresholding': (lambda: PST.phasespace_thresholding, one()),
    'phasespace_thresholding_premodification': (lambda: PST.phasespace_thresholding_premodification, one()),
    'spherical_phasespace_thresholding': (lambda: SPH.spherical_phasespace_thresholding, one(2, 0.5)),
    'velocity_correlation': (lambda: COR.velocity_correlation, tri),
    'three_dimensional_kernel': (lambda: TRI.three_dimensional_kernel, one(8, n=30)),
    'kernel': (lambda: TRI.kernel, lambda v: (series(v, 30), second(v, 30), 8)),
    'bivariate_kernel': (lambda: KB.bivariate_kernel, lambda v: (np.array([series(v, 24), second(v, 24)]), 0.2, 0.3, 8)),
    'calculate_ab': (lambda: POI.calculate_ab, lambda v: (2.0, {'A': 1.0, 'B': 1.5, 'C': 0.5}[v], 0.2, 3.0)),
    'calculate_rho': (lambda: POI.calculate_rho, lambda v: (series(v), second(v), 0.3, 2.0, 5.0)),
    'min': (lambda: D.min, one()),
    'max': (lambda: D.max, one()),
    'mean': (lambda: D.mean, one()),
    'median': (lambda: D.median, one()),
    'mode': (lambda: D.mode, one()),
    'variance': (lambda: SP.variance, one()),
    'std': (lambda: SP.std, one()),
    'skewness': (lambda: M.skewness, one()),
    'kurtosis': (lambda: M.kurtosis, one()),
    'moving_average': (lambda: S.moving_average, one(7)),
    'exponential_moving_average': (lambda: S.exponential_moving_average, one(0.3)),
    'weighted_moving_average': (lambda: S.weighted_moving_average, one(7)),
    'ssa': (lambda: S.ssa, one(100, 21)),
    'kalman_filter': (lambda: S.kalman_filter, lambda v: (series(v),) + kal(v)),
    'cdf': (lambda: N.cdf, one()),
    'pdf': (lambda: N.pdf, one(4.0, 1.0)),
    'sf': (lambda: N.sf, lambda v: (series(v) / 8,)),
    'log_pdf': (lambda: N.log_pdf, one(4.0, 1.0)),
    'log_cdf': (lambda: N.log_cdf, lambda v: (series(v) / 8,)),
    'log_sf': (lambda: N.log_sf, lambda v: (series(v) / 8,)),
    'skewtest': (lambda: N.skewtest, one()),
    'kurtotest': (lambda: N.kurtotest, one()),
    'brentq': (lambda: O.brentq, root_fn),
    'fminbound': (lambda: O.fminbound, lambda v: (lambda x, r: (x - r) ** 2, 0.0, 1.0, ({'A': 0.3, 'B': 0.7, 'C': 0.55}[v],))),
    'kinetic_turbulent_energy': (lambda: F.kinetic_turbulent_energy, tri),
    'reynolds_stresses': (lambda: F.reynolds_stresses, tri),
    'power_spectra': (lambda: PS.power_spectra, one(50.0, 50, 32)),
    'synthetic_noise': (lambda: SY.synthetic_noise, one(10)),
    'butterworth': (lambda: B.butterworth, lambda v: (3, {'A': [0.2, 0.5], 'B': [0.2, 0.6], 'C': [0.1, 0.5]}[v], 'bp')),
    'low_to_low': (lambda: B.low_to_low, lambda v: zpk(v) + (2.0,)),
    'low_to_high': (lambda: B.low_to_high, lambda v: zpk(v) + (2.0,)),
    'low_to_band': (lambda: B.low_to_band, lambda v: zpk(v) + (2.0, 0.5)),
    'low_to_stop': (lambda: B.low_to_stop, lambda v: zpk(v) + (2.0, 0.5)),
    'bilinear': (lambda: B.bilinear, lambda v: zpk(v) + (3.0,)),
    'buttap': (lambda: B.buttap, lambda v: ({'A': 3, 'B': 4, 'C': 2}[v],)),
    'xyz_to_sop': (lambda: B.xyz_to_sop, digital),
    'xyz_to_ptf': (lambda: B.xyz_to_ptf, digital),
}

FUN.update({
    'calculate_derivatives': (lambda: PST.calculate_derivatives, one()),
    'calculate_parameters': (lambda: PST.calculate_parameters, lambda v: (series(v), second(v), third(v))),
    'correlation.calculate_parameters': (lambda: COR.calculate_parameters, tri),
    'root': (lambda: KB.root, lambda v: (lambda t: t - {'A': 0.02, 'B': 0.05, 'C': 0.007}[v], 200)),
})

# the data of variant A with other parameters
PARAM = {
    'linear_interpolation': lambda: (series('A'), flags('R', SIZE), 1),
    'cubic_12points_polynomial': lambda: (series('A', 70), flags('R', 70), 1),
    'repl.simple_moving_average': lambda: repl(9)('A'),
    'repl.exponential_moving_average': lambda: repl(0.7)('A'),
    'repl.weighted_moving_average': lambda: (series('A'), np.array([3, 7]), 8),
    'repl.ssa': lambda: repl(100.0, 26.0)('A'),
    'repl.kalman_filter': lambda: repl()('A') + kal('B'),
    'polynomial_replacement': lambda: (series('A'), flags('R', SIZE), 25, 1, 2),
    'last_valid_data': lambda: (series('A'), flags('R', SIZE)),
    'mean_value': lambda: (series('A'), flags('R', SIZE)),
    'median_value': lambda: (series('A'), flags('R', SIZE)),
    'pollution_rate': lambda: (series('A'), second('A'), 1.0),
    'acceleration_thresholding': lambda: (series('A'), 20.0, 1, 500, 1.0, 0.5),
    'phasespace_thresholding_premodification': lambda: (series('A'), 0.5, 2.5),
    'spherical_phasespace_thresholding': lambda: (series('A'), 1, 0.0),
    'velocity_correlation': lambda: (third('A'), second('A'), series('A')),
    'three_dimensional_kernel': lambda: (series('A', 30), 11),
    'kernel': lambda: (series('A', 30), second('A', 30), 11),
    'bivariate_kernel': lambda: (np.array([series('A', 24), second('A', 24)]), 0.4, 0.1, 8),
    'calculate_ab': lambda: (2.0, 1.0, 0.5, 2.0),
    'calculate_rho': lambda: (series('A'), second('A'), -0.7, 3.0, 1.0),
    'moving_average': lambda: (series('A'), 12),
    'exponential_moving_average': lambda: (series('A'), 0.8),
    'weighted_moving_average': lambda: (series('A'), 12),
    'ssa': lambda: (series('A'), 100.0, 26.0),
    'kalman_filter': lambda: (series('A'),) + kal('B'),
    'pdf': lambda: (series('A'), 2.0, -1.0),
    'log_pdf': lambda: (series('A'), 2.0, -1.0),
    'skewtest': lambda: (series('A'), 'less'),
    'kurtotest': lambda: (series('A'), 'greater'),
    'brentq': lambda: root_fn('A') + (1e-3, 1e-3, 50),
    'fminbound': lambda: (lambda x, r: (x - r) ** 2, 0.0, 1.0, (0.3,), 1e-2, 8, True),
    'kinetic_turbulent_energy': lambda: (third('A'), second('A'), second('B')),
    'reynolds_stresses': lambda: (third('A'), second('A'), series('A')),
    'power_spectra': lambda: (series('A'), 50.0, 25, 32, False),
    'synthetic_noise': lambda: (series('A'), 30),
    'butterworth': lambda: (3, [0.2, 0.5], 'bs', False, 'zps'),
    'low_to_low': lambda: zpk('A') + (3.5,),
    'low_to_high': lambda: zpk('A') + (3.5,),
    'low_to_band': lambda: zpk('A') + (3.0, 1.5),
    'low_to_stop': lambda: zpk('A') + (3.0, 1.5),
    'bilinear': lambda: zpk('A') + (8.0,),
    'xyz_to_sop': lambda: digital('A') + ('ml',),
    'root': lambda: (lambda t: t - 0.02, 5000),
}

# longer data of another scale and every parameter different
def _q(n=93, seed=13, scale=0.75, off=-6.0):
    v = dom.noise(n, seed) * scale + off
    v[n // 3] -= 9 * scale
    return v


def _qs(*extra, **kw):
    return lambda: (_q(**kw),) + extra


def _qr(*extra, **kw):
    return lambda: (_q(**kw), np.array([2, 9, 10, 31, 40, 57, 80])) + extra


def _q3():
    return (_q(93, 13), _q(93, 17, 0.5, 2.0), _q(93, 19, 2.0, 0.5))


def _qz():
    return (np.array([3.0]), np.array([-4.0, -0.75, -6.0, -1.0 + 2j, -1.0 - 2j]), -1.5)


def _qd():
    return (np.array([0.9, -0.2 + 0.1j, -0.2 - 0.1j, 1.0]), np.array([-0.6, 0.7, 0.1 + 0.2j, 0.1 - 0.2j, 0.0]), -2.0)


_qk = [np.array([[-6.0]]), np.array([[0.25]]), np.array([[0.125]]), np.array([[0.5]])]
OTHER = {
    'last_valid_data': _qr(), 'mean_value': _qr(), 'median_value': _qr(), 'linear_interpolation': _qr(2), 'cubic_12points_polynomial': _qr(3),
    'repl.simple_moving_average': _qr(31), 'repl.exponential_moving_average': _qr(0.05),
    'repl.weighted_moving_average': lambda: (_q(), np.array([1, 40]), 17), 'repl.ssa': _qr(50, 7), 'repl.kalman_filter': lambda: _qr()() + tuple(x.copy() for x in _qk),
    'polynomial_replacement': _qr(33, 3, 6),
    'pollution_rate': lambda: (_q(), _q(93, 17, 0.5, -6.0), 0.25), 'acceleration_thresholding': lambda: (_q(), 9.0, 2, 3.0, 2.0, 0.25),
    'phasespace_thresholding': _qs(), 'phasespace_thresholding_premodification': lambda: (_q(off=0.25), 0.75, 0.9),
    'spherical_phasespace_thresholding': _qs(3, -2.5), 'velocity_correlation': _q3,
    'three_dimensional_kernel': _qs(12, n=41), 'kernel': lambda: (_q(41), _q(41, 17, 0.5, 2.0), 12),
    'bivariate_kernel': lambda: (np.array([_q(35), _q(35, 17, 0.5, 2.0)]), 0.05, 0.45, 12),
    'calculate_ab': lambda: (0.5, 3.0, -0.6, 1.25), 'calculate_rho': lambda: (_q(), _q(93, 17), 1.1, 0.5, 0.25),
    'min': _qs(), 'max': _qs(), 'mean': _qs(), 'median': _qs(), 'mode': _qs(), 'variance': _qs(), 'std': _qs(), 'skewness': _qs(), 'kurtosis': _qs(),
    'moving_average': _qs(31), 'exponential_moving_average': _qs(0.05), 'weighted_moving_average': _qs(31), 'ssa': _qs(50, 7),
    'kalman_filter': lambda: (_q(),) + tuple(x.copy() for x in _qk),
    'cdf': _qs(), 'pdf': _qs(0.5, -5.0), 'sf': _qs(off=0.0), 'log_pdf': _qs(0.5, -5.0), 'log_cdf': _qs(off=0.0), 'log_sf': _qs(off=0.0),
    'skewtest': _qs('greater'), 'kurtotest': _qs('less'),
    'brentq': lambda: (lambda x: 5.0 - x * x, 1.5, 7.0, 1e-5, 1e-4, 60, True),
    'fminbound': lambda: (lambda x, r, q: q * (x - r) ** 2 - 1.0, -4.0, -0.5, (-1.5, 2.0), 1e-3, 40, True),
    'kinetic_turbulent_energy': _q3, 'reynolds_stresses': _q3,
    'power_spectra': _qs(7.5, 75, 16, False), 'synthetic_noise': _qs(40),
    'butterworth': lambda: (5, 3.0, 'hp', False, 'sop', 25.0), 'low_to_low': lambda: _qz() + (0.3,), 'low_to_high': lambda: _qz() + (0.3,),
    'low_to_band': lambda: _qz() + (0.7, 4.0), 'low_to_stop': lambda: _qz() + (0.7, 4.0), 'bilinear': lambda: _qz() + (0.6,), 'buttap': lambda: (7,),
    'xyz_to_sop': lambda: _qd() + ('kd',), 'xyz_to_ptf': _qd,
    'calculate_derivatives': _qs(), 'calculate_parameters': _q3, 'correlation.calculate_parameters': _q3,
    'root': lambda: (lambda t: 0.0125 - t, 60),
}

# calls that are refused
REFUSED = {
    'moving_average': lambda: (series('A'), 10 ** 6),
    'weighted_moving_average': lambda: (series('A'), 0),
    'exponential_moving_average': lambda: (series('A'), 2.0),
    'min': lambda: (np.array([]),),
    'max': lambda: (np.array([1.0, np.nan]),),
    'mean': lambda: (np.array([]),),
    'median': lambda: (np.array([]),),
    'variance': lambda: (np.array([]),),
    'std': lambda: (np.array([]),),
    'cdf': lambda: (np.array([1.0, np.nan]),),
    'pdf': lambda: (np.array([1.0, np.nan]),),
    'sf': lambda: (np.array([]),),
    'log_pdf': lambda: (np.array([]),),
    'log_cdf': lambda: (np.array([np.nan]),),
    'skewtest': lambda: (np.arange(5.0),),
    'kurtotest': lambda: (np.arange(4.0),),
    'brentq': lambda: (lambda x: 1.0 + x, 0.0, 1.0),
    'fminbound': lambda: (lambda x: x, 2.0, 1.0),
    'acceleration_thresholding': lambda: (series('A'), 100.0, 3),
    'butterworth': lambda: (3, [0.5, 0.2], 'bp'),
    'xyz_to_sop': lambda: (np.array([0.5 + 0.1j]), np.array([0.1, 0.2]), 1.0),
    'bilinear': lambda: (np.array([-1.0]), np.array([-2.0]), 1.0, None),
    'low_to_low': lambda: (np.array([-1.0, -2.0]), np.array([-2.0]), 1.0, 1.0),
    'synthetic_noise': lambda: (series('A'), 150),
    'buttap': lambda: (2.5,),
}


def build(op):
    name, variant = op
    get, mk = FUN[name]
    if variant[0] == '#':
        return get(), touched(name, variant[1], variant[2:])
    if variant[0] == '!':
        return get(), spoilt(name, variant[1], variant[2:])
    if variant == 'E':
        return get(), REFUSED[name]()
    if variant == 'P':
        return get(), PARAM[name]()
    if variant == 'Q':
        return get(), OTHER[name]()
    return get(), mk(variant)


FACTORS = (1.001, 1.02, 0.99, 1.1, 1.2, 0.8, 2, 0.5, 4)
STEPS = (1, 2, 3, -1, -2, 7, -4, 20, 55)


def sweeps(name, variant):
    """one numeric parameter set to other values: '#<variant>argument.0*k'"""
    for j, a in enumerate(build((name, variant))[1]):
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            for k in range(len(FACTORS)):
                yield (name, '#%s%d.0*%d' % (variant, j, k))
        elif isinstance(a, list):
            for i in range(len(a)):
                for k in range(5):
                    yield (name, '#%s%d.%d*%d' % (variant, j, i, k))
        elif isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.size <= 4:
            for i in range(a.size):
                for k in range(5):
                    yield (name, '#%s%d.%d*%d' % (variant, j, i, k))


FAULTS = ('short', 'none', 'text', 'empty', 'nan', 'negative', 'zero', 'list')


def faults(name):
    """one argument spoilt: '!Aargument.kind'"""
    for j, a in enumerate(build((name, 'A'))[1]):
        if callable(a):
            kinds = ('none', 'raises')
        elif isinstance(a, np.ndarray):
            kinds = FAULTS[:5] + FAULTS[7:] if a.size > 1 else FAULTS[:5]
        else:
            kinds = FAULTS[1:3] + FAULTS[4:7]
        for k in kinds:
            if (name, k) == ('root', 'nan'):     # not a sample count
                continue
            yield (name, '!A%d.%s' % (j, k))


def spoilt(name, variant, where):
    j, kind = where.split('.')
    j = int(j)
    args = list(build((name, variant))[1])
    a = args[j]
    if kind == 'raises':
        def args_j(*x):
            raise ZeroDivisionError('the caller\'s function fails')
        args[j] = args_j
    elif kind == 'short':
        args[j] = a[:-1].copy()
    elif kind == 'list':
        args[j] = a.tolist()
    elif kind == 'none':
        args[j] = None
    elif kind == 'text':
        args[j] = 'text' if not isinstance(a, np.ndarray) else np.array(['a'] * a.size)
    elif kind == 'empty':
        args[j] = a[:0].copy()
    elif kind == 'nan':
        args[j] = np.full(a.shape, np.nan) if isinstance(a, np.ndarray) else [float('nan')] * len(a) if isinstance(a, list) else float('nan')
    else:
        f = -1 if kind == 'negative' else 0
        args[j] = [x * f for x in a] if isinstance(a, (list, tuple)) else a if isinstance(a, str) else a * f
    return tuple(args)


def touched(name, variant, where):
    """the arguments of a variant with one sample or one parameter changed a little: '#<variant>argument.position'"""
    where, _, how = where.partition('*')
    j, i = [int(x) for x in where.split('.')]
    args = list(build((name, variant))[1])
    a = args[j]
    if how:
        k = int(how)
        if isinstance(a, np.ndarray):
            a.reshape(-1)[i] *= FACTORS[k]
        elif isinstance(a, list):
            a[i] *= FACTORS[k]
        else:
            args[j] = a + STEPS[k] if isinstance(a, int) else a * FACTORS[k]
    elif isinstance(a, np.ndarray):
        a.reshape(-1)[i] += 0.375
    elif isinstance(a, list):
        a[i] *= 1.001
    else:
        args[j] = a + 1 if isinstance(a, int) else a * 1.001
    return tuple(args)


def touches(name, stride=1, variant='A'):
    """every such variant of one function"""
    for j, a in enumerate(build((name, variant))[1]):
        if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
            for i in range(0, a.size, stride if a.size > 4 else 1):
                yield (name, '#%s%d.%d' % (variant, j, i))
        elif isinstance(a, list):
            for i in range(len(a)):
                yield (name, '#%s%d.%d' % (variant, j, i))
        elif isinstance(a, (int, float)) and not isinstance(a, bool):
            yield (name, '#%s%d.0' % (variant, j))


def has(name, variant):
    if variant[0] in '#!':
        return True
    if variant == 'E':
        return name in REFUSED
    if variant == 'P':
        return name in PARAM
    if variant == 'Q':
        return name in OTHER
    if variant in 'DS':
        try:
            FUN[name][1](variant)
        except KeyError:
            return False
    return True


def ops(variants):
    return [(n, v) for n in FUN for v in variants if has(n, v)]


def perform(op, args=None):
    fn, a = build(op)
    if args is not None:
        a = args
    if op[0] == 'synthetic_noise':
        np.random.seed(12345)
    return call(fn, *a), a


def leaves(x, path='result'):
    """(path, leaf) of a nested outcome"""
    if isinstance(x, Err):
        yield path, type(x.exc).__name__
    elif isinstance(x, dict):
        for k in sorted(x):
            for y in leaves(x[k], '%s[%r]' % (path, k)):
                yield y
    elif isinstance(x, (list, tuple)) and any(isinstance(t, (list, tuple, np.ndarray, dict)) for t in x):
        for i, t in enumerate(x):
            for y in leaves(t, '%s[%d]' % (path, i)):
                yield y
    elif x is None or isinstance(x, (str, bool)):
        yield path, x
    else:
        try:
            yield path, np.array(x, dtype=complex)
        except Exception:
            yield path, repr(x)


def freeze(x):
    return list(leaves(x))


def equal(got, want, what, rel=1e-9):
    """outcomes agree up to rounding"""
    g, w = freeze(got) if not isinstance(got, list) or not got or not isinstance(got[0], tuple) or not isinstance(got[0][0], str) else got, want
    if [p for p, _ in g] != [p for p, _ in w]:
        raise Violation('%s: outcome %s, expected %s' % (what, [p for p, _ in g][:6], [p for p, _ in w][:6]))
    for (p, a), (_, b) in zip(g, w):
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
            raise Violation('%s: %s is %r, expected %r' % (what, p, a, b))
        if isinstance(a, np.ndarray):
            if a.shape != b.shape:
                raise Violation('%s: %s has shape %s, expected %s' % (what, p, a.shape, b.shape))
            if a.size:
                sc = max(1.0, float(np.max(np.abs(np.where(np.isfinite(b), b, 0)))))
                same(a.real, b.real, rel * sc, '%s: %s' % (what, p))
                same(a.imag, b.imag, rel * sc, '%s: %s' % (what, p))
        elif a != b:
            raise Violation('%s: %s is %r, expected %r' % (what, p, a, b))


_fresh = {}


def first_outcome(op):
    """the outcome of the call as the first one of a process forked from this one"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, lambda *a: os._exit(3))
            signal.alarm(120)
            try:
                data = pickle.dumps(freeze(perform(op)[0]))
            except BaseException as e:  # noqa
                data = pickle.dumps([('harness', repr(e))])
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else [('result', 'does not return')]


def _outcomes(oplist):
    return [(op, first_outcome(op)) for op in oplist]


def fresh(op):
    """what the call yields as the first call of a new process"""
    if op not in _fresh:
        _fresh[op] = first_outcome(op)
    return _fresh[op]


def prepare(oplist):
    """fresh outcomes of all operations, computed before this process has called anything"""
    todo = [op for op in oplist if op not in _fresh]
    with mp.get_context('fork').Pool(8) as pool:
        for part in pool.imap_unordered(_outcomes, [todo[i::64] for i in range(64)]):
            _fresh.update(part)


def arrays(x):
    if isinstance(x, np.ndarray):
        if x is not np.ma.masked:        # a constant that cannot be written to
            yield x
    elif isinstance(x, (list, tuple)):
        for t in x:
            for y in arrays(t):
                yield y
    elif isinstance(x, dict):
        for t in x.values():
            for y in arrays(t):
                yield y
