"""P34 the container, layout and integer width of array-like arguments do not matter."""
import numpy as np
from mc import dom, ops
from mc.core import Space, Violation, call, note, step


def strided(a):
    b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
    b[1::2] = 99
    b[::2] = a
    return b[::2]


def reversed_(a):
    return a[::-1].copy()[::-1]


def column(a):
    b = np.full(a.shape + (3,), 5, a.dtype)
    b[..., 1] = a
    return b[..., 1]


def readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def offset(a):
    """data that does not start at an aligned address"""
    raw = bytearray(a.nbytes + 1)
    b = np.frombuffer(raw, dtype=a.dtype, count=a.size, offset=1).reshape(a.shape)
    b[...] = a
    return b


FORMS = {
    'list': lambda a: a.tolist(),
    'tuple': lambda a: tuple(a.tolist()),
    'strided': strided,
    'reversed': reversed_,
    'column': column,
    'readonly': readonly,
    'unaligned': offset,
    'bigendian': lambda a: a.astype(a.dtype.newbyteorder('>')),
    'fortran': np.asfortranarray,
    'float subclasses': lambda a: np.array([np.float64(x) for x in a.tolist()]) if a.dtype.kind == 'f' and a.ndim == 1 else a,
    'object-free list of numpy scalars': lambda a: list(a) if a.ndim == 1 else a.tolist(),
}
INTS = {
    'int64': lambda a: a.astype(np.int64),
    'int32': lambda a: a.astype(np.int32),
    'int16': lambda a: a.astype(np.int16),
    'int list': lambda a: [int(x) for x in a] if a.ndim == 1 else [[int(x) for x in r] for r in a],
}
NO_DATA = ('brentq', 'fminbound', 'buttap', 'butterworth', 'calculate_ab')
# parameters rather than data: poles and zeros, Kalman parameters
PARAM_ARRAYS = ('low_to_low', 'low_to_high', 'low_to_band', 'low_to_stop', 'bilinear', 'xyz_to_sop', 'xyz_to_ptf')


def data_args(name, args):
    out = []
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.size and not (name in ('kalman_filter', 'repl.kalman_filter') and a.shape == (1, 1)):
            out.append(i)
    return out


def invoke(name, fn, args):
    if name == 'synthetic_noise':
        np.random.seed(12345)
    return call(fn, *args)


def run(c):
    name, variant, form, which = c
    fn, args = ops.build((name, variant))
    want = ops.freeze(invoke(name, fn, tuple(a.copy() if isinstance(a, np.ndarray) else a for a in args)))
    idx = data_args(name, args)
    sel = idx if which == 'all' else [idx[which]]
    new = tuple(FORMS[form](a) if i in sel else a for i, a in enumerate(args))
    ops.equal(ops.freeze(invoke(name, fn, new)), want, '%s with argument(s) %s as %s' % (name, sel, form), 1e-8)
    step(1, 1)
    return want[0][0]


def run_int(c):
    name, variant, form = c
    fn, args = ops.build((name, variant))
    idx = [i for i in data_args(name, args) if args[i].dtype.kind == 'f']
    fl = tuple(np.round(a * 4) if i in idx else a for i, a in enumerate(args))
    want = ops.freeze(invoke(name, fn, tuple(a.copy() if isinstance(a, np.ndarray) else a for a in fl)))
    new = tuple(INTS[form](a) if i in idx else a for i, a in enumerate(fl))
    ops.equal(ops.freeze(invoke(name, fn, new)), want, '%s with integer data (%s)' % (name, form), 1e-8)
    step(1, 1)
    return want[0][0]


WIDE = {'int8': (-127, 127), 'uint8': (0, 255), 'int16': (-32767, 32767), 'uint16': (0, 65535), 'int32': (-2 ** 31 + 1, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1), 'int64': (-2 ** 40, 2 ** 40)}


def run_wide(c):
    """integer data that fills the range of its type"""
    name, variant, dt = c
    fn, args = ops.build((name, variant))
    lo, hi = WIDE[dt]
    idx = [i for i in data_args(name, args) if args[i].dtype.kind == 'f']

    def fill(a):
        return np.round(lo + (a - a.min()) / ((a.max() - a.min()) or 1.0) * (hi - lo))
    fl = tuple(fill(a) if i in idx else a for i, a in enumerate(args))
    want = ops.freeze(invoke(name, fn, tuple(a.copy() if isinstance(a, np.ndarray) else a for a in fl)))
    new = tuple(a.astype(dt) if i in idx else a for i, a in enumerate(fl))
    ops.equal(ops.freeze(invoke(name, fn, new)), want, '%s with %s data filling the range' % (name, dt), 1e-8)
    step(1, 1)
    return want[0][0]


# results that depend continuously on the data: compared on every small series of extreme integers
SMOOTH = {
    'mean': lambda a: ops.D.mean(a), 'median': lambda a: ops.D.median(a), 'min': lambda a: ops.D.min(a), 'max': lambda a: ops.D.max(a), 'mode': lambda a: ops.D.mode(a),
    'variance': lambda a: ops.SP.variance(a), 'std': lambda a: ops.SP.std(a), 'skewness': lambda a: ops.M.skewness(a), 'kurtosis': lambda a: ops.M.kurtosis(a),
    'pdf': lambda a: ops.N.pdf(a), 'pdf with parameters': lambda a: ops.N.pdf(a, 3, 2), 'cdf': lambda a: ops.N.cdf(a), 'sf': lambda a: ops.N.sf(a),
    'moving_average': lambda a: ops.S.moving_average(a, 2), 'weighted_moving_average': lambda a: ops.S.weighted_moving_average(a, 2),
    'linear_interpolation': lambda a: ops.R.linear_interpolation(a, [1, 2]), 'linear_interpolation at the end': lambda a: ops.R.linear_interpolation(a, [3]),
    'polynomial_replacement': lambda a: ops.R.polynomial_replacement(np.concatenate((a, a, a)), [5, 11]),
    'reynolds_stresses': lambda a: ops.F.reynolds_stresses(a, a[::-1], np.roll(a, 1)), 'kinetic_turbulent_energy': lambda a: ops.F.kinetic_turbulent_energy(a, a[::-1], np.roll(a, 1)),
    'calculate_derivatives': lambda a: ops.PST.calculate_derivatives(a), 'calculate_rho': lambda a: ops.POI.calculate_rho(a, a[::-1], 0.3, 2.0, 3.0),
    'exponential_moving_average': lambda a: ops.S.exponential_moving_average(a, 0.3), 'kalman_filter': lambda a: ops.S.kalman_filter(a, *ops.kal('A')),
    'mean_value': lambda a: ops.R.mean_value(a, [1]), 'median_value': lambda a: ops.R.median_value(a, [0, 3]), 'last_valid_data': lambda a: ops.R.last_valid_data(a, [0, 2]),
    'replacement by moving average': lambda a: ops.R.simple_moving_average(a, [3], 3), 'replacement by exponential average': lambda a: ops.R.exponential_moving_average(a, [1, 2]),
    'replacement by Kalman filter': lambda a: ops.R.kalman_filter(a, [1, 3], *ops.kal('A')), 'replacement by spectrum analysis': lambda a: ops.R.ssa(a, [1, 3], 3, 1),
    'premodification': lambda a: ops.PST.phasespace_thresholding_premodification(a)[0],
}


def run_extreme(c):
    name, dt, word = c
    a = np.array(word, dtype=dt)
    got = ops.freeze(call(SMOOTH[name], a))
    want = ops.freeze(call(SMOOTH[name], a.astype(float)))
    ops.equal(got, want, '%s of %s' % (name, a.dtype), 1e-6)
    step(1, 1)
    return want[0][0]


def run_index(c):
    """flag sets as lists, tuples and integer arrays of any width"""
    name, variant, form = c
    fn, args = ops.build((name, variant))
    want = ops.freeze(invoke(name, fn, (args[0].copy(), args[1].copy()) + tuple(args[2:])))
    f = args[1]
    idx = {'list': f.tolist(), 'tuple': tuple(f.tolist()), 'int32': f.astype(np.int32), 'uint8': f.astype(np.uint8), 'uint64': f.astype(np.uint64), 'int8': f.astype(np.int8),
           'strided': strided(f), 'readonly': readonly(f), 'numpy ints': [np.int64(x) for x in f]}[form]
    ops.equal(ops.freeze(invoke(name, fn, (args[0].copy(), idx) + tuple(args[2:]))), want, '%s with flags as %s' % (name, form), 1e-8)
    step(1, 1)
    return want[0][0]


REPL = ['last_valid_data', 'mean_value', 'median_value', 'linear_interpolation', 'cubic_12points_polynomial', 'repl.simple_moving_average', 'repl.exponential_moving_average',
        'repl.ssa', 'repl.kalman_filter', 'polynomial_replacement']


def spaces(tier):
    deep = tier == 'thorough'

    def forms():
        for name in ops.FUN:
            if name in NO_DATA:
                continue
            for v in 'ABC':
                n = len(data_args(name, ops.build((name, v))[1]))
                for form in FORMS:
                    for which in ['all'] + (list(range(n)) if n > 1 else []):
                        yield (name, v, form, which)
    return [
        Space('containers', forms, run, 'every function, three data sets, 11 containers and layouts, all and each data argument'),
        Space('integers', lambda: ((n, v, f) for n in ops.FUN if n not in NO_DATA + PARAM_ARRAYS for v in 'ABC' for f in INTS
                                   if (n, f) != ('power_spectra', 'int16')), run_int, 'integer data in 4 widths'),
        Space('full range', lambda: ((n, v, d) for n in ops.FUN if n not in NO_DATA + PARAM_ARRAYS + ('power_spectra',) for v in 'ABC' for d in WIDE), run_wide,
              'integer data filling the range of 7 integer types'),
        Space('extreme integers', lambda: ((n, d, w) for n in SMOOTH for d in ('int8', 'uint8', 'int16', 'int32') for w in dom.words((WIDE[d][0], 1, 20, WIDE[d][1] // 3, WIDE[d][1]), 4, 5 if deep else 4)),
              run_extreme, 'every series of four extreme integers, 4 types, 32 functions'),
        Space('flags', lambda: ((n, v, f) for n in REPL for v in 'ABC' for f in ('list', 'tuple', 'int32', 'uint8', 'uint64', 'int8', 'strided', 'readonly', 'numpy ints')), run_index,
              'flag sets in 9 containers and widths'),
    ]
