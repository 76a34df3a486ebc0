"""P17 mean of numeric, mixed and invalid input."""
import itertools
import math
import numpy as np
from mc import dom, ref
from mc.core import Space, Violation, as_scalar, call, ok, same, step
import proadv.statistics.descriptive as D

MODS = ['proadv.statistics.descriptive']
ITEMS = (1, 4, -2.5, '2', '3.5', '-1e1', 'x', 'not a number', '')
SPELLED = (' 5 ', '+.5', '5.', '1E3', '-0', '1,5', '0x10', '1 2', '--1', 'e5', '1_0', '_1', '１２', '\t7\n', 2, np.int64(3), np.float32(0.5))

CHARS = tuple(chr(i) for i in range(32, 127)) + (
    'null', 'none', 'None', 'NA', 'N/A', 'n.a.', '#REF!', '#N/A', '--', '**', 'True', 'False', 'true', '1/2', '5%', '$5', '1e', '0b1', '0o7', '1j', '1.2.3', '..', '+-1', '1e400x', '1;2',
    'missing', '-', 'five', '3m', '4 m/s', '-e', '1 e5', '(3)', '[3]', "'3'", '"3"', '3-', '3+', '٣', '½', '−3', '三', '\n', '\t', '\x00', 'é')


def judge_num(v, form):
    a = np.array(v, dtype=float)
    arg = {'array': lambda: a.copy(), 'list': lambda: a.tolist(), 'tuple': lambda: tuple(a.tolist()),
           'float32': lambda: a.astype(np.float32), 'int': lambda: a.astype(int), 'intlist': lambda: [int(x) for x in a]}[form]()
    vals = [float(x) for x in np.asarray(arg, dtype=float)]
    got = as_scalar(call(D.mean, arg), 'mean')
    tol = (1e-12 if form != 'float32' else 1e-5) * max(1e-300, max(abs(x) for x in vals))
    same(got, math.fsum(vals) / len(vals), tol, 'mean')
    return got


def number(x):
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            return None
    return float(x)


def judge_mixed(items, form):
    items = list(items)
    arg = {'list': lambda: list(items), 'tuple': lambda: tuple(items), 'object': lambda: np.array(items, dtype=object),
           'array': lambda: np.array(items)}[form]()
    keep = repr(arg)
    vals = [number(x) for x in items]
    vals = [x for x in vals if x is not None]
    out = ok(call(D.mean, arg), 'mean of %r' % (items,))
    if repr(arg) != keep:
        raise Violation('mean modified its argument')
    if not vals:
        if not isinstance(out, str):
            raise Violation('mean of data without any number: %r, expected an invalid-input message' % (out,))
        return 'invalid'
    if not all(map(math.isfinite, vals)):
        same(as_scalar(out, 'mean of %r' % (items,)), sum(vals), 0.0, 'mean of %r' % (items,))
        return out
    same(as_scalar(out, 'mean of %r' % (items,)), math.fsum(vals) / len(vals), 1e-12 * max(map(abs, vals)) + 1e-300, 'mean of %r' % (items,))
    return out


def run_special(c):
    kind, x = c
    if kind == 'number':
        got = as_scalar(call(D.mean, x), 'mean of a single number')
        same(got, float(x), 0.0, 'mean of a single number')
        return got
    arg = {'empty-list': [], 'empty-array': np.array([]), 'empty-tuple': (), 'string': x}[kind]
    out = ok(call(D.mean, arg), 'mean of %s' % kind)
    if not isinstance(out, str):
        raise Violation('mean of %s %r: %r, expected an invalid-input message' % (kind, arg, out))
    return out


def spaces(tier):
    deep = tier == 'thorough'
    nm = 7 if deep else 6
    sizes = [64, 257, 1000, 4099, 10007, 65537] + dom.literal_sizes(2, 20000, MODS, 12)
    forms = ('array', 'list', 'tuple', 'int', 'intlist')
    return [
        Space('all-words', lambda: ((w, f) for w in dom.words((0.0, 1.0, -2.0, 5.0), 1, nm) for f in ('array', 'list')),
              lambda c: judge_num(*c), 'every series over 4 values up to %d samples, array and list' % nm),
        Space('forms', lambda: ((w, f) for w in dom.words((0.0, 3.0, -4.0), 1, 4) for f in forms + ('float32',)),
              lambda c: judge_num(*c), 'every series over 3 values up to 4 samples in 6 containers'),
        Space('mixed', lambda: ((w, f) for n in range(1, 5 if not deep else 6) for w in itertools.product(ITEMS, repeat=n)
                                if any(isinstance(x, str) for x in w) for f in (('list', 'object', 'tuple', 'array') if n < 4 else ('list',))),
              lambda c: judge_mixed(*c), 'every mix of 9 numbers and strings up to %d items' % (4 if not deep else 5)),
        Space('spellings', lambda: ((w, f) for n in range(1, 4 if not deep else 5) for w in itertools.product(SPELLED, repeat=n)
                                    if any(isinstance(x, str) for x in w) for f in (('list', 'object', 'tuple', 'array') if n < 3 else ('list',))),
              lambda c: judge_mixed(*c), 'every mix of 17 spellings and number types up to %d items' % (3 if not deep else 4)),
        Space('characters', lambda: ((w, f) for x in CHARS for w in ((1, 4, x), (x, 1, 4), (1, x, 4), (x,), (1, x, x), ('2', x)) for f in ('list', 'object', 'array')),
              lambda c: judge_mixed(*c), 'every printable character and %d further words beside numbers' % (len(CHARS) - 95)),
        Space('not finite', lambda: ((w, f) for n in range(1, 4) for w in itertools.product(('inf', '-Infinity', 'nan', ' NaN', 'infinite', 2.5, '3'), repeat=n)
                                     if any(isinstance(x, str) for x in w) for f in (('list', 'object', 'tuple') if n < 3 else ('list',))),
              lambda c: judge_mixed(*c), 'spellings of infinity and not-a-number'),
        Space('special', lambda: [('number', x) for x in (0, 3, -2, 2.5, -1e9, True, np.float64(1.25), 1e-12, -1e-300, 1e300, 0.1, 2 ** 53, np.float64(-1e-9), np.int64(5), np.int8(-3), np.uint16(7), np.float32(2.5))] +
              [('empty-list', None), ('empty-array', None), ('empty-tuple', None)] + [('string', x) for x in ('', 'abc', '12', '3.5', '1 2')],
              run_special, 'single numbers, empty containers, plain strings'),
        Space('shapes', lambda: ((sh, n, f) for sh in dom.SHAPES for n in (1, 2, 3, 10, 33) for f in ('array', 'list')),
              lambda c: judge_num(dom.shape(c[0], c[1]), c[2]), '19 shapes'),
        Space('magnitudes', lambda: ((sh, n, f, k) for sh in ('noise', 'offset', 'spiky') for n in (3, 33) for f in ('array', 'list', 'tuple')
                                     for k in (-300, -200, -100, -60, -40, -20, 20, 40, 60, 100, 200, 300)),
              lambda c: judge_num(dom.shape(c[0], c[1]) * 2.0 ** c[3], c[2]), 'magnitudes 2^-300..2^300'),
        Space('long', lambda: ((sh, n, f) for n in sizes for sh in ('noise', 'offset', 'huge', 'tiny') for f in ('array', 'list')),
              lambda c: judge_num(dom.shape(c[0], c[1]), c[2]), 'sizes %s' % sizes),
    ]


def constants():
    return [Space('source-constants', lambda: ((c, f) for c in dom.fresh_series((9, 201), 1, 100000) for f in ('array', 'list', 'tuple')), lambda c: judge_num(dom.build(c[0]), c[1]), dom.gained())]
