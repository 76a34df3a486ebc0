"""P32 calls are pure: no call changes its arguments, an earlier result or a later outcome."""
import importlib
import itertools
import numpy as np
from mc import core, dom, ops
from mc.core import Space, Violation, call, note, step

# a module imported only when a function first needs it may set up filters or the environment: no call's doing
for _m in ('scipy.signal', 'scipy.signal.windows', 'scipy.stats', 'scipy.interpolate', 'scipy.linalg', 'scipy.fft', 'scipy.optimize', 'scipy.special', 'scipy.ndimage',
           'scipy.integrate', 'scipy.sparse', 'scipy.spatial', 'sklearn.linear_model', 'sklearn.preprocessing', 'sklearn.pipeline', 'pandas', 'statistics', 'fractions', 'decimal'):
    try:
        importlib.import_module(_m)
    except Exception:
        pass


def rstate():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4])


def snapshot(args):
    return [(a, a.copy(), a.dtype, a.shape) for a in ops.arrays(args)]


def lists(args):
    return [list(a) for a in args if isinstance(a, list)]


def no_leaks(what):
    if core.LEAKS:
        which = sorted(set(core.LEAKS))
        del core.LEAKS[:]
        raise Violation('%s: changed the %s of the caller' % (what, ', '.join(which)))


def run(history):
    """perform the history; after each call poison everything that was handed out or in"""
    earlier = []
    for k, op in enumerate(history):
        what = 'call %d of %s' % (k + 1, ' -> '.join('%s/%s' % o for o in history))
        fn, args = ops.build(op)
        snap, ls = snapshot(args), lists(args)
        rs = rstate()
        if op[0] == 'synthetic_noise':
            np.random.seed(12345)
        out = call(fn, *args)
        ops.equal(ops.freeze(out), ops.fresh(op), what)
        if op[0] != 'synthetic_noise' and rstate() != rs:
            raise Violation('%s: the caller\'s random state changed' % what)
        no_leaks(what)
        for a, b, dt, shp in snap:
            if a.dtype != dt or a.shape != shp or a.tobytes() != b.tobytes():
                raise Violation('%s: an argument was modified' % what)
        if lists(args) != ls:
            raise Violation('%s: a list argument was modified' % what)
        for prev, frozen, w in earlier:
            ops.equal(ops.freeze(prev), frozen, 'result of ' + w + ' after ' + what, 0.0)
        earlier.append((out, ops.freeze(out), what))
        step(1, 2)
    return [ops.freeze(o)[0][0] for o, _, _ in earlier]


def run_poison(history):
    """as above, but the caller overwrites results and arguments between the calls"""
    for k, op in enumerate(history):
        what = 'call %d of %s (caller overwrote earlier results)' % (k + 1, ' -> '.join('%s/%s' % o for o in history))
        out, args = ops.perform(op)
        ops.equal(ops.freeze(out), ops.fresh(op), what)
        for a in itertools.chain(ops.arrays(out), ops.arrays(args)):
            if a.flags.writeable and a.dtype.kind in 'fciu':
                a[...] = 7
        if isinstance(out, list):
            out.append('poison')
        elif isinstance(out, dict):
            out['poison'] = 1
        step(1, 1)
    return 'ok'


def run_inplace(c):
    """the caller reuses one array object for different data"""
    name, v1, v2 = c
    fn, a1 = ops.build((name, v1))
    _, a2 = ops.build((name, v2))
    if not (len(a1) == len(a2) and all((not isinstance(x, np.ndarray)) or (isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype) for x, y in zip(a1, a2))):
        note('not_reusable')
        return 'n/a'
    for want, src in (((name, v1), None), ((name, v2), a2), ((name, v1), ops.build((name, v1))[1])):
        args = []
        for i, x in enumerate(a1):
            if isinstance(x, np.ndarray):
                if src is not None:
                    x[...] = src[i]
                args.append(x)
            else:
                args.append(x if src is None else src[i])
        if name == 'synthetic_noise':
            np.random.seed(12345)
        ops.equal(ops.freeze(call(fn, *args)), ops.fresh(want), '%s with a reused array, now holding variant %s' % (name, want[1]))
        step(1, 1)
    return 'ok'


def run_alias(op):
    """a result is the caller's own: it shares no memory with the arguments or another result"""
    fn, args = ops.build(op)
    if op[0] == 'synthetic_noise':
        np.random.seed(12345)
    out = call(fn, *args)
    out2, args2 = ops.perform(op)
    for r in ops.arrays(out):
        for a in itertools.chain(ops.arrays(args), ops.arrays(args2), ops.arrays(out2)):
            if np.shares_memory(r, a):
                raise Violation('%s/%s: the result shares memory with an argument or with another result' % op)
    return 'own'


def run_long(name):
    vs = [v for v in 'ABCDSPQ' if ops.has(name, v)]
    for k in range(12 if name in HEAVY else 150):
        op = (name, vs[(k * k + k // 7) % len(vs)])
        out, _ = ops.perform(op)
        ops.equal(ops.freeze(out), ops.fresh(op), 'call %d of %s, variant %s' % (k + 1, name, op[1]))
        step(1, 1)
    return 'ok'


def keep_state(rs, what):
    if rstate() != rs:
        raise Violation('%s: the caller\'s random state changed' % what)
    no_leaks(what)


def run_structured(c):
    """any data: the arguments stay as they are, the result is the caller's own, and a repeated call gives the same"""
    name, g, k = c
    fn, args = ops.build((name, 'A'))
    n = next(a.size for a in args if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.ndim == 1)
    args, i = list(args), 0
    for j, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.ndim == 1 and a.size == n:
            if i == 0 or k:
                args[j] = dom.gal(g if i == 0 or k == 2 else 'walk' if g != 'walk' else 'palindrome', n).copy()
            i += 1
    what = '%s on %s' % (name, g)
    snap, rs = snapshot(args), rstate()
    if name == 'synthetic_noise':
        np.random.seed(12345)
    out = call(fn, *args)
    if name != 'synthetic_noise':
        keep_state(rs, what)
    else:
        np.random.seed(12345)
    for a, b, dt, shp in snap:
        if a.dtype != dt or a.shape != shp or a.tobytes() != b.tobytes():
            raise Violation('%s: an argument was modified' % what)
    for r in ops.arrays(out):
        for a in ops.arrays(args):
            if np.shares_memory(r, a):
                raise Violation('%s: the result shares memory with an argument' % what)
    first = ops.freeze(out)
    out2 = call(fn, *args)
    ops.equal(ops.freeze(out2), first, 'second call of ' + what)
    ops.equal(ops.freeze(out), first, 'result of the first call after the second call of ' + what, 0.0)
    for r in ops.arrays(out):
        for a in ops.arrays(out2):
            if np.shares_memory(r, a):
                raise Violation('%s: two results share memory' % what)
    step(2, 3)
    return first[0][0]


def run_fault(history):
    """a call with one argument spoilt leaves no trace, whatever its own outcome"""
    bad, op = history
    what = '%s after a call of %s with argument %s' % ('%s/%s' % op, bad[0], bad[1][2:])
    for o in (bad, op, bad):
        fn, args = ops.build(o)
        snap, rs = snapshot(args), rstate()
        if o[0] == 'synthetic_noise':
            np.random.seed(12345)
        out = call(fn, *args)
        if o[0] != 'synthetic_noise':
            keep_state(rs, what)
        for a, b, dt, shp in snap:
            if a.dtype != dt or a.shape != shp or a.tobytes() != b.tobytes():
                raise Violation('%s: an argument was modified' % what)
        ops.equal(ops.freeze(out), ops.fresh(o), what)
        step(1, 1)
    return ops.fresh(bad)[0][0]


HEAVY = ('bivariate_kernel', 'three_dimensional_kernel', 'kernel')


def spaces(tier):
    deep = tier == 'thorough'
    core.WATCH = True
    allv = ops.ops('ABCDPQE')
    ops.prepare(allv)
    A = ops.ops('A')
    small = [op for n in ops.FUN for b in 'AP' if ops.has(n, b) and (b == 'A' or n not in HEAVY)
             for op in ops.touches(n, 1 if deep else 8 if n == 'bivariate_kernel' else 3 if n in HEAVY else 1, b)]
    ops.prepare(small)
    swept = {(n, b): list(ops.sweeps(n, b)) for n in ops.FUN for b in 'AP' if ops.has(n, b) and n not in HEAVY}
    ops.prepare([op for w in swept.values() for op in w])
    faults = [op for n in ops.FUN for op in ops.faults(n) if n not in HEAVY or deep or op[1].endswith(('short', 'none'))]
    ops.prepare(faults)

    def structured():
        for n in ops.FUN:
            if any(isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.ndim == 1 and a.size > 4 for a in ops.build((n, 'A'))[1]):
                for k in range(3 if deep and n not in HEAVY else 2 if n not in HEAVY else 1):
                    for g in dom.GALLERY if n not in HEAVY or deep else dom.GALLERY[::6]:
                        yield (n, g, k)

    def sweeps():
        for (n, b), w in swept.items():
            groups = {}
            for op in w:
                groups.setdefault(op[1].split('*')[0], []).append(op)
            for g in groups.values():
                g = g + [(n, b)]
                for x in g:
                    for y in g:
                        if x != y:
                            yield (x, y)

    def pairs():
        src = ops.ops('AE') if not deep else allv
        for a in src:
            for b in A if not deep else allv:
                if deep and (a[0] in HEAVY) + (b[0] in HEAVY) == 2 and a[0] != b[0]:
                    continue
                yield (a, b)

    def own():
        for n in ops.FUN:
            vs = [v for v in 'ABCDSPQE' if ops.has(n, v)]
            for k in (3,) if n not in HEAVY else (2,):
                for w in itertools.product(vs, repeat=k + (1 if deep and n not in HEAVY else 0)):
                    yield tuple((n, v) for v in w)

    def triples():
        light = ['mean', 'std', 'cdf', 'moving_average', 'last_valid_data', 'linear_interpolation', 'phasespace_thresholding', 'brentq', 'xyz_to_sop',
                 'mode', 'kalman_filter', 'polynomial_replacement', 'skewtest']
        for w in itertools.product(light, repeat=3):
            yield tuple((n, 'ABC'[i]) for i, n in enumerate(w))
    return [
        Space('aliasing', lambda: allv, run_alias, 'every catalogued call'),
        Space('same-function', own, run, 'every history of 3 (4) calls of one function over 3 data sets and a refused call'),
        Space('pairs', pairs, run, 'every ordered pair of calls'),
        Space('poison', lambda: (h for n in ops.FUN for h in itertools.product(*[[(n, v) for v in 'ABCDSPQ' if ops.has(n, v)]] * 2)), run_poison, 'the caller overwrites arguments and results in between'),
        Space('poison-pairs', lambda: ((a, b) for a in A for b in A if a != b and not (a[0] in HEAVY or b[0] in HEAVY)), run_poison, 'every ordered pair of calls, overwriting in between'),
        Space('reused-array', lambda: ((n, a, b) for n in ops.FUN for a in 'ABCDSP' for b in 'ABCDSP' if a != b and ops.has(n, a) and ops.has(n, b)), run_inplace, 'one array object refilled between calls'),
        Space('long histories', lambda: [n for n in ops.FUN if n not in HEAVY] + list(HEAVY), run_long, '150 (kernels: 12) consecutive calls of one function cycling through all its data and parameters'),
        Space('one-sample', lambda: (((n, v[1]), (n, v), (n, v[1]), (n, v)) for n, v in small), run,
              'the same call with a single sample or parameter changed, every position of every argument'),
        Space('parameter sweeps', sweeps, run, 'two calls differing in one parameter: every ordered pair of its settings'),
        Space('spoilt arguments', lambda: ((x, (x[0], 'A')) for x in faults), run_fault, 'every argument shortened, missing, a text, empty, not-a-number, negative or zero, before and after a proper call'),
        Space('structures', structured, run_structured, 'every call on %d series structures' % len(dom.GALLERY)),
        Space('triples', triples, run, 'every triple over 13 functions'),
    ]
