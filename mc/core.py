"""Bounded exhaustive explorer for a numeric library.

A check is a list of Spaces.  A Space is a finite, deterministically enumerated set of
cases (an input series, a parameter vector, a call history, an environment's answers, a
schedule).  The explorer runs the REAL code on every case - no case is drawn at random,
none is skipped - and the Space's `run` compares the outcome with an independent
reference model.  Cases are generated simplest-first, so the reported counterexample is
the smallest one of its space.
"""
import decimal
import hashlib
import json
import locale
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORKERS = 8
CPU_LIMIT = 40.0     # CPU seconds one case may take before it counts as "does not return"
WALL_LIMIT = 240.0   # and wall-clock seconds, for code that blocks instead of spinning


class Violation(Exception):
    pass


class Hang(BaseException):
    """Raised by the watchdog inside a case (BaseException: code under test may not swallow it)."""


class Known(Exception):
    """A case that shows a genuine defect recorded in known_findings.txt."""

    def __init__(self, tag):
        Exception.__init__(self, tag)
        self.tag = tag


class Err:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'raises %s(%s)' % (type(self.exc).__name__, str(self.exc)[:200])


WATCH = False      # record changes of process-wide settings made by the calls (P32)
LEAKS = []


def settings():
    return (np.geterr(), np.geterrcall(), np.get_printoptions(), list(warnings.filters), random.getstate(), np.getbufsize(), locale.setlocale(locale.LC_ALL),
            decimal.getcontext().prec, sys.getrecursionlimit(), sys.getswitchinterval(), os.getcwd(), dict(os.environ))


SETTINGS = ('numeric error settings', 'numeric error callback', 'print options', 'warning filters', 'state of the random module', 'buffer size', 'locale',
            'decimal precision', 'recursion limit', 'switch interval', 'working directory', 'environment')


def watched(fn, *args, **kw):
    try:
        with warnings.catch_warnings(), np.errstate(all='warn'):
            warnings.simplefilter('ignore')
            before = settings()
            try:
                return fn(*args, **kw)
            finally:
                after = settings()
                if after != before:
                    LEAKS.extend(n for n, a, b in zip(SETTINGS, before, after) if a != b)
    except Hang:
        raise
    except Exception as e:
        return Err(e)


def call(fn, *args, **kw):
    """Run the real code; exceptions become observable outcomes."""
    if WATCH:
        return watched(fn, *args, **kw)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return fn(*args, **kw)
    except Hang:
        raise
    except Exception as e:
        return Err(e)


def ok(out, what='call'):
    if isinstance(out, Err):
        raise Violation('%s failed: %r' % (what, out))
    return out


def expect_error(out, types, what='call'):
    if not isinstance(out, Err):
        raise Violation('%s should be refused with %s, returned %s' % (what, names(types), short(out)))
    if not isinstance(out.exc, types):
        raise Violation('%s should be refused with %s, %r' % (what, names(types), out))


def names(types):
    return '/'.join(t.__name__ for t in (types if isinstance(types, tuple) else (types,)))


def short(x):
    try:
        with np.printoptions(precision=17, threshold=60, linewidth=200):
            s = repr(x)
    except Exception as e:  # an object of the code under test may not even print
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= 700 else s[:700] + '...'


def shared(*arrays):
    """copies of the arrays; equal ones become one and the same object, as a caller would pass it"""
    out = []
    for a in arrays:
        a = np.array(a)
        for b in out:
            if a.dtype == b.dtype and np.array_equal(a, b):
                a = b
                break
        out.append(a)
    return out


def as_series(out, n, what='result'):
    """The result as a 1-D float array of n samples, else a violation."""
    ok(out, what)
    if out is None:
        raise Violation('%s is None' % what)
    try:
        a = np.asarray(out, dtype=float)
    except Exception as e:
        raise Violation('%s is not a numeric series: %s (%s)' % (what, short(out), e))
    if a.shape != (n,):
        raise Violation('%s has shape %s, expected (%d,)' % (what, a.shape, n))
    return a


def as_scalar(out, what='result'):
    ok(out, what)
    try:
        a = np.asarray(out, dtype=float)
        if a.size != 1:
            raise ValueError('size %d' % a.size)
        return float(a.reshape(-1)[0])
    except Exception as e:
        raise Violation('%s is not a number: %s (%s)' % (what, short(out), e))


def as_indices(out, n, what='spike indices'):
    """Sorted, distinct, in-range integer positions."""
    ok(out, what)
    try:
        a = np.asarray(out)
        if a.size == 0:
            return np.zeros(0, dtype=int)
        if a.ndim != 1:
            raise ValueError('shape %s' % (a.shape,))
        b = a.astype(int)
        if not np.array_equal(a, b):
            raise ValueError('not integers')
    except Exception as e:
        raise Violation('%s malformed: %s (%s)' % (what, short(out), e))
    if b.min() < 0 or b.max() >= n:
        raise Violation('%s out of range 0..%d: %s' % (what, n - 1, short(b)))
    if np.any(np.diff(b) <= 0):
        raise Violation('%s not strictly increasing: %s' % (what, short(b)))
    return b


def same(got, want, tol, what='value', ctx=None):
    """got == want within absolute tolerance tol (scalar or array); NaN only equals NaN."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: shape %s, expected %s' % (what, got.shape, want.shape))
    with np.errstate(all='ignore'):
        good = (got == want) | (np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want))
    if not np.all(good):
        if got.ndim == 0:
            raise Violation('%s: got %.17g, expected %.17g%s' % (what, got, want, ctx or ''))
        k = tuple(int(v[0]) for v in np.nonzero(~good))
        raise Violation('%s: at %s got %.17g, expected %.17g%s'
                        % (what, k if len(k) > 1 else k[0], got[k], want[k], ctx or ''))


def judge_set(got, must, may, what='flagged samples'):
    """must <= got <= may (may = must plus samples too close to the threshold to call)."""
    g = set(int(i) for i in got)
    missing = sorted(set(int(i) for i in must) - g)
    extra = sorted(g - set(int(i) for i in may))
    if missing:
        raise Violation('%s: %s not flagged (flagged: %s)' % (what, missing[:10], sorted(g)[:40]))
    if extra:
        raise Violation('%s: %s flagged wrongly (flagged: %s)' % (what, extra[:10], sorted(g)[:40]))


class Space:
    """cases: zero-argument callable returning an iterable of picklable/printable cases;
    run: case -> outcome digest material (anything printable); raises Violation / Known."""

    def __init__(self, name, cases, run, bound, calls=1):
        self.name, self.cases, self.run, self.bound = name, cases, run, bound


class Tally:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.compared = 0
        self.outcomes = set()
        self.inputs = set()
        self.samples = []
        self.known = set()
        self.violation = None
        self.per_space = {}
        self.extra = {}


CUR = None   # the Tally of this worker; run() functions report through step()


def step(transitions=1, compared=1):
    """A run() that makes several real calls reports the additional ones."""
    CUR.transitions += transitions
    CUR.compared += compared


def note(key, n=1):
    CUR.extra[key] = CUR.extra.get(key, 0) + n


def digest(x):
    return hashlib.blake2b(canon(x).encode() if not isinstance(x, bytes) else x, digest_size=8).digest()


def canon(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return 'A(object%r)' % (x.tolist(),)
        return 'A%s%s:%s' % (x.dtype, x.shape, hashlib.blake2b(np.ascontiguousarray(x).tobytes(), digest_size=12).hexdigest())
    if isinstance(x, dict):
        return '{' + ','.join('%s=%s' % (canon(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + '}'
    if isinstance(x, (list, tuple)):
        return '(' + ','.join(canon(v) for v in x) + ')'
    return repr(x)


def _alarm(signum, frame):
    raise Hang()


def one_case(space, case):
    """Run one case under the watchdog."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        return space.run(case)
    except Hang:
        raise Violation('did not return within %d s of CPU time / %d s' % (CPU_LIMIT, WALL_LIMIT))
    except (Violation, Known, ImportError, MemoryError):
        raise
    except Exception as e:
        # the comparison itself broke on what the code returned (None, a string, a ragged array ...);
        # a name the check could not find at all is a fault of the check instead
        if isinstance(e, AttributeError) and 'module' in str(e):
            raise
        raise Violation('the outcome cannot be compared with the reference: %s: %s' % (type(e).__name__, e))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(w, nw, spaces, conn):
    global CUR
    t = CUR = Tally()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        for si, space in enumerate(spaces):
            s0, n = t.transitions, 0
            for ci, case in enumerate(space.cases()):
                if ci % nw != w:
                    continue
                n += 1
                t.inputs.add(digest((si, case)))
                t.transitions += 1
                t.compared += 1
                try:
                    out = one_case(space, case)
                except Known as k:
                    t.known.add(k.tag)
                    out = 'known:' + k.tag
                except Violation as v:
                    t.violation = (si, ci, str(v), short(case))
                    break
                t.outcomes.add(digest(out))
                if w == 0 and ci // nw in (0, 7) and len(t.samples) < 12:
                    t.samples.append({'space': space.name, 'case': short(case)[:300], 'outcome': short(out)[:200]})
            t.per_space[space.name] = (n, t.transitions - s0)
            if t.violation:
                break
        t.states = len(t.inputs)
        conn.send(('done', t))
    except BaseException:
        conn.send(('crash', traceback.format_exc()))
    finally:
        conn.close()


def known_findings():
    """tag -> text, from known_findings.txt ('finding: property=P07 tag=wma-align ...')."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                words = dict(w.split('=', 1) for w in line.split() if '=' in w and w.split('=', 1)[0] in ('property', 'tag'))
                out[(words['property'], words['tag'])] = line[len('finding:'):].strip()
    return out


def explore(prop, spaces, tier, seed, assumptions=()):
    t0 = time.time()
    ctx = mp.get_context('fork')
    jobs = []
    for w in range(WORKERS):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(w, WORKERS, spaces, s))
        p.start()
        s.close()
        jobs.append((p, r))
    tallies, crash = [], None
    for p, r in jobs:
        try:
            kind, val = r.recv()
        except EOFError:
            kind, val = 'crash', 'worker died without a report (killed?)'
        if kind == 'done':
            tallies.append(val)
        else:
            crash = val
        p.join()
    if crash:
        # an error of the check itself: no verdict
        sys.stderr.write('CHECK ERROR in %s:\n%s\n' % (prop, crash))
        return 2
    viol = sorted(t.violation[:2] + t.violation[2:] for t in tallies if t.violation)
    known = sorted(set().union(*[t.known for t in tallies]))
    listed = known_findings()
    for tag in known:
        if (prop, tag) not in listed and not viol:
            viol = [(0, 0, 'defect %s is not listed in known_findings.txt' % tag, '')]
    outcomes = set().union(*[t.outcomes for t in tallies])
    per = {}
    for t in tallies:
        for k, (a, b) in t.per_space.items():
            x = per.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
    extra = {}
    for t in tallies:
        for k, v in t.extra.items():
            extra[k] = extra.get(k, 0) + v
    cov = {
        'states': sum(t.states for t in tallies),
        'transitions': sum(t.transitions for t in tallies),
        'traces_validated_against_impl': sum(t.compared for t in tallies),
        'distinct_outcomes': len(outcomes),
        'exhaustive': not viol,
        'bounds': [{'space': s.name, 'bound': s.bound, 'cases': per.get(s.name, [0, 0])[0],
                    'transitions': per.get(s.name, [0, 0])[1]} for s in spaces],
        'samples': sum([t.samples for t in tallies], [])[:12],
        'meaning': 'states: distinct (space, input) nodes; transitions: calls of the real code made from them; '
                   'traces_validated_against_impl: reference-model predictions compared with the real outcome',
    }
    cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d states, %d transitions, %d distinct outcomes, %.1f s'
          % (prop, tier, cov['states'], cov['transitions'], cov['distinct_outcomes'], ev['wall_s']))
    for tag in known:
        if (prop, tag) in listed:
            print('KNOWN-FINDING: %s' % listed[(prop, tag)])
    if viol:
        si, ci, msg, case = viol[0]
        path = os.path.join(VERIF, 'replays', prop + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'space': spaces[si].name, 'case_index': ci, 'case': case,
                       'message': msg,
                       'replay': './check replay %s' % path}, f, indent=1)
            f.write('\n')
        print('  space %s case %d: %s' % (spaces[si].name, ci, case))
        print('  %s' % msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def replay(path, spaces_of):
    """Re-run the single recorded case, without the explorer, twice; both runs must agree."""
    global CUR
    CUR = Tally()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    rec = json.load(open(path))
    space = [s for s in spaces_of(rec['property'], rec['tier']) if s.name == rec['space']][0]
    for ci, case in enumerate(space.cases()):
        if ci == rec['case_index']:
            break
    else:
        raise SystemExit('case %d does not exist' % rec['case_index'])
    got = []
    for _ in range(2):
        try:
            one_case(space, case)
            got.append('holds')
        except Violation as v:
            got.append(str(v))
    print('case: %s' % short(case))
    print('\n'.join(got))
    return 1 if got[0] != 'holds' and got[0] == got[1] else (0 if got == ['holds', 'holds'] else 2)
