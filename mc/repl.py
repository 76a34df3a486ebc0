"""Shared driver pieces for the replacement methods."""
import itertools

import numpy as np

from mc import dom, ref
from mc.core import Violation, as_series, call, same
import proadv.filtration.replacement.replacements as R

MODS = ['proadv.filtration.replacement.replacements']
VALS = (0.0, 1.0, -3.0, 8.0)


def small(nmax, vals=VALS, nmin=1):
    """all words x all flagged subsets: the labelled trie."""
    for n in range(nmin, nmax + 1):
        for w in itertools.product(vals, repeat=n):
            for s in dom.subsets(n):
                yield (w, s)


def masks(n, shapes):
    """long-run coverage: for each shape, all single flags, all runs, flag pairs, combs, all-but-one."""
    for sh in shapes:
        seen = set()
        for s in itertools.chain(
                [()], dom.runs(n), ((i, j) for i in range(n) for j in range(i + 2, n)),
                (tuple(range(k, n, step)) for step in (2, 3, 5) for k in range(step)),
                (tuple(j for j in range(n) if j != i) for i in range(n)),
                (tuple(j for j in range(n) if j not in (i, i + 1)) for i in range(n - 1))):
            if s not in seen:
                seen.add(s)
                yield (sh, n, s)


def sparse_masks(n):
    """a fixed family of flag sets for long series."""
    out = [(), (0,), (n - 1,), (n // 2,), (0, n - 1), (1,), (n - 2,)]
    for start in (0, 1, 9, 10, 11, 29, 30, 31, 32, n // 2, n - 33, n - 32, n - 31, n - 30, n - 29, n - 12, n - 2):
        for length in (1, 2, 3, 5, 11, 12, 13, 24, 31):
            r = tuple(i for i in range(start, start + length) if 0 <= i < n)
            if r:
                out.append(r)
    for step in (2, 3, 7, 13, 50):
        out.append(tuple(range(step - 1, n, step)))
        out.append(tuple(range(0, n, step)))
    out.append(tuple(sorted(set(range(5, n, 17)) | set(range(6, n, 17)) | set(range(8, n, 17)))))
    seen, res = set(), []
    for s in out:
        s = tuple(s)
        if s not in seen and all(0 <= i < n for i in s):
            seen.add(s)
            res.append(s)
    return res


def wide_masks(n):
    """flag sets for very long series: single flags and runs on both sides of the powers of two."""
    out = [(0,), (n - 1,), (n // 3, n // 2), tuple(range(n - 40, n))]
    for b in (128, 256, 32768, 65536):
        for i in (b - 1, b, b + 1):
            if i < n:
                out.append((i,))
        if b + 3 < n:
            out.append(tuple(range(b - 3, b + 4)))
    for k in (300, 513, 1030, 2100, 4200, 8300, n // 2):
        out.append(tuple(range(n // 4, min(n - 1, n // 4 + k))))
    for k in (300, 1030, 5000):
        if k < n:
            out += [tuple(range(k)), tuple(range(n - k, n))]
    out.append(tuple(i for i in range(n) if i % 1000 != 7))
    return list(dict.fromkeys(out))


def flags(s):
    return np.array(s, dtype=int)


def check_rounded(out, v, want, decimals, slack, what):
    """flagged samples: within half a unit of the exact value (plus slack) and on the decimal grid."""
    unit = 10.0 ** -decimals
    sc = max(1e-300, ref.scale(v))
    for i, w in want.items():
        tol = 0.5 * unit * (1 + 1e-6) + 1e-9 * sc + slack.get(i, 0.0)
        if not abs(out[i] - w) <= tol:
            raise Violation('%s: sample %d became %.17g, expected %.17g (rounded to %d decimals)'
                            % (what, i, out[i], w, decimals))
        grid = out[i] / unit
        if abs(grid - round(grid)) > 1e-6 * max(1.0, abs(grid)) and abs(grid) < 1e9:
            raise Violation('%s: sample %d = %.17g is not rounded to %d decimals' % (what, i, out[i], decimals))


def check_frame(out, v, flagged, decimals, what):
    """unflagged samples: unchanged, or exactly the documented rounding."""
    keep = np.ones(len(v), dtype=bool)
    keep[list(flagged)] = False
    v = np.asarray(v, dtype=float)
    want = v if decimals is None else np.around(v, decimals)
    tol = 0.0 if decimals is None else 1e-12 * max([0.0] + [abs(x) for x in v[np.isfinite(v)]])
    same(out[keep], want[keep], tol, what + ': unflagged samples')


def measured():
    """measured records with the samples flagged that a threshold on the deviation from the mean would flag"""
    for n, st in ((90, 1500), (400, 6000), (3000, 9000)):
        for c in dom.stretches(n, st, 18000):
            v = dom.record(*c)
            for k in (1.5, 2.5):
                yield (c, tuple(int(i) for i in np.nonzero(np.abs(v - v.mean()) > k * v.std())[0]))


def gained(sizes=(24, 130), hi=20000):
    """series and flag sets next to the constants the source has gained"""
    for c in dom.fresh_series(sizes[:2], 2, hi, shapes=('noise',)):
        n = c[2]
        for s in [(0,), (n // 2,), (n - 1,), tuple(range(n // 3, n // 3 + max(1, n // 8)))]:
            yield (c, s)
    for n in list(sizes) + dom.fresh_sizes(60, hi, 6):
        for s in dom.fresh_masks(n):
            yield (('size', 'noise', n, 1.0), s)


def decimals(c):
    return (4,) + ((8,) if c[0] == 'scale' and c[3] < 1e-2 else ())
