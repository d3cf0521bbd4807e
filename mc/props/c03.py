"""C03: indexing selects exactly the requested block."""
import itertools

import numpy as np

from mc import ref
from mc.kmworld import TKernel


def points(n, off):
    return np.array([[i + 1 + off, ((i + off) * 7 % 11) - 3.5] for i in range(n)], float)


def build(n, m, warm, normalized=False):
    from kernelmethods.base import KernelMatrix
    km = KernelMatrix(TKernel(), normalized=normalized)
    X = points(n, 0)
    if m is None:
        km.attach_to(X)
        Y = X
    else:
        Y = points(m, 20)
        km.attach_to(X, sample_two=Y)
    if warm == 'full':
        km.full
    elif warm == 'sparse':
        km.full_sparse
    elif warm == 'row':
        km[0, :]
    return km, ref.raw_km(TKernel.value, ref.rows(X), ref.rows(Y))


def selectors(n, wide):
    """(label, factory of the selector object, selected indices) for one dimension"""
    out = []
    for i in range(n):
        out.append(('{}'.format(i), lambda i=i: i, {i}))
        out.append(('int64({})'.format(i), lambda i=i: np.int64(i), {i}))
    steps = (None, 1, 2, 3, -1, -2) if wide else (None, 2, -1)
    ends = [None] + list(range(-n - 1, n + 2))
    for a, b, s in itertools.product(ends, ends, steps):
        sl = slice(a, b, s)
        idx = set(range(*sl.indices(n)))
        out.append((str(sl), lambda sl=sl: sl, idx))
    for L in range(1, min(n, 3) + (1 if wide else 0) + 1):
        for c in itertools.product(range(n), repeat=L):
            kinds = [('list', lambda c=c: list(c)), ('tuple', lambda c=c: tuple(c)),
                     ('array', lambda c=c: np.array(c))]
            if wide:
                kinds += [('int32', lambda c=c: np.array(c, np.int32)),
                          ('uint8', lambda c=c: np.array(c, np.uint8)),
                          ('set', lambda c=c: set(c)), ('iter', lambda c=c: iter(c)),
                          ('frozenset', lambda c=c: frozenset(c))]
            for lab, f in kinds:
                out.append(('{}{}'.format(lab, c), f, set(c)))
    for a in range(n):
        for b in range(a + 1, n + 1):
            out.append(('range({},{})'.format(a, b), lambda a=a, b=b: range(a, b),
                        set(range(a, b))))
    if n > 3:
        for c in (tuple(range(n)), tuple(range(n))[::-1], tuple(range(n)) * 2):
            out.append(('list{}'.format(c), lambda c=c: list(c), set(c)))
    return out


def reps(n):
    """a representative of each selected set x kind, to pair with all selectors"""
    out = [('0', lambda: 0, {0}), (':', lambda: slice(None), set(range(n))),
           ('[last]', lambda: [n - 1], {n - 1}), ('last', lambda: n - 1, {n - 1})]
    if n > 1:
        out += [('[1:]', lambda: slice(1, None), set(range(1, n))),
                ('[last,0]', lambda: [n - 1, 0], {0, n - 1}),
                ('::-1', lambda: slice(None, None, -1), set(range(n))),
                ('all', lambda: list(range(n)), set(range(n)))]
    return out


def judge(km, raw, sr, sc):
    rows, cols = sorted(sr[2]), sorted(sc[2])
    try:
        res = km[sr[1](), sc[1]()]
    except Exception as e:
        if not rows or not cols:
            return None
        return 'raised {}: {}'.format(type(e).__name__, str(e)[:200])
    if not rows or not cols:
        return 'empty selection returned {!r}'.format(res)
    want = raw[np.ix_(rows, cols)]
    if type(res) is not np.ndarray or not ref.close(res, want):
        return 'returned\n{}\nexpected\n{}'.format(res, want)
    return None


def blocks(acc, n, m, warm, wide, part, parts):
    mm = n if m is None else m
    rows, cols = selectors(n, wide), selectors(mm, wide)
    pairs = [(r, c) for r in rows for c in reps(mm)] + [(r, c) for r in reps(n)
                                                       for c in cols]
    km, raw = build(n, m, warm)
    for i, (r, c) in enumerate(pairs):
        if i % parts != part:
            continue
        if warm == 'cold':
            km, raw = build(n, m, warm)
        bad = judge(km, raw, r, c)
        acc.transitions += 1
        acc.states += 1
        acc.out((n, m, tuple(sorted(r[2])), tuple(sorted(c[2]))))
        if bad:
            acc.violate('{}x{} {} [{}, {}]: {}'.format(n, m, warm, r[0], c[0], bad), warm)
            if acc.full:
                return
    acc.traces += 1
    acc.sample('{}x{} {} [{}, {}]'.format(n, m, warm, r[0], c[0]))


def allpairs(acc, n, m, warm):
    """every pair of index sets, as ascending lists and as scrambled ones"""
    mm = n if m is None else m
    sets = lambda k: [c for L in range(1, k + 1)
                      for c in itertools.combinations(range(k), L)]
    km, raw = build(n, m, warm)
    for normalized in (False, True):
        for r in sets(n):
            for c in sets(mm):
                for rr, cc in ((r, c), (r[::-1], c[::-1] + c[:1])):
                    if warm == 'cold':
                        km, raw = build(n, m, warm, normalized)
                    bad = judge(km, raw, ('', lambda: list(rr), set(r)),
                                ('', lambda: np.array(cc), set(c)))
                    acc.transitions += 1
                    if bad:
                        acc.violate('{}x{} {} [{}, {}]: {}'.format(n, m, warm, rr, cc, bad),
                                    'normalized={}'.format(normalized))
                        return
                acc.states += 1
        km, raw = build(n, m, warm, True)
    acc.traces += 1


def linear(acc, n, m):
    mm = n if m is None else m
    for warm in ('cold', 'full', 'row', 'sparse'):
        km, raw = build(n, m, warm)
        for k in range(n * mm):
            for t in (int, np.int64):
                if warm == 'cold':
                    km, raw = build(n, m, warm)
                res = km[t(k)]
                acc.transitions += 1
                if not ref.close(res, raw[k // mm:k // mm + 1, k % mm:k % mm + 1]):
                    acc.violate('linear index {} of {}x{} ({}) gave {}'.format(
                        k, n, m, warm, res), '')
                    return
        for k in (-1, n * mm, n * mm + 1, -n * mm):
            acc.transitions += 1
            try:
                res = km[k]
            except Exception:
                continue
            acc.violate('linear index {} of {}x{} gave {}'.format(k, n, m, res), '')
            return
        acc.states += 1
    acc.traces += 1


def invalid(acc, n, m):
    mm = n if m is None else m

    def bads(k):
        return [-1, -k, k, k + 5, [0, k], [-1], [0, -1], [], (), np.array([], int),
                slice(k, None), slice(0, 0), slice(k + 2, k + 5), range(0), 1.0, 0.0,
                np.float64(0), [0.0], [0, 0.5], np.array([0.]), 'a', '0', '', None, [None],
                ['0'], True, False, [True] * k, np.array([True] * k), np.nan, [np.nan],
                {}, object(), [[0]], np.array([[0]]), 1j]
    whole = [(), (0,), (0, 0, 0), [0], None, 'ab', 'a', '', 0.5, 1.0, slice(None), np.nan,
             object(), True, [], (slice(None),) * 3, {0: 0}, np.zeros((3, 2), int), ...]
    good_r, good_c = reps(n), reps(mm)
    cases = [('r{}'.format(i), (b, g[1]())) for i, b in enumerate(bads(n)) for g in good_c]
    cases += [('c{}'.format(i), (g[1](), b)) for i, b in enumerate(bads(mm)) for g in good_r]
    cases += [('rc', (b, c)) for b in bads(n)[:8] for c in bads(mm)[:8]]
    cases += [('w', b) for b in whole]
    for warm in ('cold', 'full', 'row'):
        km, raw = build(n, m, warm)
        for lab, idx in cases:
            acc.transitions += 1
            try:
                res = km[idx]
            except Exception:
                continue
            acc.violate('{}x{} ({}): invalid index {!r} returned {!r}'.format(
                n, m, warm, idx, res), '')
            if acc.full:
                return
        bad = judge(km, raw, ('', lambda: slice(None), set(range(n))),
                    ('', lambda: slice(None), set(range(mm))))
        if bad:
            acc.violate('after rejected indices: ' + bad, '{}x{}'.format(n, m))
            return
        acc.states += len(cases)
    acc.traces += 1
    acc.sample('invalid indices on {}x{}: {!r}'.format(n, m, cases[0]))


def spoiled(acc, n, m):
    """collections with one invalid element at any position are refused"""
    mm = n if m is None else m
    junk = lambda k: [-1, -2, -k, -k - 1, k, k + 1, 10 * k, 1.0, 0.5, 'a', '0', None, np.nan,
                      np.float64(1), 1j, [0], (1,), -1.0, np.inf, -np.inf]
    km, raw = build(n, m, 'full')
    cold, _ = build(n, m, 'cold')
    for dim, k, other in ((0, n, mm), (1, mm, n)):
        for L in sorted({0, 1, 2, 3, 4, min(k, 7), min(k, 12), k}):
            good = [i % k for i in range(L)][::-1]
            for pos in sorted({0, 1, L // 2, max(0, L - 1), L}):
                if pos > L:
                    continue
                for j in junk(k):
                    c = good[:pos] + [j] + good[pos:]
                    mk = [lambda: c, lambda: tuple(c), lambda: iter(c)]
                    if isinstance(j, int):
                        mk += [lambda: np.array(c), lambda: set(c), lambda: frozenset(c)]
                    for f in mk:
                        for o in (0, slice(None), [0, other - 1]):
                            for q in (km, cold):
                                acc.transitions += 1
                                try:
                                    res = q[(f(), o) if dim == 0 else (o, f())]
                                except Exception:
                                    continue
                                acc.violate('{}x{}: {!r} in dimension {} returned {!r}'.format(
                                    n, m, c, dim, res)[:600], '')
                                return
        acc.states += 1
    bad = judge(cold, raw, ('', lambda: slice(None), set(range(n))),
                ('', lambda: slice(None), set(range(mm))))
    if bad:
        acc.violate('after rejected indices: ' + bad, '{}x{}'.format(n, m))
    acc.traces += 1


def big(acc, n, m):
    """windows, strides and scattered lists over larger matrices"""
    mm = n if m is None else m
    for warm in ('row', 'full'):
        km, raw = build(n, m, warm)
        w = max(1, n // 7)
        cuts = sorted({0, 1, w, n // 2, n - 1, max(0, n - w)})
        for a in cuts:
            for b in sorted({0, mm - 1, mm // 2}):
                for sr in (('', lambda: slice(a, a + w), set(range(a, min(n, a + w)))),
                           ('', lambda: list(range(a, n, 3))[::-1], set(range(a, n, 3))),
                           ('', lambda: a, {a})):
                    for sc in (('', lambda: b, {b}),
                               ('', lambda: slice(b, None, 5), set(range(b, mm, 5))),
                               ('', lambda: np.arange(mm)[::-1], set(range(mm)))):
                        bad = judge(km, raw, sr, sc)
                        acc.transitions += 1
                        if bad:
                            acc.violate('{}x{} {}: {}'.format(n, m, warm, bad[:900]),
                                        'rows from {} cols from {}'.format(a, b))
                            return
        for k in sorted({0, 1, mm - 1, mm, n * mm // 2, n * mm - 1}):
            if k < n * mm and not ref.close(km[k], raw[k // mm, k % mm].reshape(1, 1)):
                acc.violate('linear index {} of {}x{}'.format(k, n, m), '')
                return
            acc.transitions += 1
        acc.states += 1
    acc.traces += 1


def long_slices(acc, n, m):
    """all slices over a menu of bounds and steps, and ordered lists, on larger matrices"""
    mm = n if m is None else m
    km, raw = build(n, m, 'full')
    cold, _ = build(n, m, 'cold')

    def sel(k):
        pts = sorted({None, 0, 1, 2, k // 2, k - 2, k - 1, k, k + 3, -1, -2, -k // 2, -k,
                      -k - 2}, key=lambda v: (v is not None, v))
        for a, b, st in itertools.product(pts, pts, (None, 1, 2, 3, 7, k, -1, -2, -3, -7)):
            s = slice(a, b, st)
            got = set(range(*s.indices(k)))
            if got:
                yield (repr(s), lambda s=s: s, got)
        for step in (1, 2, 3, 5):
            for lo, hi in ((0, k), (1, k), (0, k - 1), (k // 3, k), (0, k // 2 + 1)):
                r = range(lo, hi, step)
                if len(r):
                    yield ('list {}'.format(r), lambda r=r: list(r), set(r))
                    yield ('reversed {}'.format(r), lambda r=r: np.array(r)[::-1], set(r))
                    yield ('range {}'.format(r), lambda r=r: r, set(r))
                    yield ('twice {}'.format(r), lambda r=r: tuple(r) * 2, set(r))
                    yield ('set {}'.format(r), lambda r=r: set(r), set(r))
                    yield ('frozenset {}'.format(r), lambda r=r: frozenset(r), set(r))
                    yield ('keys {}'.format(r), lambda r=r: dict.fromkeys(r).keys(), set(r))
                    yield ('iter {}'.format(r), lambda r=r: iter(list(r)), set(r))
                    yield ('rotated {}'.format(r), lambda r=r: list(r)[2:] + list(r)[:2],
                           set(r))
    for dim, k, other in ((0, n, mm), (1, mm, n)):
        o = ('', lambda: [0, other - 1], {0, other - 1})
        every = ('', lambda: slice(None), set(range(other)))
        for s in sel(k):
            for q in (o, every):
                bad = judge(km if q is o else cold, raw, *((s, q) if dim == 0 else (q, s)))
                acc.transitions += 1
                if bad:
                    acc.violate('{}x{} {} in dimension {}: {}'.format(n, m, s[0], dim,
                                                                     bad[:900]), '')
                    return
    acc.states += 1
    acc.traces += 1


def run(ctx):
    shapes = [(n, None) for n in range(1, ctx.pick(5, 6))]
    shapes += [(n, m) for n in range(1, ctx.pick(4, 5)) for m in range(1, ctx.pick(4, 5))]
    warms = ('cold', 'full', 'row', 'sparse')
    parts = ctx.pick(2, 6)
    ctx.explore(blocks, [(n, m, w, n <= 3 or ctx.thorough, p, parts)
                         for n, m in sorted(shapes, key=lambda s: -s[0] * (s[1] or s[0]))
                         for w in warms for p in range(parts)])
    ctx.explore(allpairs, [(n, m, w) for w in warms for n, m in
                           [(1, None), (2, None), (3, None), (4, None), (5, None), (3, 4),
                            (4, 3), (2, 5), (5, 2), (1, 4), (4, 1)] +
                           ctx.pick([], [(6, None), (5, 5), (6, 3), (3, 6)])])
    ctx.explore(linear, [(n, m) for n in range(1, ctx.pick(8, 14))
                         for m in [None] + list(range(1, ctx.pick(8, 14)))])
    ctx.explore(long_slices, [(n, m) for n in ctx.pick((6, 9, 13, 20, 33, 40), range(5, 45))
                              for m in (None, 5, 14, 40)])
    ctx.explore(invalid, shapes)
    ctx.explore(spoiled, [(n, m) for n in (1, 2, 3, 4, 7, 12, 15) for m in (None, 2, 5, 13)])
    ctx.explore(big, [(n, m) for n in (13, 34, 65, 101, ctx.pick(150, 300))
                      for m in (None, 1, 7, 33, 120)])
    ctx.bounds.update(shapes=str(shapes))
