"""C29: values that are not finite are announced and passed through unaltered."""
import itertools
import warnings

import numpy as np

from mc import ref

NAN, INF = float('nan'), float('inf')
TABLE = None
READS = ('full', 'sparse', 'all', 'normed')


def lookup(x, y):
    return TABLE[int(x[0]), int(y[0])]


def points(n, start=0):
    return np.arange(start, start + n, dtype=float).reshape(-1, 1)


def matrix(norm, M, two=False):
    """An attached kernel matrix whose kernel returns the elements of M"""
    global TABLE
    from kernelmethods.base import KernelMatrix
    from kernelmethods.base import KernelFromCallable
    km = KernelMatrix(KernelFromCallable(lookup), normalized=norm)
    attach(km, M, two)
    return km


def table(M, two):
    if not two:
        return M
    # rows are points 0.., columns points after them; self-similarities are 1
    n, m = M.shape
    T = np.full((n + m, n + m), 1.0)
    T[:n, n:] = M
    T[n:, :n] = M.T
    return T


def attach(km, M, two):
    global TABLE
    TABLE = table(M, two)
    n = M.shape[0]
    km.attach_to(points(n), sample_two=points(M.shape[1], n) if two else None)


def upper(M, two):
    return np.triu(M)


def access(km, op):
    """-> value as dense array, was a KernelMethodsWarning issued"""
    from kernelmethods.config import KernelMethodsWarning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if op == 'full':
            v = km.full
        elif op == 'sparse':
            v = km.full_sparse
            v = v.toarray() if hasattr(v, 'toarray') else v
        elif op == 'all':
            v = km[:, :]
        elif op == 'normed':
            v = km.normed_km
        elif op == 'frob':
            v = km.frob_norm
        elif op == 'centered':
            v = km.centered
        elif op == 'diag':
            v = km.diagonal()
        elif isinstance(op, tuple):
            v = km[op]
    return np.array(v, dtype=float), any(issubclass(i.category, KernelMethodsWarning)
                                         for i in w)


def judge(acc, km, M, two, norm, op, first, label):
    """One access and what it must give; first: nothing complete was read before"""
    bad = not np.isfinite(M).all()
    try:
        v, told = access(km, op)
    except Exception as e:
        acc.violate('{} raised {!r}'.format(op, e), label)
        return False
    acc.transitions += 1
    if not bad and told:
        acc.violate('{}: warned about finite values'.format(op), label)
        return False
    seen = not np.isfinite(np.triu(M) if op == 'sparse' and not norm else M).all()
    if seen and first and op in READS and not told:
        acc.violate('{}: no warning about\n{}'.format(op, M), label)
        return False
    if isinstance(op, tuple):
        t = M[np.ix_(*[range(*o.indices(s)) if isinstance(o, slice) else [o]
                       for o, s in zip(op, M.shape)])]
        ok = ref.close(v, t)
    elif op == 'diag':
        ok = ref.close(v, np.diag(M))
    elif op == 'frob':
        ok = ref.close(v, np.sqrt(np.sum(M * M))) if not bad else not np.isfinite(v).any()
    elif op == 'centered':
        ok = ref.close(v, ref.centered(M)) if not bad else v.shape == M.shape and \
            (not np.isnan(M).any() or np.isnan(v).any() or not np.isfinite(v).all())
    elif op == 'normed' or (norm and op in ('full', 'sparse')):
        d = np.ones(max(M.shape)) if two else np.diag(M)
        if bad:
            # at least the undefined ones stay undefined
            ok = v.shape == M.shape and np.isnan(v[np.isnan(M)]).all() and \
                not (two and np.isfinite(v[np.isinf(M)]).any())
        else:
            ok = ref.close(v, M / np.sqrt(np.outer(d[:M.shape[0]], d[:M.shape[1]])))
    else:
        t = M
        if op == 'sparse':
            # only the upper triangle is promised
            t, v = np.triu(M), np.triu(v) if v.shape == M.shape else v
        ok = ref.close(v, t)
    if not ok:
        acc.violate('{} is\n{}\nfor kernel values\n{}'.format(op, v, M), label)
    return ok


def partials(n, m):
    yield None
    yield (0, 0)
    yield (n - 1, m - 1)
    yield (0, slice(None))
    yield (slice(None), m - 1)


def cases(n, m, two, vals):
    if two:
        for v in itertools.product(vals, repeat=n * m):
            yield np.array(v).reshape(n, m)
    else:
        k = n * (n + 1) // 2
        for v in itertools.product(vals, repeat=k):
            M = np.zeros((n, n))
            M[np.triu_indices(n)] = v
            yield np.triu(M) + np.triu(M, 1).T


def tables(acc, n, m, two, vals, norm, part, parts):
    """All matrices of these values x a partial read before x a first and a second read"""
    reads = READS + ('frob', 'diag', 'centered') if not two else READS + ('frob',)
    for i, M in enumerate(cases(n, m, two, vals)):
        if i % parts != part:
            continue
        for pre in partials(n, m):
            for one in READS:
                km = matrix(norm, M, two)
                label = 'values {} two={} normalized={}: {}, {}'.format(
                    M.tolist(), two, norm, pre, one)
                # km[0, 0] of a single point is the complete matrix
                first = pre is None or M.size > 1 and \
                    not (n == 1 and pre == (0, slice(None))) and \
                    not (m == 1 and pre == (slice(None), m - 1))
                if pre is not None and not judge(acc, km, M, two, norm, pre, False, label):
                    return
                if not judge(acc, km, M, two, norm, one, first, label):
                    return
                for op in reads + ((0, slice(None)), (slice(None), slice(None))):
                    if not judge(acc, km, M, two, norm, op, False, label + ', ' + str(op)):
                        return
                acc.traces += 1
        acc.states += 1
        acc.out(M.tolist())
    acc.sample('all {}x{} tables over {}'.format(n, m, vals))


def reattach(acc, norm, two):
    """Every sequence of three attachments to finite and other data"""
    good, nan, inf = (np.array([[1.0, 0.5], [0.5, 2.0]]), np.array([[1.0, NAN], [NAN, 2.0]]),
                      np.array([[1.0, INF], [INF, 2.0]]))
    other = np.array([[1.0, 0.5, NAN], [0.5, 2.0, 0.1], [NAN, 0.1, 1.0]])
    big = np.array([[1e308, 1e154], [1e154, 1e308]])
    for seq in itertools.product((good, nan, inf, other) + (() if norm else (big,)),
                                 repeat=3):
        for ops in itertools.product(READS, repeat=2):
            if 'normed' in ops and any(M is big for M in seq):
                continue            # normalizing can overflow
            km = matrix(norm, seq[0], two)
            for k, M in enumerate(seq):
                if k:
                    attach(km, M, two)
                label = 'attached to {} normalized={} two={} reads {}'.format(
                    [s.tolist() for s in seq[:k + 1]], norm, two, ops)
                for f, op in enumerate(ops):
                    if not judge(acc, km, M, two, norm, op, not f, label):
                        return
            acc.traces += 1
        acc.states += 1


def ladder(acc, n, two):
    """A single value that is not finite, at the corners, the diagonal, the middle"""
    m = n + 2 if two else n
    r = np.random.RandomState(n)
    base = r.rand(n, m) + 0.5
    if not two:
        base = (base + base.T) / 2 + 2 * np.eye(n)
    for i, j in sorted({(0, 0), (0, m - 1), (n - 1, 0), (n - 1, m - 1), (n // 2, m // 2),
                        (n // 2, m // 3), (n // 3, m // 2), (n - 1, n // 2), (None, None)},
                       key=str):
        for val in (NAN, INF, -INF) if i is not None else (0.0,):
            M = base.copy()
            if i is not None:
                M[i, j] = val
                if not two:
                    M[j, i] = val
            for op in READS:
                for norm in (False, True):
                    if not judge(acc, matrix(norm, M, two), M, two, norm, op, True,
                                 'n={} {} at {} two={}'.format(n, val, (i, j), two)):
                        return
            acc.states += 1
    acc.traces += 1


def real_kernels(acc, name):
    """Samples with such values anywhere, and overflow: the matrix consists of what the
    kernel function gives for the points"""
    import kernelmethods.numeric_kernels as nk
    from kernelmethods.base import KernelMatrix
    mk = {'lin': lambda: nk.LinearKernel(), 'poly': lambda: nk.PolyKernel(degree=2),
          'rbf': lambda: nk.GaussianKernel(sigma=1.0), 'lap': lambda: nk.LaplacianKernel(),
          'sig': lambda: nk.SigmoidKernel(), 'chi': lambda: nk.Chi2Kernel(),
          'had': lambda: nk.HadamardKernel()}[name]
    base = np.array([[1.0, 0.5], [2.0, 0.25], [0.5, 1.5]])
    vals = (NAN, INF, 1e200) if name != 'chi' else (INF, 1e200)
    for val in vals:
        for cells in [(c,) for c in range(6)] + list(itertools.combinations(range(6), 2)):
            S = base.copy()
            for c in cells:
                S[c // 2, c % 2] = val
            for two in (False, True):
                a, b = (S, base[:2] * 2) if two else (S, S)
                k = mk()
                try:
                    T = np.array([[float(k(x, y)) for y in b] for x in a])
                except Exception:
                    acc.note('rejected by the kernel')
                    continue
                for op in READS[:3]:
                    km = KernelMatrix(mk(), normalized=False)
                    km.attach_to(a, sample_two=b if two else None)
                    if not judge(acc, km, T, two, False, op, True,
                                 '{} on {} two={}'.format(name, S.tolist(), two)):
                        return
            acc.states += 1
    acc.traces += 1


def composites(acc, n):
    """Combinations have such values exactly where a member has them"""
    from kernelmethods.base import (AverageKernel, KernelMatrix, KernelSet,
                                     ProductKernel, SumKernel,
                                    WeightedAverageKernel)
    from kernelmethods.base import KernelFromCallable
    from kernelmethods.operations import linear_combination
    global TABLE
    S = points(n)
    for i, j in itertools.combinations_with_replacement(range(n), 2):
        for val in (NAN, INF, -INF):
            for pos in range(3):
                TABLE = np.full((n, n), 0.5) + np.eye(n)
                TABLE[i, j] = TABLE[j, i] = val
                good = np.full((n, n), 2.0) + np.eye(n)
                hits = TABLE.copy()

                def fine(x, y):
                    return good[int(x[0]), int(y[0])]

                ms = [KernelMatrix(KernelFromCallable(lookup if k == pos else fine),
                                   normalized=False) for k in range(3)]
                ks = KernelSet(ms)
                ks.attach_to(S)
                Ks = [hits if k == pos else good for k in range(3)]
                w = [0.5, 2.0, 1.0]
                s = sum(a * K for a, K in zip(w, Ks))
                for lab, mk, t in (
                        ('sum', lambda: SumKernel(ks), sum(Ks)),
                        ('product', lambda: ProductKernel(ks), Ks[0] * Ks[1] * Ks[2]),
                        ('average', lambda: AverageKernel(ks), sum(Ks) / 3),
                        ('weighted', lambda: WeightedAverageKernel(ks, w), s)):
                    c = mk()
                    c.fit()
                    acc.transitions += 1
                    if not ref.close(c.full, t):
                        acc.violate('{} is\n{}\nexpected\n{}'.format(lab, c.full, t),
                                    '{} at {} in member {}'.format(val, (i, j), pos))
                        return
                g = linear_combination(ks, w)
                if not ref.close(g, s):
                    acc.violate('linear combination is\n{}\nexpected\n{}'.format(g, s),
                                '{} at {} in member {}'.format(val, (i, j), pos))
                    return
                acc.states += 1
    acc.traces += 1


def machines(acc, kind, norm):
    """Estimators refuse to be trained on or to predict from such values"""
    from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor
    from kernelmethods.base import KernelFromCallable
    global TABLE
    X, y = points(4), np.array([0, 1, 0, 1]) if kind == 'c' else np.array([.5, 1., 2., 0.])
    X3 = points(3, 4)
    cls = KernelMachine if kind == 'c' else KernelMachineRegressor
    clean = np.full((7, 7), 0.3) + np.diag(np.arange(1.0, 8))
    for i, j in itertools.combinations_with_replacement(range(4), 2):
        for val in (NAN, INF, -INF):
            TABLE = clean.copy()
            TABLE[i, j] = TABLE[j, i] = val
            acc.transitions += 1
            try:
                cls(KernelFromCallable(lookup), normalized=norm).fit(X, y)
            except Exception:
                pass
            else:
                if not (norm and np.isinf(val) and i == j):
                    acc.violate('fitted with {} at {}'.format(val, (i, j)), kind)
                    return
            acc.states += 1
    for i, j in itertools.product(range(4), range(4, 7)):
        for val in (NAN, INF, -INF):
            TABLE = clean.copy()
            m = cls(KernelFromCallable(lookup), normalized=norm).fit(X, y)
            want = m.predict(X3)
            TABLE[i, j] = TABLE[j, i] = val
            acc.transitions += 1
            try:
                g = m.predict(X3)
            except Exception:
                pass
            else:
                acc.violate('predicted {} with {} at {}'.format(g, val, (i, j)), kind)
                return
            TABLE = clean.copy()
            acc.transitions += 1
            if not ref.close(m.predict(X3), want, 1e-3, 1e-3):
                acc.violate('later prediction {} expected {}'.format(m.predict(X3), want),
                            '{} {}'.format(val, (i, j)))
                return
            acc.states += 1
    acc.traces += 1


def run(ctx):
    V, W = (1.0, 0.5, NAN, INF, -INF), (1.0, NAN, INF)
    ctx.explore(tables, [(1, 1, False, V, nm, 0, 1) for nm in (False, True)] +
                [(2, 2, False, V, nm, 0, 1) for nm in (False, True)] +
                [(n, m, True, ctx.pick(W, V) if n * m < 5 else W, nm, p, 4)
                 for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2))
                 for nm in (False, True) for p in range(4)] +
                [(3, 3, False, ctx.pick(W, V[1:]), nm, p, 8) for nm in (False, True)
                 for p in range(8)])
    ctx.explore(reattach, [(nm, two) for nm in (False, True) for two in (False, True)])
    ctx.explore(ladder, [(n, two) for n in (2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33) +
                         ctx.pick((50, 64, 65, 101), (50, 64, 65, 101, 128, 129, 200, 257))
                         for two in (False, True)])
    ctx.explore(real_kernels, ['lin', 'poly', 'rbf', 'lap', 'sig', 'chi', 'had'])
    ctx.explore(composites, [1, 2, 3, 4, 6])
    ctx.explore(machines, [(k, nm) for k in 'cr' for nm in (False, True)])
    ctx.bounds.update(sizes='all tables up to 3x3; single values up to 101 (257) points')
