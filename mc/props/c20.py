"""C20: precomputed and constant kernel matrices."""
import itertools

import numpy as np

from mc import mats


def selectors(n):
    out = [0, n - 1, n, -1, -n - 1, n + 3]
    out += [slice(None), slice(0, 1), slice(1, None), slice(None, None, 2),
            slice(None, None, -1), slice(n, None), slice(-1, None), slice(0, 100),
            slice(None, None, -2), slice(1, 1)]
    out += [[0], [n - 1, 0], [0, 0], (0,), np.array([0, n - 1]), [0, n], [-1], [],
            range(n), np.arange(n)[::-1], [n // 2, 0, n // 2]]
    return out


def judge_pre(acc, M, A, what):
    """M the wrapper, A the matrix it must behave as"""
    n = len(A)
    acc.transitions += 1
    if not np.array_equal(M.full, A) or M.size != n or len(M) != n or \
            M.num_samples != n or not np.array_equal(M.diag, np.diagonal(A)):
        acc.violate('full {} size {} diag {}'.format(M.full, M.size, M.diag), what)
        return False
    from kernelmethods.config import KMAccessError
    sel = selectors(n)
    ixs = [(a, b) for a in sel for b in sel] + sel + \
        [(slice(None), slice(None), 0), 'a', ('a', 0), 0.5, (0, 'x'), (None, 'q'), {}, 1j,
         slice(0.5, 2), slice('a', None), slice(None, None, 0), (0, slice(None, 'b')),
         [[0], [0, 0]], (slice(0, n, 0), 0), 10 ** 30, (0, 10 ** 30), object(), [None],
         [0.0], np.zeros((n, n), bool), np.ones(n, bool), [True] * (n + 1), Ellipsis]
    for ix in ixs:
        acc.transitions += 1
        try:
            want = A[ix]
        except Exception:
            want = None
        try:
            got = M[ix]
        except KMAccessError:
            if want is None:
                continue
            acc.violate('[{!r}] refused'.format(ix), what)
            return False
        except Exception as e:
            acc.violate('[{!r}] raised {!r}'.format(ix, e), what)
            return False
        if want is None:
            acc.violate('[{!r}] accepted, gave {!r}'.format(ix, got), what)
            return False
        if not np.array_equal(got, want) or np.shape(got) != np.shape(want):
            acc.violate('[{!r}] gave {!r} expected {!r}'.format(ix, got, want), what)
            return False
    return True


def pre(acc, n, vals, part, parts):
    from kernelmethods.base import KernelMatrixPrecomputed as P
    for i, A in enumerate(mats.all_matrices(n, n, vals)):
        if i % parts != part:
            continue
        sym = np.array_equal(A, A.T)
        acc.states += 1
        fs = list(mats.forms(A)) + [('list', A.tolist()), ('tuple', tuple(map(tuple, A)))]
        if i % 9 == 0:
            fs += [('bool', A > 1), ('complex0', A.astype(complex)),
                   ('float32', A.astype('f4'))]
        for lab, F in fs:
            acc.transitions += 1
            s = sym if lab != 'bool' else np.array_equal(F, F.T)
            keep = np.array(F, copy=True)
            try:
                M = P(F)
            except Exception as e:
                if s:
                    acc.violate('symmetric matrix refused: {!r}'.format(e), '{} {}'.format(
                        lab, A.tolist()))
                    return
                continue
            if not s:
                acc.violate('asymmetric matrix accepted', '{} {}'.format(lab, A.tolist()))
                return
            if not np.array_equal(M.full, keep) or not np.array_equal(keep, np.array(F)):
                acc.violate('{} expected {}'.format(M.full, keep), lab)
                return
            if i % 25 == 0 or n < 3:
                if not judge_pre(acc, M, keep, '{} {}'.format(lab, keep.tolist())):
                    return
        acc.out(sym)
    acc.traces += 1


def pre_bad(acc, _):
    from kernelmethods.base import KernelMatrixPrecomputed as P
    bad = [np.ones((n, m)) for n in range(1, 5) for m in range(1, 5) if n != m]
    bad += [np.ones(3), np.ones(1), np.ones((2, 2, 2)), np.ones((1, 1, 1)), np.float64(3.0),
            np.array([[1, 1j], [1j, 1]]), np.array([[1j]]), np.eye(2) * 1j,
            [[1, 2, 3]], [1, 2], [[1, 2], [3, 4]], [[[1.0]]], 5, 'ab', None,
            np.array([[0, 1e-3], [0, 0]]), np.array([[1, 100.0], [100.5, 1]]),
            np.array([[5.0, 1.0], [1.002, 5.0]]), np.array([[1e6, 2e6], [2.001e6, 1e6]]),
            np.array([[1e-3, 1e-4], [1.01e-4, 1e-3]])]
    for b in bad:
        acc.transitions += 1
        acc.states += 1
        try:
            r = P(b)
        except Exception:
            continue
        acc.violate('{!r} accepted'.format(b), repr(r))
    for g in (np.array([[1, 1.0], [1.0 + 1e-9, 1]]), np.array([[1e9, 1e8], [1e8 + 1, 1e9]])):
        acc.transitions += 1
        if not np.array_equal(P(g).full, g):        # equal but for rounding: kept as it is
            acc.violate('changed {}'.format(g), '')
    a = P(np.eye(2), name='nm')
    if a.name != 'nm':
        acc.violate('name lost', '')
    acc.traces += 1


def pre_ladder(acc, n):
    from kernelmethods.base import KernelMatrixPrecomputed as P
    A = mats.seeded(n, n, n)
    A = A + A.T
    acc.states += 1
    M = P(A)
    if not judge_pre(acc, M, A, 'n={}'.format(n)):
        return
    pos = sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
    for i, j in itertools.combinations(pos, 2):
        B = A.copy()
        B[i, j] += 0.5
        acc.transitions += 1
        try:
            P(B)
        except Exception:
            continue
        acc.violate('asymmetric at {},{} accepted'.format(i, j), 'n={}'.format(n))
        return
    acc.traces += 1


def pre_special(acc, n):
    """matrices of all ranks, spectra and scales"""
    from kernelmethods.base import KernelMatrixPrecomputed as P
    v = np.arange(1.0, n + 1)
    E = np.eye(n)
    fam = [np.ones((n, n)), np.zeros((n, n)), np.outer(v, v), -E, E, np.diag(v), np.diag(-v),
           np.diag(v % 2), 1e-300 * np.ones((n, n)), 1e300 * E, np.outer(v, v) - 5,
           np.fliplr(E), np.outer(v, np.ones(n)) + np.outer(np.ones(n), v), 1e-12 * np.outer(v, v),
           np.abs(v[:, None] - v[None, :])]
    for r in range(1, n):
        fam.append(np.outer(v, v) * (v[:, None] <= r) * (v[None, :] <= r))
    for A in fam:
        acc.states += 1
        for F in (A, A.tolist(), np.asfortranarray(A)):
            M = P(F)
            acc.transitions += 1
            if not np.array_equal(M.full, A) or M.size != n or len(M) != n or \
                    M.num_samples != n or not np.array_equal(M.diag, np.diagonal(A)):
                acc.violate('full {} size {} samples {} diag {}'.format(
                    M.full, M.size, M.num_samples, M.diag), str(A.tolist())[:300])
                return
    for A in fam[:8]:
        if not judge_pre(acc, P(A), A, str(A.tolist())[:300]):
            return
    acc.traces += 1


def norm_sel(s, n):
    """selected indices, or None if the selection is to be refused"""
    if isinstance(s, (bool, str)) or s is None or isinstance(s, float):
        return None
    if isinstance(s, (int, np.int64)):
        ix = [int(s)]
    elif isinstance(s, slice):
        ix = list(range(*s.indices(n)))
    else:
        ix = [int(v) for v in s]
    if not ix or min(ix) < 0 or max(ix) >= n:
        return None
    return sorted(set(ix))


def const(acc, n, value, dtype, order):
    from kernelmethods.base import ConstantKernelMatrix as C
    from kernelmethods.config import KMAccessError
    kw = {} if dtype is None else dict(dtype=dtype)
    K = C(n, value, **kw)
    A = np.full((n, n), value, dtype=dtype or float)
    what = 'ConstantKernelMatrix({}, {}, dtype={})'.format(n, value, dtype)

    def eq(g, w, lab):
        acc.transitions += 1
        if np.shape(g) != np.shape(w) or not np.array_equal(g, w) or \
                np.asarray(g).dtype != w.dtype:
            acc.violate('{} gave {!r} expected {!r}'.format(lab, g, w), what)
            return False
        return True

    acc.states += 1
    for step in order:
        if step == 'full' and not eq(K.full, A, 'full'):
            return
        if step == 'diag' and not eq(K.diag, np.diagonal(A), 'diag'):
            return
        if step == 'shape' and (K.shape != (n, n) or K.size != n or len(K) != n or
                                K.num_samples != n):
            acc.violate('shape {} size {}'.format(K.shape, K.size), what)
            return
        if step == 'index':
            sel = selectors(n) if n else [0, slice(None), [0], []]
            sel += [np.int64(0), slice(5, 0, -1), (n - 1,) * 3, None, 'a', 0.5]
            for a, b in itertools.product(sel, repeat=2):
                ra, rb = norm_sel(a, n), norm_sel(b, n)
                acc.transitions += 1
                try:
                    g = K[a, b]
                except KMAccessError:
                    if ra and rb:
                        acc.violate('[{!r}, {!r}] refused'.format(a, b), what)
                        return
                    continue
                except Exception as e:
                    acc.violate('[{!r}, {!r}] raised {!r}'.format(a, b, e), what)
                    return
                if not ra or not rb:
                    acc.violate('[{!r}, {!r}] accepted: {!r}'.format(a, b, g), what)
                    return
                if not eq(g, A[np.ix_(ra, rb)], '[{!r}, {!r}]'.format(a, b)):
                    return
            for ix in (0, slice(None), (0,), (0, 0, 0), 'ab', 'a', None, 1.5):
                acc.transitions += 1
                try:
                    g = K[ix]
                    acc.violate('[{!r}] accepted: {!r}'.format(ix, g), what)
                    return
                except KMAccessError:
                    pass
                except Exception as e:
                    acc.violate('[{!r}] raised {!r}'.format(ix, e), what)
                    return
    acc.sample(what)
    acc.traces += 1


def run(ctx):
    ctx.explore(pre, [(1, (-2.0, 0.0, 1.0, 3.5), 0, 1), (2, (-1.0, 0.0, 2.0, 0.5), 0, 1)] +
                [(3, ctx.pick((0.0, 2.0), (-1.0, 0.0, 2.0)), p, 8) for p in range(8)])
    ctx.explore(pre_bad, [0], parallel=False)
    ctx.explore(pre_special, [1, 2, 3, 4, 6, 7, 8, 9, 16, 33])
    ctx.explore(pre_ladder, list(range(1, 34)) + [50, 64, 65, 100])
    orders = list(itertools.permutations(('full', 'diag', 'shape', 'index')))
    ctx.explore(const, [(n, v, d, ('full', 'diag', 'shape', 'index')) for n in range(0, 7)
                        for v, d in itertools.product(
                            (0.0, 1, -2.5, 7), (None, 'float', 'int', 'float32', np.int8,
                                                'float64'))] +
                [(3, 2.5, d, o) for d in (None, 'int') for o in orders] +
                [(n, 1.25, None, ('index', 'full', 'diag', 'shape')) for n in (10, 33, 64)])
