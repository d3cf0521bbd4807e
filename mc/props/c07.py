"""C07: cosine normalization for one and two samples."""
import itertools

import numpy as np

from mc import mats, ref
from mc.kmworld import TKernel


def err():
    from kernelmethods.config import KMNormError
    return KMNormError


def want1(K):
    d = [K[i][i] for i in range(len(K))]
    return ref.normalized(K, d, d)


def one(acc, n, diag, off, scale, allforms, sym):
    from kernelmethods.operations import normalize_km
    it = mats.sym_matrices(n, diag, off) if sym else mats.all_matrices(n, n, off)
    for K in it:
        d = np.diag(K)
        if np.any(d < 0):
            continue
        zero = np.any(d == 0)
        K = K * scale
        for lab, M in (mats.forms(K) if allforms else (('C', K),)):
            before = M.tobytes()
            acc.transitions += 1
            try:
                got = normalize_km(M)
            except Exception as e:
                if not (zero and isinstance(e, err())):
                    acc.violate('normalize_km raised {!r}'.format(e), '{} {}'.format(lab, M))
                    return
                continue
            finally:
                if M.tobytes() != before:
                    acc.violate('normalize_km modified its input', str(M))
                    return
            if zero:
                acc.violate('zero diagonal normalized to {}'.format(got), str(M))
                return
            if not ref.close(got, want1(K)):
                acc.violate('normalized to\n{}\nexpected\n{}'.format(got, want1(K)),
                            '{}\n{}'.format(lab, M))
                return
            if not np.allclose(np.diag(got), 1):
                acc.violate('no unit diagonal', str(got))
                return
            g2 = normalize_km(got)
            if not ref.close(g2, got):
                acc.violate('not idempotent: {} -> {}'.format(got, g2), str(M))
                return
        acc.states += 1
    acc.traces += 1
    acc.sample('normalize_km({})'.format(K.tolist()))


def two(acc, n, m, vals, dx, dy):
    from kernelmethods.operations import normalize_km_2sample
    for K in mats.all_matrices(n, m, vals):
        for a in itertools.product(dx, repeat=n):
            for b in itertools.product(dy, repeat=m):
                acc.transitions += 1
                zero = 0 in a or 0 in b
                try:
                    got = normalize_km_2sample(K, np.array(a), np.array(b))
                except Exception as e:
                    if not (zero and isinstance(e, err())):
                        acc.violate('raised {!r}'.format(e), '{} {} {}'.format(K, a, b))
                        return
                    continue
                if zero or not ref.close(got, ref.normalized(K, a, b)):
                    acc.violate('two-sample normalization returned\n{}'.format(got),
                                '{} {} {}'.format(K, a, b))
                    return
        acc.states += 1
    acc.traces += 1


def rejects(acc, _):
    from kernelmethods.operations import normalize_km, normalize_km_2sample
    K = np.array([[2., 1.], [1., 3.]])
    d = np.array([1., 2.])
    t = np.array([1., 2., 3.])

    def must(what, f, ok):
        acc.transitions += 1
        acc.states += 1
        try:
            r = f()
        except Exception as e:
            if ok:
                acc.violate('{} raised {!r}'.format(what, e), '')
            return
        if not ok:
            acc.violate('{} was accepted: {!r}'.format(what, r), '')
    for shape in ((1, 2), (2, 1), (2, 3), (3, 2), (1, 5)):
        must('non-square {}'.format(shape), lambda: normalize_km(np.ones(shape)), False)
    for n, m in itertools.product((1, 2, 3), repeat=2):
        for a, b in itertools.product((1, 2, 3), repeat=2):
            must('{}x{} with diagonals of {} and {}'.format(n, m, a, b),
                 lambda: normalize_km_2sample(np.ones((n, m)), np.ones(a), np.ones(b)),
                 a == n and b == m)
    for meth in ('cosine', 'COSINE', 'Cosine', 'cOsInE'):
        must(meth, lambda: normalize_km(K, method=meth), True)
        must(meth + '/2', lambda: normalize_km_2sample(K, d, d, method=meth), True)
    for meth in ('', 'cos', 'l2', 'cosine ', 'cosines', 'linear', 'none', None, 3):
        must(repr(meth), lambda: normalize_km(K, method=meth), False)
        must(repr(meth) + '/2', lambda: normalize_km_2sample(K, d, d, method=meth), False)
        for twos in (False, True):
            for km_norm in (False, True):
                from kernelmethods.base import KernelMatrix
                km = KernelMatrix(TKernel(), normalized=km_norm)
                X, Y = np.array([[1., 2.], [0., 3.]]), np.array([[1., 1.]])
                km.attach_to(X, sample_two=Y if twos else None)
                must('matrix.normalize({!r}) two={}'.format(meth, twos),
                     lambda: km.normalize(method=meth), False)
                R = ref.raw_km(TKernel.value, ref.rows(X), ref.rows(Y if twos else X))
                W = ref.normalized(R, [TKernel.value(x, x) for x in X.tolist()],
                                   [TKernel.value(y, y) for y in (Y if twos else X).tolist()])
                if not ref.close(km.normed_km, W):
                    acc.violate('wrong after rejected method {!r}'.format(meth), '')
    for meth in ('cosine', 'COSINE'):
        from kernelmethods.base import KernelMatrix
        km = KernelMatrix(TKernel(), normalized=False)
        km.attach_to(np.array([[1., 2.], [0., 3.]]), sample_two=np.array([[1., 1.]]))
        must('two-sample matrix.normalize({})'.format(meth),
             lambda: km.normalize(method=meth), True)
    acc.traces += 1


def kernels():
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.base import KernelFromCallable
    return {'T': (TKernel, TKernel.value), 'lin': (nk.LinearKernel, ref.linear()),
            'poly2': (lambda: nk.PolyKernel(2), ref.poly(2)),
            'poly3': (lambda: nk.PolyKernel(2, b=0.0), ref.poly(2, 1.0, 0.0)),
            'rbf': (lambda: nk.GaussianKernel(1.5), ref.gaussian(1.5)),
            'lap': (lambda: nk.LaplacianKernel(0.5), ref.laplacian(0.5)),
            'sig': (lambda: nk.SigmoidKernel(0.25, 1.0), ref.sigmoid(0.25, 1.0)),
            'chi2': (lambda: nk.Chi2Kernel(0.5), ref.chi2(0.5)),
            'had': (lambda: nk.HadamardKernel(2), ref.hadamard(2)),
            'call': (lambda: KernelFromCallable(neg), neg),
            'indef': (lambda: KernelFromCallable(indef), indef)}


def neg(x, y):
    return -3.0 if list(x) != list(y) else 9.0      # negative off-diagonal similarities


def indef(x, y):
    # similarities between points far above their self-similarities (not a PSD kernel)
    return 1.0 + sum(abs(a - b) for a, b in zip(x, y)) + 0.25 * abs(sum(x) + sum(y))


def matrix(acc, kind, n, m, vals, part, parts):
    from kernelmethods.base import KernelMatrix
    mk, r = kernels()[kind]
    if kind in ('chi2',):
        vals = [abs(v) for v in vals]
    sx = list(mats.samples(n, 2, vals))
    sy = [None] if m is None else list(mats.samples(m, 2, vals))
    for c, (X, Y) in enumerate(itertools.product(sx, sy)):
        if c % parts != part:
            continue
        Yv = X if Y is None else Y
        dx = [r(list(x), list(x)) for x in X.tolist()]
        dy = [r(list(y), list(y)) for y in Yv.tolist()]
        zero = any(abs(v) < 1e-9 for v in dx + dy)
        raw = ref.raw_km(r, X.tolist(), Yv.tolist())
        W = None if zero or min(dx + dy) < 0 else ref.normalized(raw, dx, dy)
        if W is None and not zero:
            continue
        for how in ('full', 'normed', 'normalize', 'full-after-raw', 'sparse'):
            km = KernelMatrix(mk(), normalized=how in ('full', 'sparse'))
            km.attach_to(X, sample_two=Y)
            acc.transitions += 1
            try:
                if how == 'full':
                    got = km.full
                elif how == 'normed':
                    got = km.normed_km
                elif how == 'sparse':
                    got = km.full_sparse
                    got = got if isinstance(got, np.ndarray) else np.asarray(got.todense())
                elif how == 'normalize':
                    km.normalize()
                    got = km.normed_km
                else:
                    km.full
                    km.frob_norm
                    got = km.normed_km
            except Exception as e:
                if not (zero and isinstance(e, err())):
                    acc.violate('{} {} raised {!r}'.format(kind, how, e),
                                '{} {}'.format(X.tolist(), Yv.tolist()))
                    return
                # the unnormalized values stay available
                if not ref.close(km[:, :], raw):
                    acc.violate('values wrong after failed normalization', str(X.tolist()))
                    return
                continue
            if zero or not ref.close(got, W):
                acc.violate('{} via {}: normalized matrix\n{}\nexpected\n{}'.format(
                    kind, how, got, W), '{} {}'.format(X.tolist(),
                                                       None if Y is None else Y.tolist()))
                return
            if not ref.close(km[:, :], raw):
                acc.violate('elements are not the raw similarities any more',
                            str(X.tolist()))
                return
        acc.states += 1
    acc.traces += 1
    acc.sample('{} on {} {}'.format(kind, X.tolist(), None if Y is None else Y.tolist()))


def ladder(acc, n, m):
    from kernelmethods.operations import normalize_km, normalize_km_2sample
    for scale in (1.0, 1e-5, 1e6, 1e-3):
        K = mats.psd(n, n) * scale
        if n > 1:
            K[0, :] *= 0.1           # widely different self-similarities
            K[:, 0] *= 0.1
        if not np.allclose(normalize_km(K), K / np.sqrt(np.outer(np.diag(K), np.diag(K))),
                           rtol=1e-8, atol=1e-10):
            acc.violate('normalize_km wrong for {} points scale {}'.format(n, scale), '')
            return
        R = mats.seeded(n, m, n * m) * scale
        a, b = np.linspace(0.3, 7, n) * scale, np.linspace(11, 0.2, m) * scale
        if not np.allclose(normalize_km_2sample(R, a, b), R / np.sqrt(np.outer(a, b)),
                           rtol=1e-8, atol=1e-10):
            acc.violate('normalize_km_2sample wrong for {}x{} scale {}'.format(n, m, scale),
                        '')
            return
        for pos in {0, n // 2, n - 1}:
            Z = K.copy()
            Z[pos, :] = Z[:, pos] = 0
            av = a.copy()
            av[pos] = 0
            for f in (lambda: normalize_km(Z), lambda: normalize_km_2sample(R, av, b),
                      lambda: normalize_km_2sample(R.T, b, av)):
                acc.transitions += 1
                try:
                    f()
                except err():
                    continue
                except Exception as e:
                    acc.violate('zero self-similarity raised {!r}'.format(e), '')
                    return
                acc.violate('zero self-similarity of point {} of {} accepted'.format(pos, n),
                            '')
                return
        acc.transitions += 2
        acc.states += 1
    acc.traces += 1


TINY = (0.0, 1e-9, 1e-10, 1e-15, 1e-100, 1e-310)
FINE = (1e-7, 1e-5, 1.0, 3.0, 1e5, 1e10, 1e15)


def ranges(acc, n, with_tiny):
    """self-similarities of widely different magnitudes: close to zero is an error wherever
    it is, everything else is normalized"""
    from kernelmethods.base import KernelMatrix, KernelFromCallable
    from kernelmethods.operations import normalize_km, normalize_km_2sample
    vals = FINE + TINY if with_tiny else FINE
    for d in itertools.product(vals, repeat=n):
        d = np.array(d)
        zero = any(v < 5e-9 for v in d)
        if zero != with_tiny:
            continue
        C = np.array([[1.0 if i == j else 0.5 - 0.1 * (i + j) for j in range(n)]
                      for i in range(n)])
        K = C * np.sqrt(np.outer(d, d))
        K[range(n), range(n)] = d
        e = d[::-1]
        km = KernelMatrix(KernelFromCallable(lambda x, y: K[int(x[0]), int(y[0])]),
                          normalized=True)
        P = np.c_[np.arange(n), np.zeros(n)].astype(float)

        def matrix(two):
            km.attach_to(P, sample_two=P[::-1] if two else None)
            return km.full
        R = C * 0.75
        for what, f, want in (
                ('normalize_km', lambda: normalize_km(K), C),
                ('normalize_km_2sample', lambda: normalize_km_2sample(R, d, e),
                 R / np.sqrt(d)[:, None] / np.sqrt(e)[None] if not zero else 0),
                ('normalize_km_2sample other', lambda: normalize_km_2sample(
                    R, np.ones(n) * 2, d), R / np.sqrt(2) / np.sqrt(d)[None]
                 if not zero else 0),
                ('matrix', lambda: matrix(False), C), ('two samples', lambda: matrix(True),
                                                       C[:, ::-1])):
            acc.transitions += 1
            try:
                got = f()
            except Exception as ex:
                if zero and isinstance(ex, err()):
                    continue
                acc.violate('{} with self-similarities {} raised {!r}'.format(what, d, ex), '')
                return
            if zero or not ref.close(got, want, 1e-8, 1e-12):
                acc.violate('{} with self-similarities {} returned\n{}\nexpected\n{}'.format(
                    what, d, got, 'an error' if zero else want), '')
                return
        acc.states += 1
    acc.traces += 1


def run(ctx):
    pos = (1.0, 2.0, 4.0, 0.25)
    off = (-2.0, -1.0, 0.0, 0.5, 1.0, 3.0)
    tasks = [(1, pos + (0.0,), off, s, True, True) for s in (1.0, 1e-4, 1e6)]
    tasks += [(2, pos + (0.0,), off, s, s == 1.0, True) for s in (1.0, 1e-4, 1e6)]
    tasks += [(2, None, (-1.0, 0.0, 2.0, 9.0), 1.0, True, False)]
    tasks += [(3, (1.0, v, 0.0), ctx.pick(off[1:5], off), s, s == 1.0, True)
              for v in (2.0, 0.25, 9.0, 100.0) for s in (1.0, 1e5)]
    tasks += [(3, None, (1.0, 4.0), 1.0, False, False)]
    if ctx.thorough:
        tasks += [(4, (1.0, v), (-1.0, 0.5, 2.0), 1.0, False, True) for v in (3.0, 0.0, 0.5)]
    ctx.explore(one, tasks)
    ctx.explore(two, [(n, m, (-1.0, 0.0, 2.5), (0.0, 1.0, 4.0), (2.0, 0.5, 0.0))
                      for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1))])
    ctx.explore(two, [(n, m, (-1.0, 2.0), (1.0, 4.0), (2.0, 0.5))
                      for n, m in ((2, 3), (3, 2))])
    ctx.explore(two, [(2, 2, (-1.0, 0.0, 2.5), (1.0, 4.0), (1.0, 4.0)),
                      (3, 3, (2.0, -1.0) if ctx.thorough else (2.0,), (1.0, 4.0, 0.25),
                       (1.0, 4.0, 0.25))] +
                [(n, m, (3.0,), (1.0, 2.0), (2.0, 1.0)) for n in (1, 2, 4) for m in (1, 4)])
    ctx.explore(ranges, [(n, z) for n in (1, 2, 3) for z in (False, True)])
    ctx.explore(rejects, [0], parallel=False)
    t = []
    for k in kernels():
        t += [(k, n, None, (-1.0, 0.0, 2.0), p, 1) for n in (1, 2, 3) for p in (0,)]
        t += [(k, n, m, (-1.0, 0.0, 2.0), p, 3) for n, m in ((1, 1), (1, 2), (2, 1))
              for p in range(3)]
        t += [(k, 2, 2, ctx.pick((0.0, 2.0), (-1.0, 0.0, 2.0)), p, 3) for p in range(3)]
    ctx.explore(matrix, t)
    ns = list(range(1, 20)) + [31, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257]
    ctx.explore(ladder, [(n, m) for n in ns + ctx.pick([], list(range(20, 130)) + [500, 1000])
                         for m in sorted({1, n, n + 3, 40})])
    ctx.bounds.update(ladder=max(ns))
