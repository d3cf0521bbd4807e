"""C16: kernel ranking and the optimal kernel."""
import itertools

import numpy as np

from mc import mats, rankref, ref


def cust(f, name):
    from kernelmethods.base import KernelFromCallable
    return KernelFromCallable(f, name)


def nan_pair(x, y):
    return float('nan') if x[0] != y[0] and x[0] + y[0] > 1.0 else 1.0 + float(x @ y)


def inf_diag(x, y):
    return float('inf') if np.array_equal(x, y) else 0.5


def proj(i):
    return lambda x, y: 0.1 * float(np.array_equal(x, y)) + float(np.sign(x[i]) *
                                                                  np.sign(y[i])) + 2.0


KER = {}


def kern(name):
    """(kernel, normalized)"""
    from kernelmethods import numeric_kernels as nk
    return {
        'lin': lambda: (nk.LinearKernel(), False), 'linn': lambda: (nk.LinearKernel(), True),
        'poly2': lambda: (nk.PolyKernel(2), False), 'rbf': lambda: (nk.GaussianKernel(0.6),
                                                                   True),
        'rbfw': lambda: (nk.GaussianKernel(9.0), False),
        'lap': lambda: (nk.LaplacianKernel(0.7), True),
        'sig': lambda: (nk.SigmoidKernel(0.5, 1.0), False),
        'const': lambda: (cust(lambda x, y: 3.0, 'const'), False),
        'nan': lambda: (cust(nan_pair, 'nan'), False),
        'inf': lambda: (cust(inf_diag, 'inf'), False),
        'negdiag': lambda: (cust(lambda x, y: -1.0 - float(x @ y) ** 2, 'neg'), True),
        'tiny': lambda: (cust(lambda x, y: 1e-5 * float(x @ y), 'tiny'), False),
        'huge': lambda: (cust(lambda x, y: 1e5 * (float(np.array_equal(x, y)) + float(
            np.exp(-np.sum((x - y) ** 2)))), 'huge'), False),
        'p0': lambda: (cust(proj(0), 'p0'), False), 'p1': lambda: (cust(proj(1), 'p1'), False),
        'p2': lambda: (cust(proj(2), 'p2'), False),
    }[name]()


BAD = {'nan', 'inf', 'negdiag'}


def bucket(names):
    from kernelmethods.base import KernelMatrix
    from kernelmethods.sampling import KernelBucket
    b = KernelBucket(None, None, None, None, None, normalize_kernels=True)
    for n in names:
        k, norm = kern(n)
        b.append(KernelMatrix(k, normalized=norm, name=n))
    return b                   # normalized linear kernel + those named


def data(n, d, which=0):
    return mats.seeded(n, d, 100 * n + d + which, -1.2, 1.3) + 0.03


def same(got, want, tol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol,
                                                   equal_nan=True)


def align_task(acc, names, n, d, labels, part, parts):
    from kernelmethods.ranking import (alignment_ranking, find_optimal_kernel,
                                       rank_kernels)
    b = bucket(names)
    X = data(n, d)
    mats_ = None
    prev = None
    for li, y in enumerate(itertools.product(labels, repeat=n)):
        if li % parts != part:
            continue
        what = '{} n={} y={}'.format(names, n, y)
        # 1. find_optimal on the (re-used) bucket, on alternating samples
        Xi = X if li % 3 else data(n, d, 1)
        targ = list(y) if li % 4 == 0 else np.array(y, dtype=np.int8) if (
            li % 4 == 1 and all(float(v).is_integer() for v in y)) else np.array(y)
        keepX = Xi.copy()
        try:
            best = find_optimal_kernel(b, Xi, targ, method='align/corr' if li % 2 else
                                       'Align/Corr')
        except Exception as e:
            best = e
        Ks = [np.array(km.full, float) for km in b]
        want = np.array([rankref.align(K, y) for K in Ks])
        acc.transitions += 1
        if isinstance(best, Exception):
            acc.violate('find_optimal_kernel raised {!r}'.format(best), what)
            return
        idx = [i for i, km in enumerate(b) if km is best]
        if not idx:
            acc.violate('optimal kernel is not a member', what)
            return
        top = np.nanmax(want)
        if np.isnan(want[idx[0]]) or want[idx[0]] < top - 1e-9:
            acc.violate('chose {} with score {}, scores {}'.format(idx[0], want[idx[0]],
                                                                   want), what)
            return
        # its values are those on the sample given
        for km, nm in zip(b, ('linn',) + names):
            if nm in ('lin', 'linn'):
                R = Xi @ Xi.T
                if nm == 'linn':
                    R = ref.normalized(R)
                if not ref.close(km.full, R):
                    acc.violate('bucket is not on the sample given', what)
                    return
        got = rank_kernels(b, targ, method='align/corr')
        got2 = alignment_ranking(b, targ)
        got3 = rank_kernels(b, targ, method='align/corr', value_if_zero_division=-7.5)
        want3 = np.array([rankref.align(K, y, -7.5) for K in Ks])
        acc.transitions += 3
        got, got2, got3 = (np.array(g, float) for g in (got, got2, got3))
        if ref.fnorm(ref.centered(np.outer(y, y))) < 1e-8:
            for g in (got, got2, got3):      # no target: nothing to say on NaN kernels
                if len(g) == len(want):
                    g[np.isnan(want)] = np.nan
        if not same(got, want) or not same(got2, want) or not same(got3, want3):
            acc.violate('scores {} / {} / {} expected {} / {}'.format(
                got, got2, got3, want, want3), what)
            return
        for km in b:                # looking at the kernels does not change their scores
            for a in ('normed_km', 'centered', 'frob_norm'):
                try:
                    getattr(km, a)
                except Exception:
                    pass
        got4 = np.array(rank_kernels(b, targ, method='align/corr'), float)
        acc.transitions += 1
        got4[np.isnan(want)] = np.nan
        if not same(got4, want):
            acc.violate('scores {} after reading other forms, expected {}'.format(got4, want),
                        what)
            return
        if not np.array_equal(keepX, Xi):
            acc.violate('sample modified', what)
            return
        acc.states += 1
        acc.out(np.round(want, 4).tolist())
    acc.sample('alignment ranking of {} for all {}^{} targets'.format(names, labels, n))
    acc.traces += 1


def cv_labelings(n, classes):
    for y in itertools.product(range(classes), repeat=n):
        if all(y.count(c) >= 3 for c in range(classes)):
            yield y


def cv_task(acc, names, n, learner, y, folds):
    from kernelmethods.ranking import CV_ranking, find_optimal_kernel, rank_kernels
    b = bucket(names)
    X = data(n, 2)
    what = '{} n={} {} y={} folds={}'.format(names, n, learner, y, folds)
    y = np.array(y, float if learner == 'SVR' else int)
    best = find_optimal_kernel(b, X, y, method='cv_risk', num_folds=folds,
                               estimator_name=learner)
    want = rankref.rescaled([rankref.cv(km.full, y, learner, folds) for km in b])
    acc.transitions += 1
    idx = [i for i, km in enumerate(b) if km is best]
    if not idx or np.isnan(want[idx[0]]) or want[idx[0]] < np.nanmax(want) - 1e-6:
        acc.violate('chose {} scores {}'.format(idx, want), what)
        return
    got = rank_kernels(b, y, method='CV_risk', num_folds=folds, estimator_name=learner)
    acc.transitions += 1
    if not same(got, want, 1e-5):
        acc.violate('scores {} expected {}'.format(got, want), what)
        return
    if folds == 3 and learner == 'SVM':
        acc.transitions += 1
        if not same(CV_ranking(b, y), want, 1e-5):
            acc.violate('default CV_ranking {} expected {}'.format(CV_ranking(b, y), want),
                        what)
            return
    acc.states += 1
    acc.traces += 1
    acc.out(np.round(want, 3).tolist())
    acc.sample(what)


def winners(acc, perm, method):
    """each kernel can be the winner, at each position of the bucket"""
    from kernelmethods.ranking import find_optimal_kernel
    pts = np.array(list(itertools.product((-1.0, 1.0), repeat=3)))
    for w in range(3):
        b = bucket(tuple('p%d' % i for i in perm))
        y = pts[:, w].astype(int)
        acc.transitions += 1
        best = find_optimal_kernel(b, pts, y, method=method)
        acc.states += 1
        # under CV the plain linear kernel may separate as well as the matching one
        if method == 'align/corr' and best.name != 'p%d' % w:
            acc.violate('{} won instead of p{}'.format(best.name, w), str(perm))
            return
        if method != 'align/corr':
            s = [rankref.cv(km.full, y, 'svm') for km in b]
            if rankref.cv(best.full, y, 'svm') < max(s) - 1e-9:
                acc.violate('{} won instead of p{}'.format(best.name, w), str(perm))
                return
    acc.traces += 1


def edited(acc, depth, method):
    """one bucket and one array, edited in place by its owner or used elsewhere between
    rankings"""
    from kernelmethods.ranking import find_optimal_kernel, rank_kernels
    ops = ('find', 'find other', 'edit', 'attach member', 'attach set')
    y = np.array([0, 1, 0, 1, 1, 0])
    for hist in itertools.product(ops, repeat=depth):
        if hist[-1][:4] != 'find':
            continue
        b = bucket(('lin', 'p0', 'rbf'))
        A, B = data(6, 2).copy(), data(6, 2, 5)
        for j, op in enumerate(hist):
            acc.transitions += 1
            if op == 'edit':
                A[:, 0] = A[::-1, 1] + 0.1 * j
            elif op == 'attach member':
                b[1].attach_to(B)
            elif op == 'attach set':
                b.attach_to(B)
            else:
                X = A if op == 'find' else B
                best = find_optimal_kernel(b, X, y, method=method)
                R = X @ X.T
                for i, K in ((0, ref.normalized(R)), (1, R)):
                    if not ref.close(b[i].full, K):
                        acc.violate('members are not on the sample given', str(hist))
                        return
                s = [rankref.align(km.full, y) if method == 'align/corr' else
                     rankref.cv(km.full, y, 'svm') for km in b]
                i = [km is best for km in b].index(True)
                if s[i] < max(s) - 1e-9:
                    acc.violate('chose {} scores {}'.format(i, s), str(hist))
                    return
                if method == 'align/corr' and not same(rank_kernels(b, y), s):
                    acc.violate('scores differ from {}'.format(s), str(hist))
                    return
        acc.states += 1
        acc.traces += 1


def table(f, diag):
    return lambda x, y: f[int(x[0]) - 1] * f[int(y[0]) - 1] * diag[0] + \
        diag[1] * float(x[0] == y[0])


def signs(acc, n, undef):
    """all signs of alignment, with kernels whose alignment is undefined in between"""
    from kernelmethods.base import KernelMatrix
    from kernelmethods.ranking import find_optimal_kernel, rank_kernels
    from kernelmethods.sampling import KernelBucket
    X = np.arange(1.0, n + 1).reshape(-1, 1)          # normalized linear: all ones
    fs = list(itertools.product((-1.0, 1.0), repeat=n))
    for y in fs:
        if abs(sum(y)) == n:
            continue
        for sc in itertools.product((-2.0, 0.0, 1.5), repeat=2):
            b = KernelBucket(None, None, None, None, None, normalize_kernels=True)
            g = [fs[3], y]
            for j, (f, s) in enumerate(zip(g, sc)):
                b.append(KernelMatrix(cust(table(f, (s, 0.0)), 't%d' % j), normalized=False,
                                      name='t%d' % j))
            b.append(KernelMatrix(cust(table(y, (-1.0, 0.5)), 'last'), normalized=False,
                                  name='last'))
            what = 'y={} scales {} undefined={}'.format(y, sc, undef)
            best = find_optimal_kernel(b, X, np.array(y), method='align/corr',
                                       value_if_zero_division=undef)
            want = np.array([rankref.align(km.full, y, undef) for km in b])
            got = rank_kernels(b, np.array(y), value_if_zero_division=undef)
            acc.transitions += 2
            acc.states += 1
            i = [km is best for km in b].index(True)
            if not same(got, want) or np.isnan(want[i]) or want[i] < np.nanmax(want) - 1e-9:
                acc.violate('chose {}, scores {} expected {}'.format(i, got, want), what)
                return
            acc.out(np.round(want, 3).tolist())
    acc.traces += 1


def permuted(acc, n):
    """samples holding the same numbers in another arrangement, same targets"""
    from kernelmethods.ranking import find_optimal_kernel, rank_kernels
    A = np.round(data(n, 2) * 8) / 8 + 0.0625
    y = np.array([1.0, -1.0, 2.0, 0.5, -1.5][:n])
    shared = bucket(('lin', 'rbf', 'p0'))
    for perm in itertools.permutations(range(n)):
        X = np.column_stack([A[list(perm), 0], A[:, 1]])
        for b in (shared, bucket(('lin', 'rbf', 'p0'))):
            best = find_optimal_kernel(b, X, y, method='align/corr')
            R = X @ X.T
            want = np.array([rankref.align(km.full, y) for km in b])
            acc.transitions += 2
            i = [km is best for km in b].index(True)
            if not ref.close(b[1].full, R) or want[i] < max(want) - 1e-9 or \
                    not same(rank_kernels(b, y), want):
                acc.violate('chose {} scores {} expected {}'.format(
                    i, rank_kernels(b, y), want), str(X.tolist()))
                return
        acc.states += 1
        acc.out(np.round(want, 3).tolist())
    acc.traces += 1


def rejects(acc, _):
    from kernelmethods.base import KernelSet
    from kernelmethods.ranking import find_optimal_kernel, get_estimator, rank_kernels
    X, y = data(6, 2), np.array([0, 1, 0, 1, 0, 1])
    b = bucket(('lin', 'rbf'))
    ks = KernelSet(list(bucket(('lin',))))
    for m in ('', 'align', 'nosuch', 'cv_risks', 'risk', 'cv', 'corr', 'cv risk', ' cv_risk',
              'align/corr ', 'alignment', 'align/cv_risk', 'svm'):
        for f in (lambda: find_optimal_kernel(b, X, y, method=m),
                  lambda: rank_kernels(b, y, method=m)):
            acc.transitions += 1
            try:
                r = f()
                acc.violate('method {!r} accepted'.format(m), repr(r))
            except Exception:
                pass
    for o in (ks, list(b), b[0], None, X, 'light'):
        acc.transitions += 1
        try:
            r = find_optimal_kernel(o, X, y, method='align/corr')
            acc.violate('{} accepted as bucket'.format(type(o)), repr(r))
        except Exception:
            pass
    for o in ('nosuch', '', 'LR'):
        acc.transitions += 1
        try:
            get_estimator(o)
            acc.violate('learner {!r} accepted'.format(o), '')
        except Exception:
            pass
    acc.states += 1
    acc.traces += 1


def ladder(acc, n, k):
    """larger samples and buckets"""
    from kernelmethods.ranking import find_optimal_kernel, rank_kernels
    from kernelmethods.sampling import KernelBucket
    X = data(n, 3)
    for which in range(3):
        b = KernelBucket(poly_degree_values=[1, 2, 3][:k], rbf_sigma_values=[0.5, 1.0, 4.0][:k],
                         laplace_gamma_values=[0.5, 1.0][:k], sigmoid_gamma_values=None,
                         sigmoid_offset_values=None, normalize_kernels=bool(which % 2))
        y = np.sign(X[:, which % 3] * X[:, 0] + 0.01)
        if which == 2:
            y = X[:, 0] ** 2
        best = find_optimal_kernel(b, X, y, method='align/corr')
        H = np.eye(n) - 1.0 / n
        T = H @ np.outer(y, y) @ H
        sc = []
        for km in b:
            C = H @ km.full @ H
            q = np.sqrt((C ** 2).sum() * (T ** 2).sum())
            sc.append((C * T).sum() / q if q > 1e-8 else 0.0)
        acc.transitions += 2
        i = [j for j, km in enumerate(b) if km is best][0]
        if sc[i] < max(sc) - 1e-9 or not same(rank_kernels(b, y), sc):
            acc.violate('n={} k={}: chose {} scores {} got {}'.format(
                n, k, i, sc, rank_kernels(b, y)), str(which))
            return
        acc.states += 1
    acc.traces += 1


def run(ctx):
    B1 = ('lin', 'poly2', 'rbf', 'lap')
    bk = [B1, ('const', 'lin', 'sig'), ('nan', 'lin', 'rbf'), ('rbf', 'inf', 'poly2'),
          ('negdiag', 'const'), ('rbfw', 'lap', 'negdiag', 'p0'), ()]
    t = []
    for b in bk:
        for n, lab in ((2, (-1, 1, 3)), (3, (-1, 0, 1, 2)), (4, (0, 1, 2)), (5, (-1, 1)),
                       (4, (0.5, -1.25)), (3, (10, 100, 127)))[:None]:
            t.append((b, n, 2, lab, 0, 1))
        t += [(b, n, 2, (0, 1), p, 4) for n in ctx.pick((6,), (6, 7, 8)) for p in range(4)]
    ctx.explore(align_task, t)
    cvt = []
    for b in (B1, ('nan', 'rbf', 'const')):
        cvt += [(b, 6, 'SVM', y, 3) for y in cv_labelings(6, 2)]
        cvt += [(b, 7, 'SVC', y, 3) for y in list(cv_labelings(7, 2))[::ctx.pick(5, 1)]]
        cvt += [(b, 6, 'svm', y, 2) for y in list(cv_labelings(6, 2))[::ctx.pick(4, 1)]]
        cvt += [(b, 9, 'SVM', y, 3) for y in list(cv_labelings(9, 3))[::ctx.pick(120, 4)]]
        reg = [y for y in itertools.product((0.0, 1.0, 2.5), repeat=6)
               if len({*y[:2]}) > 1 and len({*y[2:4]}) > 1 and len({*y[4:]}) > 1]
        cvt += [(b, 6, 'SVR', y, 3) for y in reg[::ctx.pick(12, 1)]]
    cvt += [(('tiny', 'huge', 'rbf'), 6, 'SVR', y, 3) for y in reg[::ctx.pick(24, 2)]]
    cvt += [(('tiny', 'huge'), 6, 'SVM', y, 3) for y in cv_labelings(6, 2)]
    for f, n in ((4, 8), (5, 10), (6, 12), (10, 20)):
        y2 = [tuple(int((i * s) % 7 < 3) for i in range(n)) for s in (1, 2, 3)]
        y2 += [tuple(i % 2 for i in range(n))]
        cvt += [(B1, n, 'SVM', y, f) for y in y2 if f <= sum(y) <= n - f]
        cvt += [(('rbf', 'tiny'), n, 'SVR', tuple((i * s) % 5 + 0.5 * i for i in range(n)), f)
                for s in (1, 3) if f <= n // 2]
    cvt += [(('negdiag', 'inf', 'rbfw', 'sig'), 6, 'SVM', y, 3) for y in cv_labelings(6, 2)]
    for b in ((), ('rbf',), ('nan',), ('nan', 'poly2')):
        cvt += [(b, 6, 'SVM', y, 3) for y in cv_labelings(6, 2)]
        cvt += [(b, 6, 'SVR', y, 3) for y in reg[::ctx.pick(24, 2)]]
    odd = [0.234567, -0.345678, 0.456789, 0.123456, -0.567891, 0.678912]
    for b in (B1, ('rbf', 'const')):      # targets with many digits, in all rotations
        cvt += [(b, 6, 'SVR', tuple(odd[r:] + odd[:r]), 3) for r in range(6)]
        cvt += [(b, 6, 'SVR', tuple(1000.0 * v for v in odd[r:] + odd[:r]), 3)
                for r in range(3)]
    ctx.explore(cv_task, cvt)
    ctx.explore(signs, [(n, u) for n in (3, 4, 5) for u in (0.0, float('nan'), -7.5, 2.0)])
    ctx.explore(permuted, [3, 4, 5])
    ctx.explore(winners, [(p, m) for p in itertools.permutations(range(3))
                          for m in ('align/corr', 'cv_risk')])
    ctx.explore(edited, [(1, 'align/corr'), (2, 'align/corr'), (3, 'align/corr'),
                         (4, 'align/corr'), (2, 'cv_risk')])
    ctx.explore(rejects, [0], parallel=False)
    ctx.explore(ladder, [(n, k) for n in (2, 3, 5, 10, 20, 33) for k in (1, 2, 3)])
    ctx.assumptions.append('for the sizes with a stride in the task list, every stride-th '
                           'labeling is explored in the quick tier, all in the thorough one'
                           ' (bounds give the exact number)')
