"""C30: requests that make no sense are refused, never answered with something else."""
import itertools

import numpy as np

from mc import ref

S = np.array([[1., 2], [2, .5], [.3, 1], [1, 1], [0, 2], [2, 2.]])
Y = np.array([0, 1, 0, 1, 0, 1])


def bucket(norm=True):
    from kernelmethods.sampling import KernelBucket
    return KernelBucket(poly_degree_values=[2], rbf_sigma_values=[1.],
                        laplace_gamma_values=None, sigmoid_gamma_values=None,
                        sigmoid_offset_values=None, normalize_kernels=norm)


def spellings(names):
    """Nearly right names: a character missing, doubled, replaced or added; never the
    names themselves in any letter case"""
    out = {'', ' ', '-', 'none', 'default', 'auto', 'x'}
    for n in names:
        for i in range(len(n)):
            out.add(n[:i] + n[i + 1:])
            out.add(n[:i] + '#' + n[i + 1:])
            out.add(n[:i] + n[i] * 2 + n[i + 1:])
            out.add(n[:i])
            out.add(n[i:])
            out.add(n[:i] + ' ' + n[i:])
        for extra in (' ', 's', '_', '1', '/', n):
            out.add(n + extra)
            out.add(extra + n)
        out.add(n[::-1])
    good = {n.lower() for n in names}
    return sorted(o for o in out if o.lower() not in good)


def cases_of(n):
    return sorted({n, n.upper(), n.lower(), n.title(), n.swapcase(),
                   ''.join(c.upper() if i % 2 else c for i, c in enumerate(n))})


def refuse(acc, what, fn):
    acc.transitions += 1
    try:
        r = fn()
    except Exception as e:
        acc.out((what[:12], type(e).__name__))
        return True
    acc.violate('{} was not refused: {}'.format(what, str(r)[:300]), what)
    return False


RANK = ('align/corr', 'cv_risk')
LEARN = ('svm', 'svc', 'svr')
STRAT = ('exhaustive', 'light', 'linear_only')


def methods(acc, part, parts):
    from kernelmethods import ranking as rk, algorithms as al
    b = bucket()
    b.attach_to(S)
    Ks = [km.full.copy() for km in b]
    names = [n for n in spellings(RANK) if n not in ('cv',)] + [None, 3, b'align/corr',
                                                               ['cv_risk']]
    for i, m in enumerate(names):
        if i % parts != part:
            continue
        if not (refuse(acc, 'rank_kernels method={!r}'.format(m),
                       lambda: rk.rank_kernels(b, Y, method=m)) and
                refuse(acc, 'find_optimal_kernel method={!r}'.format(m),
                       lambda: rk.find_optimal_kernel(bucket(), S, Y, method=m)) and
                refuse(acc, 'OptimalKernelSVC method={!r}'.format(m),
                       lambda: al.OptimalKernelSVC(bucket(), method=m).fit(S, Y)) and
                refuse(acc, 'OptimalKernelSVR method={!r}'.format(m),
                       lambda: al.OptimalKernelSVR(bucket(), method=m).fit(S, Y))):
            return
        acc.states += 1
    for km, K in zip(b, Ks):
        acc.transitions += 1
        if not ref.close(km.full, K):
            acc.violate('a refused ranking changed a kernel matrix', '')
            return
    for n in RANK:
        want = rk.rank_kernels(b, Y, method=n)
        for m in cases_of(n):
            acc.transitions += 1
            if not ref.close(rk.rank_kernels(b, Y, method=m), want):
                acc.violate('method {!r} is not {!r}'.format(m, n), '')
                return
    acc.traces += 1


def learners(acc, part, parts):
    from kernelmethods import ranking as rk, algorithms as al
    from sklearn.svm import SVC, SVR
    b = bucket()
    b.attach_to(S)
    for i, m in enumerate(spellings(LEARN) + [None, 3, SVC, SVC()]):
        if i % parts != part:
            continue
        if not (refuse(acc, 'get_estimator({!r})'.format(m),
                       lambda: rk.get_estimator(m)) and
                refuse(acc, 'KernelMachine learner_id={!r}'.format(m),
                       lambda: al.KernelMachine(learner_id=m).fit(S, Y)) and
                refuse(acc, 'KernelMachineRegressor learner_id={!r}'.format(m),
                       lambda: al.KernelMachineRegressor(learner_id=m).fit(S, Y)) and
                refuse(acc, 'CV_ranking estimator_name={!r}'.format(m),
                       lambda: rk.CV_ranking(b, Y, estimator_name=m))):
            return
        acc.states += 1
    for n in LEARN:
        for m in cases_of(n):
            est, grid = rk.get_estimator(m)
            acc.transitions += 1
            if not isinstance(est, SVR if n == 'svr' else SVC) or \
                    est.kernel != 'precomputed' or 'C' not in grid:
                acc.violate('get_estimator({!r}) is {}'.format(m, est), '')
                return
    acc.traces += 1


def strategies(acc, part, parts):
    from kernelmethods import sampling as sp, algorithms as al
    from kernelmethods.base import KernelMatrix
    from kernelmethods.numeric_kernels import LinearKernel
    bad = spellings(STRAT) + [None, 3, LinearKernel(), [LinearKernel()],
                              KernelMatrix(LinearKernel()), sp.KernelBucket]
    for i, m in enumerate(bad):
        if i % parts != part:
            continue
        if not (refuse(acc, 'make_kernel_bucket({!r})'.format(m),
                       lambda: sp.make_kernel_bucket(m)) and
                refuse(acc, 'OptimalKernelSVC k_bucket={!r}'.format(m),
                       lambda: al.OptimalKernelSVC(m, method='align/corr').fit(S, Y)) and
                refuse(acc, 'OptimalKernelSVR k_bucket={!r}'.format(m),
                       lambda: al.OptimalKernelSVR(m, method='align/corr').fit(S, Y))):
            return
        acc.states += 1
    for n in STRAT:
        want = [str(k) for k in sp.make_kernel_bucket(n)]
        for m in cases_of(n):
            acc.transitions += 1
            if [str(k) for k in sp.make_kernel_bucket(m)] != want:
                acc.violate('strategy {!r} is not {!r}'.format(m, n), '')
                return
    acc.traces += 1


def metrics(acc, part, parts):
    from kernelmethods import sampling as sp, operations as op
    from kernelmethods.base import KernelMatrix
    from kernelmethods.numeric_kernels import LinearKernel
    b = bucket()
    b.attach_to(S)
    for i, m in enumerate(spellings(('corr', 'align')) + [None, 3, len]):
        if i % parts == part and not refuse(
                acc, 'pairwise_similarity metric={!r}'.format(m),
                lambda: sp.pairwise_similarity(b, metric=m)):
            return
        acc.states += 1
    for i, m in enumerate(spellings(('cosine',)) + [None, 3, len]):
        if i % parts != part:
            continue
        km = KernelMatrix(LinearKernel(), normalized=False)
        km.attach_to(S)
        k2 = KernelMatrix(LinearKernel(), normalized=False)
        k2.attach_to(S, sample_two=S[:2])
        if not (refuse(acc, 'normalize_km method={!r}'.format(m),
                       lambda: op.normalize_km(np.eye(2), method=m)) and
                refuse(acc, 'normalize_km_2sample method={!r}'.format(m),
                       lambda: op.normalize_km_2sample(np.eye(2), np.ones(2), np.ones(2),
                                                       method=m)) and
                refuse(acc, 'KernelMatrix.normalize method={!r}'.format(m),
                       lambda: km.normalize(method=m)) and
                refuse(acc, 'two-sample normalize method={!r}'.format(m),
                       lambda: k2.normalize(method=m))):
            return
        acc.transitions += 2
        R = ref.raw_km(lambda x, y: sum(p * q for p, q in zip(x, y)), S)
        if not ref.close(km.normed_km, ref.normalized(R)) or not ref.close(km.full, R) or \
                not ref.close(k2.full, R[:, :2]) or not ref.close(
                    k2.normed_km, ref.normalized(R)[:, :2]):
            acc.violate('wrong values after a refused normalization', repr(m))
            return
        acc.states += 1
    acc.traces += 1


def targets(acc, n, kind):
    """All numbers of targets and sample weights that differ from the number of points"""
    from kernelmethods import ranking as rk, algorithms as al
    X = np.vstack([S, S + .25])[:n]
    mk = {'KM': lambda: al.KernelMachine(), 'KMR': lambda: al.KernelMachineRegressor(),
          'SVC': lambda: al.OptimalKernelSVC(bucket(), method='align/corr'),
          'SVR': lambda: al.OptimalKernelSVR(bucket(), method='align/corr')}[kind]
    good = (np.arange(n) % 2) if kind in ('KM', 'SVC') else np.arange(n) * .5
    b = bucket()
    b.attach_to(X)
    for m in range(0, 2 * n + 2):
        if m == n:
            continue
        for form in (np.asarray, list, tuple, lambda v: np.asarray(v, float)):
            y = form(np.resize(good, m))
            lab = '{} {} targets for {} points'.format(kind, m, n)
            if not refuse(acc, 'fit with ' + lab, lambda: mk().fit(X, y)):
                return
            if m and not refuse(acc, 'weights ' + lab, lambda: mk().fit(
                    X, good, sample_weight=np.ones(m))):
                return
            if kind in ('KM', 'SVC'):
                if not (refuse(acc, 'alignment_ranking ' + lab,
                               lambda: rk.alignment_ranking(b, y)) and
                        refuse(acc, 'rank_kernels ' + lab,
                               lambda: rk.rank_kernels(b, y)) and
                        refuse(acc, 'find_optimal_kernel ' + lab,
                               lambda: rk.find_optimal_kernel(bucket(), X, y,
                                                              method='align/corr'))):
                    return
                if n == 6 and form is list and not (
                        refuse(acc, 'CV_ranking ' + lab, lambda: rk.CV_ranking(b, y)) and
                        refuse(acc, 'find_optimal_kernel cv ' + lab,
                               lambda: rk.find_optimal_kernel(bucket(), X, y,
                                                              method='cv_risk'))):
                    return
        acc.states += 1
    for y in (np.tile(good.reshape(-1, 1), (1, 2)), np.array(['a', 'b'] * n)[:n].reshape(1, -1)):
        if not refuse(acc, '{} targets {}'.format(kind, y.shape), lambda: mk().fit(X, y)):
            return
    m = mk().fit(X, good)
    want = m.predict(X)
    for bad in (X[:, :1], np.hstack([X, X]), np.hstack([X, X[:, :1]]), X[0], X[:, 0], X[None],
                X[:, :, None], 'abc', 3.0, [], [[]], np.empty((0, 2)),
                np.array([['a', 'b']] * n)):
        if not refuse(acc, '{} predict {}'.format(kind, np.shape(bad)),
                      lambda: m.predict(bad)):
            return
        acc.transitions += 1
        if not ref.close(m.predict(X), want, 1e-3, 1e-3):
            acc.violate('{} predicts {} after a refused prediction, expected {}'.format(
                kind, m.predict(X), want), '')
            return
        acc.states += 1
    acc.traces += 1


def types(acc):
    from kernelmethods import ranking as rk, sampling as sp, algorithms as al
    from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelMatrix,
                                    KernelMatrixPrecomputed, KernelSet, ProductKernel,
                                    SumKernel, WeightedAverageKernel)
    from kernelmethods.numeric_kernels import GaussianKernel, LinearKernel
    from kernelmethods.config import KernelMethodsException
    things = {'str': 'rbf', 'int': 3, 'float': 1.5, 'class': LinearKernel, 'array': S,
              'numpy function': np.dot, 'lambda': lambda x, y: 1.0, 'list': [LinearKernel()],
              'matrix': KernelMatrix(LinearKernel()), 'dict': {}, 'tuple': (1, 2),
              'object': object(), 'precomputed': KernelMatrixPrecomputed(np.eye(6)),
              'estimator': al.KernelMachine(), 'bool': True}
    for lab, t in things.items():
        if not (refuse(acc, 'KernelMatrix of ' + lab, lambda: KernelMatrix(t)) and
                refuse(acc, 'KernelMachine with ' + lab,
                       lambda: al.KernelMachine(t).fit(S, Y)) and
                refuse(acc, 'KernelMachineRegressor with ' + lab,
                       lambda: al.KernelMachineRegressor(t).fit(S, Y))):
            return
        if lab not in ('str',) and not refuse(acc, 'find_optimal_kernel with ' + lab,
                                              lambda: rk.find_optimal_kernel(
                                                  t, S, Y, method='align/corr')):
            return
        for c in (SumKernel, ProductKernel, AverageKernel):
            if not refuse(acc, '{} of {}'.format(c.__name__, lab), lambda: c(t)):
                return
        if not refuse(acc, 'WeightedAverageKernel of ' + lab,
                      lambda: WeightedAverageKernel(t, [1, 2])):
            return
        if lab != 'class' and not refuse(acc, 'add_parametrized_kernels of ' + lab,
                                         lambda: bucket().add_parametrized_kernels(
                                             t, 'degree', [2])):
            return
        acc.states += 1
    for lab, t in (('None', None), ('KernelMatrix', KernelMatrix)):
        if not refuse(acc, 'KernelMatrix of ' + lab, lambda: KernelMatrix(t)):
            return
    ks = KernelSet([KernelMatrix(LinearKernel()), KernelMatrix(GaussianKernel())])
    for lab, t in (('set', ks), ('None', None)):
        if not refuse(acc, 'find_optimal_kernel with ' + lab,
                      lambda: rk.find_optimal_kernel(t, S, Y, method='align/corr')):
            return
    # composites of sets that are not attached, or too small
    one = KernelSet([KernelMatrix(LinearKernel())])
    one.attach_to(S)
    for lab, t in (('unattached', ks), ('single', one), ('unattached bucket', bucket())):
        for c in (SumKernel, ProductKernel, AverageKernel):
            if not refuse(acc, '{} of {} set'.format(c.__name__, lab), lambda: c(t)):
                return
        if not refuse(acc, 'WeightedAverageKernel of {} set'.format(lab),
                      lambda: WeightedAverageKernel(t, np.ones(len(t)))):
            return
    for flag in (1, 0, None, 'yes', 'False', 0.0, []):
        if not (refuse(acc, 'normalize_kernels={!r}'.format(flag),
                       lambda: sp.KernelBucket(normalize_kernels=flag)) and
                refuse(acc, 'skip_input_checks={!r}'.format(flag),
                       lambda: sp.KernelBucket(skip_input_checks=flag))):
            return
        if not refuse(acc, 'normalized={!r}'.format(flag),
                      lambda: KernelMatrix(LinearKernel(), normalized=flag)):
            return
    # a matrix without sample has no values
    for norm in (False, True):
        for lab, op in (('full', lambda k: k.full), ('[0, 0]', lambda k: k[0, 0]),
                        ('[:, :]', lambda k: k[:, :]), ('normed_km', lambda k: k.normed_km),
                        ('centered', lambda k: k.centered),
                        ('frob_norm', lambda k: k.frob_norm),
                        ('diagonal', lambda k: k.diagonal())):
            if not refuse(acc, 'unattached ' + lab,
                          lambda: op(KernelMatrix(LinearKernel(), normalized=norm))):
                return
    for c in (SumKernel, ProductKernel, AverageKernel):
        ks.attach_to(S)
        if not refuse(acc, c.__name__ + ' not fitted', lambda: c(ks).full):
            return
    if not refuse(acc, 'weighted average not fitted',
                  lambda: WeightedAverageKernel(ks, [1, 2]).full):
        return
    for mk in (al.KernelMachine, al.KernelMachineRegressor, al.OptimalKernelSVC,
               al.OptimalKernelSVR):
        if not refuse(acc, mk.__name__ + ' predicts without fit', lambda: mk().predict(S)):
            return
    acc.traces += 1


def shapes(acc, n, m):
    """Matrix operations on all pairs of different shapes"""
    from kernelmethods import operations as op, sampling as sp
    from kernelmethods.base import KernelMatrixPrecomputed
    r = np.random.RandomState(n * 10 + m)
    A = r.rand(n, n) + n * np.eye(n)
    for shape in ((m, m), (n, m), (m, n), (1, n), (n, 1), (m,), (n,), (n, n, 1), (n * n,), ()):
        if shape == (n, n):
            continue
        B = np.ones(shape) if shape else 2.0
        for fn in ('alignment_centered', 'frobenius_product'):
            f = getattr(op, fn)
            for a, b in ((A, B), (B, A)):
                if not refuse(acc, '{} of {} and {}'.format(fn, np.shape(a), np.shape(b)),
                              lambda: f(a, b)):
                    return
        if np.size(B) != n * n and np.size(B) > 1 and not refuse(
                acc, 'correlation of {} and {}'.format((n, n), shape),
                lambda: sp.correlation_km(A, B)):
            return
        if len(shape) == 2 and shape[0] != shape[1]:
            for lab, f in (('center_km', op.center_km), ('normalize_km', op.normalize_km),
                           ('KernelMatrixPrecomputed', KernelMatrixPrecomputed)):
                if not refuse(acc, '{} of {}'.format(lab, shape), lambda: f(B)):
                    return
            for a, b in ((shape[1], shape[0]), (shape[0], shape[0]), (shape[1], shape[1]),
                         (1, shape[1]), (shape[0], 1), (shape[0] + 1, shape[1])):
                if (a, b) != shape and not refuse(
                        acc, 'normalize_km_2sample {} with {} {}'.format(shape, a, b),
                        lambda: op.normalize_km_2sample(B, np.ones(a), np.ones(b))):
                    return
        acc.states += 1
    acc.traces += 1


def weights(acc, n):
    """All numbers of weights that differ from the number of kernels"""
    from kernelmethods import operations as op
    from kernelmethods.base import (KernelMatrix, KernelSet, SumKernel,
                                    WeightedAverageKernel)
    from kernelmethods.numeric_kernels import GaussianKernel
    ks = KernelSet([KernelMatrix(GaussianKernel(sigma=1 + i)) for i in range(n)])
    ks.attach_to(S)
    want = sum(km.full for km in ks)
    c = SumKernel(ks)
    c.fit()
    for m in range(0, 2 * n + 2):
        if m == n:
            continue
        for form in (list, tuple, np.array, lambda v: np.array(v, int)):
            w = form([1.0] * m)
            if not (refuse(acc, 'WeightedAverageKernel {} for {}'.format(m, n),
                           lambda: WeightedAverageKernel(ks, w)) and
                    refuse(acc, 'SumKernel {} for {}'.format(m, n), lambda: c.fit(w)) and
                    refuse(acc, 'linear_combination {} for {}'.format(m, n),
                           lambda: op.linear_combination(ks, w))):
                return
            acc.transitions += 1
            if not ref.close(c.full, want):
                acc.violate('a refused fit changed the sum kernel', '{} for {}'.format(m, n))
                return
        acc.states += 1
    for w in ('ab', 2.0, [['1'] * n], [['a'] * n], ['a'] * n, np.ones((n, n)), np.ones((1, n))):
        if not (refuse(acc, 'WeightedAverageKernel {!r}'.format(w),
                       lambda: WeightedAverageKernel(ks, w)) and
                refuse(acc, 'SumKernel {!r}'.format(w), lambda: c.fit(w)) and
                refuse(acc, 'linear_combination {!r}'.format(w),
                       lambda: op.linear_combination(ks, w))):
            return
    acc.traces += 1


def vectors(acc, name, n):
    """All pairs of vectors whose lengths differ, and other shapes"""
    import kernelmethods.numeric_kernels as nk
    k = {'lin': lambda: nk.LinearKernel(), 'poly': lambda: nk.PolyKernel(),
         'rbf': lambda: nk.GaussianKernel(), 'lap': lambda: nk.LaplacianKernel(),
         'sig': lambda: nk.SigmoidKernel(), 'chi': lambda: nk.Chi2Kernel(),
         'had': lambda: nk.HadamardKernel()}[name]()
    good = [1.0 + .5 * i for i in range(n)]
    before = k(good, good)
    forms = (list, tuple, np.array, lambda v: np.array(v, int), lambda v: np.array(v, 'f4'),
             lambda v: np.array(v).reshape(-1, 1))
    for m in range(0, 2 * n + 2):
        if m != n:
            other = [1.0] * m
            for f, g in itertools.product(forms, repeat=2):
                for a, b in ((f(good), g(other)), (g(other), f(good))):
                    if not refuse(acc, '{} of lengths {} {}'.format(name, len(a), len(b)),
                                  lambda: k(a, b)):
                        return
        acc.states += 1
    # a single column is accepted as a vector
    bad = [[good * 2, good * 2], np.ones((n, 2)), np.ones((2, n + 1)), np.ones((n, 1, 2)), 'a' * n, 3.0,
           ['a'] * n, [None, 'x'] * n, [object()] * n, [[1], [1, 2]], {}, None,
           np.array(['x'] * n)]
    for b in bad:
        for x, y in ((b, good), (good, b), (b, b)):
            if not refuse(acc, '{} of {!r:.60} {!r:.60}'.format(name, x, y), lambda: k(x, y)):
                return
    acc.transitions += 1
    if not ref.close(k(good, good), before):
        acc.violate('a refused evaluation changed the kernel', name)
    acc.traces += 1


def samples(acc, kind):
    """Kernel matrices and sets refuse what is not a sample"""
    import kernelmethods.numeric_kernels as nk
    from kernelmethods.base import KernelMatrix, KernelSet
    base = S[:3]
    bad1 = {'1d': S[0], 'scalar': np.float64(3), '3d': np.ones((2, 2, 2)), 'none': None,
            'str': 'abc', 'int': 7}
    bad2 = {'fewer': S[:, :1], 'more': np.hstack([S, S]), '1d': S[0], '3d': np.ones((2, 2, 2))}
    for lab, b in list(bad1.items()):
        for name, mk in (('matrix', lambda: KernelMatrix(nk.LinearKernel(),
                                                        normalized=False)),
                         ('set', lambda: KernelSet([KernelMatrix(nk.LinearKernel()),
                                                    KernelMatrix(nk.GaussianKernel())])),
                         ('bucket', bucket)):
            for attached in (False, True):
                o = mk()
                if attached:
                    o.attach_to(base)
                if not refuse(acc, '{} attached to {}'.format(name, lab),
                              lambda: o.attach_to(b)):
                    return
                if attached and name == 'matrix':
                    acc.transitions += 1
                    if not ref.close(o.full, base @ base.T):
                        acc.violate('a refused sample changed the matrix', lab)
                        return
    for lab, b in bad2.items():
        for x, y in ((base, b), (b, base)) if lab != '1d' else ((base, b),):
            o = KernelMatrix(nk.LinearKernel(), normalized=False)
            o.attach_to(base)
            if not refuse(acc, 'two samples, one with {}'.format(lab),
                          lambda: o.attach_to(x, sample_two=y)):
                return
            acc.transitions += 1
            if not ref.close(o.full, base @ base.T):
                acc.violate('a refused sample changed the matrix', lab)
                return
            acc.states += 1
    acc.traces += 1


def others(acc):
    """Refusals of the containers and the remaining kernels"""
    import kernelmethods.numeric_kernels as nk
    from kernelmethods import operations as op
    from kernelmethods.base import (ConstantKernelMatrix, KernelFromCallable, KernelMatrix,
                                    KernelMatrixPrecomputed, KernelSet)
    from kernelmethods.categorical import MatchCountKernel
    lin = nk.LinearKernel
    for a in (0, 0.0, -0.0, 1e-12):
        if not refuse(acc, 'HadamardKernel({})'.format(a), lambda: nk.HadamardKernel(a)):
            return
    for n in range(1, 7):
        for i in range(n):
            x = np.ones(n)
            x[i] = -.5
            for skip in (False, True):
                k = nk.Chi2Kernel(skip_input_checks=skip)
                for p, q in ((x, np.ones(n)), (np.ones(n), x), (x, x)):
                    if not refuse(acc, 'Chi2 of {} {}'.format(p, q), lambda: k(p, q)):
                        return
    for n, m in itertools.product(range(1, 5), repeat=2):
        if n != m:
            for perc in (False, True):
                if not refuse(acc, 'match count of lengths {} {}'.format(n, m),
                              lambda: MatchCountKernel(perc)(np.array(['a'] * n),
                                                             np.array(['a'] * m))):
                    return
    # sets: members, indices
    def fresh(size):
        s = KernelSet([KernelMatrix(nk.PolyKernel(d + 1), normalized=False)
                       for d in range(size)])
        s.attach_to(S)
        return s
    for size in (1, 2, 3):
        ks = fresh(size)
        before = list(ks)
        other = KernelMatrix(lin())
        other.attach_to(S[:5])
        two = KernelMatrix(lin())
        two.attach_to(S, sample_two=S[:2])
        strange = KernelSet([KernelMatrix(lin())])
        strange.attach_to(S[:4])
        acts = [('append {}'.format(l), lambda t=t: ks.append(t)) for l, t in (
            ('5 points', other), ('unattached', KernelMatrix(lin())), ('two samples', two),
            ('5x5 array', np.eye(5)), ('asymmetric', np.arange(36.).reshape(6, 6)),
            ('1-D', np.ones(6)), ('6x5', np.ones((6, 5))), ('string', 'abc'), ('None', None),
            ('precomputed', KernelMatrixPrecomputed(np.eye(7))), ('kernel', lin()))]
        acts += [('extend {}'.format(l), lambda t=t: ks.extend(t)) for l, t in (
            ('4 points', strange), ('list', [KernelMatrix(lin())]), ('None', None),
            ('matrix', before[0]), ('unattached set', KernelSet([KernelMatrix(lin())])))]
        acts += [('[{!r}]'.format(i), lambda i=i: ks[i]) for i in (
            -1, size, size + 1, 10 ** 6, -10 ** 6, 0.0, 0.5, '0', None, 'a', np.int64(size),
            np.float64(0))]
        acts += [('take({!r})'.format(i), lambda i=i: ks.take(i)) for i in (
            [-1], [size], [0, size], [0, -1], ['a'], None, -1, size)]
        acts += [('get_kernel_funcs({!r})'.format(i), lambda i=i: ks.get_kernel_funcs(i))
                 for i in ([-1], [size], [0, size], [0, -1], ['a'], None, -1, size)]
        acts += [('set_attr of {} values'.format(m), lambda m=m: ks.set_attr('a', [0] * m))
                 for m in range(0, 2 * size + 2) if m not in (1, size)]
        acts += [('attach to {} points'.format(len(t)), lambda t=t: ks.attach_to(t))
                 for t in (S[:5], S[:1], np.vstack([S, S]))]
        for lab, f in acts:
            if not refuse(acc, lab, f):
                return
            acc.transitions += 1
            if len(ks) != size or any(a is not b for a, b in zip(ks, before)) or \
                    ks.num_samples != 6 or ks.get_attr('a') != [None] * size or \
                    not all(ref.close(km.full, (1 + S @ S.T) ** (d + 1))
                            for d, km in enumerate(ks)):
                acc.violate('the set changed: {}'.format(ks), lab)
                return
            acc.states += 1
    for t in ('abc', 3, 2.5, object(), lin()):
        if not refuse(acc, 'KernelSet({!r})'.format(t), lambda: KernelSet(t)):
            return
    # precomputed and constant matrices
    for M in (np.ones((2, 3)), np.ones(3), np.ones((2, 2, 2)), np.array([[1, 2], [3, 4.]]),
              np.array([[1, 1j], [1j, 1]]), [[1, 2], [3]], 5.0,
              np.array([[1, .5, .1], [.5, 1, .2], [.1, .3, 1]])):
        if not refuse(acc, 'precomputed {!r}'.format(M), lambda: KernelMatrixPrecomputed(M)):
            return
    for n in (1, 2, 4):
        c = ConstantKernelMatrix(n, value=2.0)
        for i in ((n, 0), (0, n), (-1, 0), (0, -1), 'ab', None, (0,), (0, 0, 0), ('a', 0),
                  (None, 0), ([], 0), (slice(n, None), 0), ([0, n], 0), 0):
            if not refuse(acc, 'constant[{!r}]'.format(i), lambda: c[i]):
                return
    # two-sample matrices have no centered form and no diagonal
    for norm in (False, True):
        for m in (2, 6):
            km = KernelMatrix(lin(), normalized=norm)
            km.attach_to(S, sample_two=S[:m] * 2)
            for lab, f in (('centered', lambda: km.centered), ('center', km.center),
                           ('diagonal', km.diagonal)):
                if not refuse(acc, 'two-sample ' + lab, f):
                    return
    for t in (None, 3, 'f', [], lambda: 1, lambda x: 1):
        if not refuse(acc, 'KernelFromCallable({!r})'.format(t), lambda: KernelFromCallable(t)):
            return
    for v in (3, 'abc', [], (), 2.5, np.array([])):
        b = bucket()
        if not refuse(acc, 'add_parametrized_kernels values {!r}'.format(v),
                      lambda: b.add_parametrized_kernels(nk.PolyKernel, 'degree', v)):
            return
        acc.transitions += 1
        if len(b) != 3:
            acc.violate('the bucket changed', repr(v))
            return
    ks = fresh(2)
    for w in ([1, -1], [0, 0], [0.0, 0.0], [2.5, -2.5]):
        if not refuse(acc, 'weights {} cannot be normalized'.format(w),
                      lambda: op.linear_combination(ks, w, norm_weights=True)):
            return
    for M in (np.zeros((2, 2)), np.diag([1., 0]), np.diag([0., 1, 1])):
        if not refuse(acc, 'normalize {}'.format(M.tolist()), lambda: op.normalize_km(M)):
            return
        if not (refuse(acc, 'normalize two-sample', lambda: op.normalize_km_2sample(
                M, np.diag(M), np.ones(len(M)))) and
                refuse(acc, 'normalize two-sample', lambda: op.normalize_km_2sample(
                    M, np.ones(len(M)), np.diag(M)))):
            return
    for M in ([[1, 2], [2, 1]], 'a', None, 3.0):
        if not refuse(acc, 'PSD of {!r}'.format(M), lambda: op.is_positive_semidefinite(M)):
            return
    acc.traces += 1


def run(ctx):
    P = 4
    for f in (methods, learners, strategies, metrics):
        ctx.explore(f, [(p, P) for p in range(P)])
    ctx.explore(targets, [(n, k) for n in ctx.pick((4, 6, 7), (4, 5, 6, 7, 9, 12))
                          for k in ('KM', 'KMR', 'SVC', 'SVR')])
    ctx.explore(types, [()], parallel=False)
    ctx.explore(others, [()], parallel=False)
    ctx.explore(shapes, [(n, m) for n in range(2, ctx.pick(7, 12))
                         for m in range(2, ctx.pick(7, 12)) if n != m])
    ctx.explore(weights, list(range(2, ctx.pick(7, 12))))
    ctx.explore(vectors, [(k, n) for k in ('lin', 'poly', 'rbf', 'lap', 'sig', 'chi', 'had')
                          for n in range(1, ctx.pick(6, 10))])
    ctx.explore(samples, [0], parallel=False)
    ctx.bounds.update(names='every name with one character removed, replaced, doubled or '
                            'added', lengths='every length up to twice the right one')
