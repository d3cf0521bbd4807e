"""C28: failed fits and predictions leave no wrong results behind.

Crash points are enumerated: every kernel evaluation of an operation in turn fails (with
an error, out of memory, or interrupted as by Ctrl-C)."""
import itertools

import numpy as np

from mc import ref
from mc.props import c18
from mc.svmref import Ref, gram

_ARM = {'left': None, 'exc': ValueError, 'fired': False}


class Interrupt(KeyboardInterrupt):
    pass


def lin1(x, y):
    """test kernel whose evaluations can be made to fail"""
    _tick()
    return 1.5 + float(np.dot(x, y))


def sq(x, y):
    _tick()
    return (1.0 + float(np.dot(x, y))) ** 2


def rbf(x, y):
    _tick()
    return float(np.exp(-0.5 * np.sum((np.asarray(x) - np.asarray(y)) ** 2)))


def _tick():
    if _ARM['left'] is not None:
        if _ARM['left'] == 0:
            _ARM['left'] = None
            _ARM['fired'] = True
            raise _ARM['exc']('injected')
        _ARM['left'] -= 1


REF = {'lin1': lambda a, b: 1.5 + sum(p * q for p, q in zip(a, b)),
       'sq': lambda a, b: (1.0 + sum(p * q for p, q in zip(a, b))) ** 2,
       'rbf': lambda a, b: float(np.exp(-0.5 * sum((p - q) ** 2 for p, q in zip(a, b))))}
FUN = {'lin1': lin1, 'sq': sq, 'rbf': rbf}


def kernel(name):
    from kernelmethods.base import KernelFromCallable
    return KernelFromCallable(FUN[name], name=name)


def crash(fn, point):
    """run fn with the k-th kernel evaluation failing, point = ('eval', k, exception).
    Returns (reached, result, exception)"""
    _ARM.update(left=point[1], exc=point[2], fired=False)
    try:
        r, e = fn(), None
    except BaseException as ex:
        r, e = None, ex
    hit = _ARM['fired']
    _ARM.update(left=None, fired=False)
    return hit, r, e


def points(kind):
    """crash points one after the other; the caller stops when one is not reached"""
    return (('eval', k, kind) for k in itertools.count())


# ------------------------------------------------------------------------- composites
XA = np.array([[0.5, 1.0], [2.0, -0.5], [1.0, 1.5]])
XB = np.array([[1.5, 0.2], [-0.3, 1.1], [0.7, 0.9]])
PRE = np.array([[2.0, 0.5, 1.0], [0.5, 3.0, -1.0], [1.0, -1.0, 4.0]])
W = [0.5, 2.0, -1.0]


def members(norm):
    from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed, KernelSet
    kms = [KernelMatrix(kernel('lin1'), normalized=norm), KernelMatrix(kernel('sq'),
                                                                     normalized=False)]
    for k in kms:
        k.attach_to(XA)
    return kms, KernelSet(kms + [KernelMatrixPrecomputed(PRE)])


def values(X, norm):
    return [gram(REF['lin1'], X, None, norm), gram(REF['sq'], X), PRE]


def combine(kind, vs):
    if kind == 'prod':
        return vs[0] * vs[1] * vs[2]
    w = {'sum': [1, 1, 1], 'wsum': W, 'avg': [1 / 3] * 3, 'wavg': W}[kind]
    return sum(a * v for a, v in zip(w, vs))


def composite(kind, ks):
    from kernelmethods import base as B
    return {'sum': lambda: B.SumKernel(ks), 'wsum': lambda: B.SumKernel(ks),
            'prod': lambda: B.ProductKernel(ks), 'avg': lambda: B.AverageKernel(ks),
            'wavg': lambda: B.WeightedAverageKernel(ks, W)}[kind]()


def fit(kind, c):
    return c.fit(kernel_weights=W) if kind == 'wsum' else c.fit()


def composites(acc, kind, norm, fitted, again, how):
    """[fit on A]; attach the members to B; fit, crashing; read; fit; read"""
    vA, vB = (combine(kind, values(X, norm)) for X in (XA, XB))
    for point in points(how):
        kms, ks = members(norm)
        c = composite(kind, ks)
        if fitted:
            fit(kind, c)
        new = vA
        if again:
            for k in kms:
                k.attach_to(XB)
            new = vB
        hit, _, exc = crash(lambda: fit(kind, c), point)
        acc.transitions += 1
        acc.states += 1
        what = '{} normalized={} {}fit crashed at {}'.format(
            kind, norm, 're' if fitted else '', point)
        if not hit:
            break
        if exc is None:
            acc.violate('the failure was not reported', what)
            return
        ok = [new] + ([vA] if fitted else [])
        for name in ('full', 'composite_KM'):
            try:
                got = getattr(c, name)
            except Exception:
                continue                        # refused
            if not any(ref.close(got, v) for v in ok):
                acc.violate('after the failed fit, {} is\n{}\nexpected to be refused or '
                            '\n{}'.format(name, got, ok[-1]), what)
                return
        for k, v in zip(kms, values(XB if again else XA, norm)):
            if not ref.close(k.full, v):
                acc.violate('a member is\n{}\nexpected\n{}'.format(k.full, v), what)
                return
        fit(kind, c)
        acc.transitions += 3
        if not ref.close(c.full, new):
            acc.violate('a complete fit afterwards gives\n{}\nexpected\n{}'.format(c.full, new),
                        what)
            return
        acc.traces += 1
        acc.out(str(point[:2]) + kind)
    acc.note('crash_points', point[1])
    acc.sample(what)


# ------------------------------------------------------------------------- estimators
TR = {'A': (c18.X6[:5], [0, 1, 1, 0, 1], [0.5, 2.0, -1.0, 1.5, 0.0]),
      'B': (c18.X6[:5, ::-1] * 1.1 + 0.4, [1, 1, 0, 0, 1], [3.0, -0.5, 0.6, 1.0, 2.0])}
TEST = c18.TEST


def data(kind, d):
    X, c, r = TR[d]
    return X, np.array(r, float) if kind in ('KMR', 'SVR') else np.array(c)


def estimator(kind, kname, norm):
    from kernelmethods import algorithms as A
    from kernelmethods.base import KernelMatrix
    from kernelmethods.sampling import KernelBucket
    if kind in ('KM', 'KMR'):
        c = A.KernelMachineRegressor if kind == 'KMR' else A.KernelMachine
        return c(k_func=kernel(kname), normalized=norm)
    b = KernelBucket(None, None, None, None, None, normalize_kernels=norm)
    for q in ('sq', 'rbf'):
        b.append(KernelMatrix(kernel(q), normalized=norm))
    c = A.OptimalKernelSVR if kind == 'SVR' else A.OptimalKernelSVC
    return c(k_bucket=b, method='align/corr', C=10)


MENU = ['linear', 'sq', 'rbf']


def references(kind, kname, norm, d):
    """the admissible SVMs after fitting on d"""
    X, y = data(kind, d)
    svr = 'SVR' if kind in ('KMR', 'SVR') else 'SVC'
    if kind in ('KM', 'KMR'):
        return [Ref(REF[kname], norm, svr, X, y, C=10)]
    from mc import rankref
    fs = [ref.linear(), REF['sq'], REF['rbf']]
    sc = np.array([rankref.align(gram(f, X, None, norm), y) for f in fs])
    return [Ref(f, norm, svr, X, y, C=10) for f, s in zip(fs, sc) if s > sc.max() - 1e-9]


def agrees(got, refs):
    got = np.asarray(got)
    for R in refs:
        want, clear = R.predict(TEST)
        if got.shape != want.shape:
            continue
        if R.svr:
            if np.allclose(got, want, atol=5e-3 * max(1.0, np.abs(want).max())):
                return True
        elif not (clear & (got != want)).any():
            return True
    return False


def refit(acc, kind, kname, norm, first, how):
    """[fit A]; fit B, crashing; predict; fit B; predict"""
    RA = references(kind, kname, norm, 'A')
    RB = references(kind, kname, norm, 'B')
    est0 = estimator(kind, kname, norm)
    if first:
        est0.fit(*data(kind, 'A'))
    import copy
    point = None
    for point in points(how):
        est = copy.deepcopy(est0)
        hit, _, exc = crash(lambda: est.fit(*data(kind, 'B')), point)
        acc.transitions += 1
        acc.states += 1
        what = '{} {} normalized={} {}fit crashed at {}'.format(
            kind, kname, norm, 're' if first else '', point)
        if not hit:
            break
        if exc is None:
            acc.violate('the failure was not reported', what)
            return
        bad = after(acc, est, RB + (RA if first else []), RB, kind)
        if bad:
            acc.violate(bad, what)
            return
        acc.traces += 1
    acc.note('crash_points', point[1])
    acc.sample(what)


def after(acc, est, ok, RB, kind):
    try:
        got = est.predict(TEST)
    except Exception:
        got = None
    acc.transitions += 1
    if got is not None and not agrees(got, ok):
        return 'after the failed fit it predicts {} (expected: refused, or the ' \
               'predictions of a complete fit)'.format(np.asarray(got).tolist())
    est.fit(*data(kind, 'B'))
    acc.transitions += 2
    got = est.predict(TEST)
    if not agrees(got, RB):
        return 'a complete fit afterwards predicts {}'.format(np.asarray(got).tolist())


def rejected(acc, kind, kname, norm):
    """refits that scikit-learn refuses: one class, wrong lengths, NaN"""
    RA = references(kind, kname, norm, 'A')
    RB = references(kind, kname, norm, 'B')
    XB_, yB = data(kind, 'B')
    nan = XB_.copy()
    nan[1, 1] = np.nan
    reg = kind in ('KMR', 'SVR')
    cases = {'lengths': (XB_, yB[:-1], None), 'nan': (nan, yB, None),
             'empty': (XB_[:0], yB[:0], None), 'one-dimensional': (XB_[:, 0], yB, None),
             'weights': (XB_, yB, np.ones(3)), 'negative weights': (XB_, yB, -np.ones(5))}
    if not reg:
        cases['one class'] = (XB_, np.zeros(5, int), None)
    for name, (X, y, w) in cases.items():
        for first in (True, False):
            est = estimator(kind, kname, norm)
            if first:
                est.fit(*data(kind, 'A'))
            what = '{} {} normalized={} {}fit with {}'.format(kind, kname, norm,
                                                             're' if first else '', name)
            acc.states += 1
            try:
                est.fit(X, y) if w is None else est.fit(X, y, sample_weight=w)
            except Exception:
                pass
            else:
                if name in ('lengths', 'nan', 'empty', 'one-dimensional'):
                    acc.violate('was accepted', what)
                    return
                continue
            bad = after(acc, est, RA if first else [], RB, kind)
            if bad:
                acc.violate(bad, what)
                return
            acc.traces += 1
            acc.out(what)


def predicting(acc, kind, kname, norm, how):
    """fit; predict, crashing; predict"""
    RA = references(kind, kname, norm, 'A')
    import copy
    est0 = estimator(kind, kname, norm).fit(*data(kind, 'A'))
    for point in points(how):
        est = copy.deepcopy(est0)
        hit, res, exc = crash(lambda: est.predict(TEST[:4] + 0.3), point)
        acc.transitions += 1
        acc.states += 1
        what = '{} {} normalized={} predict crashed at {}'.format(kind, kname, norm, point)
        if not hit:
            break
        if exc is None:
            acc.violate('the failure was not reported', what)
            return
        got = est.predict(TEST)
        acc.transitions += 1
        if not agrees(got, RA):
            acc.violate('predicts {} afterwards'.format(np.asarray(got).tolist()), what)
            return
        acc.traces += 1
    acc.note('crash_points', point[1])


# ------------------------------------------------------------------- ranking, similarity
def ranking(acc, what_, norm, how):
    """operations on a bucket, crashing; its members; the same operation again"""
    from kernelmethods import ranking as rk, sampling as sp
    from kernelmethods.base import KernelMatrix
    from mc import rankref
    X, y = TR['A'][0], np.array(TR['A'][1])
    fs = [ref.linear(), REF['sq'], REF['rbf']]
    Ks = [gram(f, X, None, norm) for f in fs]
    sc = np.array([rankref.align(K, y) for K in Ks])
    sim = np.array([[ref.alignment(a, b) for b in Ks] for a in Ks])
    if what_ in ('cv', 'cvr', 'findcv'):
        sc = rankref.rescaled([rankref.cv(K, y, 'SVR' if what_ == 'cvr' else 'SVM', 2)
                               for K in Ks])
    cor = np.array([[np.corrcoef(a.ravel(), b.ravel())[0, 1] for b in Ks] for a in Ks])

    def mk():
        b = sp.KernelBucket(None, None, None, None, None, normalize_kernels=norm)
        for q in ('sq', 'rbf'):
            b.append(KernelMatrix(kernel(q), normalized=norm))
        b.attach_to(X)
        return b
    run = {'align': lambda b: rk.alignment_ranking(b, y),
           'rank': lambda b: rk.rank_kernels(b, y, method='align/corr'),
           'cv': lambda b: rk.rank_kernels(b, y, method='cv_risk', num_folds=2),
           'cvr': lambda b: rk.CV_ranking(b, y, num_folds=2, estimator_name='SVR'),
           'findcv': lambda b: rk.find_optimal_kernel(b, X, y, method='cv_risk', num_folds=2),
           'find': lambda b: rk.find_optimal_kernel(b, X, y, method='align/corr'),
           'sim': lambda b: sp.pairwise_similarity(b, metric='align'),
           'corr': lambda b: sp.pairwise_similarity(b, metric='corr')}[what_]

    def right(r, b):
        if what_[:4] == 'find':
            i = [k for k, km in enumerate(b) if km is r]
            return len(i) == 1 and sc[i[0]] > sc.max() - 1e-9
        return ref.close(r, {'sim': sim, 'corr': cor}.get(what_, sc), 1e-6, 1e-7)
    for point in points(how):
        b = mk()
        hit, r, exc = crash(lambda: run(b), point)
        acc.transitions += 1
        acc.states += 1
        what = '{} normalized={} crashed at {}'.format(what_, norm, point)
        if not hit:
            if not right(r, b):
                acc.violate('returned {}'.format(r), what_)
            break
        if exc is None:
            acc.violate('the failure was not reported', what)
            return
        if what_[:4] != 'find':
            for km, K in zip(b, Ks):
                acc.transitions += 1
                if not ref.close(km.full, K):
                    acc.violate('a member is\n{}\nexpected\n{}'.format(km.full, K), what)
                    return
        r = run(b)
        if not right(r, b) or len(b) != 3:
            acc.violate('returned {} when run again'.format(r), what)
            return
        acc.traces += 1
    acc.note('crash_points', point[1])


def run(ctx):
    hows = (ValueError, MemoryError, Interrupt)
    ctx.explore(composites, [(k, nm, f, a, h) for k in ('sum', 'wsum', 'prod', 'avg', 'wavg')
                             for nm in (False, True) for f in (False, True)
                             for a in (False, True) for h in hows])
    es = [(k, 'lin1' if k in ('KM', 'KMR') else '-', nm) for k in ('KM', 'KMR', 'SVC', 'SVR')
          for nm in (False, True)] + [('KM', 'rbf', False), ('KMR', 'sq', True)]
    ctx.explore(refit, [e + (f, h) for h in hows[::-1] for e in es
                        for f in (False, True)])
    ctx.explore(predicting, [e + (h,) for e in es for h in hows])
    ctx.explore(rejected, es)
    ctx.explore(ranking, [(w, nm, h) for w in ('align', 'rank', 'find', 'sim', 'corr', 'cv', 'cvr',
                                                   'findcv')
                          for nm in (False, True) for h in hows])
    ctx.bounds.update(crash_points='every kernel evaluation, one per operation')
