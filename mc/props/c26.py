"""C26: concurrent predictions of fitted estimators, under every schedule within bounds."""
import time

import numpy as np

from mc import core, ref, sched
from mc.props import c18
from mc.svmref import Ref, compare

X = np.array([[0.2, 1.1], [1.4, 0.3], [2.2, 1.9]])
CLS = np.array([0, 1, 0])
REG = np.array([0.3, 1.7, -0.4])
T = {'a': np.array([[0.1, 1.3]]), 'b': np.array([[2.5, 0.4], [1.0, 1.0]]),
     'c': np.array([[1.3, 0.2]]), 't': X}
# the bucket members rank differently on these six points
X6, C6 = c18.X6[:6], np.array([0, 1, 1, 0, 1, 0])


def affine(x, y, c=1.0):
    return c + float(np.dot(x, y))


def kernel(kind):
    from kernelmethods import numeric_kernels as nk
    if kind == 'call':
        from kernelmethods.base import KernelFromCallable
        return KernelFromCallable(affine, c=0.5), \
            lambda a, b: 0.5 + sum(p * q for p, q in zip(a, b))
    if kind in ('sig', 'chi2', 'had'):
        return {'sig': (nk.SigmoidKernel(0.3, 0.2, skip_input_checks=True),
                        ref.sigmoid(0.3, 0.2)),
                'chi2': (nk.Chi2Kernel(0.6, skip_input_checks=True), ref.chi2(0.6)),
                'had': (nk.HadamardKernel(2, skip_input_checks=True), ref.hadamard(2))}[kind]
    return {'lin': (nk.LinearKernel(skip_input_checks=True), ref.linear()),
            'rbf': (nk.GaussianKernel(0.7, skip_input_checks=True), ref.gaussian(0.7)),
            'poly': (nk.PolyKernel(2, skip_input_checks=True), ref.poly(2)),
            'lap': (nk.LaplacianKernel(0.5, skip_input_checks=True),
                    ref.laplacian(0.5))}[kind]


class Once(Ref):
    """remembers its predictions"""

    def predict(self, t):
        self.__dict__.setdefault('memo', {})
        if id(t) not in self.memo:
            self.memo[id(t)] = Ref.predict(self, t)
        return self.memo[id(t)]


_REFS = {}


def once(key, *args, **kw):
    if key not in _REFS:
        _REFS[key] = Once(*args, **kw)
    return _REFS[key]


def build(kind, kname, norm, share=None):
    """a fitted estimator and the explicit-matrix SVM it must agree with"""
    from kernelmethods import algorithms as A
    from kernelmethods.sampling import KernelBucket
    if kind in ('KM', 'KMR'):
        k, r = kernel(kname)
        k = share or k
        y = REG if kind == 'KMR' else CLS
        e = (A.KernelMachineRegressor if kind == 'KMR' else A.KernelMachine)(
            k_func=k, normalized=norm).fit(X, y)
        return e, once((kind, kname, norm), r, norm, 'SVR' if kind == 'KMR' else 'SVC', X, y,
                       C=10)
    b = share or KernelBucket([2], [0.5], None, None, None, normalize_kernels=norm,
                              skip_input_checks=True)
    y = REG if kind == 'SVR' else CLS
    e = (A.OptimalKernelSVR if kind == 'SVR' else A.OptimalKernelSVC)(
        k_bucket=b, method='align/corr').fit(X, y)
    menu = [('linear', {}), ('poly', {'degree': 2}), ('rbf', {'sigma': 0.5})]
    i = c18.which(e.opt_kernel_.kernel, menu)
    if i is None:
        raise RuntimeError('kernel not in bucket')
    r = c18.REF[menu[i][0]](**menu[i][1])
    return e, once((kind, i, norm), r, norm, kind, X, y, C=1.0)


def judge_with(refs, plan):
    def judge(results):
        for t, (st, res) in enumerate(results):
            if st != 'ok':
                return 'thread {} raised {}: {}'.format(t, type(res).__name__, res)
            for name, got in zip(plan[t], res):
                bad, _ = compare(got, refs[t], T[name], 2e-3)
                if bad:
                    return 'thread {} predicting {}: {}'.format(t, name, bad)
    return judge


def same(acc, kind, kname, norm, plan, bound, opcodes, own=False):
    """threads predicting with one fitted estimator"""
    est, R = build(kind, kname, norm)

    def make():
        def body(p):
            return lambda: [est.predict(T[q]) for q in p]
        return [body(p) for p in plan], audit

    def audit():
        bad, _ = compare(est.predict(T['b']), R, T['b'], 2e-3)
        return bad and 'afterwards: ' + bad
    label = '{} {} normalized={} predicting {} bound={}{}'.format(
        kind, kname, norm, plan, bound, (' opcode' if opcodes else '') +
        (' (preempted in algorithms.py only)' if own else ''))
    sched.explore(acc, make, judge_with([R] * len(plan), plan), bound, opcodes, label,
                  min(core.deadline(), time.time() + core.task_seconds()),
                  sched.PKG + 'algorithms' if own else sched.PKG)
    acc.sample(label)


def shared(acc, kinds, kname, plan, bound):
    """threads with an estimator each, built on the same kernel function or bucket"""
    from kernelmethods.sampling import KernelBucket
    share = kernel(kname)[0] if kinds[0] in ('KM', 'KMR') else KernelBucket(
        [2], [0.5], None, None, None, normalize_kernels=False, skip_input_checks=True)
    es = [build(k, kname, False, share) for k in kinds]

    def make():
        def body(i):
            return lambda: [es[i][0].predict(T[q]) for q in plan[i]]
        return [body(i) for i in range(len(plan))], audit

    def audit():
        for e, R in es:
            bad, _ = compare(e.predict(T['b']), R, T['b'], 2e-3)
            if bad:
                return 'afterwards: ' + bad
    sched.explore(acc, make, judge_with([R for _, R in es], plan), bound, False,
                  'shared {} {} {}'.format(kinds, kname, plan),
                  min(core.deadline(), time.time() + core.task_seconds()))


def fitting(acc, kinds, bound):
    """one estimator is fitted while another, with the same kernel or bucket, predicts"""
    from kernelmethods.sampling import KernelBucket
    km = kinds[0] in ('KM', 'KMR')
    share = kernel('rbf')[0] if km else KernelBucket(
        [2], [0.5], None, None, None, normalize_kernels=False, skip_input_checks=True)
    e0, R0 = build(kinds[0], 'rbf', False, share)
    done = []

    def make():
        done[:] = []

        def fit():
            e, R = build(kinds[1], 'rbf', False, share)
            done[:] = [(e, R)]
            return [e.predict(T['b'])]
        return [lambda: [e0.predict(T['a'])], fit], audit

    def judge(results):
        for t, (st, res) in enumerate(results):
            if st != 'ok':
                return 'thread {} raised {}: {}'.format(t, type(res).__name__, res)
        for got, R, q in ((results[0][1][0], R0, 'a'), (results[1][1][0], done[0][1], 'b')):
            bad, _ = compare(got, R, T[q], 2e-3)
            if bad:
                return bad

    def audit():
        bad, _ = compare(e0.predict(T['b']), R0, T['b'], 2e-3)
        return bad and 'afterwards: ' + bad
    sched.explore(acc, make, judge, bound, False, 'fit {1} while {0} predicts'.format(*kinds),
                  min(core.deadline(), time.time() + core.task_seconds()))


def run(ctx):
    t = []
    pairs = ((('a',), ('b',)), (('a',), ('c',)), (('b',), ('t',)))
    for kind in ('KM', 'KMR', 'SVC', 'SVR'):
        for norm in (False, True):
            for plan in pairs[:1] if norm and not ctx.thorough else pairs:
                t.append((kind, 'rbf', norm, plan, 1, False))
        t.append((kind, 'lin', False, (('a',), ('c',)), 1, True))
        if kind in ('KM', 'SVR') or ctx.thorough:
            t.append((kind, 'poly', ctx.thorough, (('a', 'c'), ('c', 'a')), 1, False))
            t.append((kind, 'rbf', False, (('a',), ('b',), ('c',)), 2, False, True))
        else:
            t.append((kind, 'lap', False, (('a',), ('b',), ('c',)), 1, False))
        for norm in (False, True):
            if not norm or ctx.thorough:
                t.append((kind, 'rbf', norm, (('a',), ('c',)), 3, False, True))
            t.append((kind, 'rbf', norm, (('a',), ('b',)), ctx.pick(1, 2), True, True))
        if ctx.thorough:
            for norm in (False, True):
                for plan in pairs:
                    t.append((kind, 'rbf', norm, plan, 1, True))
                    t.append((kind, 'lap', norm, plan, 2, False))
    ctx.explore(same, sorted(t, key=lambda a: (-a[4], not a[5])))
    ctx.explore(shared, [(ks, kn, (('a',), ('b',)), 1) for ks in (
        ('KM', 'KM'), ('KM', 'KMR'), ('SVC', 'SVC'), ('SVR', 'SVC')) for kn in ('rbf', 'lap')])
    ctx.explore(same, [('KMR', kn, False, (('a',), ('c',)), 1, False)
                       for kn in ('call', 'poly', 'sig', 'chi2', 'had', 'lap')])
    ctx.explore(shared, [(('KMR', 'KMR'), kn, (('a',), ('c',)), 1)
                         for kn in ('call', 'lin', 'poly', 'sig', 'chi2', 'had')])
    ctx.explore(fitting, [(ks, 1) for ks in (('KM', 'KM'), ('KM', 'KMR'), ('SVC', 'SVC'),
                                             ('SVR', 'SVC'))])
    ctx.bounds.update(preemptions='1 at bytecode and line granularity; 3 at lines '
                                  'of algorithms.py', threads='2 and 3')
    ctx.assumptions += ['preemption can only happen between bytecode instructions of the '
                        'package (GIL); calls into numpy and scikit-learn are atomic']
