"""C17: KernelMachine / KernelMachineRegressor against an SVM on the explicit matrix."""
import itertools

import numpy as np

from mc import mats, ref
from mc.svmref import Ref, compare

PTS = np.array([[0.2, 1.1], [1.4, 0.3], [2.2, 1.9], [0.4, 2.6], [1.1, 1.3], [2.8, 0.5],
                [0.9, 0.2]])
TEST = np.array([[a, b] for a in (0.1, 1.2, 2.5) for b in (0.3, 1.6, 2.7)])


def kernels():
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.base import KernelFromCallable
    f = lambda x, y: 1.0 + 0.5 * float(np.dot(x.astype(float), y))
    return [
        (lambda: None, ref.gaussian(2.0)),               # the default kernel
        (lambda: nk.LinearKernel(), ref.linear()),
        (lambda: nk.PolyKernel(2, 0.5), ref.poly(2, 0.5)),
        (lambda: nk.GaussianKernel(0.7), ref.gaussian(0.7)),
        (lambda: nk.LaplacianKernel(0.5), ref.laplacian(0.5)),
        (lambda: nk.Chi2Kernel(0.5), ref.chi2(0.5)),
        (lambda: KernelFromCallable(f), lambda x, y: 1.0 + 0.5 * ref.dot(x, y)),
        (lambda: nk.HadamardKernel(2), ref.hadamard(2)),
    ]


NAMES = {'int': [0, 1, 2], 'neg': [-1, 1, 5], 'float': [4.0, 2.0, -1.0],
         'str': ['a', 'class-b', 'cc'], 'bool': [False, True], 'big': [10 ** 9, 3, 7],
         'int8': [1, 100, -100], 'huge': [3 * 10 ** 9, 2 ** 45 + 1, -7],
         'object': ['x', 'yy', 'x1']}


def as_labels(idx, kind):
    v = [NAMES[kind][i] for i in idx]
    dt = {'int8': np.int8, 'object': object}.get(kind)
    return np.array(v, dtype=dt)


def labelings(n, c):
    for y in itertools.product(range(c), repeat=n):
        if len(set(y)) == c:
            yield y


def machine(svr):
    from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor
    return KernelMachineRegressor if svr else KernelMachine


def judge(acc, est, R, y, what, T=TEST, batches=True):
    got = est.predict(T)
    acc.transitions += 1
    bad, cnt = compare(got, R, T)
    acc.note('predictions_compared', cnt)
    if not bad and not R.svr:
        y = np.asarray(y)
        if np.asarray(got).dtype.kind != y.dtype.kind or \
                not set(np.asarray(got).tolist()) <= set(y.tolist()):
            bad = 'predicted classes {} of type {} from {}'.format(
                sorted(set(got.tolist())), got.dtype, y.dtype)
        elif sorted(est.classes_.tolist()) != sorted(set(y.tolist())):
            bad = 'classes_ are {}'.format(est.classes_)
    if not bad and batches:
        for sel in ([0], [len(T) - 1], [1, 1, 0], list(range(len(T)))[::-1], [2, 0]):
            acc.transitions += 1
            g = est.predict(T[sel])
            _, clear = R.predict(T)
            w = np.asarray(got)[sel]
            if R.svr:
                if not np.allclose(g, w, rtol=1e-7, atol=1e-8):
                    bad = 'prediction depends on the batch {}'.format(sel)
            elif (np.asarray(g) != w)[clear[sel]].any() or len(g) != len(sel):
                bad = 'prediction depends on the batch {}'.format(sel)
    if bad:
        acc.violate(bad, what)
        return False
    acc.out(np.round(np.asarray(got), 2).tolist() if R.svr else np.asarray(got).tolist())
    return True


def classify(acc, ki, norm, n, c, part, parts):
    mk, r = kernels()[ki]
    kinds = [k for k in NAMES if len(NAMES[k]) >= c]
    X = PTS[:n]
    ctor_k = mk()
    est = machine(False)(ctor_k, normalized=norm)
    for i, idx in enumerate(labelings(n, c)):
        if i % parts != part:
            continue
        kind = kinds[i % len(kinds)]
        y = as_labels(idx, kind)
        if kind == 'int8' or i % 5 == 0:
            Xf = np.asfortranarray(X)
        else:
            Xf = X.copy()
        keep = Xf.copy()
        w = None
        if i % 3 == 1:
            w = 0.2 + np.arange(n) * 0.45
            if i % 2:                   # points of weight zero, each class keeps some
                for j in range(n):
                    if sum(1 for q in range(n) if idx[q] == idx[j] and w[q] > 0) > 1 and \
                            (i + j) % 3 == 0:
                        w[j] = 0.0
        R = Ref(r, norm, 'SVC', X, y, sample_weight=w, C=10)
        est = est if i % 2 else machine(False)(ctor_k, normalized=norm)
        if w is None:
            ret = est.fit(Xf if i % 7 else Xf.tolist(), y if i % 6 else y.tolist())
        else:
            ret = est.fit(Xf, y, sample_weight=w)
        what = 'kernel {} normalized={} y={} weights={}'.format(ctor_k, norm, y.tolist(), w)
        if ret is not est or not np.array_equal(keep, Xf):
            acc.violate('fit does not return self, or changed X', what)
            return
        acc.states += 1
        if not judge(acc, est, R, y, what, batches=i % 4 == 0):
            return
        Rt = compare(est.predict(X), R, X)
        acc.transitions += 1
        if Rt[0]:
            acc.violate('training points: ' + Rt[0], what)
            return
    acc.sample(what)
    acc.traces += 1


def regress(acc, ki, norm, n, vals, part, parts):
    mk, r = kernels()[ki]
    X = PTS[:n]
    est = machine(True)(mk(), normalized=norm)
    for i, y in enumerate(itertools.product(vals, repeat=n)):
        if i % parts != part:
            continue
        w = None if i % 3 else 0.2 + np.arange(n) * 0.45
        if w is not None and i % 2:
            w[i % n] = 0.0
        dt = (float, float, 'int8' if all(float(v).is_integer() for v in vals) else float,
              'float32')[i % 4]
        yy = np.array(y, dtype=dt)
        R = Ref(r, norm, 'SVR', X, np.array(y, float), sample_weight=w, C=10)
        est = est if i % 2 else machine(True)(mk(), normalized=norm)
        est.fit(X, yy, sample_weight=w)
        acc.states += 1
        what = 'kernel {} normalized={} y={} {} weights={}'.format(est.k_func, norm, y, dt, w)
        if not judge(acc, est, R, yy, what, batches=i % 4 == 0):
            return
    acc.sample(what)
    acc.traces += 1


H = ['fit A', 'fit B', 'fit C', 'fit edited', 'predict', 'predict one', 'predict train',
     'predict as many', 'predict nearly train', 'predict edited']


def histories(acc, svr, ki, norm, depth, first):
    mk, r = kernels()[ki]
    D = {'A': (PTS[:5], [0, 1, 1, 0, 1]), 'B': (PTS[2:6] + 0.1, [1, 0, 1, 0]),
         'C': (PTS[:6, ::-1] * 0.8, [2, 2, 0, 1, 0, 1])}
    refs = {k: Ref(r, norm, 'SVR' if svr else 'SVC', X, np.array(y, float if svr else int),
                   C=10) for k, (X, y) in D.items()}
    for hist in itertools.product(H, repeat=depth):
        if hist[0] != first:
            continue
        est, cur = machine(svr)(mk(), normalized=norm), None
        bufX, bufT, edits = D['A'][0].copy(), TEST[:5].copy(), 0
        what = 'svr={} {} : {}'.format(svr, est.k_func, ' ; '.join(hist))
        old = []
        for op in hist:
            acc.transitions += 1
            a, _, x = op.partition(' ')
            if op == 'fit edited':       # one array, edited in place by its owner
                edits += 1
                bufX[edits % 5, 0] += 0.4
            if op == 'predict edited':
                bufT[:, 1] = bufT[::-1, 1] + 0.3
            if a == 'fit':
                X, y = D.get(x, (bufX, D['A'][1]))
                y = np.array(y, float if svr else int)
                est.fit(X, y)
                cur = x
                if x == 'edited':
                    key = ('edited', edits)
                    if key not in refs:
                        refs[key] = Ref(r, norm, 'SVR' if svr else 'SVC', X.copy(), y, C=10)
                    cur, D[key] = key, (X.copy(), None)
                continue
            n = len(D[cur][0]) if cur else 3
            near = D[cur][0].copy() if cur else PTS[:3]
            near = np.vstack([near[:-1], near[-1:] * 0.5 + 0.4])
            T = {'': TEST, 'one': TEST[3:4], 'train': D['A'][0], 'as many': TEST[:n],
                 'nearly train': near, 'edited': bufT}[x]
            try:
                got = est.predict(T)
            except Exception as e:
                if cur is not None:
                    acc.violate('predict failed: {!r}'.format(e), what)
                    return
                continue
            if cur is None:
                acc.violate('predicted before fit: {}'.format(got), what)
                return
            bad, _ = compare(got, refs[cur], T)
            if bad:
                acc.violate('fitted on {}: {}'.format(cur, bad), what)
                return
            old.append((got, np.array(got, copy=True)))
        if any(not np.array_equal(a, b) for a, b in old):
            acc.violate('earlier predictions changed', what)
            return
        acc.states += 1
        acc.traces += 1


def ladder(acc, svr, ki, norm, n):
    mk, r = kernels()[ki]
    X = mats.seeded(n, 3, n, 0.1, 2.0)
    T = mats.seeded(n + 3, 3, n + 1, 0.1, 2.0)
    y = X[:, 0] * 2 - X[:, 1] if svr else (X[:, 0] > X[:, 1]).astype(int) + (X[:, 2] > 1.5)
    if not svr and len(set(y)) < 2:
        y[0] = 1 - y[1]
    est = machine(svr)(mk(), normalized=norm).fit(X, y)
    R = Ref(r, norm, 'SVR' if svr else 'SVC', X, y, C=10)
    acc.states += 1
    acc.traces += 1
    judge(acc, est, R, y, 'n={} svr={} {} norm={}'.format(n, svr, est.k_func, norm), T)


def int_data(acc, svr, ki, norm, dt):
    mk, r = kernels()[ki]
    X = (np.arange(24).reshape(8, 3) * 7 % 11).astype(dt) + np.ones((), dt)
    T = (np.arange(15).reshape(5, 3) * 5 % 9).astype(dt) + np.ones((), dt)
    X, T = X.astype(dt), T.astype(dt)
    y = (X[:, 0].astype(float) - X[:, 1]) if svr else (X[:, 0] > X[:, 1]).astype(int)
    if r(X[0].tolist(), X[0].tolist()) > 1e3:        # keep the solver well behaved
        X, T = np.minimum(X, 3).astype(dt), np.minimum(T, 3).astype(dt)
    est = machine(svr)(mk(), normalized=norm).fit(X, y)
    R = Ref(r, norm, 'SVR' if svr else 'SVC', X.astype(float), y, C=10)
    acc.states += 1
    acc.traces += 1
    judge(acc, est, R, y, '{} data svr={} {} norm={}'.format(dt, svr, est.k_func, norm), T)


def mixed(acc, svr, ki, norm, dx, dt):
    """training and test data of different types, with fractions in the test data"""
    mk, r = kernels()[ki]
    X = (np.arange(16).reshape(8, 2) * 7 % 5 + 1).astype(dx)
    T = np.array([[1, 2], [2.5, 1.25], [0.75, 3.5], [4, 4.5], [3.25, 0.5]]).astype(dt)
    if dx == 'float32':
        X = (X * 0.625).astype(dx)
    y = X[:, 0] - X[:, 1].astype(float) if svr else (X[:, 0] > X[:, 1]).astype(int)
    est = machine(svr)(mk(), normalized=norm).fit(X, y)
    R = Ref(r, norm, 'SVR' if svr else 'SVC', X.astype(float), y, C=10)
    acc.states += 1
    acc.traces += 1
    judge(acc, est, R, y, '{} then {} data svr={} {} norm={}'.format(
        dx, dt, svr, est.k_func, norm), T.astype(dt))


def offset(acc, svr, ki, norm, shift, step):
    """data far from the origin: points differ by little compared to their size"""
    mk, r = kernels()[ki]
    X = PTS * step + shift
    y = np.arange(len(X)) * 0.7 if svr else np.array([0, 1, 1, 0, 1, 0, 1])
    est = machine(svr)(mk(), normalized=norm).fit(X, y)
    R = Ref(r, norm, 'SVR' if svr else 'SVC', X, y, C=10)
    for T in (X, X + 0.3 * step, X[::-1], X * 1.0 + np.array([0.0, 0.9 * step]), TEST * step + shift,
              np.vstack([X[:-1], X[-1:] + step])):
        acc.states += 1
        if not judge(acc, est, R, y, 'shift {} svr={} {} norm={}'.format(
                shift, svr, est.k_func, norm), T, batches=False):
            return
    acc.traces += 1


def unbalanced(acc, svr, norm, n, rare):
    """overlapping classes of very different size; targets far from zero"""
    from kernelmethods import numeric_kernels as nk
    X = mats.seeded(n, 2, 7 * n, 0.1, 2.0)
    T = mats.seeded(20, 2, n + 1, 0.1, 2.0)
    for k, r in ((nk.LaplacianKernel(0.8), ref.laplacian(0.8)),
                 (nk.GaussianKernel(0.4), ref.gaussian(0.4))):
        for off in (0, 1e5, -3e8) if svr else (0, 5):
            y = np.round(X[:, 0] * 4 - X[:, 1], 2) + off if svr else \
                (np.arange(n) * 7 % n < rare).astype(int) + int(off)
            est = machine(svr)(k, normalized=norm).fit(X, y)
            R = Ref(r, norm, 'SVR' if svr else 'SVC', X, y, C=10)
            acc.states += 1
            what = 'n={} rare={} offset {} svr={} {} norm={}'.format(n, rare, off, svr, k, norm)
            judge(acc, est, R, y, what, T)
    acc.traces += 1


def tiny(acc, svr, norm, e):
    """features of any order of magnitude"""
    from kernelmethods import numeric_kernels as nk
    s = 10.0 ** e
    X, T = PTS * s, TEST * s
    y = np.array([0.5, 2.0, -1.0, 1.5, 0.0, 3.0]) if svr else np.array([0, 1, 1, 0, 1, 0])
    X = X[:6]
    for k, r in ((nk.GaussianKernel(0.7 * s), ref.gaussian(0.7 * s)),
                 (nk.LaplacianKernel(0.5 / s), ref.laplacian(0.5 / s)),
                 (nk.PolyKernel(2, 1.0 / s ** 2), ref.poly(2, 1.0 / s ** 2))):
        est = machine(svr)(k, normalized=norm).fit(X, y)
        R = Ref(r, norm, 'SVR' if svr else 'SVC', X, y, C=10)
        acc.states += 1
        judge(acc, est, R, y, 'scale {} svr={} {} norm={}'.format(s, svr, k, norm), T)
    acc.traces += 1


def classes(acc, ki, norm, c):
    """c classes of three points"""
    mk, r = kernels()[ki]
    n = 3 * c
    X = mats.seeded(n, 2, 50 * c + 1, 0.1, 2.5)
    T = mats.seeded(n, 2, 50 * c + 2, 0.1, 2.5)
    for lab in (lambda i: i, lambda i: 3 * i - c, lambda i: 'class%d' % i):
        y = np.array([lab((7 * i + i // c) % c) for i in range(n)])
        est = machine(False)(mk(), normalized=norm).fit(X, y)
        R = Ref(r, norm, 'SVC', X, y, C=10)
        acc.states += 1
        judge(acc, est, R, y, '{} classes {} norm={}'.format(c, est.k_func, norm), T)
    acc.traces += 1


def many(acc, svr, norm, m):
    """m test points at once"""
    mk, r = kernels()[3]
    X = PTS[:4]
    y = np.array([0.5, 2.0, -1.0, 1.0]) if svr else np.array([0, 1, 1, 0])
    est = machine(svr)(mk(), normalized=norm).fit(X, y)
    R = Ref(r, norm, 'SVR' if svr else 'SVC', X, y, C=10)
    T = mats.seeded(m, 2, m, 0.0, 3.0)
    acc.states += 1
    acc.traces += 1
    judge(acc, est, R, y, '{} test points svr={}'.format(m, svr), T)


def run(ctx):
    ctx.explore(unbalanced, [(s, nm, n, r) for s in (False, True) for nm in (False, True)
                             for n in (12, 16, 17, 20, 33, 50) for r in (2, 4, 5)])
    ctx.explore(tiny, [(s, nm, e) for s in (False, True) for nm in (False, True)
                       for e in (-12, -9, -7, -5, -3, 0, 2, 4, 6)])
    ctx.explore(many, [(s, nm, m) for m in ctx.pick((3, 17, 64, 65, 129, 1025, 5000),
                                                    (3, 17, 64, 65, 129, 1025, 5000, 20000))
                       for s in (False, True) for nm in (False, True)])
    ctx.explore(mixed, [(s, k, nm, a, b) for s in (False, True) for k in range(len(kernels()))
                        for nm in (False, True) for a in ('int64', 'int8', 'float64', 'float32')
                        for b in ('float64', 'float32', 'int64')])
    ctx.explore(offset, [(s, k, nm, sh, st) for s in (False, True) for k in (0, 3, 4)
                         for nm in (False, True) for sh, st in ((1e3, 1.0), (1e6, 1.0),
                                                                (-1e7, 1.0), (0.0, 1e-4))])
    K = range(len(kernels()))
    two = (False, True)
    ctx.explore(classes, [(k, nm, c) for k in K for nm in two
                          for c in ctx.pick((4, 5, 7, 11), range(3, 25))])
    ctx.explore(classify, [(k, nm, n, c, p, 2) for k in K for nm in two
                           for n, c in ((4, 2), (5, 2), (4, 3)) + ctx.pick((), ((6, 2), (5, 3)))
                           for p in range(2)])
    ctx.explore(regress, [(k, nm, n, v, p, 2) for k in K for nm in two
                          for n, v in ((3, (-1.0, 0.0, 2.0)), (4, (0.5, 3.0))) +
                          ctx.pick((), ((5, (-1.0, 0.5, 2.0)),)) for p in range(2)])
    ctx.explore(histories, [(s, k, nm, d, f) for s in two for k in (1, 3) for nm in two
                            for d in ctx.pick((2, 3), (2, 3, 4)) for f in H])
    ctx.explore(ladder, [(s, k, nm, n) for s in two for k in K for nm in two
                         for n in ctx.pick((8, 20, 33), (8, 20, 33, 64, 65, 100))])
    ctx.explore(int_data, [(s, k, nm, dt) for s in two for k in K for nm in two
                           for dt in ('int8', 'uint8', 'int64', 'float32')])
    ctx.assumptions.append('class predictions are compared where every pairwise decision '
                           'value exceeds 0.02, regression within 5e-3 (solver tolerance)')
