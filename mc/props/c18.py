"""C18: OptimalKernelSVC / OptimalKernelSVR."""
import itertools

import numpy as np

from mc import mats, rankref, ref
from mc.svmref import Ref, compare, gram

X6 = np.array([[0.2, 1.1], [1.4, 0.3], [2.2, 1.9], [0.4, 2.6], [1.1, 1.3], [2.8, 0.5],
               [0.9, 0.2], [2.0, 2.4], [0.6, 1.8]])
TEST = np.array([[a, b] for a in (0.1, 1.2, 2.5) for b in (0.3, 1.6, 2.7)])

MENU = {
    'lin': [('linear', {})],
    'mix': [('linear', {}), ('poly', {'degree': 2}), ('rbf', {'sigma': 0.5}),
            ('lap', {'gamma': 1.0})],
    'rbfs': [('linear', {}), ('rbf', {'sigma': 0.3}), ('rbf', {'sigma': 1.5}),
             ('rbf', {'sigma': 6.0})],
    'poly': [('linear', {}), ('poly', {'degree': 3}), ('poly', {'degree': 2})],
}
REF = {'linear': ref.linear, 'poly': ref.poly, 'rbf': ref.gaussian, 'lap': ref.laplacian,
       'sig': ref.sigmoid}


def bucket(name, norm):
    from kernelmethods.sampling import KernelBucket
    g = lambda f, p: [par[p] for fam, par in MENU[name] if fam == f] or None
    return KernelBucket(g('poly', 'degree'), g('rbf', 'sigma'), g('lap', 'gamma'), None,
                        None, normalize_kernels=norm, name='user')


def est_cls(svr):
    from kernelmethods.algorithms import OptimalKernelSVC, OptimalKernelSVR
    return OptimalKernelSVR if svr else OptimalKernelSVC


def which(kernel, menu):
    """index of the menu entry the kernel function computes"""
    P = X6[:4]
    V = np.array([[float(kernel(a, b)) for b in P] for a in P])
    for i, (fam, par) in enumerate(menu):
        if np.allclose(V, ref.raw_km(REF[fam](**par), P.tolist()), rtol=1e-9):
            return i
    return None


def scores(menu, norm, X, y, method, svr):
    Ks = [gram(REF[f](**p), X, None, norm) for f, p in menu]
    if method == 'align/corr':
        return np.array([rankref.align(K, y) for K in Ks])
    return rankref.rescaled([rankref.cv(K, y, 'SVR' if svr else 'SVC') for K in Ks])


def best(i, sc):
    top = np.nanmax(sc)
    return sc[i] >= top - 1e-6 * max(1.0, abs(top))


def real_scores(menu, norm, X, y, method, svr):
    """the same scores from the library's own matrices: bit-for-bit the input of its
    ranking, for decisions that hang on the last bit"""
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.base import KernelMatrix
    C = {'linear': nk.LinearKernel, 'poly': nk.PolyKernel, 'rbf': nk.GaussianKernel,
         'lap': nk.LaplacianKernel, 'sig': nk.SigmoidKernel}
    Ks = []
    for f, p in menu:
        km = KernelMatrix(C[f](**p), normalized=norm)
        km.attach_to(np.asarray(X))
        Ks.append(km.full)
    if method == 'align/corr':
        return np.array([rankref.align(K, y) for K in Ks])
    return rankref.rescaled([rankref.cv(K, y, 'SVR' if svr else 'SVC') for K in Ks])


def judge(acc, est, menu, norm, X, y, method, svr, par, w, what, T=TEST, sc=None,
          batches=True):
    """None if right; else violates"""
    i = which(est.opt_kernel_.kernel, menu)
    if i is None:
        return 'optimal kernel {} is not in the bucket'.format(est.opt_kernel_.kernel)
    sc = scores(menu, norm, X, y, method, svr) if sc is None else sc
    if not best(i, sc) and not best(i, real_scores(menu, norm, X, y, method, svr)):
        return 'chose kernel {} with score {}; scores {}'.format(i, sc[i], sc)
    k = REF[menu[i][0]](**menu[i][1])
    R = Ref(k, norm, 'SVR' if svr else 'SVC', X, np.asarray(y), sample_weight=w, **par)
    got = est.predict(T)
    acc.transitions += 1
    bad, cnt = compare(got, R, T)
    acc.note('predictions_compared', cnt)
    if bad:
        return 'kernel {}: {}'.format(i, bad)
    if not svr and not set(np.asarray(got).tolist()) <= set(np.asarray(y).tolist()):
        return 'predicts unknown classes {}'.format(got)
    if batches:
        _, clear = R.predict(T)
        for sel in ([0], [1, 1, 0], list(range(len(T)))[::-1], [len(T) - 1]):
            acc.transitions += 1
            g, v = np.asarray(est.predict(T[sel])), np.asarray(got)[sel]
            if len(g) != len(sel) or (not np.allclose(g, v, rtol=1e-7, atol=1e-8) if svr
                                      else (g != v)[clear[sel]].any()):
                return 'prediction depends on the batch {}'.format(sel)
        bad, _ = compare(est.predict(X), R, X)
        if bad:
            return 'training points: ' + bad
        bad, _ = compare(est.predict(T), R, T)
        if bad:
            return 'again: ' + bad
    acc.out((i, np.round(np.asarray(got, float), 2).tolist()))
    return None


def fits(acc, svr, bname, norm, method, ys, par):
    user = bucket(bname, norm)
    menu = MENU[bname]
    est = None
    for j, y in enumerate(ys):
        n = len(y)
        X = X6[:n]
        y = np.array(y, float if svr else int)
        if est is None or j % 3 == 0:
            est = est_cls(svr)(k_bucket=user, method=method, **par)
        w = 0.3 + 0.4 * np.arange(n) if j % 4 == 1 else None
        keep = X.copy()
        ret = est.fit(X, y) if w is None else est.fit(X, y, sample_weight=w)
        acc.transitions += 1
        acc.states += 1
        what = 'svr={} bucket {} normalized={} {} {} y={} weights={}'.format(
            svr, bname, norm, method, par, y.tolist(), w)
        bad = judge(acc, est, menu, norm, X, y, method, svr, par, w, what,
                    batches=j % 3 == 0)
        if not bad and (ret is not est or not np.array_equal(X, keep)):
            bad = 'fit does not return self or changed X'
        if not bad and (user.num_samples is not None or len(user) != len(menu) or
                        any(km.num_samples is not None for km in user) or
                        est.k_bucket is not user):
            bad = 'the bucket of the user was changed'
        if bad:
            acc.violate(bad, what)
            return
    acc.sample(what)
    acc.traces += 1


H = ['fit A', 'fit B', 'fit C', 'fit edited', 'predict', 'predict one', 'predict train',
     'predict as many', 'predict nearly train', 'predict edited']
DATA0 = {'A': (X6[:6], [0, 1, 1, 0, 1, 0]), 'B': (X6[1:8] * 0.9 + 0.05, [1, 0, 1, 0, 1, 0, 1]),
        'C': (X6[:6, ::-1] + 0.2, [1, 1, 1, 0, 0, 0])}


def histories(acc, svr, method, depth, first):
    menu, norm, DATA = MENU['rbfs'], True, dict(DATA0)
    f = (lambda y: np.array(y, float) * 1.5 - 0.3) if svr else (lambda y: np.array(y, int))
    sc = {k: scores(menu, norm, X, f(y), method, svr) for k, (X, y) in DATA.items()}
    for hist in itertools.product(H, repeat=depth):
        if hist[0] != first:
            continue
        est, cur = est_cls(svr)(k_bucket=bucket('rbfs', norm), method=method), None
        bufX, bufT, edits = DATA['A'][0].copy(), TEST[:6].copy(), 0
        what = 'svr={} {}: {}'.format(svr, method, ' ; '.join(hist))
        old = []
        for op in hist:
            acc.transitions += 1
            a, _, x = op.partition(' ')
            if op == 'fit edited':       # one array, edited in place by its owner
                edits += 1
                bufX[edits % 5, 0] += 0.4
            if op == 'predict edited':
                bufT[:, 1] = bufT[::-1, 1] + 0.3
            if a == 'fit' and x == 'edited':
                cur = ('edited', edits)
                y = DATA['A'][1]
                if cur not in sc:
                    DATA[cur] = (bufX.copy(), y)
                    sc[cur] = scores(menu, norm, DATA[cur][0], f(y), method, svr)
                est.fit(bufX, f(y))
                continue
            if a == 'fit':
                est.fit(DATA[x][0], f(DATA[x][1]))
                cur = x
                continue
            n = len(DATA[cur][0]) if cur else 3
            near = DATA[cur][0].copy() if cur else X6[:3]
            near = np.vstack([near[:-1], near[-1:] * 0.5 + 0.4])
            T = {'': TEST, 'one': TEST[3:4], 'train': DATA['A'][0], 'as many': TEST[:n],
                 'nearly train': near, 'edited': bufT}[x]
            if cur is None:
                try:
                    r = est.predict(T)
                    acc.violate('predicted before fit: {}'.format(r), what)
                    return
                except Exception:
                    continue
            X, y = DATA[cur]
            bad = judge(acc, est, menu, norm, X, f(y), method, svr, dict(C=1.0), None, what,
                        T, sc[cur], batches=False)
            if bad:
                acc.violate('fitted on {}: {}'.format(cur, bad), what)
                return
            g = est.predict(T)
            old.append((g, np.array(g, copy=True)))
        if any(not np.array_equal(a, b) for a, b in old):
            acc.violate('earlier predictions changed', what)
            return
        acc.states += 1
        acc.traces += 1


STRAT = {
    'light': [('linear', {})] + [('poly', {'degree': d}) for d in (2, 3)] +
    [('rbf', {'sigma': 2.0 ** e}) for e in (-3, -1, 1)] +
    [('lap', {'gamma': 2.0 ** e}) for e in (-3, -1, 1)] +
    [('sig', {'gamma': 2.0 ** e}) for e in (-3, -1, 1, 3, 5)] + [('sig', {'offset': 1.0})],
    'linear_only': [('linear', {})],
    'exhaustive': [('linear', {})] + [('poly', {'degree': d}) for d in (2, 3, 4)] +
    [('rbf', {'sigma': 2.0 ** e}) for e in (-5, -3, -1, 1, 3, 5)] +
    [('lap', {'gamma': 2.0 ** e}) for e in (-5, -3, -1, 1, 3, 5)] +
    [('sig', {'gamma': 2.0 ** e}) for e in (-5, -3, -1, 1, 3, 5)] +
    [('sig', {'offset': o}) for o in (-2.0, 1.0, 2.0)],
}


def strategies(acc, svr, strat, method, yi):
    y = [[0, 1, 1, 0, 1, 0, 1], [1, 1, 0, 0, 1, 0, 0]][yi]
    y = np.array(y, float) * 2.5 if svr else np.array(y)
    X = X6[:7]
    est = est_cls(svr)(k_bucket=strat, method=method)
    est.fit(X, y)
    acc.transitions += 1
    acc.states += 1
    acc.traces += 1
    what = '{} {} svr={} y={}'.format(strat, method, svr, y.tolist())
    with np.errstate(all='ignore'):
        menu = STRAT[strat.lower()]
        Ks = [ref.raw_km(REF[f](**p), X.tolist()) for f, p in menu]
        Ks = [K / np.sqrt(np.outer(K.diagonal(), K.diagonal())) if (K.diagonal() > 0).all()
              else K * np.nan for K in Ks]
    sc = np.array([rankref.align(K, y) for K in Ks]) if method == 'align/corr' else \
        rankref.rescaled([rankref.cv(K, y, 'SVR' if svr else 'SVC') for K in Ks])
    bad = judge(acc, est, menu, True, X, y, method, svr, dict(C=1.0), None, what, sc=sc)
    if est.k_bucket != strat:
        bad = 'parameter k_bucket changed'
    if bad:
        acc.violate(bad, what)


def rebucket(acc, svr, depth, method):
    """the bucket and the method are those of the moment of the fit, by name or object"""
    B = {'linear_only': ('linear_only', STRAT['linear_only'], True),
         'light': ('light', STRAT['light'], True), 'mix': (bucket('mix', False), MENU['mix'], False),
         'rbfs': (bucket('rbfs', True), MENU['rbfs'], True)}
    Y = {'A': [0, 1, 1, 0, 1, 0], 'B': [1, 0, 1, 0, 1, 0, 1]}
    f = (lambda y: np.array(y, float) * 1.5 - 0.3) if svr else (lambda y: np.array(y, int))
    sc = {}
    ops = [('set', b) for b in B] + [('fit', 'A'), ('fit', 'B')]
    for hist in itertools.product(ops, repeat=depth):
        if hist[-1][0] != 'fit' or ('fit', 'A') not in hist[:-1] + (('fit', 'A'),) * (depth < 3):
            continue
        cur = 'light'
        est = est_cls(svr)(k_bucket='light', method=method)
        for j, (o, a) in enumerate(hist):
            acc.transitions += 1
            if o == 'set':
                if j % 2:
                    est.set_params(k_bucket=B[a][0])
                else:
                    est.k_bucket = B[a][0]
                cur = a
                continue
            X, y = DATA0[a][0], f(Y[a])
            est.fit(X, y)
            if (cur, a) not in sc:
                with np.errstate(all='ignore'):
                    Ks = [ref.raw_km(REF[q](**p), X.tolist()) for q, p in B[cur][1]]
                    if B[cur][2]:
                        Ks = [K / np.sqrt(np.outer(K.diagonal(), K.diagonal()))
                              if (K.diagonal() > 0).all() else K * np.nan for K in Ks]
                sc[cur, a] = np.array([rankref.align(K, y) for K in Ks]) \
                    if method == 'align/corr' else rankref.rescaled(
                        [rankref.cv(K, y, 'SVR' if svr else 'SVC') for K in Ks])
            bad = judge(acc, est, B[cur][1], B[cur][2], X, y, method, svr, dict(C=1.0), None, '',
                        sc=sc[cur, a], batches=False)
            if bad:
                acc.violate('bucket {}: {}'.format(cur, bad), 'svr={} {}'.format(svr, hist))
                return
        acc.states += 1
        acc.traces += 1


def mixed(acc, svr, n, norms):
    """members with different settings of normalization in one bucket"""
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.base import KernelMatrix
    from kernelmethods.sampling import KernelBucket
    K = [lambda: nk.PolyKernel(2, b=0.5), lambda: nk.LinearKernel(), lambda: nk.PolyKernel(3)]
    R_ = [ref.linear(), ref.poly(2, b=0.5), ref.linear(), ref.poly(3)]
    X = X6[:n]
    for y in itertools.product((0, 1), repeat=n):
        if len(set(y)) < 2:
            continue
        y = np.array(y, float) * 1.5 - 0.3 if svr else np.array(y)
        user = KernelBucket(None, None, None, None, None, normalize_kernels=norms[0])
        for k, nm in zip(K, norms[1:]):
            user.append(KernelMatrix(k(), normalized=nm, name='x%d' % len(user)))
        est = est_cls(svr)(k_bucket=user, method='align/corr').fit(X, y)
        acc.transitions += 1
        Ks = [gram(r, X, None, nm) for r, nm in zip(R_, norms)]
        sc = np.array([rankref.align(M, y) for M in Ks])
        o = np.argsort(sc)
        if sc[o[-1]] - sc[o[-2]] < 1e-9:
            acc.note('ties_skipped')
            continue
        i = int(o[-1])
        acc.states += 1
        bad = None
        if not ref.close(est.opt_kernel_.full, Ks[i]):
            bad = 'optimal kernel matrix {} expected {}'.format(est.opt_kernel_.full.tolist(),
                                                                Ks[i].tolist())
        bad = bad or compare(est.predict(TEST), Ref(R_[i], norms[i], 'SVR' if svr else 'SVC',
                                                    X, y, C=1.0), TEST)[0]
        if bad:
            acc.violate('kernel {}: {}'.format(i, bad), 'norms {} y={}'.format(norms, y))
            return
        acc.out(i)
    acc.traces += 1


def permuted(acc, svr, n):
    """samples holding the same numbers in another arrangement, same targets"""
    A = np.round(X6[:n] * 8) / 8
    y = [0, 1, 1, 0, 1][:n]
    y = np.array(y, float) * 1.5 - 0.3 if svr else np.array(y)
    user = bucket('mix', True)
    est = est_cls(svr)(k_bucket=user, method='align/corr')
    for perm in itertools.permutations(range(n)):
        X = np.column_stack([A[list(perm), 0], A[:, 1]])
        acc.states += 1
        for e in (est, est_cls(svr)(k_bucket=user, method='align/corr')):
            e.fit(X, y)
            acc.transitions += 1
            bad = judge(acc, e, MENU['mix'], True, X, y, 'align/corr', svr, dict(C=1.0), None,
                        '', batches=False)
            if bad:
                acc.violate(bad, 'X={}'.format(X.tolist()))
                return
    acc.traces += 1


def rejects(acc, _):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.numeric_kernels import LinearKernel
    X, y = X6[:6], np.array([0, 1, 1, 0, 1, 0])
    ks = KernelSet([KernelMatrix(LinearKernel())])
    for svr in (False, True):
        E = est_cls(svr)
        for kb in ('nosuch', '', 5, None, ks, list(ks), LinearKernel(), X):
            acc.transitions += 1
            e = E(k_bucket=kb, method='align/corr')
            for f in (lambda: e.fit(X, y), lambda: e.predict(X)):
                try:
                    f()
                    acc.violate('bucket {!r} accepted'.format(kb), 'svr={}'.format(svr))
                    return
                except Exception:
                    pass
        for m in ('nosuch', '', 'align', 'risk'):
            acc.transitions += 1
            e = E(k_bucket='light', method=m)
            try:
                e.fit(X, y)
                acc.violate('method {!r} accepted'.format(m), 'svr={}'.format(svr))
                return
            except Exception:
                pass
        for kw in ({}, dict(k_bucket=bucket('mix', True))):
            acc.transitions += 1
            try:
                E(**kw).predict(X)
                acc.violate('predicts before fit', 'svr={}'.format(svr))
            except Exception:
                pass
    acc.states += 1
    acc.traces += 1


def used_bucket(acc, svr, state):
    """the user bucket may itself be attached to something already"""
    user = bucket('mix', True)
    Z = X6[:6] * 0.5 if state == 'same size' else X6[:3]
    if state != 'fresh':
        user.attach_to(Z)
        before = [np.array(km.full, copy=True) for km in user]
    y = np.array([0, 1, 1, 0, 1, 0], float if svr else int)
    est = est_cls(svr)(k_bucket=user, method='align/corr')
    acc.transitions += 1
    acc.states += 1
    acc.traces += 1
    try:
        est.fit(X6[:6], y)
    except Exception as e:
        if state == 'other size':      # a set keeps its size
            acc.note('refused_other_size')
            return
        acc.violate('fit failed {!r}'.format(e), state)
        return
    bad = judge(acc, est, MENU['mix'], True, X6[:6], y, 'align/corr', svr, dict(C=1.0), None,
                state)
    if state != 'fresh':
        if user.num_samples != len(Z) or any(not np.array_equal(a, km.full)
                                             for a, km in zip(before, user)):
            bad = 'the bucket of the user was changed'
    if bad:
        acc.violate(bad, 'user bucket {}'.format(state))


def batch(acc, svr, bname, norm, m, far):
    """any number of test points, anywhere"""
    y = np.array([0.0, 1.5, 1.0, -2.0, 1.0, 0.5]) if svr else np.array([0, 1, 1, 0, 1, 0])
    est = est_cls(svr)(k_bucket=bucket(bname, norm), method='align/corr').fit(X6[:6], y)
    T = mats.seeded(m, 2, m, 0.1, 3.0)
    if far:
        T[:, 0] = T[:, 0] * far - far / 3
    acc.states += 1
    acc.traces += 1
    bad = judge(acc, est, MENU[bname], norm, X6[:6], y, 'align/corr', svr, dict(C=1.0), None,
                '', T, batches=m > 1)
    if bad:
        acc.violate(bad, '{} points, bucket {} norm={} far={}'.format(m, bname, norm, far))


def offset(acc, svr, norm, shift, step):
    """data far from the origin: points differ by little compared to their size"""
    y = np.array([0.0, 1.5, 1.0, -2.0, 1.0, 0.5]) if svr else np.array([0, 1, 1, 0, 1, 0])
    X = X6[:6] * step + shift
    est = est_cls(svr)(k_bucket=bucket('rbfs', norm), method='align/corr').fit(X, y)
    for T in (X, X[::-1] + 0.3 * step, TEST * step + shift):
        acc.states += 1
        bad = judge(acc, est, MENU['rbfs'], norm, X, y, 'align/corr', svr, dict(C=1.0), None,
                    '', T)
        if bad:
            acc.violate(bad, 'shift {} norm={} svr={}'.format(shift, norm, svr))
            return
    acc.traces += 1


def named(acc, svr, strat, n):
    """buckets given by name, on samples of any size"""
    X = mats.seeded(n, 2, n, 0.1, 2.0)
    y = np.round(X[:, 0] * 3 - X[:, 1] ** 2, 2) if svr else \
        (X[:, 0] * 2 > X[:, 1] ** 2).astype(int)
    if not svr:
        y[0], y[1] = 0, 1
    est = est_cls(svr)(k_bucket=strat, method='align/corr').fit(X, y)
    acc.transitions += 1
    acc.states += 1
    acc.traces += 1
    with np.errstate(all='ignore'):
        Ks = [ref.raw_km(REF[f](**p), X.tolist()) for f, p in STRAT[strat]]
        Ks = [K / np.sqrt(np.outer(K.diagonal(), K.diagonal())) if (K.diagonal() > 0).all()
              else K * np.nan for K in Ks]
    sc = np.array([rankref.align(K, y) for K in Ks])
    bad = judge(acc, est, STRAT[strat], True, X, y, 'align/corr', svr, dict(C=1.0), None, '',
                sc=sc)
    if bad:
        acc.violate(bad, '{} on {} points svr={}'.format(strat, n, svr))


def ladder(acc, svr, n, method):
    X = mats.seeded(n, 3, n, 0.1, 2.0)
    T = mats.seeded(n + 3, 3, n + 1, 0.1, 2.0)
    y = X[:, 0] * 2 - X[:, 1] if svr else (X[:, 0] > X[:, 1]).astype(int)
    if not svr:
        y[:3], y[3:6] = 0, 1
    est = est_cls(svr)(k_bucket=bucket('rbfs', False), method=method, C=2.0).fit(X, y)
    acc.states += 1
    acc.traces += 1
    bad = judge(acc, est, MENU['rbfs'], False, X, y, method, svr, dict(C=2.0), None, '', T)
    if bad:
        acc.violate(bad, 'n={} {}'.format(n, method))


def classes(acc, c, method, seed, svr):
    """many classes (as regression targets: many levels), three points of each"""
    n = 3 * c
    X = mats.seeded(n, 2, 100 * c + seed, 0.1, 2.5)
    y = np.array([(7 * i + seed) % c for i in range(n)])
    if len(set(y.tolist())) < c:
        y = np.arange(n) % c
    y = y * 3 - c
    if svr:
        y = y.astype(float)
    acc.traces += 1
    for norm, b in ((False, 'rbfs'), (True, 'mix')):
        est = est_cls(svr)(k_bucket=bucket(b, norm), method=method, C=2.0).fit(X, y)
        acc.states += 1
        bad = judge(acc, est, MENU[b], norm, X, y, method, svr, dict(C=2.0), None, '')
        if bad:
            acc.violate(bad, '{} classes {} {} svr={}'.format(c, method, b, svr))
            return


def run(ctx):
    two = (False, True)
    lab6 = [y for y in itertools.product((0, 1), repeat=6) if 3 <= sum(y) <= 3]
    lab6b = [y for y in itertools.product((-1, 1), repeat=5) if abs(sum(y)) < 5]
    lab9 = [y for y in itertools.product((0, 1, 2), repeat=9)
            if all(y.count(c) == 3 for c in range(3))][::120]
    odd3 = [tuple((0, 1, 5)[v] for v in y) for y in itertools.product(range(3), repeat=6)
            if len(set(y)) == 3][::17] + \
        [tuple((-3, 10, 2)[v] for v in y) for y in itertools.product(range(3), repeat=5)
         if len(set(y)) == 3][::13]
    odd3 += [tuple((1000, -300, 70000)[v] for v in y)
             for y in itertools.product(range(3), repeat=5) if len(set(y)) == 3][::9] + \
        [tuple((127, 128)[v] for v in y) for y in itertools.product(range(2), repeat=4)
         if len(set(y)) == 2][::3]
    reg = [y for y in itertools.product((0.0, 1.0, 2.5), repeat=6)
           if len({*y[:2]}) > 1 and len({*y[2:4]}) > 1 and len({*y[4:]}) > 1]
    t = []
    for norm in two:
        for b in MENU:
            for par in (dict(C=1.0), dict(C=0.05), dict(C=30.0, tol=1e-5)):
                t.append((False, b, norm, 'align/corr', lab6b + lab6 + lab9[:3] + odd3, par))
                t.append((True, b, norm, 'align/corr', reg[::3], dict(par, epsilon=0.02)))
            t += [(False, b, norm, 'cv_risk', lab6[i::8], dict(C=1.0)) for i in range(8)]
            t += [(False, b, norm, 'cv_risk', [y], dict(C=5.0, shrinking=False))
                  for y in lab9[:ctx.pick(2, 12)]]
            t += [(True, b, norm, 'cv_risk', reg[i::ctx.pick(60, 8)][:8],
                   dict(C=2.0, epsilon=0.3)) for i in range(ctx.pick(4, 8))]
    ctx.explore(fits, t)
    ctx.explore(classes, [(c, m, s, r) for c in ctx.pick((2, 4, 5, 7), range(2, 11))
                          for m in ('align/corr', 'cv_risk') for r in two
                          for s in ctx.pick((0, 1), range(6))])
    ctx.explore(histories, [(s, 'align/corr', d, f) for s in two
                            for d in ctx.pick((2, 3), (2, 3, 4)) for f in H])
    ctx.explore(histories, [(s, 'cv_risk', 2, f) for s in two for f in H])
    ctx.explore(strategies, [(s, st, m, yi) for s in two for st in ('light', 'linear_only',
                                                                    'Light', 'exhaustive')
                             for m in ('align/corr', 'cv_risk') for yi in (0, 1)
                             if not (st == 'exhaustive' and m == 'cv_risk' and
                                     not ctx.thorough)])
    ctx.explore(rebucket, [(s, d, 'align/corr') for s in two for d in (2, 3)])
    ctx.explore(rejects, [0], parallel=False)
    ctx.explore(mixed, [(s, n, nm) for s in two for n in (4, 5)
                        for nm in itertools.product(two, repeat=4)])
    ctx.explore(permuted, [(s, n) for s in two for n in (4, ctx.pick(4, 5))])
    ctx.explore(used_bucket, [(s, st) for s in two for st in ('fresh', 'same size',
                                                             'other size')])
    ctx.explore(offset, [(s, nm, sh, st) for s in two for nm in two for sh, st in
                         ((-1e7, 1.0), (1e6, 1.0), (3e7, 1.0), (100.0, 1.0))])
    ctx.explore(batch, [(s, b, nm, m, f) for s in two for b in ('mix', 'lin', 'poly')
                        for nm in two for m, f in ((1, 0), (31, 0), (32, 0), (33, 0), (64, 0),
                                                   (65, 0), (100, 0), (257, 0), (9, 1000.0),
                                                   (9, 1e5))])
    ctx.explore(named, [(s, st, n) for s in two for st in STRAT
                        for n in (8, 20, 31, ctx.pick(40, 60))])
    ctx.explore(ladder, [(s, n, m) for s in two for n in (9, 20, 33)
                         for m in ('align/corr', 'cv_risk')])
    ctx.assumptions.append('class predictions are compared where every pairwise decision '
                           'value exceeds 0.02, regression within 5e-3 (solver tolerance); '
                           'kernels within 1e-6 of the best score count as best')
