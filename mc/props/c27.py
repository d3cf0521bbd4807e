"""C27: estimators inside scikit-learn's model selection, against fold-by-fold references."""
import itertools

import numpy as np
from sklearn.model_selection import GridSearchCV, cross_val_predict, cross_val_score
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler

from mc import ref
from mc.props import c18
from mc.svmref import Ref

X = c18.X6[:6]
YC = [y for y in itertools.product((0, 1), repeat=6) if sum(y) in (2, 3, 4) and y[0] == 0]
YR = [[0.5, 2.0, -1.0, 1.5, 0.0, 3.0], [1.0, 0.2, 2.2, -0.7, 1.1, 0.4],
      [3.0, 3.5, 0.1, 0.4, 2.0, 1.0], [0.1234, 0.4567, -0.3456, 0.2718, 0.0149, 0.5772],
      [-5.0, 4.0, -3.0, 2.0, -1.0, 0.0]]
LABELS = [(0, 1), (7, 3), ('no', 'maybe')]


def kernels():
    from kernelmethods import numeric_kernels as nk
    return {'lin': (nk.LinearKernel(), ref.linear()),
            'rbf': (nk.GaussianKernel(0.7), ref.gaussian(0.7)),
            'poly': (nk.PolyKernel(2, 0.5), ref.poly(2, 0.5)),
            'lap': (nk.LaplacianKernel(0.5), ref.laplacian(0.5))}


def target(kind, y, labels):
    if kind in ('KMR', 'SVR'):
        return np.array(y, float)
    return np.array([labels[v] for v in y])


def splits(kind, y, size):
    """every split of the points that leaves both classes for training"""
    out = []
    for te in itertools.combinations(range(len(y)), size):
        tr = [i for i in range(len(y)) if i not in te]
        if kind in ('KMR', 'SVR') or len(set(np.asarray(y)[tr].tolist())) == 2:
            out.append((np.array(tr), np.array(te)))
    return out


def reference(kind, par, Xt, yt):
    """the SVM that must result from fitting on (Xt, yt); None when several kernels tie"""
    if kind in ('KM', 'KMR'):
        k = kernels()[par['k_func']][1]
        return Ref(k, par['normalized'], 'SVR' if kind == 'KMR' else 'SVC', Xt, yt, C=10)
    svr = kind == 'SVR'
    menu = c18.MENU[par['k_bucket']]
    sc = c18.scores(menu, par['normalized'], Xt, yt, 'align/corr', svr)
    o = np.argsort(sc)
    if len(sc) > 1 and sc[o[-1]] - sc[o[-2]] < 1e-9:
        return None
    f, p = menu[o[-1]]
    extra = dict(epsilon=par['epsilon']) if svr else {}
    return Ref(c18.REF[f](**p), par['normalized'], kind, Xt, yt, C=par['C'], **extra)


def build(kind, par):
    from kernelmethods import algorithms as A
    if kind in ('KM', 'KMR'):
        c = A.KernelMachineRegressor if kind == 'KMR' else A.KernelMachine
        return c(k_func=kernels()[par['k_func']][0], normalized=par['normalized'])
    c = A.OptimalKernelSVR if kind == 'SVR' else A.OptimalKernelSVC
    extra = dict(epsilon=par['epsilon']) if kind == 'SVR' else {}
    return c(k_bucket=c18.bucket(par['k_bucket'], par['normalized']), method='align/corr',
             C=par['C'], **extra)


def judged_score(kind, R, Xe, ye, got):
    """None if `got` is the score of R on (Xe, ye), allowing for undecidable points"""
    p, clear = R.predict(Xe)
    if kind in ('KMR', 'SVR'):
        ye = np.asarray(ye, float)
        tot = ((ye - ye.mean()) ** 2).sum()
        if len(ye) < 2:
            return None
        want = 1 - ((ye - p) ** 2).sum() / tot
        return None if abs(want - got) <= 1e-2 * max(1.0, abs(want)) else \
            'score {} expected {}'.format(got, want)
    sure = int((clear & (p == ye)).sum())
    open_ = int((~clear).sum())
    n = len(ye)
    if sure / n - 1e-9 <= got <= (sure + open_) / n + 1e-9:
        return None
    return 'score {} expected {}/{}'.format(got, sure, n)


def judged_pred(kind, R, Xe, got):
    p, clear = R.predict(Xe)
    got = np.asarray(got)
    if kind in ('KMR', 'SVR'):
        return None if np.allclose(got, p, atol=5e-3 * max(1.0, np.abs(p).max())) else \
            'predictions {} expected {}'.format(got, p)
    bad = clear & (got != p)
    return 'predictions {} expected {}'.format(got.tolist(), p.tolist()) if bad.any() else None


def scores(acc, kind, par, y, labels, size):
    """cross_val_score over every split of a size"""
    yv = target(kind, y, labels)
    cv = splits(kind, yv, size)
    what = '{} {} y={} {}-point test sets'.format(kind, par, yv.tolist(), size)
    est = build(kind, par)
    before = est.get_params()
    got = cross_val_score(est, X, yv, cv=cv, error_score='raise')
    acc.transitions += len(cv)
    acc.states += 1
    if len(got) != len(cv):
        acc.violate('{} scores for {} folds'.format(len(got), len(cv)), what)
        return
    for (tr, te), g in zip(cv, got):
        R = reference(kind, par, X[tr], yv[tr])
        if R is None:
            acc.note('tied_folds')
            continue
        bad = judged_score(kind, R, X[te], yv[te], g)
        acc.transitions += 1
        if bad:
            acc.violate('cross_val_score: test {}: {}'.format(te.tolist(), bad), what)
            return
    try:
        est.predict(X)
        fitted = True
    except Exception:
        fitted = False
    if any(v is not before[k] for k, v in est.get_params().items()) or fitted:
        acc.violate('cross_val_score changed the estimator it was given', what)
        return
    acc.traces += 1
    acc.out(np.round(got, 3).tolist())
    # folds that partition the points: cross_val_predict, alone and in a pipeline
    for part in partitions(kind, yv, size):
        for piped in (False, True):
            e = build(kind, par)
            if piped:
                e = Pipeline([('scale', StandardScaler()), ('svm', e)])
            p = cross_val_predict(e, X, yv, cv=part)
            for tr, te in part:
                acc.transitions += 1
                a, b = X[tr], X[te]
                if piped:
                    m, s = a.mean(axis=0), a.std(axis=0)
                    a, b = (a - m) / s, (b - m) / s
                R = reference(kind, par, a, yv[tr])
                if R is None:
                    acc.note('tied_folds')
                    continue
                bad = judged_pred(kind, R, b, p[te])
                if bad:
                    acc.violate('cross_val_predict (pipeline={}): {}'.format(piped, bad),
                                what + ' test {}'.format(te.tolist()))
                    return
        acc.states += 1
    acc.sample(what)


def partitions(kind, y, size):
    ok = {tuple(te.tolist()): (tr, te) for tr, te in splits(kind, y, size)}
    out = []
    for te in ok:
        rest = [i for i in range(len(y)) if i not in te]
        if te[0] != 0:
            continue
        for t2 in itertools.combinations(rest, size):
            if t2[0] != rest[0]:
                continue
            t3 = tuple(i for i in rest if i not in t2)
            group = [te, t2] + ([t3] if t3 else [])
            if all(g in ok for g in group):
                out.append([ok[g] for g in group])
    return out[:2]


def grid(acc, kind, base, axes, y, labels, folds, piped):
    """GridSearchCV over a grid of constructor parameters"""
    yv = target(kind, y, labels)
    cv = splits(kind, yv, 2)[folds::5]
    what = 'grid search: {} {} over {} y={} pipeline={}'.format(kind, base, axes,
                                                               yv.tolist(), piped)
    est = build(kind, base)
    pre = 'svm__' if piped else ''

    def real(name, v):
        if name == 'k_func':
            return kernels()[v][0]
        if name == 'k_bucket':
            return c18.bucket(v, base['normalized'])
        return v
    menu = {pre + n: [real(n, v) for v in vs] for n, vs in axes.items()}
    if piped:
        est = Pipeline([('scale', StandardScaler()), ('svm', est)])
    gs = GridSearchCV(est, menu, cv=cv, error_score='raise').fit(X, yv)
    acc.states += 1
    order = sorted(axes)
    combos = [dict(zip(order, c)) for c in itertools.product(*(axes[n] for n in order))]
    mean = gs.cv_results_['mean_test_score']
    if len(mean) != len(combos):
        acc.violate('{} candidates, expected {}'.format(len(mean), len(combos)), what)
        return

    def scaled(tr, Z):
        if not piped:
            return Z
        return (Z - X[tr].mean(axis=0)) / X[tr].std(axis=0)
    for c, combo in enumerate(combos):
        par = dict(base, **combo)
        for f, (tr, te) in enumerate(cv):
            R = reference(kind, par, scaled(tr, X[tr]), yv[tr])
            acc.transitions += 1
            if R is None:
                acc.note('tied_folds')
                continue
            bad = judged_score(kind, R, scaled(tr, X[te]), yv[te],
                               gs.cv_results_['split{}_test_score'.format(f)][c])
            if bad:
                acc.violate('candidate {} fold {}: {}'.format(combo, te.tolist(), bad), what)
                return
    if mean[gs.best_index_] < mean.max() - 1e-12:
        acc.violate('best candidate {} of {}'.format(gs.best_index_, mean), what)
        return
    par = dict(base, **combos[gs.best_index_])
    al = np.arange(len(X))
    R = reference(kind, par, scaled(al, X), yv)
    if R is not None:
        bad = judged_pred(kind, R, scaled(al, c18.TEST), gs.predict(c18.TEST))
        if bad:
            acc.violate('refitted best candidate {}: {}'.format(combos[gs.best_index_], bad),
                        what)
            return
        if kind in ('KM', 'KMR', 'SVC', 'SVR'):
            bad = judged_score(kind, R, scaled(al, X), yv, gs.best_estimator_.score(X, yv))
            if bad:
                acc.violate('score(): ' + bad, what)
                return
    acc.traces += 1
    acc.sample(what)
    acc.out((gs.best_index_, np.round(mean, 3).tolist()))


def counted(acc, kind, par, y, labels, n, piped):
    """cv given as a number: stratified folds for classifiers, plain ones for regressors"""
    from sklearn.model_selection import KFold, StratifiedKFold
    yv = target(kind, y, labels)
    if kind in ('KMR', 'SVR'):
        cv = list(KFold(n).split(X))
        yv = labels(yv)
    else:
        if min(np.unique(yv, return_counts=True)[1]) < n:
            return
        cv = list(StratifiedKFold(n).split(X, yv))
    e = build(kind, par)
    if piped:
        e = Pipeline([('scale', StandardScaler()), ('svm', e)])
    what = '{} {} y={} cv={} pipeline={}'.format(kind, par, yv.tolist(), n, piped)
    p = cross_val_predict(e, X, yv, cv=n)
    sc = cross_val_score(e, X, yv, cv=n, error_score='raise')
    for f, (tr, te) in enumerate(cv):
        acc.transitions += 2
        a, b = X[tr], X[te]
        if piped:
            m, s = a.mean(axis=0), a.std(axis=0)
            a, b = (a - m) / s, (b - m) / s
        R = reference(kind, par, a, yv[tr])
        if R is None:
            acc.note('tied_folds')
            continue
        bad = judged_pred(kind, R, b, p[te]) or judged_score(kind, R, b, yv[te], sc[f])
        if bad:
            acc.violate(bad, what + ' test {}'.format(te.tolist()))
            return
    acc.states += 1
    acc.traces += 1
    acc.out(np.round(sc, 3).tolist())


def whole(y):
    return np.round(np.asarray(y)).astype(int)


def plain(y):
    return np.asarray(y, float)


def run(ctx):
    t = []
    for kind in ('KM', 'KMR', 'SVC', 'SVR'):
        reg = kind in ('KMR', 'SVR')
        for y in YR if reg else ctx.pick(YC[::2], YC):
            for lab in (plain, whole) if reg else LABELS[:3 if kind == 'KM' else 2]:
                for n in (2, 3):
                    for par in ((dict(k_func='rbf', normalized=False),
                                 dict(k_func='lin', normalized=True)) if kind in ('KM', 'KMR')
                                else (dict(k_bucket='mix', normalized=True, C=2.0,
                                           epsilon=0.05),)):
                        t += [(kind, par, y, lab, n, pd) for pd in (False, True)]
    ctx.explore(counted, t)
    t = []
    for kind in ('KM', 'KMR', 'SVC', 'SVR'):
        ys = YR if kind in ('KMR', 'SVR') else ctx.pick(YC[::4], YC)
        for j, y in enumerate(ys):
            for size in (2, 3):
                for norm in (False, True):
                    lab = LABELS[j % (3 if kind == 'KM' else 2)]
                    if kind in ('KM', 'KMR'):
                        for k in ('lin', 'rbf', 'poly', 'lap')[::1 if ctx.thorough else 1]:
                            t.append((kind, dict(k_func=k, normalized=norm), y, lab, size))
                    else:
                        for b in ('mix', 'rbfs'):
                            for C in (1.0, 20.0):
                                t.append((kind, dict(k_bucket=b, normalized=norm, C=C,
                                                     epsilon=0.1), y, lab, size))
    ctx.explore(scores, t)
    g = []
    for kind in ('KM', 'KMR'):
        for j, y in enumerate(YR if kind == 'KMR' else ctx.pick(YC[1::6], YC)):
            for axes in (dict(k_func=['lin', 'rbf', 'poly', 'lap']),
                         dict(k_func=['rbf', 'lin'], normalized=[False, True]),
                         dict(normalized=[True, False])):
                for piped in (False, True):
                    g.append((kind, dict(k_func='poly', normalized=False), axes, y,
                              LABELS[j % (3 if kind == 'KM' else 2)], j % 3, piped))
    for kind in ('SVC', 'SVR'):
        for j, y in enumerate(YR if kind == 'SVR' else ctx.pick(YC[1::6], YC)):
            al = [dict(C=[0.05, 1.0, 30.0]), dict(k_bucket=['mix', 'rbfs', 'poly']),
                  dict(C=[0.05, 30.0], k_bucket=['lin', 'rbfs'])]
            if kind == 'SVR':
                al.append(dict(epsilon=[0.01, 0.3, 1.0], C=[1.0, 10.0]))
            for axes in al:
                for piped in (False, True):
                    g.append((kind, dict(k_bucket='mix', normalized=False, C=1.0, epsilon=0.1),
                              axes, y, LABELS[j % 2], j % 3, piped))
    ctx.explore(grid, g)
    ctx.bounds.update(points=6, test_sets='every 2- and 3-point subset leaving both classes '
                                          'in the training set')
    ctx.assumptions += ['predictions nearer than 0.02 to the decision boundary are not '
                        'compared; folds on which two kernels tie for the best score are '
                        'skipped (counted as tied_folds)']
