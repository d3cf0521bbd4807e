"""C24: estimator parameters against a dictionary model; clones."""
import itertools
import pickle

import numpy as np

from mc import ref
from mc.props import c18
from mc.svmref import Ref, compare

XA = c18.X6[:6]
XB = c18.X6[1:8] * 0.9 + 0.05
YA, YB = [0, 1, 1, 0, 1, 0], [1, 0, 1, 0, 1, 0, 1]
RA, RB = [0.5, 2.0, -1.0, 1.5, 0.0, 3.0], [1.0, 0.2, 2.2, -0.7, 1.1, 0.4, 2.0]
TEST = c18.TEST
_KF = {}


def kf(name):
    """one shared instance per name: get_params must hand back this very object"""
    if name not in _KF:
        from kernelmethods import numeric_kernels as nk
        _KF.update({'lin': (nk.LinearKernel(), ref.linear()),
                    'rbf': (nk.GaussianKernel(0.7), ref.gaussian(0.7)),
                    'poly': (nk.PolyKernel(2, 0.5), ref.poly(2, 0.5)),
                    'lap': (nk.LaplacianKernel(0.5), ref.laplacian(0.5))})
        for b in ('mix', 'rbfs'):
            _KF['b ' + b] = (c18.bucket(b, False), c18.MENU[b], False)
            _KF['bn ' + b] = (c18.bucket(b, True), c18.MENU[b], True)
    return _KF[name]


def value(p, v):
    if v is None:
        return None
    return kf(v)[0] if p == 'k_func' or (p == 'k_bucket' and v[:2] in ('b ', 'bn')) else v


def cls(kind):
    from kernelmethods import algorithms as A
    return {'KM': A.KernelMachine, 'KMR': A.KernelMachineRegressor,
            'SVC': A.OptimalKernelSVC, 'SVR': A.OptimalKernelSVR}[kind]


MENU = {
    'KM': dict(k_func=['lin', 'rbf', 'poly', 'lap'], normalized=[False, True],
               learner_id=['SVC', 'svm']),
    'KMR': dict(k_func=['lin', 'rbf', 'poly', 'lap'], normalized=[False, True],
                learner_id=['SVR', 'svr']),
    'SVC': dict(k_bucket=['b mix', 'bn rbfs', 'linear_only'],
                method=['align/corr', 'cv_risk'], C=[1.0, 0.05, 30.0],
                shrinking=[True, False], tol=[1e-3, 0.9]),
    'SVR': dict(k_bucket=['b mix', 'bn rbfs', 'linear_only'],
                method=['align/corr', 'cv_risk'], C=[1.0, 0.05, 30.0],
                epsilon=[0.1, 0.6], shrinking=[True, False], tol=[1e-3, 0.9]),
}
DEFAULT = {
    'KM': dict(k_func=None, normalized=False, learner_id='SVC'),
    'KMR': dict(k_func=None, normalized=False, learner_id='SVR'),
    'SVC': dict(k_bucket='exhaustive', method='cv_risk', C=1.0, shrinking=True, tol=1e-3),
    'SVR': dict(k_bucket='exhaustive', method='cv_risk', C=1.0, epsilon=0.1, shrinking=True,
                tol=1e-3),
}
# the cheap starting configuration of the history searches
START = {'KM': dict(k_func='poly'), 'KMR': dict(k_func='poly'),
         'SVC': dict(k_bucket='b mix', method='align/corr'),
         'SVR': dict(k_bucket='b mix', method='align/corr')}


def build(kind, par):
    return cls(kind)(**{p: value(p, v) for p, v in par.items()})


def data(kind, d):
    reg = kind in ('KMR', 'SVR')
    y = {'A': RA if reg else YA, 'B': RB if reg else YB}[d]
    return {'A': XA, 'B': XB}[d], np.array(y, float if reg else int)


def same_kernel(a, b):
    P = XA[:3]
    return type(a) is type(b) and all(
        float(a(x, y)) == float(b(x, y)) for x in P for y in P)


def same_value(p, got, v, cloned):
    want = value(p, v)
    if p == 'k_func':
        if v is None:                       # documented default: a Gaussian kernel
            from kernelmethods.numeric_kernels import GaussianKernel
            return same_kernel(got, GaussianKernel())
        return same_kernel(got, want) if cloned else got is want
    if p == 'k_bucket' and not isinstance(want, str):
        if not cloned:
            return got is want
        return type(got) is type(want) and len(got) == len(want) and all(
            same_kernel(a.kernel, b.kernel) for a, b in zip(got, want))
    return type(got) is type(want) and got == want


def params_wrong(kind, est, par, cloned):
    full = dict(DEFAULT[kind], **par)
    for kw in ({}, {'deep': True}, {'deep': False}):
        got = est.get_params(**kw)
        if set(got) != set(full):
            return 'get_params names {} expected {}'.format(sorted(got), sorted(full))
        for p, v in full.items():
            if not same_value(p, got[p], v, cloned):
                return 'parameter {} is {!r} expected {!r}'.format(p, got[p], v)
    return None


_FRESH = {}


def fresh(kind, par, d):
    """predictions of an estimator given its parameters by the constructor, validated
    against the explicit-matrix SVM"""
    key = (kind, tuple(sorted(dict(DEFAULT[kind], **par).items(), key=str)), d)
    if key in _FRESH:
        return _FRESH[key]
    X, y = data(kind, d)
    est = build(kind, par)
    est.fit(X, y)
    got = np.asarray(est.predict(TEST))
    full = dict(DEFAULT[kind], **par)
    bad = None
    if kind in ('KM', 'KMR'):
        k = ref.gaussian(2.0) if full['k_func'] is None else kf(full['k_func'])[1]
        R = Ref(k, full['normalized'], 'SVR' if kind == 'KMR' else 'SVC', X, y, C=10)
        bad, _ = compare(got, R, TEST)
    elif full['k_bucket'] != 'exhaustive':
        svr = kind == 'SVR'
        menu, norm = (c18.STRAT['linear_only'], True) if full['k_bucket'] == 'linear_only' \
            else kf(full['k_bucket'])[1:]
        i = c18.which(est.opt_kernel_.kernel, menu)
        sp = {p: full[p] for p in ('C', 'epsilon', 'shrinking', 'tol') if p in full}
        if i is None:
            bad = 'kernel not in the bucket'
        elif not c18.best(i, c18.scores(menu, norm, X, y, full['method'], svr)) and \
                not c18.best(i, c18.real_scores(menu, norm, X, y, full['method'], svr)):
            bad = 'chosen kernel {} is not the best by {}'.format(i, full['method'])
        else:
            from kernelmethods.base import KernelMatrix
            from sklearn.svm import SVC, SVR
            tr = KernelMatrix(est.opt_kernel_.kernel, normalized=norm)
            tr.attach_to(X)
            te = KernelMatrix(est.opt_kernel_.kernel, normalized=norm)
            te.attach_to(TEST, sample_two=X)
            m = (SVR if svr else SVC)(kernel='precomputed', **sp).fit(tr.full, y)
            want = m.predict(te.full)
            if svr:
                ok = np.allclose(got, want, rtol=1e-4, atol=1e-4)
            else:
                # two classes: the decision value must be clearly away from zero
                d_ = np.abs(m.decision_function(te.full))
                ok = not ((got != want) & (d_ > 1e-3)).any()
                own = np.asarray(est.dual_coef_)
                ok = ok and own.shape == m.dual_coef_.shape and np.allclose(
                    own, m.dual_coef_, rtol=1e-3, atol=1e-3)
            if not ok:
                bad = 'predictions {} expected {} with {}'.format(got, want, sp)
    _FRESH[key] = (got, bad)
    return _FRESH[key]


def pred_wrong(kind, est, par, d):
    want, bad = fresh(kind, par, d)
    if bad:
        return 'built by the constructor: ' + bad
    got = np.asarray(est.predict(TEST))
    if got.shape != want.shape or (
            not np.allclose(got, want, rtol=1e-6, atol=1e-7) if kind in ('KMR', 'SVR')
            else not np.array_equal(got, want)):
        return 'predicts {} but one built with {} predicts {}'.format(
            got.tolist(), par, want.tolist())
    return None


def ops_of(kind, menu):
    o = [('set', p, v) for p, vs in menu.items() for v in vs]
    first = {p: vs[-1] for p, vs in menu.items()}
    o.append(('set all', tuple(first.items())))
    return o + [('fit', 'A'), ('fit', 'B'), ('clone',), ('predict',), ('set none',)]


class Entry:
    def __init__(self, est, par, cloned):
        self.est, self.par, self.cloned = est, dict(par), cloned
        self.fitted = None            # (parameters at fit, data)


def histories(acc, kind, menu, depth, prefix):
    from sklearn.base import clone
    ops = ops_of(kind, menu)
    for rest in itertools.product(ops, repeat=depth - len(prefix)):
        hist = prefix + rest
        what = '{} {}: {}'.format(kind, START[kind], ' ; '.join(map(str, hist)))
        world = [Entry(build(kind, START[kind]), START[kind], False)]
        for op in hist:
            acc.transitions += 1
            e = world[-1]
            r = e.est
            if op[0] == 'set':
                r = e.est.set_params(**{op[1]: value(op[1], op[2])})
                e.par[op[1]] = op[2]
                if op[1] in ('k_func', 'k_bucket'):
                    e.cloned = False
            elif op[0] == 'set all':
                r = e.est.set_params(**{p: value(p, v) for p, v in op[1]})
                e.par.update(dict(op[1]))
                e.cloned = False
            elif op[0] == 'set none':
                r = e.est.set_params()
            elif op[0] == 'fit':
                r = e.est.fit(*data(kind, op[1]))
                e.fitted = (dict(e.par), op[1])
            elif op[0] == 'clone':
                c = clone(e.est)
                world.append(Entry(c, e.par, True))
                if type(c) is not type(e.est):
                    acc.violate('clone is a {}'.format(type(c)), what)
                    return
            elif op[0] == 'predict':
                if e.fitted is None:
                    try:
                        e.est.predict(TEST)
                        acc.violate('predicts before fit', what)
                        return
                    except Exception:
                        pass
                elif e.fitted[0] == e.par:
                    bad = pred_wrong(kind, e.est, *e.fitted)
                    if bad:
                        acc.violate(bad, what)
                        return
            if r is not e.est:
                acc.violate('{} does not return the estimator'.format(op), what)
                return
        for i, e in enumerate(world):
            bad = params_wrong(kind, e.est, e.par, e.cloned)
            if not bad and e.fitted and e.fitted[0] == e.par:
                bad = pred_wrong(kind, e.est, *e.fitted)
            if not bad and e.fitted is None:
                try:
                    e.est.predict(TEST)
                    bad = 'predicts before fit'
                except Exception:
                    pass
            if not bad:            # the next fit uses the current parameters
                e.est.fit(*data(kind, 'A'))
                acc.transitions += 1
                bad = pred_wrong(kind, e.est, e.par, 'A') or \
                    params_wrong(kind, e.est, e.par, e.cloned)
            if bad:
                acc.violate('estimator {} of {}: {}'.format(i, len(world), bad), what)
                return
            acc.out((kind, sorted(e.par.items(), key=str)))
        acc.states += 1
        acc.traces += 1
    acc.sample(what)


def configs(acc, kind, combos, orders):
    """constructor == set_params in any order == clone, for every parameter combination"""
    from sklearn.base import clone
    names = list(MENU[kind])
    for vals in combos:
        par = dict(zip(names, vals))
        what = '{} {}'.format(kind, par)
        ests = [('constructor', build(kind, par), False)]
        for o in orders:
            e = cls(kind)()
            for i in o:
                e.set_params(**{names[i]: value(names[i], vals[i])})
            ests.append(('set_params in order {}'.format([names[i] for i in o]), e, False))
        for o in orders:
            ests.append(('one set_params in order {}'.format([names[i] for i in o]),
                         cls(kind)().set_params(**{names[i]: value(names[i], vals[i])
                                                   for i in o}), False))
        ests.append(('clone', clone(ests[0][1]), True))
        ests.append(('clone of a clone', clone(clone(ests[1][1])), True))
        for how, e, c in ests:
            bad = params_wrong(kind, e, par, c)
            acc.transitions += 1
            if not bad and (how in ('constructor', 'clone') or how == ests[1][0]):
                e.fit(*data(kind, 'A'))
                bad = pred_wrong(kind, e, par, 'A') or params_wrong(kind, e, par, c)
            if bad:
                acc.violate('by {}: {}'.format(how, bad), what)
                return
        # clone of a fitted estimator is unfitted, and the original keeps its fit
        e = ests[0][1]
        c = clone(e)
        try:
            c.predict(TEST)
            acc.violate('clone of a fitted estimator predicts', what)
            return
        except Exception:
            pass
        c.fit(*data(kind, 'B'))
        bad = pred_wrong(kind, e, par, 'A') or pred_wrong(kind, c, par, 'B')
        if bad:
            acc.violate('after fitting a clone: ' + bad, what)
            return
        acc.states += 1
        acc.traces += 1
    acc.sample(what)


def partial(acc, kind):
    """every subset of the constructor's parameters; the rest at documented defaults"""
    names = list(MENU[kind])
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            for pick in itertools.product(*[MENU[kind][p] for p in sub]):
                par = dict(zip(sub, pick))
                bad = params_wrong(kind, build(kind, par), par, False)
                acc.transitions += 1
                acc.states += 1
                if not bad:          # two estimators never share parameters
                    a, b = cls(kind)(), build(kind, par)
                    b.set_params(**{p: value(p, v[-1]) for p, v in MENU[kind].items()})
                    bad = params_wrong(kind, a, {}, False)
                if bad:
                    acc.violate(bad, '{}({})'.format(kind, par))
                    return
    if kind in ('KM', 'KMR'):
        # None stands for the default kernel; whatever becomes of it, the old one is gone
        e = build(kind, dict(k_func='lin'))
        e.set_params(k_func=None)
        got = e.get_params()['k_func']
        acc.transitions += 1
        if got is not None and not same_value('k_func', got, None, True):
            acc.violate('k_func set to None reads {}'.format(got), kind)
    acc.traces += 1


EXACT = {
    'SVC': dict(C=[1e-9, 1e9, 1, 0.1 + 0.2], tol=[1e-12, 1e-7, 2.0, 0.5], shrinking=[True, False]),
    'SVR': dict(C=[1e-9, 1e9, 1, 0.1 + 0.2], tol=[1e-12, 1e-7, 2.0], shrinking=[True, False],
                epsilon=[0.0, 0, 1e-12, 5.0, 1e-7]),
    'KM': dict(normalized=[True, False], learner_id=['SVC', 'svm', 'svc', 'SVM']),
    'KMR': dict(normalized=[True, False], learner_id=['SVR', 'svr', 'Svr']),
}


def exact(acc, kind):
    """extreme values are kept to the bit, by every route; unknown names next to known ones
    are refused or leave the known ones set"""
    from sklearn.base import clone
    names = list(EXACT[kind])
    for vals in itertools.product(*EXACT[kind].values()):
        kw = dict(zip(names, vals))
        a = cls(kind)(**kw)
        b = cls(kind)().set_params(**kw)
        c = cls(kind)()
        for n in reversed(names):
            c.set_params(**{n: kw[n]})
        for how, e in (('constructor', a), ('set_params', b), ('one by one', c),
                       ('clone', clone(a)), ('pickle', pickle.loads(pickle.dumps(a)))):
            acc.transitions += 1
            got = e.get_params()
            for n, v in kw.items():
                if type(got[n]) is not type(v) or got[n] != v or getattr(e, n) != v:
                    acc.violate('{} is {!r} expected {!r} by {}'.format(n, got[n], v, how),
                                '{} {}'.format(kind, kw))
                    return
        acc.states += 1
        acc.out((kind, vals))
    n = names[0]
    for v in EXACT[kind][n]:
        for kw in ({'nosuch': 1, n: v}, {n: v, 'nosuch': 1}, {'nosuch': 1, n: v, 'other_': None},
                   {'zzz': 0, n: v}, {n: v, 'kernel_': 'x'}):
            e = cls(kind)()
            acc.transitions += 1
            try:
                e.set_params(**kw)
            except Exception:
                continue
            if e.get_params()[n] != v:
                acc.violate('set_params({}) left {}={!r}'.format(kw, n, e.get_params()[n]),
                            kind)
                return
    acc.traces += 1


def search(acc, kind):
    """grid search of scikit-learn over the parameters == fitting each by hand"""
    from sklearn.model_selection import GridSearchCV, KFold
    X = np.vstack([XA, XB])
    y = np.concatenate([data(kind, 'A')[1], data(kind, 'B')[1]])
    menu = {'KM': dict(k_func=['lin', 'rbf', 'lap'], normalized=[False, True]),
            'KMR': dict(k_func=['lin', 'rbf', 'lap'], normalized=[False, True]),
            'SVC': dict(k_bucket=['b mix', 'bn rbfs'], C=[0.05, 30.0]),
            'SVR': dict(k_bucket=['b mix', 'bn rbfs'], C=[0.05, 30.0],
                        epsilon=[0.1, 0.6])}[kind]
    grid = {p: [value(p, v) for v in vs] for p, vs in menu.items()}
    cv = KFold(2)
    gs = GridSearchCV(build(kind, START[kind]), grid, cv=cv, error_score='raise').fit(X, y)
    for par, s0, s1 in zip(gs.cv_results_['params'], gs.cv_results_['split0_test_score'],
                           gs.cv_results_['split1_test_score']):
        for (tr, te), s in zip(cv.split(X), (s0, s1)):
            e = build(kind, START[kind])
            full = e.get_params()
            full.update(par)
            e = cls(kind)(**full).fit(X[tr], y[tr])
            acc.transitions += 1
            if abs(e.score(X[te], y[te]) - s) > 1e-6:
                acc.violate('grid search scored {} by hand {}'.format(
                    s, e.score(X[te], y[te])), '{} {}'.format(kind, par))
                return
    acc.states += 1
    acc.traces += 1


def run(ctx):
    ctx.explore(partial, [(k,) for k in MENU])
    ctx.explore(search, [(k,) for k in MENU])
    ctx.explore(exact, [(k,) for k in MENU])
    t = []
    for k, m in MENU.items():
        combos = list(itertools.product(*m.values()))
        n = len(m)
        orders = list(itertools.permutations(range(n))) if n <= 3 else \
            [o for i in range(n) for o in (tuple(range(i, n)) + tuple(range(i)),
                                           tuple(reversed(range(i, n))) +
                                           tuple(reversed(range(i))))]
        if ctx.thorough and n > 3:
            orders = list(itertools.permutations(range(n)))
        t += [(k, combos[i::16], orders) for i in range(16)]
    ctx.explore(configs, [x for x in t if x[1]])
    t = []
    for k in ('KM', 'KMR'):
        d = ctx.pick(4, 5)
        menu = dict(MENU[k], k_func=['lin', 'rbf'])
        t += [(k, menu, d, (o,)) for o in ops_of(k, menu)]
    for k in ('SVC', 'SVR'):
        menu = dict(MENU[k], k_bucket=['b mix', 'bn rbfs'], C=[1.0, 30.0])
        d = ctx.pick(2, 3)
        t += [(k, menu, d, (o,)) for o in ops_of(k, menu)]
        light = dict(k_bucket=['b mix', 'bn rbfs'], C=[30.0])
        if k == 'SVR':
            light['epsilon'] = [0.6]
        d = ctx.pick(3, 4)
        t += [(k, light, d, (o,)) for o in ops_of(k, light)]
    ctx.explore(histories, t)
    ctx.assumptions.append('predicting after set_params without refitting is not judged')
