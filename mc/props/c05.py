"""C05: live objects do not interfere; user data and earlier results stay as they were."""
import itertools

import numpy as np
from scipy.sparse import issparse

from mc import ref
from mc.kmworld import TKernel, World

BASE = {'A': [[1., 2.], [3., -1.], [2., 2.]], 'B': [[0., 5.], [-2., 1.], [4., 3.]],
        'C': [[1., 1.], [6., -3.]]}


def _f(x, y):
    return float(np.dot(x, y)) ** 2 + 1


def _g(x, y):
    return float(np.dot(x, y)) ** 2 + 3


def kernels(cfg):
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.base import KernelFromCallable
    t = TKernel()
    v = TKernel.value
    if cfg in ('same', 'eqdata', 'views'):
        return [(t, v, False), (t, v, False)]
    if cfg == 'mixnorm':
        return [(t, v, False), (t, v, True)]
    if cfg == 'bothnorm':
        return [(t, v, True), (t, v, True)]
    if cfg == 'name':
        return [(KernelFromCallable(_f, name='k'), _f, False),
                (KernelFromCallable(_g, name='k'), _g, False)]
    if cfg == 'sigma':
        return [(nk.GaussianKernel(2.0), ref.gaussian(2.0), False),
                (nk.GaussianKernel(3.0), ref.gaussian(3.0), False)]
    if cfg == 'poly':
        return [(nk.PolyKernel(2, skip_input_checks=True), ref.poly(2), True),
                (nk.PolyKernel(2, b=2.0, skip_input_checks=True), ref.poly(2, 1.0, 2.0), True)]
    if cfg == 'lin':
        k = nk.LinearKernel()
        return [(k, ref.linear(), True), (k, ref.linear(), False)]
    raise KeyError(cfg)


OPS = [('attach', 'A'), ('attach', 'B'), ('attach2', 'A', 'C'), ('full',), ('normed',),
       ('centered',), ('frob',), ('diag',), ('get', ':,:'), ('get', '0,:'), ('sparse',),
       ('scribble',), ('tag',)]


def worlds(cfg, count):
    data = {k: np.array(v) + (count % 5) for k, v in BASE.items()}
    if cfg == 'views':
        big = np.vstack([data['A'], data['B']])
        data = {'A': big[:3], 'B': big[2:5], 'C': big[:2]}
    ws = []
    for k, r, nm in kernels(cfg):
        w = World(k, r, [], nm)
        w.samples = {q: a.copy() for q, a in data.items()} if cfg == 'eqdata' else data
        w.dirty = False
        w.tag = None
        ws.append(w)
    return ws


def interleave(acc, cfg, first, depth):
    ops = [(i, op) for i in (0, 1) for op in OPS]
    count = 0
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = ((0, ('attach', 'A')), (1, ('attach', 'A')), first) + rest
        if not any(o[0] != first[0] for o in rest):
            continue        # both objects must take part to interfere (C01 has the rest)
        count += 1
        ws = worlds(cfg, count)
        users = {id(a): (a, a.copy()) for w in ws for a in w.samples.values()}
        held = []

        def do(i, op):
            w = ws[i]
            if op[0] == 'scribble':
                for e in held[::-1]:
                    if e[0] == i and e[1].flags.writeable and e[1].size:
                        e[1][...] = -777.0
                        w.dirty = True
                        held[:] = [h for h in held if h[0] != i]
                        break
                return None
            if op[0] == 'tag':
                w.km.set_attr('t', (i, len(held)))
                w.tag = (i, len(held))
                return None
            if w.km.get_attr('t') != w.tag:
                return 'attribute is {} instead of {}'.format(w.km.get_attr('t'), w.tag)
            if op[0] in ('attach', 'attach2'):
                w.dirty = False
                w.tag = None
            try:
                res, exc = w.run(op), None
            except Exception as e:
                res, exc = None, e
            if not w.dirty:
                bad = w.judge(op, res, exc)
                if bad:
                    return bad
            if op[0] in ('attach', 'attach2'):
                w.set_model(*op[1:])
            if isinstance(res, np.ndarray):
                held.append((i, res, res.copy(), op))
            return None
        audit = [(i, op) for i in (0, 1) for op in (('full',), ('normed',), ('frob',),
                                                   ('get', '0,0'))]
        for n, (i, op) in enumerate(seq + tuple(audit)):
            bad = do(i, op)
            acc.transitions += 1
            if not bad:
                for j, a, c, o in held:
                    if not np.array_equal(a, c, equal_nan=True):
                        bad = 'the result of {} on object {}, obtained earlier, changed' \
                              ''.format(o, j)
                for a, c in users.values():
                    if not np.array_equal(a, c):
                        bad = 'the sample given by the user was modified'
            if bad:
                acc.violate('config {}: object {} {}: {}'.format(cfg, i, op, bad),
                            'history: {}'.format(seq + tuple(audit[:max(0, n - len(seq) + 1)])))
                return
        acc.traces += 1
        acc.states += 1
    acc.sample('{} {}'.format(cfg, seq))


def holding(acc, cfg, first, depth):
    """one object used again and again: what it handed out before keeps its contents"""
    ops = [o for o in OPS if o[0] not in ('scribble', 'tag')]
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (('attach', 'A'), first) + rest
        w = worlds(cfg, 0)[1]
        held = []
        for op in seq + (('full',), ('diag',), ('get', ':,:')):
            try:
                res, exc = w.run(op), None
            except Exception as e:
                res, exc = None, e
            bad = w.judge(op, res, exc)
            if op[0] in ('attach', 'attach2') and exc is None:
                w.set_model(*op[1:])
            for o, a, c in held:
                if a.shape != c.shape or a.tobytes() != c.tobytes():
                    bad = 'the result of {} obtained earlier changed'.format(o)
            if issparse(res):
                held.append((op, res.data, res.data.copy()))
            if isinstance(res, np.ndarray):
                held.append((op, res, res.copy()))
            acc.transitions += 1
            if bad:
                acc.violate('config {}: {}: {}'.format(cfg, op, bad), 'history: {}'.format(seq))
                return
        acc.traces += 1
        acc.states += 1


def members(acc, action, kind, normalized):
    """values of the members of a set are bit for bit the same after it was used"""
    from kernelmethods import operations as op, ranking as rk, sampling as sp
    from kernelmethods import base as B, numeric_kernels as nk
    from mc import ref as _r
    rng = np.random.default_rng(5)
    X = np.round(rng.uniform(-2, 2, (10, 3)), 2)
    y = np.array([0, 1] * 5)
    if kind == 'bucket':
        b = sp.KernelBucket((2, 3), (1.0, 0.5), (0.5,), None, None,
                            normalize_kernels=normalized)
    else:
        b = B.KernelSet([B.KernelMatrix(k, normalized=normalized) for k in (
            nk.PolyKernel(2), nk.GaussianKernel(1.5), nk.LaplacianKernel(), TKernel())])
    b.attach_to(X)
    if kind == 'mixed':
        K = X @ X.T
        b.append(B.KernelMatrixPrecomputed(K))
    acts = {'cv': lambda: rk.CV_ranking(b, y, num_folds=2),
            'cv3': lambda: rk.rank_kernels(b, y, method='cv_risk'),
            'align': lambda: rk.rank_kernels(b, y, method='align/corr'),
            'sim': lambda: sp.pairwise_similarity(b, 'align'),
            'corr': lambda: sp.pairwise_similarity(b, 'corr'),
            'lin': lambda: op.linear_combination(b, np.arange(len(b)) + 1.0),
            'sum': lambda: B.SumKernel(b).fit(), 'prod': lambda: B.ProductKernel(b).fit(),
            'avg': lambda: B.AverageKernel(b).fit(),
            'wavg': lambda: B.WeightedAverageKernel(b, [0.5] * len(b)).fit(),
            'take': lambda: b.take([0, 1]), 'attr': lambda: b.set_attr('a', 3)}
    if kind == 'mixed':
        acts['attr'] = acts['take']     # precomputed members have no attributes
    for pre in (None,) + tuple(acts):
        if pre:
            acts[pre]()
        held = [m.full for m in b]
        raws = [(m[:, :] if isinstance(m, B.KernelMatrix) else m.full) for m in b]
        was = [a.tobytes() for a in held + raws]
        acts[action]()
        now = [m.full for m in b] + [(m[:, :] if isinstance(m, B.KernelMatrix) else m.full)
                                     for m in b]
        acc.transitions += 1
        if [a.tobytes() for a in held + raws] != was or [a.tobytes() for a in now] != was:
            acc.violate('{} after {} changed the values of a member'.format(action, pre),
                        '{} normalized={}'.format(kind, normalized))
            return
        acc.traces += 1
    acc.states += 1


def user_kernels(acc, cls, params):
    """kernel functions keep their parameters and values when used in any way"""
    from kernelmethods import algorithms as A, base as B, numeric_kernels as nk, sampling as sp
    k = getattr(nk, cls)(**params)
    X = np.array([[1.0, 2.0], [0.5, 1.5], [3.0, 0.25], [2.0, 2.5], [0.75, 0.5], [1.5, 3.0]])
    y = np.array([0, 1, 0, 1, 1, 0])

    def probe():
        vs = []
        for i, j in itertools.product(range(4), repeat=2):
            vs.append(float(k(X[i], X[j])))
        return vs, str(k), {n: v for n, v in vars(k).items() if n in params}
    was = probe()

    def matrix(nm, two):
        km = B.KernelMatrix(k, normalized=nm)
        km.attach_to(X, sample_two=X[:2] * 1.5 if two else None)
        km.full, km.frob_norm, km[0, :], km.normed_km, km.full_sparse, str(km)
        if not two:
            km.centered, km.diagonal()
    acts = [('matrix {} {}'.format(nm, t), lambda nm=nm, t=t: matrix(nm, t))
            for nm in (False, True) for t in (False, True)]
    acts += [('set', lambda: B.KernelSet([B.KernelMatrix(k)]).attach_to(X)),
             ('psd', lambda: k.is_psd())]
    acts += [('machine {}'.format(nm), lambda nm=nm: A.KernelMachine(
        k, normalized=nm).fit(X, y).predict(X)) for nm in (False, True)]
    acts += [('regressor', lambda: A.KernelMachineRegressor(k).fit(X, y).predict(X))]

    def bucket():
        b = sp.KernelBucket(None, None, None, None, None, normalize_kernels=True)
        b.append(B.KernelMatrix(k, normalized=True))
        A.OptimalKernelSVC(k_bucket=b, method='align/corr').fit(X, y).predict(X)
    acts.append(('optimal', bucket))
    for lab, f in acts:
        try:
            f()
        except Exception as e:
            acc.note('raised: {}: {}'.format(lab, type(e).__name__)[:60])
        acc.transitions += 1
        if probe() != was:
            acc.violate('{} changed the kernel to {}'.format(lab, k), '{} {}'.format(cls, params))
            return
    acc.states += 1
    acc.traces += 1


PARAMS = [('LinearKernel', {})] + \
    [('PolyKernel', dict(degree=d, gamma=g, b=b)) for d in (1, 2, 3) for g in (1.0, 0.5)
     for b in (1.0, 0.0, -1.0, 2.5)] + \
    [('GaussianKernel', dict(sigma=s)) for s in (0.5, 2.0, 1e3)] + \
    [('LaplacianKernel', dict(gamma=g)) for g in (0.25, 1.0, 30.0)] + \
    [('Chi2Kernel', dict(gamma=g)) for g in (0.25, 1.0)] + \
    [('SigmoidKernel', dict(gamma=g, offset=o)) for g in (0.1, 1.0) for o in (0.0, 1.0, -2.0)] + \
    [('HadamardKernel', dict(alpha=a)) for a in (1, 2, 3)]


def sets(acc, first, depth):
    """sets, subsets, composites, buckets and rankings living side by side"""
    from kernelmethods.base import (AverageKernel, KernelMatrix, KernelSet, ProductKernel,
                                    SumKernel)
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.operations import linear_combination
    from kernelmethods.ranking import rank_kernels
    from kernelmethods.sampling import KernelBucket, pairwise_similarity
    data = {k: np.array(v) for k, v in BASE.items() if k != 'C'}
    y = np.array([1., -1., 2.])
    refs = [TKernel.value, ref.gaussian(2.0), ref.linear()]
    raw = {(q, i): ref.raw_km(r, ref.rows(a)) for q, a in data.items()
           for i, r in enumerate(refs)}
    brefs = [ref.linear(), ref.poly(2)]
    braw = {(q, i): ref.raw_km(r, ref.rows(a)) for q, a in data.items()
            for i, r in enumerate(brefs)}
    ops = ['set1A', 'set1B', 'set2A', 'set2B', 'buckA', 'buckB', 'buck2A', 'fit0', 'fit1',
           'fit2', 'lin', 'rank', 'sim', 'full', 'kmB']
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        tk, gk, lk = TKernel(), nk.GaussianKernel(2.0), nk.LinearKernel()
        mk = lambda k: KernelMatrix(k, normalized=False)
        s1 = KernelSet([mk(tk), mk(gk)])
        s2 = KernelSet([mk(tk), mk(lk)])        # shares the kernel function tk with s1
        lone = mk(tk)
        b1 = KernelBucket(poly_degree_values=(2,), rbf_sigma_values=None,
                          laplace_gamma_values=None, sigmoid_gamma_values=None,
                          sigmoid_offset_values=None, normalize_kernels=False)
        b2 = KernelBucket(poly_degree_values=(2,), rbf_sigma_values=None,
                          laplace_gamma_values=None, sigmoid_gamma_values=None,
                          sigmoid_offset_values=None, normalize_kernels=False)
        s1.attach_to(data['A'])
        s2.attach_to(data['A'])
        lone.attach_to(data['A'])
        comps = [SumKernel(s1), ProductKernel(s1), AverageKernel(s2)]
        at = {'s1': 'A', 's2': 'A', 'b1': None, 'b2': None, 'lone': 'A'}
        fits = [None] * 3
        weights = np.array([2.0, -1.0])
        keep = [(data['A'], data['A'].copy()), (data['B'], data['B'].copy()),
                (weights, weights.copy()), (y, y.copy())]
        held = []

        def members(name):
            obj, ix, rr = {'s1': (s1, (0, 1), raw), 's2': (s2, (0, 2), raw),
                           'b1': (b1, (0, 1), braw), 'b2': (b2, (0, 1), braw)}[name]
            return [(m, rr[(at[name], i)]) for m, i in zip(obj, ix)]

        def hold(a):
            held.append((a, np.array(a, copy=True)))

        def expect(what, got, want):
            if not ref.close(got, want):
                return '{} is\n{}\nexpected\n{}'.format(what, got, want)

        def do(op):
            if op in ('set1A', 'set1B', 'set2A', 'set2B'):
                s, q = (s1, 's1') if op[3] == '1' else (s2, 's2')
                s.attach_to(data[op[4]])
                at[q] = op[4]
            elif op in ('buckA', 'buckB'):
                b1.attach_to(data[op[4]])
                at['b1'] = op[4]
            elif op == 'buck2A':
                b2.attach_to(data['A'])
                at['b2'] = 'A'
            elif op == 'kmB':
                lone.attach_to(data['B'])
                at['lone'] = 'B'
            elif op.startswith('fit'):
                i = int(op[3])
                comps[i].fit()
                m = [w for _, w in members('s2' if i == 2 else 's1')]
                fits[i] = [m[0] + m[1], m[0] * m[1], (m[0] + m[1]) / 2][i]
                hold(comps[i].full)
                return expect(op, comps[i].full, fits[i])
            elif op == 'lin':
                r = linear_combination(s1, weights)
                m = [w for _, w in members('s1')]
                hold(r)
                return expect(op, r, 2 * m[0] - m[1])
            elif op == 'rank':
                if at['b1'] is None:
                    return None
                r = rank_kernels(b1, y, method='align/corr')
                hold(r)
                return expect(op, r, [ref.alignment(w, np.outer(y, y))
                                      for _, w in members('b1')])
            elif op == 'sim':
                r = pairwise_similarity(s2, 'align')
                m = [w for _, w in members('s2')]
                hold(r)
                return expect(op, r, [[ref.alignment(p, q) for p in m] for q in m])
            elif op == 'full':
                for n in ('s1', 's2', 'b1', 'b2'):
                    if at[n] is not None:
                        for j, (m, w) in enumerate(members(n)):
                            hold(m.full)
                            bad = expect('member {} of {}'.format(j, n), m.full, w)
                            if bad:
                                return bad
            return None

        def audit():
            bad = do('full')
            for i, f in enumerate(fits):
                if f is not None and not bad:
                    bad = expect('composite {}'.format(i), comps[i].full, f)
            return bad or expect('lone matrix', lone.full, raw[(at['lone'], 0)])

        for op in seq + ('audit',):
            bad = audit() if op == 'audit' else do(op)
            acc.transitions += 1
            if not bad and any(not np.array_equal(a, c) for a, c in held):
                bad = 'a result handed out earlier changed'
            if not bad and any(not np.array_equal(a, c) for a, c in keep):
                bad = 'user data was modified'
            if bad:
                acc.violate('{}: {}'.format(op, bad), 'history: {}'.format(seq))
                return
        acc.traces += 1
        acc.states += 1
    acc.sample(str(seq))


def estimators(acc, kind, depth):
    """two estimators sharing kernel function / bucket and data, fits and predictions
    interleaved; each must predict as it does when used alone"""
    from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor,
                                          OptimalKernelSVC, OptimalKernelSVR)
    from kernelmethods.sampling import KernelBucket
    rng = np.random.default_rng(3)
    X1 = np.round(rng.normal(size=(9, 2)), 2)
    X2 = np.round(rng.normal(size=(9, 2)) + 0.5, 2)
    y1 = np.array([0, 1] * 4 + [1])
    y2 = np.array([0, 0, 0, 1, 1, 1, 0, 1, 1])
    if kind in ('KMR', 'OSVR'):
        y1 = X1[:, 0] * 2.0 + np.arange(9) / 9
        y2 = X2[:, 1] - np.arange(9) / 3
    T = np.round(rng.normal(size=(5, 2)), 2)
    tk = TKernel()

    def bucket():
        return KernelBucket(poly_degree_values=(2,), rbf_sigma_values=(1.0,),
                            laplace_gamma_values=None, sigmoid_gamma_values=None,
                            sigmoid_offset_values=None)
    shared = bucket()
    descr = str(shared)

    def mk(alone):
        if kind == 'KM':
            return KernelMachine(TKernel() if alone else tk, normalized=True)
        if kind == 'KMR':
            return KernelMachineRegressor(TKernel() if alone else tk, normalized=True)
        cls = OptimalKernelSVC if kind == 'OSVC' else OptimalKernelSVR
        return cls(bucket() if alone else shared, method='align/corr', C=2.0)
    exp = {}
    for d, (X, y) in {'1': (X1, y1), '2': (X2, y2)}.items():
        exp[d] = mk(True).fit(X, y).predict(T)
    user = [X1, X2, y1, y2, T]
    copies = [a.copy() for a in user]
    ops = [(w, o) for w in (0, 1) for o in ('fit1', 'fit2', 'pred')]
    for seq in itertools.product(ops, repeat=depth):
        if len({w for w, _ in seq}) < 2 or seq[0][1] == 'pred':
            continue
        ms = [mk(False), mk(False)]
        st = [None, None]
        held = []
        for w, o in seq + ((0, 'pred'), (1, 'pred')):
            acc.transitions += 1
            bad = None
            if o == 'pred':
                if st[w] is None:
                    continue
                r = ms[w].predict(T)
                if not ref.close(r, exp[st[w]], 1e-4, 1e-4):
                    bad = 'predicted {} instead of {}'.format(r, exp[st[w]])
                held.append((r, r.copy()))
            else:
                st[w] = o[3]
                ms[w].fit(*((X1, y1) if o == 'fit1' else (X2, y2)))
            if any(not np.array_equal(a, c) for a, c in held):
                bad = 'earlier predictions changed'
            if any(not np.array_equal(a, c) for a, c in zip(user, copies)):
                bad = 'user data was modified'
            if str(shared) != descr or shared.num_samples is not None:
                bad = 'the bucket of the user was changed to {}'.format(shared)
            if bad:
                acc.violate('{}: {}'.format(kind, bad), str(seq))
                return
        acc.traces += 1
        acc.states += 1
    acc.sample('{} {}'.format(kind, seq))


def inputs(acc, dtype, order, variant):
    """every public entry point leaves its array / list arguments alone"""
    from kernelmethods import numeric_kernels as nk, operations as op, sampling, ranking
    from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor,
                                          OptimalKernelSVC, OptimalKernelSVR)
    from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelMatrix,
                                    KernelMatrixPrecomputed, KernelSet, ProductKernel,
                                    SumKernel, WeightedAverageKernel)
    from kernelmethods.categorical import MatchCountKernel
    from kernelmethods import utils
    sign = {'neg': -1, 'zero': 0}.get(variant, 1)

    def mk(v):
        a = np.array(v, dtype=dtype, order=order)
        if sign < 0 and (a.dtype.kind == 'u' or a.ndim == 2 and a.shape[0] == a.shape[1]):
            pass                    # kernel matrices keep their diagonal
        else:
            a = np.array(a * sign, dtype=dtype, order=order)
        if variant == 'nan' and a.dtype.kind == 'f' and a.shape != (3, 3):
            a.flat[-1] = np.nan
        if variant == 'big' and a.dtype.itemsize > 1:
            a *= 100
        if variant == 'view':       # part of a larger array of the user
            big = np.zeros(tuple(2 * s for s in a.shape), dtype, order=order)
            bigs.append(big)
            v = big[tuple(slice(0, s) for s in a.shape)]
            v[...] = a
            return v
        if variant == 'readonly':
            a.flags.writeable = False
        return a
    bigs = []
    K = mk([[4, 1, 2], [1, 5, 1], [2, 1, 9]])
    L = mk([[3, 0, 1], [0, 3, 1], [1, 1, 2]])
    X = mk([[1, 2], [3, 1], [2, 2], [0, 4], [5, 5], [1, 1], [4, 0], [2, 6], [3, 3]])
    Y = mk([[1, 1], [2, 0]])
    S = np.array([['a', 'b'], ['a', 'c']])
    y = np.array([0, 1, 0, 1, 0, 1, 0, 1, 1])
    yr = mk([1, 2, 0, 4, 3, 1, 2, 5, 6])
    sw = np.linspace(1, 2, 9)
    w2 = mk([2, 1])
    wl = [2.0, 1.0]
    idx = [1, 0]
    tg = [1, 2, 3]
    vals = [3, 2, 4]
    fvals = [2.0, 0.5, 1.0]
    Kn = K if dtype not in (np.float64, np.float32) or variant == 'readonly' else K.copy()
    if Kn is not K:
        Kn[0, 1] = Kn[0, 1] * (1 + 4 * np.finfo(dtype).eps)
    x1, x2 = mk([1, 0, 3, -0.0]), mk([2, 0, 1, 5])
    kfs = list(nk.DEFINED_KERNEL_FUNCS) + [type(k)(skip_input_checks=True)
                                            for k in nk.DEFINED_KERNEL_FUNCS]
    kset = KernelSet([K, L])
    calls = [('kernel {}'.format(k), lambda k=k: k(x1, x2)) for k in kfs]
    calls += [('kernel {} twice'.format(k), lambda k=k: k(x1, x1)) for k in kfs]
    calls += [('kernel {} rows'.format(k), lambda k=k: k(X[0, :], X[1, :])) for k in kfs]
    calls += [
        ('match', lambda: MatchCountKernel()(S[0], S[1])),
        ('is_PSD', lambda: op.is_PSD(K)), ('center', lambda: op.center_km(K)),
        ('normalize', lambda: op.normalize_km(K)),
        ('normalize2', lambda: op.normalize_km_2sample(K, w3, w3)),
        ('fprod', lambda: op.frobenius_product(K, L)), ('fnorm', lambda: op.frobenius_norm(K)),
        ('align', lambda: op.alignment_centered(K, L)),
        ('align same', lambda: op.alignment_centered(K, K)),
        ('align already', lambda: op.alignment_centered(K, L, centered_already=True)),
        ('align value', lambda: op.alignment_centered(K, K * 0, value_if_zero_division=0.0)),
        ('is_PSD tol', lambda: op.is_PSD(L, 1e-3)),
        ('psd asym', lambda: op.is_PSD(X[:2, :2])), ('center asym', lambda: op.center_km(X[:2, :2])),
        ('attach set', lambda: KernelSet([KernelMatrix(kfs[4]), KernelMatrix(kfs[5])]).attach_to(
            X, attr_name='a', attr_value=wl)),
        ('const', lambda: ConstantKernelMatrix(3, 2.0)[idx, np.array(idx)]),
        ('pre list', lambda: KernelMatrixPrecomputed(K)[idx]),
        ('symmetric', lambda: utils.not_symmetric(K)), ('naninf', lambda: utils.contains_nan_inf(K)),
        ('check', lambda: utils.check_input_arrays(x1, x2)),
        ('prod', lambda: ProductKernel(kset).fit()), ('avg', lambda: AverageKernel(kset).fit()),
        ('rank align', lambda: ranking.alignment_ranking(kset, w3)),
        ('rank list', lambda: ranking.rank_kernels(kset, tg, method='align/corr')),
        ('lincomb', lambda: op.linear_combination(kset, w2, norm_weights=True)),
        ('lincomb list', lambda: op.linear_combination(kset, wl, norm_weights=True)),
        ('ideal', lambda: sampling.ideal_kernel(tg)),
        ('ideal arr', lambda: sampling.ideal_kernel(yr)),
        ('corr', lambda: sampling.correlation_km(K, L)),
        ('sim', lambda: sampling.pairwise_similarity(kset, 'align')),
        ('sum', lambda: SumKernel(kset).fit(w2)),
        ('wavg', lambda: WeightedAverageKernel(kset, w2).fit()),
        ('pre', lambda: KernelMatrixPrecomputed(K)[0:2, 1]),
        ('take', lambda: kset.take(idx)), ('funcs', lambda: kset.take(np.array(idx))),
        ('attr', lambda: kset.set_attr('a', wl)),
        ('bucket', lambda: sampling.KernelBucket(poly_degree_values=vals)),
        ('bucket floats', lambda: sampling.KernelBucket(
            rbf_sigma_values=fvals, laplace_gamma_values=fvals, sigmoid_gamma_values=fvals,
            sigmoid_offset_values=fvals)),
        ('pre near', lambda: KernelMatrixPrecomputed(Kn).full),
        ('near', lambda: [f(Kn) for f in (op.is_PSD, op.center_km, op.normalize_km,
                                          op.frobenius_norm)]),
        ('set near', lambda: KernelSet([Kn, K]).size),
        ('scale', lambda: utils.min_max_scale(yr)),
    ]
    w3 = mk([1, 2, 4])
    for k in kfs:
        for nm in (False, True):
            def use(k=k, nm=nm):
                km = KernelMatrix(k, normalized=nm)
                km.attach_to(X)
                km[idx, [0, 2, 1]]
                km.full, km.full_sparse, km.centered, km.normed_km, km.frob_norm
                km.attach_to(X, sample_two=Y)
                km.full, km.normed_km
            calls.append(('matrix {} {}'.format(k, nm), use))
    for nm in (False, True):
        for f in (lambda e: e.fit(X, y).predict(Y), lambda e: e.fit(X, y, sw).predict(Y)):
            calls.append(('KM', lambda nm=nm, f=f: f(KernelMachine(normalized=nm))))
        for f in (lambda e: e.fit(X, yr).predict(Y), lambda e: e.fit(X, yr, sw).predict(Y)):
            calls.append(('KMR', lambda nm=nm, f=f: f(KernelMachineRegressor(normalized=nm))))
    kb = lambda: sampling.make_kernel_bucket('linear_only', normalize_kernels=False)
    if variant in ('big', 'nan'):       # libsvm may take for ever on these
        calls = [c for c in calls if c[0] not in ('KM', 'KMR')]
    else:
        calls += [('OSVC', lambda: OptimalKernelSVC(kb()).fit(X, y, sw).predict(Y)),
                  ('OSVR', lambda: OptimalKernelSVR(kb()).fit(X, yr, sw).predict(Y)),
                  ('find', lambda: ranking.find_optimal_kernel(kb(), X, y, method='cv_risk')),
                  ('find2', lambda: ranking.find_optimal_kernel(kb(), X, y,
                                                                method='align/corr'))]
    arrs = {'big{}'.format(i): b for i, b in enumerate(bigs)}
    arrs.update(K=K, L=L, X=X, Y=Y, S=S, y=y, yr=yr, sw=sw, w2=w2, x1=x1, x2=x2, w3=w3,
                Kn=Kn)
    copies = {n: (a.tobytes(), a.shape, a.flags.writeable) for n, a in arrs.items()}
    lists = dict(wl=wl, idx=idx, tg=tg, vals=vals, fvals=fvals)
    lcopies = {n: list(v) for n, v in lists.items()}
    for lab, f in calls:
        try:
            f()
        except Exception as e:
            acc.note('raised: {}: {}'.format(lab, type(e).__name__)[:60])
        acc.transitions += 1
        for n, a in arrs.items():
            if (a.tobytes(), a.shape, a.flags.writeable) != copies[n]:
                acc.violate('{} modified its argument {} (dtype {} order {})'.format(
                    lab, n, dtype, order), '')
                return
        if lists != lcopies:
            acc.violate('{} modified a list argument: {}'.format(lab, lists), '')
            return
        acc.states += 1
    acc.traces += 1


def made(acc, one, two, norms):
    """Buckets made by name, sets and estimators made by default have nothing in common"""
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket
    mk = {'default': lambda nm: KernelBucket(normalize_kernels=nm)}
    X = np.array([[1., 2], [.5, 1], [2, .3], [1, 1]])
    a, b = (mk[n](nm) if n in mk else make_kernel_bucket(n, normalize_kernels=nm)
            for n, nm in zip((one, two), norms))
    lens, texts = (len(a), len(b)), (str(a), str(b))
    what = '{} {} normalized={}'.format(one, two, norms)
    acc.transitions += 1
    if a is b or {id(k) for k in a} & {id(k) for k in b}:
        acc.violate('two buckets share kernel matrices', what)
        return
    a.attach_to(X)
    a.set_attr('t', 1)
    if b.num_samples is not None or str(b) != texts[1] or b.get_attr('t') != [None] * len(b):
        acc.violate('attaching one bucket changed another', what)
        return
    keep = [np.array(km.full, copy=True) for km in list(a)[:3]]
    b.attach_to(X[:3] * 2)
    b[0].full
    c = mk[one](norms[0]) if one in mk else make_kernel_bucket(one, normalize_kernels=norms[0])
    acc.transitions += 2
    if a.num_samples != 4 or len(a) != lens[0] or a.get_attr('t') != [1] * len(a) or \
            any(not np.array_equal(k, km.full, equal_nan=True) for k, km in zip(keep, a)):
        acc.violate('using one bucket changed another', what)
        return
    if str(c) != texts[0] or c.num_samples is not None:
        acc.violate('a bucket made later is {}'.format(c), what)
    acc.states += 1
    acc.traces += 1


def run(ctx):
    cfgs = ('same', 'eqdata', 'views', 'mixnorm', 'bothnorm', 'name', 'sigma', 'poly', 'lin')
    firsts = [(i, op) for i in (0, 1) for op in OPS if op[0] not in ('scribble', 'tag')]
    ctx.explore(interleave, [(c, f, ctx.pick(3, 4)) for c in cfgs for f in firsts])
    ctx.explore(holding, [(c, o, ctx.pick(3, 4)) for c in ('same', 'bothnorm', 'poly', 'lin')
                          for o in OPS if o[0] not in ('scribble', 'tag')])
    ctx.explore(members, [(a, k, nm) for a in ('cv', 'cv3', 'align', 'sim', 'corr', 'lin', 'sum',
                                               'prod', 'avg', 'wavg', 'take', 'attr')
                          for k in ('bucket', 'set', 'mixed') for nm in (False, True)])
    ctx.explore(user_kernels, PARAMS)
    st = ('light', 'linear_only', 'exhaustive', 'Light', 'default')
    ctx.explore(made, [(i, j, (m, n)) for i in st for j in st for m in (True, False)
                       for n in (True, False)])
    ops = ['set1A', 'set1B', 'set2A', 'set2B', 'buckA', 'buckB', 'buck2A', 'fit0', 'fit1',
           'fit2', 'lin', 'rank', 'sim', 'full', 'kmB']
    ctx.explore(sets, [(f, ctx.pick(3, 4)) for f in ops])
    ctx.explore(estimators, [(k, ctx.pick(4, 5)) for k in ('KM', 'KMR', 'OSVC', 'OSVR')])
    ctx.explore(inputs, [(d, o, v) for v in ('plain', 'neg', 'zero', 'nan', 'big', 'view', 'readonly')
                         for d in (np.float64, np.float32, np.int64, np.int8, np.uint8)
                         for o in ('C', 'F')])
