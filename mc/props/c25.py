"""C25: copies and pickles, compared with twins that lived the same history alone.

Every history is  ops before ; copy ; ops on the original and on the copy, interleaved.
The oracle for each of the two is a twin: a fresh object taken through exactly the ops
that this object (and its ancestor) saw, never copied and never shared.
"""
import copy
import itertools
import pickle

import numpy as np

from mc.props import c18

X = np.array([[1.0, 2.0], [0.5, 1.5], [2.0, 0.3]])
Y = np.array([[2.0, 1.0], [1.5, 1.0], [0.7, 0.2]])
W2 = np.array([[0.4, 0.9], [1.1, 3.0]])
CAT = np.array([['a', 'b'], ['b', 'b'], ['a', 'c']])
P = X.tolist()


def user_func(x, y, scale=1.0, power=1):
    return scale * float(np.dot(x, y)) ** power + 1.0


# ---------------------------------------------------------------- what can be seen
def see(f):
    try:
        v = f()
    except Exception as e:
        return ('raises', type(e).__name__)
    return snap(v)


def snap(v):
    if hasattr(v, 'toarray'):
        v = v.toarray()
    if isinstance(v, np.ndarray):
        return ('array', v.shape, v.dtype.kind, v.tolist())
    if isinstance(v, np.generic):
        return snap(v.item())
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if isinstance(v, dict):
        return sorted(((str(k), snap(x)) for k, x in v.items()))
    return v if isinstance(v, (int, float, str, bool, type(None))) else type(v).__name__


def eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return bool(np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
        except TypeError:
            return False
    return a == b


def obs_kernel(k):
    d = CAT.tolist() if 'Match' in type(k).__name__ else P
    return [see(lambda: k(np.array(a), np.array(b))) for a in d for b in d] + [
        see(lambda: str(k)), see(lambda: k.name)]


def obs_km(km):
    n = km.num_samples
    o = [snap(n), see(lambda: km.attributes()), see(lambda: str(km)),
         see(lambda: km.name), obs_kernel(km.kernel)]
    if n is None:
        return o + [see(lambda: km.full)]
    one = not isinstance(n, tuple)
    o += [see(lambda: km[0, 1]), see(lambda: km[:, 0]), see(lambda: km.full),
          see(lambda: km.normed_km), see(lambda: km.frob_norm), see(lambda: km.size),
          see(lambda: km.shape), see(lambda: len(km))]
    if one:
        o += [see(lambda: km.diagonal()), see(lambda: km.full_sparse),
              see(lambda: km.centered)]
    return o


def obs_static(km):
    return [see(lambda: km.full), see(lambda: km[0, 1]), see(lambda: km[:, :]),
            see(lambda: km.size), see(lambda: len(km)), see(lambda: km.diag),
            see(lambda: str(km))]


def obs_set(s):
    return [see(lambda: s.size), see(lambda: len(s)), snap(s.num_samples),
            see(lambda: str(s)), see(lambda: s.name), see(lambda: s.get_attr('t', 'no'))] + \
        [obs_km(km) if hasattr(km, 'attach_to') else obs_static(km) for km in s]


def obs_comp(c):
    return [see(lambda: c.composite_KM), see(lambda: c.full), see(lambda: str(c)),
            snap(c.num_samples)] + obs_set(c.km_set)


def obs_est(e):
    return [see(lambda: e.predict(c18.TEST)), see(lambda: e.predict(c18.TEST[:1])),
            see(lambda: sorted(e.get_params())),
            see(lambda: [str(type(v)) if not isinstance(v, (str, int, float, bool)) else v
                         for _, v in sorted(e.get_params().items())])]


# ---------------------------------------------------------------- kinds of objects
def scribble(arr):
    a = np.asarray(arr)
    if a.flags.writeable and a.dtype.kind == 'f':
        a[...] = 77.0
    return 'spoiled'


KM_OPS = {
    'attach X': lambda m, d: m.attach_to(d['X']),
    'attach Y': lambda m, d: m.attach_to(d['Y'], 'why'),
    'attach X,W': lambda m, d: m.attach_to(d['X'], sample_two=d['W']),
    'element': lambda m, d: m[0, 1],
    'row': lambda m, d: m[1, :],
    'full': lambda m, d: m.full,
    'sparse': lambda m, d: m.full_sparse,
    'normed': lambda m, d: m.normed_km,
    'norm': lambda m, d: m.frob_norm,
    'centered': lambda m, d: m.centered,
    'tag': lambda m, d: m.set_attr('t', 5),
    'tag list': lambda m, d: m.set_attr('l', [1, 2]),
    'grow tag': lambda m, d: m.get_attr('l', []).append(3),
}
KM_SPOIL = {
    'write into full': lambda m, d: scribble(m.full),
    'write into normed': lambda m, d: scribble(m.normed_km),
    'write into sample': lambda m, d: scribble(d['X']),
}


def each(s, f):
    for km in s:
        f(km)


SET_OPS = {
    'attach X': lambda s, d: s.attach_to(d['X']),
    'attach Y': lambda s, d: s.attach_to(d['Y']),
    'full': lambda s, d: each(s, lambda m: m.full),
    'first full': lambda s, d: s[0].full,
    'tag': lambda s, d: s.set_attr('t', 5),
    'tags': lambda s, d: s.set_attr('t', list(range(len(s)))),
    'append': lambda s, d: s.append(d['extra']()),
    'take': lambda s, d: s.take([0]).set_attr('t', 9),
    'member attach': lambda s, d: s[1].attach_to(d['Y']),
}
SET_SPOIL = {'write into full': lambda s, d: scribble(s[0].full),
             'write into sample': lambda s, d: scribble(d['X'])}
BUCKET_OPS = dict(SET_OPS, add=lambda s, d: s.add_parametrized_kernels(
    d['rbf'], 'sigma', (0.3,)))
COMP_OPS = {
    'fit': lambda c, d: c.fit(),
    'set attach Y': lambda c, d: c.km_set.attach_to(d['Y']),
    'member attach Y': lambda c, d: c.km_set[0].attach_to(d['Y']),
    'full': lambda c, d: c.full,
    'members': lambda c, d: each(c.km_set, lambda m: m.full),
    'tag': lambda c, d: c.km_set.set_attr('t', 3),
}
COMP_SPOIL = {'write into full': lambda c, d: scribble(c.full),
              'write into member': lambda c, d: scribble(c.km_set[0].full)}
EST_OPS = {
    'fit A': lambda e, d: e.fit(d['XA'], d['YA']),
    'fit B': lambda e, d: e.fit(d['XB'], d['YB']),
    'predict': lambda e, d: e.predict(c18.TEST),
    'predict one': lambda e, d: e.predict(c18.TEST[2:3]),
    'set': lambda e, d: e.set_params(**d['par']),
}


def world():
    """every twin gets user data of its own"""
    from kernelmethods.base import KernelMatrix
    from kernelmethods.numeric_kernels import GaussianKernel, LinearKernel
    XA, XB = c18.X6[:6].copy(), c18.X6[1:8] * 0.9 + 0.05

    def extra():
        return KernelMatrix(LinearKernel(), normalized=False, name='extra')
    return dict(X=X.copy(), Y=Y.copy(), W=W2.copy(), rbf=GaussianKernel, extra=extra,
                XA=XA, XB=XB, YA=np.array([0, 1, 1, 0, 1, 0]),
                YB=np.array([1, 0, 1, 0, 1, 0, 1]), par={})


def kinds():
    from kernelmethods import algorithms as A
    from kernelmethods import base as B
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.categorical import MatchCountKernel
    from kernelmethods.sampling import KernelBucket
    K = {}

    def kern(name, f):
        K['kernel ' + name] = (lambda d: f(), {'call': lambda k, d: k(d['X'][0], d['X'][1])},
                               {}, obs_kernel)
    for skip in (False, True):
        t = ' unchecked' if skip else ''
        kern('linear' + t, lambda s=skip: nk.LinearKernel(skip_input_checks=s))
        kern('poly' + t, lambda s=skip: nk.PolyKernel(2, 0.3, 0.7, s))
        kern('gaussian' + t, lambda s=skip: nk.GaussianKernel(0.6, s))
        kern('laplacian' + t, lambda s=skip: nk.LaplacianKernel(0.4, s))
        kern('chi2' + t, lambda s=skip: nk.Chi2Kernel(0.3, s))
        kern('sigmoid' + t, lambda s=skip: nk.SigmoidKernel(0.2, 0.1, s))
        kern('hadamard' + t, lambda s=skip: nk.HadamardKernel(2, s))
        for perc in (True, False):
            kern('match {}{}'.format(perc, t), lambda s=skip, p=perc: MatchCountKernel(p, s))
    kern('callable', lambda: B.KernelFromCallable(user_func))
    kern('callable with parameters',
         lambda: B.KernelFromCallable(user_func, name='mine', scale=2.5, power=2))
    KF = {'poly': lambda: nk.PolyKernel(2, 0.3, 0.7), 'chi2': lambda: nk.Chi2Kernel(0.3),
          'callable': lambda: B.KernelFromCallable(user_func, scale=2.5)}
    for kn, f in KF.items():
        for norm in (False, True):
            K['KM {} {}'.format(kn, 'normalized' if norm else 'raw')] = (
                lambda d, f=f, norm=norm: B.KernelMatrix(f(), normalized=norm, name='m'),
                KM_OPS, KM_SPOIL, obs_km)
    for sym in (0, 1):
        M = X @ X.T
        K['precomputed {}'.format(sym)] = (
            lambda d, M=M: B.KernelMatrixPrecomputed(M.copy(), 'pre'),
            {'full': lambda m, d: m.full, 'diag': lambda m, d: m.diag,
             'item': lambda m, d: m[1, :]},
            {'write into full': lambda m, d: scribble(m.full)}, obs_static)
        K['constant {}'.format(sym)] = (
            lambda d, s=sym: B.ConstantKernelMatrix(num_samples=3, value=2.5 + s),
            {'full': lambda m, d: m.full, 'diag': lambda m, d: m.diag,
             'item': lambda m, d: m[1, :]},
            {'write into full': lambda m, d: scribble(m.full)}, obs_static)

    def members():
        return [B.KernelMatrix(nk.PolyKernel(2), normalized=True, name='a'),
                B.KernelMatrix(nk.LaplacianKernel(0.5), normalized=False, name='b')]
    K['set'] = (lambda d: B.KernelSet(members(), name='s'), SET_OPS, SET_SPOIL, obs_set)

    def shared(d):
        m = members()
        return B.KernelSet([m[0], m[1], m[0]])
    K['set with a repeated member'] = (shared, SET_OPS, SET_SPOIL, obs_set)

    def mixed(d):
        m = members()
        for x in m:
            x.attach_to(d['X'])
        return B.KernelSet(m + [B.KernelMatrixPrecomputed(X @ X.T)])
    K['set with precomputed'] = (mixed, {k: v for k, v in SET_OPS.items()
                                         if k in ('full', 'first full', 'take')},
                                 {'write into full': SET_SPOIL['write into full']}, obs_set)
    K['bucket'] = (lambda d: KernelBucket((2,), (0.5,), (0.7,), None, None), BUCKET_OPS,
                   SET_SPOIL, obs_set)

    def comp(c):
        def f(d):
            s = B.KernelSet(members())
            s.attach_to(d['X'])
            return c(s)
        return f
    for n, c in (('sum', B.SumKernel), ('product', B.ProductKernel),
                 ('average', B.AverageKernel),
                 ('weighted', lambda s: B.WeightedAverageKernel(s, [0.25, 0.75]))):
        K['composite ' + n] = (comp(c), COMP_OPS, COMP_SPOIL, obs_comp)
    km = {'KM': A.KernelMachine, 'KMR': A.KernelMachineRegressor}
    for n, c in km.items():
        for norm in (False, True):
            ops = dict(EST_OPS, set=lambda e, d: e.set_params(
                k_func=nk.LinearKernel()).fit(d['XA'], d['YA']))
            K['estimator {} {}'.format(n, norm)] = (
                lambda d, c=c, norm=norm: c(k_func=nk.GaussianKernel(0.7),
                                            normalized=norm), ops, {}, obs_est)
    for n, svr in (('SVC', False), ('SVR', True)):
        for m in ('align/corr', 'cv_risk'):
            ops = dict(EST_OPS, set=lambda e, d: e.set_params(C=20.0).fit(d['XA'], d['YA']))
            K['estimator {} {}'.format(n, m)] = (
                lambda d, s=svr, m=m: c18.est_cls(s)(k_bucket=c18.bucket('mix', True),
                                                     method=m), ops, {}, obs_est)
    return K


COPIES = {'deepcopy': copy.deepcopy}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    COPIES['pickle {}'.format(_p)] = lambda o, p=_p: pickle.loads(pickle.dumps(o, p))
COPIES['copy of a copy'] = lambda o: pickle.loads(pickle.dumps(copy.deepcopy(o)))


def apply(o, d, f):
    return see(lambda: f(o, d))


_TWINS = {}


def twin(name, spec, hist):
    """(results of every op, what is seen at the end) of an object living alone"""
    key = (name, hist)
    if key not in _TWINS:
        if len(_TWINS) > 60000:
            _TWINS.clear()
        d = world()
        o = spec[0](d)
        res = [apply(o, d, spec[1][h]) for h in hist]
        _TWINS[key] = (res, spec[3](o))
    return _TWINS[key]


def one(acc, name, spec, how, before, after):
    d = world()
    o = spec[0](d)
    for h in before:
        apply(o, d, spec[1][h])
    try:
        c = COPIES[how](o)
    except Exception as e:
        return '{} failed: {!r}'.format(how, e)
    if type(c) is not type(o):
        return '{} gives a {}'.format(how, type(c).__name__)
    d2 = world()
    side = {'original': (o, d), 'copy': (c, d2)}
    hist = {'original': before, 'copy': before}
    spoiled = set()
    for who, h in after:
        acc.transitions += 1
        if who in spoiled:
            continue
        obj, dat = side[who]
        if h in spec[2]:
            apply(obj, dat, spec[2][h])
            spoiled.add(who)
            continue
        got = apply(obj, dat, spec[1][h])
        hist[who] = hist[who] + (h,)
        want = twin(name, spec, hist[who])[0][-1]
        if not eq(got, want):
            return '{} of the {} gives {} but alone {}'.format(h, who, got, want)
    for who in ('copy', 'original'):
        if who in spoiled:
            continue
        got = spec[3](side[who][0])
        want = twin(name, spec, hist[who])[1]
        if not eq(got, want):
            i = next(i for i, (a, b) in enumerate(zip(got, want)) if not eq(a, b))
            return 'the {} then shows {} but alone {} (observation {})'.format(
                who, got[i], want[i], i)
    acc.out((name, repr(hist)))
    return None


def lives(acc, name, how, first, nb, na):
    spec = kinds()[name]
    ops, spoil = list(spec[1]), list(spec[2])
    moves = [(w, h) for w in ('original', 'copy') for h in ops + spoil]
    for n in range(nb + 1):
        for before in itertools.product(ops, repeat=n):
            if (before[:1] or (None,)) != (first,):
                continue
            for m in range(na + 1):
                for after in itertools.product(moves, repeat=m):
                    bad = one(acc, name, spec, how, before, after)
                    acc.transitions += 1 + n
                    acc.traces += 1
                    if bad:
                        acc.violate('{}: {}'.format(name, bad), 'before: {} ; {} ; then {}'
                                    ''.format(before, how, after))
                        return
            acc.states += 1
    acc.sample('{} {}: {} ; copy ; {}'.format(name, how, before, after))


def run(ctx):
    t = []
    for n, spec in kinds().items():
        est = n.startswith('estimator')
        slow = 'cv_risk' in n or 'align' in n
        km = n.startswith('KM')
        for how in COPIES:
            main = how in ('deepcopy', 'pickle 4')
            nb, na = 2, 2
            if 'cv_risk' in n and not main and not ctx.thorough:
                continue
            if est:
                nb, na = (2, 1) if main or ctx.thorough else (1, 1)
                if slow and not ctx.thorough:
                    nb = 1
            elif n.startswith('kernel'):
                nb, na = 1, 2
            elif n.startswith('composite') and not ctx.thorough:
                nb, na = (1, 2) if how == 'deepcopy' else (2, 1)
            elif not main:
                nb, na = (2, 2) if ctx.thorough else (1, 1)
            elif km and 'poly' not in n:
                nb, na = 2, 1
            elif km or n in ('set', 'bucket', 'set with a repeated member'):
                nb, na = ctx.pick((2, 1), (3, 2)) if how == 'deepcopy' and 'KM' in n else \
                    ctx.pick((2, 1), (2, 2))
            t += [(n, how, f, nb, na) for f in [None] + list(spec[1])]
            if (km or 'set' in n or 'bucket' in n) and 'chi2' not in n and \
                    how == ('deepcopy' if 'poly' in n or n == 'bucket' else 'pickle 4') \
                    and not ctx.thorough:
                t += [(n, how, f, 1, 2) for f in [None] + list(spec[1])]
    ctx.explore(lives, t)
    ctx.assumptions.append('pickling of user callables follows pickle: module-level '
                           'functions only')
