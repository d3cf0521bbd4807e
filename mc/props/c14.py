"""C14: kernel buckets hold exactly the requested kernels."""
import itertools
import math
import warnings

import numpy as np

from mc import ref

D = np.array([[0.1, 0.2], [0.3, 0.1], [0.2, 0.4]])
RT = 1e-9


def fams():
    from kernelmethods import numeric_kernels as nk
    return {
        'linear': (nk.LinearKernel, ref.linear),
        'poly': (nk.PolyKernel, ref.poly),
        'rbf': (nk.GaussianKernel, ref.gaussian),
        'lap': (nk.LaplacianKernel, ref.laplacian),
        'sig': (nk.SigmoidKernel, ref.sigmoid),
        'chi2': (nk.Chi2Kernel, ref.chi2),
        'had': (nk.HadamardKernel, ref.hadamard),
    }


def want_matrix(fam, par, normalized):
    K = ref.raw_km(fams()[fam][1](**par), D.tolist())
    if not normalized:
        return K
    d = K.diagonal()
    with np.errstate(all='ignore'):
        return K / np.sqrt(np.outer(d, [1] * 3)) / np.sqrt(np.outer([1] * 3, d))


_cache = {}


def cached(fam, par, normalized):
    k = (fam, tuple(sorted((a, float(b)) for a, b in par.items())), normalized)
    if k not in _cache:
        _cache[k] = want_matrix(fam, {a: float(b) if a != 'degree' else b
                                      for a, b in par.items()}, normalized)
    return _cache[k]


def judge(b, model, normalized):
    """members of bucket b against [(family, params)]"""
    F = fams()
    if len(b) != len(model) or b.size != len(model):
        return '{} kernels, expected {}: {}'.format(len(b), len(model), b)
    if b.num_samples is not None:
        return 'a new bucket has num_samples {}'.format(b.num_samples)
    seen = set()
    for km, (fam, par) in zip(b, model):
        if id(km) in seen:
            return 'kernel matrix appears twice'
        seen.add(id(km))
        if type(km.kernel) is not F[fam][0]:
            return '{} where {} is expected'.format(km.kernel, fam)
    b.attach_to(D)
    for i, (km, (fam, par)) in enumerate(zip(b, model)):
        raw = cached(fam, par, False)
        got = km[:, :]
        if not np.allclose(got, raw, rtol=RT, atol=0):
            return 'kernel {} ({}) is not {}{}: {} expected {}'.format(
                i, km.kernel, fam, par, got.tolist(), raw.tolist())
        want = cached(fam, par, normalized)
        if not np.allclose(km.full, want, rtol=RT, atol=0, equal_nan=True):
            return 'kernel {} ({}): normalized={} not respected: {} expected {}'.format(
                i, km.kernel, normalized, km.full.tolist(), want.tolist())
    return None


POLY = [None, [2], (3, 1), np.array([4, 2, 2]), [2, 3, 5]]
RBF = [None, [0.5], (2 ** -5, 32), np.array([1.0, 3.0]), [0.25, 'bad', 2]]
LAP = [None, [0.5], (32, 2 ** -5, 1), np.array([0.1, 3.0])]
SIG = [None, [0.25], (8, 0.5), [1.0, 2.0, 0.125]]
OFF = [None, [-2.0], (1.0, 2.0), np.array([0.5, 0.0])]


def ctor_model(p, r, l, s, o):
    m, bad = [('linear', {})], 0
    for fam, name, vals in (('poly', 'degree', p), ('rbf', 'sigma', r), ('lap', 'gamma', l),
                            ('sig', 'gamma', s), ('sig', 'offset', o)):
        for v in (() if vals is None else vals):
            if isinstance(v, str):
                bad += 1
            else:
                m.append((fam, {name: v}))
    return m, bad


def build(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f()
    return r, len([x for x in w if 'ernel' in x.category.__name__ + str(x.message)])


def ctors(acc, ip, ir):
    from kernelmethods.sampling import KernelBucket
    prev = None
    for l, s, o in itertools.product(LAP, SIG, OFF):
        for norm, skip in itertools.product((True, False), repeat=2):
            p, r = POLY[ip], RBF[ir]
            m, bad = ctor_model(p, r, l, s, o)
            b, nw = build(lambda: KernelBucket(
                poly_degree_values=p, rbf_sigma_values=r, laplace_gamma_values=l,
                sigmoid_gamma_values=s, sigmoid_offset_values=o, normalize_kernels=norm,
                skip_input_checks=skip, name='mine'))
            acc.transitions += 1
            acc.states += 1
            what = 'KernelBucket({}, {}, {}, {}, {}, norm={}, skip={})'.format(
                p, r, l, s, o, norm, skip)
            e = None
            if (nw > 0) != (bad > 0):
                e = '{} warnings for {} unusable values'.format(nw, bad)
            if b.name != 'mine':
                e = 'name lost'
            if prev is not None and {id(k) for k in prev} & {id(k) for k in b}:
                e = 'shares kernel matrices with another bucket'
            e = e or judge(b, m, norm)
            if e:
                acc.violate(e, what)
                return
            acc.out(str(b))
            prev = b
    acc.sample(what)
    acc.traces += 1


ADD = [
    ('rbf', 'sigma', [0.5, 2]), ('rbf', 'sigma', (7,)), ('chi2', 'gamma', [1, 0.5]),
    ('had', 'alpha', [0, 2, 0, 3]), ('poly', 'nosuch', [1, 2]), ('poly', 'b', [0.0, 2.0]),
    ('poly', 'gamma', np.array([0.5])), ('sig', 'offset', range(1, 3)),
    ('lap', 'gamma', None), ('rbf', 'sigma', ['x', 3.0, None]),
    ('poly', 'degree', []), ('poly', 'degree', 'ab'), ('poly', 'degree', 3),
    ('instance', 'degree', [2]), ('function', 'degree', [2]), ('int', 'x', [2]),
    ('name', 'degree', [2]),
]


def usable(fam, name, v):
    if name == 'nosuch' or (fam == 'had' and v == 0):
        return False
    return isinstance(v, (int, float, np.generic))


def adds(acc, start, depth, first, norm):
    from kernelmethods.numeric_kernels import PolyKernel
    from kernelmethods.sampling import KernelBucket
    weird = {'instance': PolyKernel(2), 'function': lambda x, y: 1, 'int': int,
             'name': 'PolyKernel'}
    for hist in itertools.product(range(len(ADD)), repeat=depth):
        if hist[0] != first:
            continue
        kw = dict(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None) \
            if start == 'linear' else dict(poly_degree_values=[2], rbf_sigma_values=[1.0],
                                           laplace_gamma_values=None,
                                           sigmoid_gamma_values=[0.5],
                                           sigmoid_offset_values=None)
        b = KernelBucket(normalize_kernels=norm, **kw)
        m = [('linear', {})] if start == 'linear' else \
            [('linear', {}), ('poly', {'degree': 2}), ('rbf', {'sigma': 1.0}),
             ('sig', {'gamma': 0.5})]
        what = '{} bucket; add '.format(start) + ' ; '.join(str(ADD[h]) for h in hist)
        for h in hist:
            fam, name, vals = ADD[h]
            before = list(b)
            cls = weird[fam] if fam in weird else fams()[fam][0]
            bad_list = vals is not None and (np.isscalar(vals) or len(vals) == 0)
            acc.transitions += 1
            if fam in weird or bad_list:
                try:
                    build(lambda: b.add_parametrized_kernels(cls, name, vals))
                    acc.violate('invalid family or values accepted', what)
                    return
                except Exception:
                    pass
                new = []
            else:
                _, nw = build(lambda: b.add_parametrized_kernels(cls, name, vals))
                vals = [] if vals is None else list(vals)
                new = [(fam, {name: v}) for v in vals if usable(fam, name, v)]
                if (nw > 0) != (len(new) < len(vals)):
                    acc.violate('{} warnings, {} unusable values'.format(
                        nw, len(vals) - len(new)), what)
                    return
            m += new
            if len(b) != len(m) or any(a is not c for a, c in zip(b, before)):
                acc.violate('holds {} kernels expected {}, or earlier ones replaced'.format(
                    len(b), len(m)), what)
                return
        e = judge(b, m, norm)
        if e:
            acc.violate(e, what)
            return
        acc.states += 1
        acc.traces += 1
        acc.out(str(b))
    acc.sample(what)


STRAT = {
    'exhaustive': ((2, 3, 4), [2.0 ** e for e in (-5, -3, -1, 1, 3, 5)],
                   [2.0 ** e for e in (-5, -3, -1, 1, 3, 5)],
                   [2.0 ** e for e in (-5, -3, -1, 1, 3, 5)], (-2.0, 1.0, 2.0)),
    'light': ((2, 3), [2.0 ** e for e in (-3, -1, 1)], [2.0 ** e for e in (-3, -1, 1)],
              [2.0 ** e for e in (-3, -1, 1, 3, 5)], (1.0,)),
    'linear_only': (None,) * 5,
}


def strategies(acc, _):
    from kernelmethods.base import KernelSet
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket
    alive = []
    for s, vals in STRAT.items():
        for name in (s, s.upper(), s.title()):
            for norm, skip in itertools.product((True, False), repeat=2):
                acc.transitions += 1
                acc.states += 1
                b = make_kernel_bucket(name, normalize_kernels=norm, skip_input_checks=skip)
                e = judge(b, ctor_model(*vals)[0], norm)
                if not isinstance(b, KernelBucket):
                    e = 'not a bucket'
                for o in alive:
                    if {id(k) for k in o} & {id(k) for k in b}:
                        e = 'buckets share kernel matrices'
                if e:
                    acc.violate(e, 'make_kernel_bucket({}, {}, {})'.format(name, norm, skip))
                alive.append(b)
    for f, st in ((lambda: make_kernel_bucket(), 'exhaustive'),
                  (lambda: KernelBucket(), 'exhaustive')):
        acc.transitions += 1
        e = judge(f(), ctor_model(*STRAT[st])[0], True)
        if e:
            acc.violate(e, 'default bucket')
    b, ks = make_kernel_bucket('light'), KernelSet()
    if make_kernel_bucket(b) is not b or make_kernel_bucket(ks) is not ks:
        acc.violate('a given bucket is not returned as it is', '')
    for bad in ('nosuch', '', 'lite', 'exhaustive ', 3, None, 1.5):
        acc.transitions += 1
        try:
            make_kernel_bucket(bad)
            acc.violate('strategy {!r} accepted'.format(bad), '')
        except Exception:
            pass
    for kw in (dict(normalize_kernels=1), dict(normalize_kernels='yes'),
               dict(normalize_kernels=None), dict(skip_input_checks=0),
               dict(skip_input_checks='x'), dict(poly_degree_values=[]),
               dict(rbf_sigma_values='ab'), dict(laplace_gamma_values=2.0)):
        acc.transitions += 1
        try:
            KernelBucket(**kw)
            acc.violate('KernelBucket({}) accepted'.format(kw), '')
        except Exception:
            pass
    acc.traces += 1


def custom(acc, n):
    """a user kernel class whose construction fails for every subset of n values"""
    from kernelmethods.base import BaseKernelFunction
    from kernelmethods.sampling import KernelBucket

    class Scaled(BaseKernelFunction):
        def __init__(self, scale=1, skip_input_checks=False):
            super().__init__('scaled')
            if scale < 0:
                raise RuntimeError('no')
            self.scale = scale

        def __call__(self, x, y):
            return self.scale * float(np.dot(x, y))

        def __str__(self):
            return 'scaled({})'.format(self.scale)

    for signs in itertools.product((1, -1), repeat=n):
        vals = [s * (i + 1.5) for i, s in enumerate(signs)]
        b = KernelBucket(None, None, None, None, None, normalize_kernels=False)
        keep = list(vals)
        _, nw = build(lambda: b.add_parametrized_kernels(Scaled, 'scale', vals))
        ok = [v for v in keep if v > 0]
        acc.transitions += 1
        acc.states += 1
        got = [k.kernel.scale for k in list(b)[1:]]
        if got != ok or (nw > 0) != (len(ok) < n) or vals != keep:
            acc.violate('{}: added {} expected {} ({} warnings)'.format(vals, got, ok, nw),
                        '')
            return
        b.attach_to(D)
        for v, k in zip(ok, list(b)[1:]):
            if not np.allclose(k.full, v * (D @ D.T)):
                acc.violate('wrong kernel for {}'.format(v), '')
                return
    acc.traces += 1


ORTH = np.array([[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 0.5], [1.0, 2.0, 0.25]])


def faithful(acc, skip):
    """values are used as given (zero stays zero, tiny stays tiny), and the members check
    their input or not as asked for"""
    from kernelmethods.sampling import KernelBucket
    F = fams()
    vals = [0, 0.0, 1e-300, 1e-30, 1e-12, -1e-12, 1e-7, 3, 0.1 + 0.2, 1 / 3]
    pos = [v for v in vals if v > 0]
    for form in (list, tuple, np.array):
        b = KernelBucket(None, form(pos), form(pos), form(vals), form(vals),
                         normalize_kernels=False, skip_input_checks=skip)
        m = ctor_model(None, pos, pos, vals, vals)[0]
        for fam, p, vs in (('poly', 'b', vals), ('poly', 'gamma', pos), ('sig', 'gamma', pos),
                           ('chi2', 'gamma', pos)):
            b.add_parametrized_kernels(F[fam][0], p, form(vs))
            m += [(fam, {p: v}) for v in vs]
        acc.transitions += 1
        acc.states += 1
        if len(b) != len(m):
            acc.violate('{} kernels expected {}'.format(len(b), len(m)), str(vals))
            return
        b.attach_to(ORTH)
        for km, (fam, par) in zip(b, m):
            with np.errstate(all='ignore'):
                par = {q: float(v) for q, v in par.items()}
                if fam == 'rbf' and par['sigma'] < 1e-100:
                    continue              # its square underflows
                want = ref.raw_km(F[fam][1](**par), ORTH.tolist())
            acc.transitions += 1
            if type(km.kernel) is not F[fam][0] or not np.allclose(
                    km.full, want, rtol=RT, atol=0, equal_nan=True):
                acc.violate('{} is not {}{}: {} expected {}'.format(
                    km.kernel, fam, par, km.full.tolist(), want.tolist()), 'skip={}'.format(skip))
                return
    if not skip:
        from kernelmethods.sampling import make_kernel_bucket
        for b in (KernelBucket([2], [0.5], [0.5], [0.5], [1.0]), make_kernel_bucket('light'),
                  make_kernel_bucket('linear_only'), KernelBucket(skip_input_checks=False)):
            b.add_parametrized_kernels(F['chi2'][0], 'gamma', [0.5])
            for km in b:
                acc.transitions += 1
                want = km.kernel(np.array([1.0, 2.0]), np.array([3.0, 0.5]))
                for x, y in (([1.0, 2.0], [3.0, 0.5]), ((1, 2), np.array([3, 0.5]))):
                    try:
                        got = km.kernel(x, y)
                    except Exception as e:
                        got = e
                    if isinstance(got, Exception) or not np.isclose(got, want, rtol=1e-12):
                        acc.violate('{} on lists: {!r} expected {!r}'.format(
                            km.kernel, got, want), 'input checks were not skipped')
                        return
                try:
                    got = km.kernel(np.array([1.0, 2.0]), np.array([1.0, 2.0, 3.0]))
                    acc.violate('{} accepts vectors of different lengths'.format(km.kernel),
                                str(got))
                    return
                except Exception:
                    pass
    acc.traces += 1


LISTS = {
    'up': lambda n: [0.25 + 0.5 * i for i in range(n)],
    'down': lambda n: [60.0 - 0.375 * i for i in range(n)],
    'mixed': lambda n: [0.5 + (7 * i) % 13 + 0.125 * i for i in range(n)],
    'dup': lambda n: [(2.0, 0.5, 2.0)[i % 3] for i in range(n)],
    'int': lambda n: [1 + (3 * i) % 5 for i in range(n)],
    'near': lambda n: [1.0 + 1e-7 * ((5 * i) % 11) for i in range(n)],
    'same value, other type': lambda n: [(1, 1.0, np.float32(1), np.int64(1))[i % 4]
                                         for i in range(n)],
}


def lengths(acc, kind, n):
    """value lists of n values, in every argument, and added twice"""
    from kernelmethods.sampling import KernelBucket
    vals = LISTS[kind](n)
    deg = [1 + (3 * i) % 4 for i in range(n)]
    F = fams()
    for form in (list, tuple, np.array):
        for norm in (True, False):
            a = dict(poly_degree_values=form(deg), rbf_sigma_values=form(vals),
                     laplace_gamma_values=form(vals[::-1]), sigmoid_gamma_values=form(vals),
                     sigmoid_offset_values=form(vals))
            b, nw = build(lambda: KernelBucket(normalize_kernels=norm, **a))
            m = ctor_model(deg, vals, vals[::-1], vals, vals)[0]
            b.add_parametrized_kernels(F['chi2'][0], 'gamma', form(vals))
            b.add_parametrized_kernels(F['rbf'][0], 'sigma', form(vals[::-1]))
            m += [('chi2', {'gamma': v}) for v in vals] + [('rbf', {'sigma': v})
                                                           for v in vals[::-1]]
            acc.transitions += 3
            e = judge(b, m, norm) or ('{} warnings'.format(nw) if nw else None)
            if e:
                acc.violate(e, '{} values {}'.format(n, vals))
                return
            acc.states += 1
    acc.traces += 1


def run(ctx):
    ctx.explore(lengths, [(k, n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 51,
                                                      65, 101, 130)
                          for k in LISTS])
    ctx.explore(ctors, [(p, r) for p in range(len(POLY)) for r in range(len(RBF))])
    for d in (1, 2) + ctx.pick((), (3,)):
        ctx.explore(adds, [(s, d, f, n) for s in ('linear', 'mixed')
                           for f in range(len(ADD)) for n in (True, False)])
    ctx.explore(strategies, [0], parallel=False)
    ctx.explore(faithful, [True, False], parallel=False)
    ctx.explore(custom, list(range(1, ctx.pick(7, 10))))
    ctx.assumptions.append('adding kernels to a bucket that is already attached to a '
                           'sample is outside the property')
