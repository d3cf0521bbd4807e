"""C15: composite kernels and linear combinations."""
import itertools

import numpy as np

from mc import mats, ref


def sample(n, which, d=2):
    return mats.seeded(n, d, 10 * n + which, -1.0, 1.5) + 0.05


def pre(n, which):
    A = np.round(mats.seeded(n, n, 77 + n + which, -3, 3))
    return A + A.T + 1.0            # odd and even entries


class Mem:
    """member kinds; value(X) = what .full must be when its set is attached to X"""

    def __init__(self, kind, n):
        from kernelmethods import numeric_kernels as nk
        from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed
        self.kind = kind
        if kind.startswith('pre'):
            P = pre(n, len(kind))
            if kind == 'pre8':
                P = P.astype(np.int8)
            if kind == 'prelist':
                P = P.tolist()
            self.P = np.array(P, float)
            self.km = KernelMatrixPrecomputed(P)
            return
        name, norm = kind.split('-')
        k, self.r = {'lin': (nk.LinearKernel(), ref.linear()),
                     'poly': (nk.PolyKernel(2), ref.poly(2)),
                     'rbf': (nk.GaussianKernel(0.7), ref.gaussian(0.7)),
                     'sig': (nk.SigmoidKernel(), ref.sigmoid())}[name]
        self.norm = norm == 'n'
        self.km = KernelMatrix(k, normalized=self.norm)

    def value(self, X, Y=None):
        if self.kind.startswith('pre'):
            return self.P
        K = ref.raw_km(self.r, X.tolist(), None if Y is None else Y.tolist())
        if not self.norm:
            return K
        if Y is None:
            return ref.normalized(K)
        return ref.normalized(K, [self.r(x, x) for x in X.tolist()],
                              [self.r(y, y) for y in Y.tolist()])


KINDS = ('lin-n', 'lin-r', 'poly-r', 'rbf-n', 'sig-r', 'pre', 'pre8')


def make(kinds, n, X):
    """a kind '=i' is the very object of member i once more"""
    from kernelmethods.base import KernelSet
    ms = []
    for k in kinds:
        ms.append(ms[int(k[1:])] if k[0] == '=' else Mem(k, n))
    for m in ms:
        if not m.kind.startswith('pre'):
            m.km.attach_to(X)
    return ms, KernelSet([m.km for m in ms])


def wgrid(k):
    g = (1, 0, -1.5, 2.5)
    return list(itertools.product(g, repeat=k)) if k < 4 else \
        [tuple(g[(i * s) % 4] for i in range(k)) for s in (1, 2, 3)] + \
        [tuple(0.5 + i for i in range(k)), (0,) * k]


def wforms(w):
    yield 'list', list(w)
    yield 'tuple', tuple(w)
    yield 'array', np.array(w, float)
    if all(float(v).is_integer() for v in w):
        yield 'int array', np.array(w, int)
    yield 'column', np.array(w, float).reshape(-1, 1)


def expect(V, w, prod=False):
    out = np.zeros(V[0].shape)
    for wi, v in zip(w, V):
        out = out + float(wi) * np.asarray(v, float)
    return out


def prod(V):
    out = np.ones(V[0].shape)
    for v in V:
        out = out * np.asarray(v, float)
    return out


def refuse(acc, f, what):
    acc.transitions += 1
    try:
        r = f()
    except Exception:
        return
    acc.violate('{} was accepted'.format(what), repr(r)[:300])


def sets(acc, kinds, n, allw):
    from kernelmethods import base as B
    from kernelmethods.operations import linear_combination
    X = sample(n, 0)
    ms, S = make(kinds, n, X)
    V = [m.value(X) for m in ms]
    k = len(ms)
    what = '{} on {} points'.format(kinds, n)

    def check(got, want, how):
        acc.transitions += 1
        if not ref.close(got, want):
            acc.violate('{}: {} expected {}'.format(how, np.asarray(got).tolist(),
                                                    want.tolist()), what)
            return False
        acc.out(np.round(want, 4).tolist())
        return True

    for cls, want in ((B.ProductKernel, prod(V)), (B.AverageKernel, expect(V, [1] * k) / k),
                      (B.SumKernel, expect(V, [1] * k))):
        c = cls(S, name='nm')
        refuse(acc, lambda: c.composite_KM, 'value before fit')
        refuse(acc, lambda: c.full, 'value before fit')
        c.fit()
        if not check(c.composite_KM, want, cls.__name__) or \
                not check(c.full, want, cls.__name__ + '.full'):
            return
        c.fit()
        if not check(c.full, want, cls.__name__ + ' fitted twice') or c.name != 'nm':
            return
    for w in (wgrid(k) if allw else wgrid(k)[::7] + [tuple(range(1, k + 1))]):
        acc.states += 1
        want = expect(V, w)
        for lab, f in wforms(w):
            keep = np.array(f, copy=True)
            s = B.SumKernel(S)
            s.fit(f)
            wa = B.WeightedAverageKernel(S, f)
            refuse(acc, lambda: wa.full, 'value before fit')
            wa.fit()
            if not check(s.full, want, 'Sum weighted {} {}'.format(lab, w)) or \
                    not check(wa.full, want, 'WeightedAverage {} {}'.format(lab, w)) or \
                    not check(linear_combination(S, f), want, 'linear_combination {} {}'
                              ''.format(lab, w)) or \
                    not check(linear_combination(S, f, norm_weights=False), want, 'lc'):
                return
            tot = float(sum(w))
            if abs(tot) < 1e-9:
                refuse(acc, lambda: linear_combination(S, f, norm_weights=True),
                       'normalizing weights {}'.format(w))
            elif not check(linear_combination(S, f, norm_weights=True), want / tot,
                           'linear_combination normalized {} {}'.format(lab, w)):
                return
            if not np.array_equal(keep, np.array(f)):
                acc.violate('weights modified', what)
                return
        s = B.SumKernel(S)
        s.fit(w)
        s.fit()
        if not check(s.full, expect(V, [1] * k), 'unweighted after weighted'):
            return
    for bad in ([1.0] * (k - 1), [1.0] * (k + 1), [], [[1.0] * k] * 2):
        if np.ndim(bad) == 2 and len(bad) == k and k == 2:
            bad = [[1.0] * 2] * 3
        refuse(acc, lambda: linear_combination(S, bad), 'weights {}'.format(bad))
        refuse(acc, lambda: B.WeightedAverageKernel(S, bad), 'weights {}'.format(bad))
        refuse(acc, lambda: B.SumKernel(S).fit(bad), 'weights {}'.format(bad))
    for m, v in zip(ms, V):
        if not ref.close(m.km.full, v):
            acc.violate('member changed', what)
    acc.sample(what)
    acc.traces += 1


OPS = ['X', 'Y', 'fit', 'fit2', 'read member', 'bad fit', 'append']


def histories(acc, cls, kinds, depth, first):
    """all sequences of re-attachments and fits"""
    from kernelmethods import base as B
    n = 3
    XS = {'X': sample(n, 1), 'Y': sample(n, 2)}
    W1, W2 = (0.5, -2.0, 3.0, 1.5), (1.0, 4.0, 0.25, -3.0)
    for hist in itertools.product(OPS, repeat=depth):
        if hist[0] != first:
            continue
        ms, S = make(kinds, n, XS['X'])
        k = len(ms)
        c = {'sum': lambda: B.SumKernel(S), 'prod': lambda: B.ProductKernel(S),
             'avg': lambda: B.AverageKernel(S),
             'wavg': lambda: B.WeightedAverageKernel(S, W1[:k])}[cls]()
        at, want, old = 'X', None, []
        what = '{} {}: {}'.format(cls, kinds, ' ; '.join(hist))
        for op in hist:
            acc.transitions += 1
            if op == 'append':
                if cls != 'wavg' and len(ms) < 4:
                    m = Mem('lin-r', n)
                    m.km.attach_to(XS[at])
                    S.append(m.km)
                    ms.append(m)
                    k = len(ms)
            elif op in XS:
                S.attach_to(XS[op])
                at = op
            elif op in ('fit', 'fit2'):
                V = [m.value(XS[at]) for m in ms]
                if cls == 'sum':
                    w = W1[:k] if op == 'fit' else W2[:k]
                    c.fit(w)
                    want = expect(V, w)
                else:
                    c.fit()
                    want = {'prod': lambda: prod(V), 'avg': lambda: expect(V, [1] * k) / k,
                            'wavg': lambda: expect(V, W1[:k])}[cls]()
                old.append((c.full, want))
            elif op == 'bad fit' and cls == 'sum':
                refuse(acc, lambda: c.fit([1.0] * (k + 1)), 'wrong number of weights')
            else:
                ms[0].km.full
                ms[-1].km.frob_norm
                for m in ms:
                    m.km.normed_km, m.km.centered, m.km.diagonal()
            try:
                got = c.composite_KM
            except Exception as e:
                if want is not None:
                    acc.violate('fitted composite failed: {!r}'.format(e), what)
                    return
            else:
                if want is None:
                    acc.violate('unfitted composite returned {!r}'.format(got), what)
                    return
                if not ref.close(got, want) or not ref.close(c.full, want):
                    acc.violate('composite reads {} expected {}'.format(
                        got.tolist(), want.tolist()), what)
                    return
            for m in ms:
                if not ref.close(m.km.full, m.value(XS[at])):
                    acc.violate('member reads {}'.format(m.km.full.tolist()), what)
                    return
            for g, w in old:
                if not ref.close(g, w):
                    acc.violate('earlier result changed', what)
                    return
        acc.states += 1
        acc.traces += 1


def scales(acc, a, b):
    """members of very different scale, zeros and non-finite values; sensitive weights"""
    from kernelmethods import base as B
    from kernelmethods.operations import linear_combination
    I, J = np.eye(2), np.array([[1.0, 0.3], [0.3, 0.7]])
    fam = {'zero': 0 * I, 'one': J, 'tiny': 1e-13 * J, 'tiny2': 1e-200 * J, 'huge': 1e12 * J,
           'huge2': 1e200 * J, 'nan': np.array([[1.0, 2.0], [2.0, np.nan]]),
           'inf': np.array([[np.inf, 1.0], [1.0, 2.0]]), 'neg': -J, 'eye': I,
           'int': np.array([[2, 1], [1, 3]]), 'bool': np.array([[True, False], [False, True]])}
    W = [(1, 1), (0.5, 0.52), (0.5, 0.5), (0.3, 0.66), (1e-13, 1), (1, 1e-13), (1e9, -1e9),
         (-0.5, 1.51), (0.999, 0.0), (0, 1), (1, 0), (1e-300, 1e300), (3, -2)]
    for third in (None, 'one', 'zero', 'nan'):
        V = [fam[x] for x in (a, b) + ((third,) if third else ())]
        S = B.KernelSet([B.KernelMatrixPrecomputed(v.copy()) for v in V]) \
            if a not in ('nan',) and b != 'nan' and third != 'nan' else None
        if S is None:                    # a precomputed matrix with NaN is not symmetric
            S = B.KernelSet([B.KernelMatrix(B.KernelFromCallable(
                lambda x, y, v=v: float(v[int(x[0]), int(y[0])]), 'f%d' % i), normalized=False)
                for i, v in enumerate(V)])
            S.attach_to(np.array([[0.0], [1.0]]))
        k = len(V)
        F = [np.asarray(v, float) for v in V]
        jobs = []
        with np.errstate(all='ignore'):
            for cl, want in ((B.ProductKernel, prod(F)), (B.SumKernel, expect(F, [1] * k)),
                             (B.AverageKernel, expect(F, [1] * k) / k)):
                c = cl(S)
                c.fit()
                jobs.append((cl.__name__, c.full, want))
            for w in W:
                w = w + (2.0,) * (k - 2)
                for lab, wf in (('list', list(w)), ('array', np.array(w, float))):
                    s, wa = B.SumKernel(S), B.WeightedAverageKernel(S, wf)
                    s.fit(wf), wa.fit()
                    want = expect(F, w)
                    jobs += [('Sum {}'.format(w), s.full, want),
                             ('WeightedAverage {}'.format(w), wa.full, want),
                             ('combination {}'.format(w), linear_combination(S, wf), want)]
        acc.states += 1
        for lab, g, want in jobs:
            acc.transitions += 1
            top = max([np.abs(f[np.isfinite(f)]).max() for f in F]) if 'Kernel' not in lab else 0
            g = np.asarray(g, float)
            with np.errstate(all='ignore'):
                big = np.abs(want) > 1e300
                tol = 1e-9 * np.abs(want) + (1e-6 if '1e9' in lab or '1000000000' in lab
                                             else 1e-15) * top
                ok = (np.abs(g - want) <= tol) | (np.isnan(g) & np.isnan(want)) | (g == want)
            if g.shape != want.shape or not (ok | big).all():
                acc.violate('{}: {} expected {}'.format(lab, g.tolist(), want.tolist()),
                            str((a, b, third)))
                return
    acc.traces += 1


SCALES = ('zero', 'one', 'tiny', 'tiny2', 'huge', 'huge2', 'nan', 'inf', 'neg', 'eye', 'int',
          'bool')


def two_samples(acc, n, m):
    from kernelmethods.base import KernelSet
    from kernelmethods.operations import linear_combination
    X, Y = sample(n, 3), sample(m, 4)
    ms = [Mem(k, n) for k in ('lin-n', 'poly-r', 'rbf-n')]
    for x in ms:
        x.km.attach_to(X, sample_two=Y)
    S = KernelSet([x.km for x in ms])
    V = [x.value(X, Y) for x in ms]
    for w in itertools.product((1.0, -0.5, 3.0), repeat=3):
        for nw in (False, True):
            acc.transitions += 1
            tot = sum(w) if nw else 1.0
            if abs(tot) < 1e-9:
                continue
            got = linear_combination(S, w, norm_weights=nw)
            if not ref.close(got, expect(V, w) / tot):
                acc.violate('two-sample combination wrong', '{} x {} weights {} {}'.format(
                    n, m, w, nw))
                return
    acc.states += 1
    acc.traces += 1


def rejects(acc, _):
    from kernelmethods import base as B
    from kernelmethods.numeric_kernels import LinearKernel
    X = sample(3, 0)
    a, b = B.KernelMatrix(LinearKernel()), B.KernelMatrix(LinearKernel())
    un = B.KernelSet([a, b])
    c, d = B.KernelMatrix(LinearKernel()), B.KernelMatrix(LinearKernel())
    c.attach_to(X)
    d.attach_to(X)
    classes = [B.SumKernel, B.ProductKernel, B.AverageKernel,
               lambda s: B.WeightedAverageKernel(s, [1.0, 2.0])]
    for cl in classes:
        for s, what in ((un, 'unattached set'), (B.KernelSet(), 'empty set'),
                        (B.KernelSet([c]), 'set of one'), ([c, d], 'list'),
                        (c, 'kernel matrix'), (None, 'None'), (X, 'array')):
            refuse(acc, lambda: cl(s), '{} from {}'.format(cl, what))
    acc.states += 1
    acc.traces += 1


def ladder(acc, k, n):
    from kernelmethods import base as B
    from kernelmethods.operations import linear_combination
    kinds = [KINDS[i % len(KINDS)] for i in range(k)]
    X = sample(n, 5)
    ms, S = make(kinds, n, X)
    V = [m.value(X) for m in ms]
    w = [(-1) ** i * (0.5 + i) for i in range(k)]
    s, p, a, wa = B.SumKernel(S), B.ProductKernel(S), B.AverageKernel(S), \
        B.WeightedAverageKernel(S, w)
    s.fit(w), p.fit(), a.fit(), wa.fit()
    acc.transitions += 5
    for nm, g, t in (('sum', s.full, expect(V, w)), ('product', p.full, prod(V)),
                     ('average', a.full, expect(V, [1] * k) / k),
                     ('weighted average', wa.full, expect(V, w)),
                     ('linear combination', linear_combination(S, w), expect(V, w))):
        if not ref.close(g, t, rt=1e-7):
            acc.violate('{} of {} kernels on {} points wrong'.format(nm, k, n), '')
    acc.states += 1
    acc.traces += 1


def run(ctx):
    t = [(kk, n, True) for kk in itertools.product(KINDS, repeat=2) for n in (1, 2, 3)]
    t += [(kk, 2, False) for kk in itertools.product(KINDS, repeat=3)]
    t += [(kk, 3, True) for kk in (('lin-n', 'pre', 'poly-r'), ('pre8', 'pre', 'rbf-n'),
                                   ('prelist', 'lin-r', 'sig-r'))]
    t += [(kk, 3, True) for kk in (('lin-n', '=0'), ('pre', '=0'), ('poly-r', 'rbf-n', '=0'),
                                   ('pre8', '=0', '=0'), ('lin-r', '=0', 'pre', '=2'))]
    if ctx.thorough:
        t += [(kk, 3, True) for kk in itertools.combinations_with_replacement(KINDS, 3)]
        t += [(kk, 2, False) for kk in itertools.product(KINDS, repeat=4)]
    ctx.explore(sets, t)
    hk = [('lin-n', 'poly-r'), ('rbf-n', 'lin-r', 'poly-r')]
    ctx.explore(histories, [(c, kk, d, f) for c in ('sum', 'prod', 'avg', 'wavg')
                            for kk in hk for d in (1, 2, 3, ctx.pick(4, 5)) for f in OPS])
    ctx.explore(scales, [(a, b) for a in SCALES for b in SCALES])
    ctx.explore(two_samples, [(n, m) for n in (1, 2, 3, 5) for m in (1, 2, 4)])
    ctx.explore(rejects, [0], parallel=False)
    ctx.explore(ladder, [(k, n) for k in (2, 3, 4, 5, 8, 9, 17) for n in (1, 2, 7, 20)] +
                ctx.pick([(3, 60)], [(3, 60), (40, 10), (5, 120)]))
