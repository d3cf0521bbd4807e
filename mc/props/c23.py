"""C23: ideal kernel, matrix correlation, pairwise similarity."""
import itertools
import math

import numpy as np

from mc import mats, ref


def ideal(acc, n, vals):
    from kernelmethods.sampling import ideal_kernel
    for y in itertools.product(vals, repeat=n):
        want = np.array([[a * b for b in y] for a in y], float)
        fs = [('list', list(y)), ('tuple', y), ('array', np.array(y, float)),
              ('column', np.array(y, float).reshape(-1, 1)),
              ('row', np.array(y, float).reshape(1, -1))]
        if all(float(v).is_integer() for v in y):
            fs += [(t, np.array(y).astype(t)) for t in ('int64', 'int32', 'int8')]
            if min(y) >= 0:
                fs += [(t, np.array(y).astype(t)) for t in ('uint8', 'uint64')]
            if set(y) <= {0, 1}:
                fs.append(('bool', np.array(y, bool)))
        for lab, f in fs:
            acc.transitions += 1
            keep = np.array(f, copy=True)
            got = ideal_kernel(f)
            if not ref.close(got, want):
                acc.violate('gave {} expected {}'.format(np.asarray(got).tolist(),
                                                        want.tolist()), '{} {}'.format(lab, y))
                return
            if not np.array_equal(keep, f):
                acc.violate('targets modified', '{} {}'.format(lab, y))
                return
        acc.states += 1
        acc.out(want.tolist())
    acc.sample('ideal kernel of all {}^{}'.format(vals, n))
    acc.traces += 1


def pearson(A, B):
    a, b = np.asarray(A, float).ravel().tolist(), np.asarray(B, float).ravel().tolist()
    n = len(a)
    ma, mb = math.fsum(a) / n, math.fsum(b) / n
    sa = math.fsum((x - ma) ** 2 for x in a)
    sb = math.fsum((x - mb) ** 2 for x in b)
    if sa < 1e-18 or sb < 1e-18:
        return None
    return math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sa * sb)


def corr(acc, n, vals, sym, part, parts):
    from kernelmethods.sampling import correlation_km
    M = list(mats.sym_matrices(n, vals, vals) if sym else mats.all_matrices(n, n, vals))
    for i, A in enumerate(M):
        if i % parts != part:
            continue
        for j, B in enumerate(M):
            w = pearson(A, B)
            if w is None:
                continue
            fs = [(A, B)]
            if (i + j) % 11 == 0:
                fs += [(F, B) for _, F in mats.forms(A)]
            for F, G in fs:
                acc.transitions += 1
                g = correlation_km(F, G)
                if not abs(g - w) < 1e-9 or np.ndim(g):
                    acc.violate('correlation {} expected {}'.format(g, w), '{} {}'.format(
                        F.tolist(), G.tolist()))
                    return
            acc.out(round(w, 6))
        acc.states += 1
    acc.traces += 1


def align(A, B):
    a, b = ref.centered(A), ref.centered(B)
    na, nb = ref.fnorm(a), ref.fnorm(b)
    if na < 1e-8 or nb < 1e-8:
        return 0.0
    return ref.fprod(a, b) / (na * nb)


KINDS = ('lin-n', 'lin-r', 'poly-r', 'rbf-n', 'const', 'pre')


def pairwise(acc, kinds, n, bucket):
    from kernelmethods.base import KernelFromCallable, KernelMatrix, KernelSet
    from kernelmethods.sampling import KernelBucket, pairwise_similarity
    from mc.props.c15 import Mem, sample
    X = sample(n, 0)
    V, kms = [], []
    for k in kinds:
        if k == 'const':
            km = KernelMatrix(KernelFromCallable(lambda x, y: 4.0, 'c'), normalized=False)
            V.append(np.full((n, n), 4.0))
        else:
            m = Mem(k, n)
            km = m.km
            V.append(m.value(X))
        kms.append(km)
        if not bucket and k != 'pre':
            km.attach_to(X)
    if bucket:
        S = KernelBucket(None, None, None, None, None, normalize_kernels=False)
        for km in kms:
            S.append(km)
        S.attach_to(X)
        V = [X @ X.T] + V
    else:
        S = KernelSet(kms)
    what = '{} on {} points bucket={}'.format(kinds, n, bucket)
    k = len(V)
    for rep in range(2):
        for metric, f in (('corr', pearson), ('align', align), (None, pearson)):
            acc.transitions += 1
            got = pairwise_similarity(S) if metric is None else \
                pairwise_similarity(S, metric) if rep else \
                pairwise_similarity(S, metric=metric)
            if np.shape(got) != (k, k):
                acc.violate('shape {}'.format(np.shape(got)), what)
                return
            for i in range(k):
                for j in range(k):
                    w = f(V[i], V[j])
                    if w is None:
                        continue
                    if not abs(got[i, j] - w) < 1e-8:
                        acc.violate('{}[{}, {}] is {} expected {}'.format(
                            metric, i, j, got[i, j], w), what)
                        return
                    acc.out(round(w, 6))
    for m in ('nosuch', '', None, 5):
        acc.transitions += 1
        try:
            r = pairwise_similarity(S, m)
        except Exception:
            continue
        acc.violate('metric {!r} accepted: {}'.format(m, r), what)
        return
    for m, v in zip(S, V):
        if not ref.close(m.full, v):
            acc.violate('member changed', what)
            return
    if len(S) != k:
        acc.violate('set changed', what)
    acc.states += 1
    acc.traces += 1


def ladder(acc, n):
    from kernelmethods.sampling import correlation_km, ideal_kernel
    A, B = mats.psd(n, n), mats.psd(n, n + 1)
    y = mats.seeded(n, 1, n)[:, 0]
    acc.transitions += 2
    if n > 1 and not abs(correlation_km(A, B) - np.corrcoef(A.ravel(), B.ravel())[0, 1]) \
            < 1e-9:
        acc.violate('correlation wrong for n={}'.format(n), '')
    if not np.allclose(ideal_kernel(y), y[:, None] * y[None, :]):
        acc.violate('ideal kernel wrong for n={}'.format(n), '')
    acc.states += 1
    acc.traces += 1


def run(ctx):
    ctx.explore(ideal, [(1, (-2, 0, 1, 127)), (2, (-1, 0, 1, 2, 100)), (3, (-1, 0, 1, 2)),
                        (4, (0, 1, 2)), (5, (-1, 1)), (5, (0, 1)), (3, (0.5, -1.25, 2.0)),
                        (ctx.pick(6, 9), (-1, 1))])
    ctx.explore(corr, [(2, (-1.0, 0.0, 2.0), False, p, 8) for p in range(8)] +
                [(2, (-1.0, 0.0, 1.0, 4.0), True, p, 4) for p in range(4)] +
                [(3, ctx.pick((0.0, 1.0), (0.0, 1.0, -2.0)), True, p, 8) for p in range(8)])
    t = [(kk, n, False) for r in (1, 2, 3) for kk in itertools.product(KINDS, repeat=r)
         for n in ((2, 3) if r < 3 else (3,))]
    t += [(kk, n, True) for r in (1, 2, 3) for n in (2, 4)
          for kk in itertools.product([k for k in KINDS if k != 'pre'], repeat=r)]
    t += [(KINDS * r, 4, False) for r in (1, 2, 3)]
    if ctx.thorough:
        t += [(kk, 3, False) for kk in itertools.product(KINDS, repeat=4)]
    ctx.explore(pairwise, t)
    ctx.explore(ladder, list(range(1, 40)) + [64, 65, 100, 129])
    ctx.assumptions.append('entries whose correlation is undefined (constant matrix) are not '
                           'judged')
