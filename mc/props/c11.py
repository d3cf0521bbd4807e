"""C11: PSD test, and PSD kernels give PSD matrices."""
import itertools
from fractions import Fraction as F

import numpy as np

from mc import mats, ref

# the test prints/warns; irrelevant here


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    s = 0
    for j in range(n):
        if M[0][j]:
            s += (-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
    return s


def exact_psd(M, shift=0, strict=False):
    """all principal minors of M + shift*I are >= 0 (exact rational arithmetic); strict:
    all leading ones > 0"""
    n = len(M)
    A = [[F(int(M[i][j])) + (shift if i == j else 0) for j in range(n)] for i in range(n)]
    if strict:
        return all(det([r[:k] for r in A[:k]]) > 0 for k in range(1, n + 1))
    return all(det([[A[i][j] for j in S] for i in S]) >= 0
               for k in range(1, n + 1) for S in itertools.combinations(range(n), k))


def verdict(M, tol):
    """True / False / None (within rounding of the boundary)"""
    t = F(tol)
    if exact_psd(M, t, strict=True) if tol == 0 else exact_psd(M, t * F(999, 1000)):
        return True
    if not exact_psd(M, t + F(1, 10 ** 6)):
        return False
    return None


def call(acc, A, want, tol, what):
    from kernelmethods.operations import is_positive_semidefinite
    acc.transitions += 1
    keep = A.copy()
    try:
        got = is_positive_semidefinite(A) if tol is None else \
            is_positive_semidefinite(A, tol)
    except Exception as e:
        acc.violate('PSD test raised {!r}'.format(e), '{} {} tol={}'.format(
            what, A.tolist(), tol))
        return False
    if bool(got) != want or not isinstance(got, (bool, np.bool_)):
        acc.violate('PSD test returned {!r}, expected {}'.format(got, want),
                    '{} {} tol={}'.format(what, A.tolist()[:6], tol))
        return False
    if A.tobytes() != keep.tobytes():
        acc.violate('PSD test modified its input', '{} {}'.format(what, keep.tolist()))
        return False
    acc.out((want, tol, A.shape))
    return True


def sym(acc, n, diag, off, part, parts):
    for i, A in enumerate(mats.sym_matrices(n, diag, off)):
        if i % parts != part:
            continue
        acc.states += 1
        for tol in (None, 1e-6, 0, 0.5, 1.25):
            w = verdict(A, 1e-6 if tol is None else tol)
            if w is None:
                acc.note('on_the_boundary')
                continue
            if not call(acc, A, w, tol, 'symmetric'):
                return
        w = verdict(A, 1e-6)
        if i % 7 == 0 and w is not None:
            for lab, B in mats.forms(A):
                if not call(acc, B, w, None, lab):
                    return
            for s in (1e-2, 1e3):
                if verdict(A, 0) is not None or w is True:
                    if not call(acc, A * s, w, None, 'scaled {}'.format(s)):
                        return
    acc.traces += 1


def asym(acc, n, vals, part, parts):
    for i, A in enumerate(mats.all_matrices(n, n, vals)):
        if i % parts != part:
            continue
        acc.states += 1
        s = bool((A == A.T).all())
        w = verdict(A, 1e-6) if s else False
        if w is not None and not call(acc, A, w, None, 'any'):
            return
        if s and i % 2 == 0:
            big = max(1.0, abs(A).max())
            for p in itertools.combinations(range(n), 2):
                for eps in (1e-3, -5e-3, 0.05):
                    B = A + 20.0 * np.eye(n)
                    B[p] += eps * big
                    if not call(acc, B, False, None, 'slightly asymmetric'):
                        return
                    B = np.full((n, n), 40.0) + np.eye(n) * 30
                    B[p] *= 1 + eps
                    if not call(acc, B, False, None, 'slightly asymmetric'):
                        return
        if i % 5 == 0:
            for p in itertools.product(range(n), repeat=2):
                for v in (np.nan, np.inf, -np.inf):
                    B = A.copy()
                    B[p] = B[p[::-1]] = v
                    if not call(acc, B, False, None, 'not finite'):
                        return
    acc.traces += 1


def boundary(acc, n):
    """eigenvalues exactly at minus the tolerance (exact in floating point)"""
    for tol in (0, 0.0, 0.5, 1.0, 2.0, 1e-6, 0.25):
        for v, want in ((-tol, True), (0.0, True), (-tol - 0.25, False), (1.0, True),
                        (-2 * tol - 1, False)):
            if n > 1 and v != 0.0:
                continue
            A = np.full((n, n), float(v))
            call(acc, A, want, tol, 'constant matrix {} of {} points'.format(v, n))
    acc.states += 1
    acc.traces += 1


def rect(acc, n, m):
    for A in mats.all_matrices(n, m, (0.0, 1.0, 2.0)):
        acc.states += 1
        if not call(acc, A, False, None, 'not square'):
            return
    acc.traces += 1


def spectral(acc, n, kind):
    """prescribed spectra: Q diag(l) Q' with one eigenvalue below/above -tolerance, at
    every rank position"""
    if kind == 'givens':
        Q = np.eye(n)
        for i in range(n - 1):
            t = 0.4 + 0.3 * i
            G = np.eye(n)
            G[i, i] = G[i + 1, i + 1] = np.cos(t)
            G[i, i + 1], G[i + 1, i] = -np.sin(t), np.sin(t)
            Q = Q @ G
    else:
        v = np.arange(1.0, n + 1)
        Q = np.eye(n) - 2 * np.outer(v, v) / v.dot(v)
    for small, want in ((-1e-2, False), (-1e-4, False), (-4e-6, False), (-2e-7, True),
                        (0.0, True), (1e-3, True), (-5.0, False)):
        for mult in (1, 2, n):
            for top in (1.0, 50.0):
                lam = np.full(n, top) + np.arange(n)
                lam[:min(mult, n)] = small
                A = Q @ np.diag(lam) @ Q.T
                A = (A + A.T) / 2
                acc.states += 1
                if not call(acc, A, want, None, 'spectrum n={} min={}'.format(n, small)):
                    return
                if small < -1e-3:
                    if not call(acc, A, True, -small * 1.5, 'tol'):
                        return
                    if not call(acc, A, False, -small * 0.5, 'tol'):
                        return
    acc.traces += 1


def menu():
    from kernelmethods import categorical as ck
    out = []
    for lab, mk, r, nonneg in ref.kernel_pairs():
        if lab.startswith(('Sigmoid', 'Hadamard')):
            continue
        out.append((lab, mk, r, nonneg, False))
    for perc in (True, False):
        out.append(('MatchCount({})'.format(perc),
                    lambda skip=False, perc=perc: ck.MatchCountKernel(perc),
                    ref.match(perc), True, True))
    return out


def judge_sample(acc, k, r, X, cat, what, numeric=False):
    from kernelmethods.base import KernelMatrix
    from kernelmethods.operations import is_positive_semidefinite
    S = np.array([['v%g' % v for v in row] for row in X]) if cat else X
    if not numeric:
        R = ref.raw_km(r, S.tolist())
        # for the statement to be about the code, the definition itself must be PSD
        e = np.linalg.eigvalsh(R)
        if e[0] < -1e-9 * max(1.0, abs(e[-1])):
            raise AssertionError('reference not PSD ' + what)
        d = R.diagonal()
    for normalized in (False, True):
        if normalized and not numeric and (d < 1e-6).any():
            continue
        km = KernelMatrix(k, normalized=normalized)
        km.attach_to(S)
        K = np.asarray(km.full, float)
        acc.transitions += 1
        if not np.isfinite(K).all():
            acc.violate('{} normalized={}: not finite'.format(what, normalized), X.tolist())
            return False
        scale = max(1.0, np.abs(K).max())
        if np.abs(K - K.T).max() > 1e-9 * scale:
            acc.violate('{} normalized={}: not symmetric'.format(what, normalized),
                        '{} {}'.format(X.tolist(), K.tolist()))
            return False
        e = np.linalg.eigvalsh((K + K.T) / 2)
        if e[0] < -1e-7 * scale * len(K):
            acc.violate('{} normalized={}: smallest eigenvalue {}'.format(
                what, normalized, e[0]), '{} {}'.format(X.tolist(), K.tolist()))
            return False
        if scale < 1e6 and not is_positive_semidefinite(km.full):
            acc.violate('{} normalized={}: not accepted as PSD'.format(what, normalized),
                        '{} {}'.format(X.tolist(), K.tolist()))
            return False
        acc.out((normalized, round(float(e[0]), 6), round(float(e[-1]), 3)))
    return True


def kernels(acc, i, n, d, vals):
    lab, mk, r, nonneg, cat = menu()[i]
    if nonneg and not cat and min(vals) < 0:
        return
    k = mk()
    for X in mats.samples(n, d, vals):
        acc.states += 1
        if not judge_sample(acc, k, r, X, cat, lab):
            return
    acc.sample('{} on all samples of {} points of {}^{}'.format(lab, n, vals, d))
    acc.traces += 1


def ladder(acc, i, n):
    lab, mk, r, nonneg, cat = menu()[i]
    k = mk()
    for d in (2, 5, n):
        for dup in (False, True):
            X = mats.seeded(n, d, n + d, 0.1 if nonneg else -1.5, 1.5)
            if dup:
                X[n // 2:] = X[:n - n // 2]
            if cat:
                X = np.round(X)
            acc.states += 1
            if not judge_sample(acc, k, r, X, cat, lab + ' n={} d={}'.format(n, d), True):
                return
    acc.traces += 1


def self_check(acc, i):
    """kernel.is_psd(): draws its own sample; whatever it draws, the answer is fixed"""
    from kernelmethods.base import KernelFromCallable
    lab, mk, r, nonneg, cat = menu()[i]
    if not cat:
        k = mk()
        for s in range(3):
            np.random.seed(s)
            acc.transitions += 1
            if k.is_psd() is not True:
                acc.violate('{}.is_psd() is not True'.format(lab), 'seed {}'.format(s))
    acc.states += 1
    acc.traces += 1
    if i == 0:
        bad = KernelFromCallable(lambda x, y: 1.0 + 3.0 * float(np.abs(x - y).sum()), 'bad')
        good = KernelFromCallable(lambda x, y: 2.0 + float(np.dot(x, y)), 'good')
        for s in range(10):
            np.random.seed(s)
            acc.transitions += 2
            if bad.is_psd() is not False:
                acc.violate('is_psd() accepts a kernel that is not PSD', '')
            if good.is_psd() is not True:
                acc.violate('is_psd() rejects a PSD kernel', '')


def run(ctx):
    ctx.explore(sym, [(n, d, o, p, 8) for n, d, o in (
        (1, (-2, -1, 0, 1, 2), ()), (2, range(-2, 6), range(-4, 5)),
        (3, (-1, 0, 1, 2), (-2, -1, 0, 1, 2)),
        (4, ctx.pick((0, 1), (0, 1, 2)), ctx.pick((-1, 0, 1), (-1, 0, 1))))
        for p in range(8)])
    ctx.explore(asym, [(n, v, p, 4) for n, v in (
        (1, (-1.0, 0.0, 2.0)), (2, (-1.0, 0.0, 1.0, 2.0)), (3, (0.0, 1.0)))
        for p in range(4)])
    ctx.explore(boundary, [1, 2, 3, 5, 17, 64])
    ctx.explore(rect, [(1, 2), (2, 1), (1, 3), (2, 3), (3, 2)])
    ns = list(range(1, 34)) + [40, 50, 64, 65, 100]
    ctx.explore(spectral, [(n, k) for n in ns + ctx.pick([], [128, 200, 300])
                           for k in ('givens', 'reflect')])
    m = range(len(menu()))
    spaces = [(1, 1, (0.0, 1.0, 2.0, -3.0)), (2, 1, (0.0, 1.0, 2.0, 3.0)),
              (3, 1, (0.0, 0.5, 2.0)), (4, 1, (0.0, 1.0, 3.0)), (2, 2, (0.0, 1.0, 2.0)),
              (3, 2, (0.0, 1.0)), (2, 1, (-2.0, -1.0, 1.0, 2.0)), (3, 1, (-1.0, 0.0, 2.0)),
              (4, 1, (-1.0, 1.0)), (3, 2, (-1.0, 1.0)), (2, 3, (0.0, 1.0))]
    if ctx.thorough:
        spaces += [(5, 1, (0.0, 1.0, 2.0)), (4, 2, (0.0, 1.0)), (3, 2, (0.0, 1.0, 2.0)),
                   (3, 2, (-1.0, 0.0, 2.0)), (6, 1, (0.0, 1.0, 4.0)), (3, 3, (0.0, 1.0))]
    ctx.explore(kernels, [(i, n, d, v) for n, d, v in spaces for i in m])
    ctx.explore(ladder, [(i, n) for n in ctx.pick((5, 20, 33), (5, 17, 33, 64, 65, 101))
                         for i in m])
    ctx.explore(self_check, list(m))
    ctx.assumptions.append('eigenvalues within 1e-6 of the tolerance are not judged')
