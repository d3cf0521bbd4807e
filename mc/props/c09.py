"""C09: Frobenius product, norm, centered alignment."""
import itertools

import numpy as np

from mc import mats, ref


def products(acc, n, m, vals, allforms, part, parts):
    from kernelmethods.operations import frobenius_norm, frobenius_product
    M = list(mats.all_matrices(n, m, vals))
    for i, A in enumerate(M):
        if i % parts != part:
            continue
        for lab, F in (mats.forms(A) if allforms else (('C', A),)):
            acc.transitions += 1
            if not np.isclose(frobenius_norm(F), ref.fnorm(A)):
                acc.violate('norm {} expected {}'.format(frobenius_norm(F), ref.fnorm(A)),
                            '{} {}'.format(lab, A.tolist()))
                return
            G = F * 0 + F
            for j in (0, len(M) // 3, len(M) - 1):
                if not np.isclose(frobenius_product(G, M[j]), ref.fprod(A, M[j])):
                    acc.violate('product {} expected {}'.format(
                        frobenius_product(F, M[j]), ref.fprod(A, M[j])),
                        '{} {} {}'.format(lab, A.tolist(), M[j].tolist()))
                    return
        for B in M + ([A.T, A[::-1, ::-1]] if n == m else [A[::-1], A[:, ::-1]]):
            acc.transitions += 1
            g, w = frobenius_product(A, B), ref.fprod(A, B)
            if not np.isclose(g, w):
                acc.violate('product {} expected {}'.format(g, w), '{} {}'.format(
                    A.tolist(), B.tolist()))
                return
            acc.out(round(w, 6))
        acc.states += 1
    acc.traces += 1


def judge(A, B, cA, cB, already, policy):
    from kernelmethods.operations import alignment_centered
    nA, nB = ref.fnorm(cA), ref.fnorm(cB)
    tiny = nA < 1e-12 or nB < 1e-12
    kw = {} if policy == 'default' else dict(value_if_zero_division=policy)
    if already:
        kw['centered_already'] = True
    try:
        got = alignment_centered(A, B, **kw)
    except Exception as e:
        if tiny and policy in ('default', 'raise', Exception):
            return None, None
        return 'raised {!r} (policy {!r})'.format(e, policy), None
    if tiny:
        if policy in ('default', 'raise', Exception):
            return 'undefined alignment returned {!r}'.format(got), None
        same = got is policy or got == policy or (got != got and policy != policy)
        return (None if same else 'returned {!r} instead of {!r}'.format(got, policy)), None
    w = ref.fprod(cA, cB) / (nA * nB)
    if not (np.isscalar(got) or np.ndim(got) == 0) or not np.isclose(got, w, rtol=1e-8,
                                                                    atol=1e-9):
        return 'returned {!r} expected {!r}'.format(got, w), None
    if abs(got) > 1 + 1e-9:
        return 'out of range: {!r}'.format(got), None
    return None, got


def aligns(acc, n, vals, sym, already, part, parts):
    M = list(mats.sym_matrices(n, vals, vals) if sym else mats.all_matrices(n, n, vals))
    C = M if already else [ref.centered(A) for A in M]
    pol = ('default', 'raise', 0.0, -1.0, None, Exception, 7, float('nan'))
    for i, A in enumerate(M):
        if i % parts != part:
            continue
        for j, B in enumerate(M):
            acc.transitions += 1
            bad, g = judge(A, B, C[i], C[j], already, 0.0 if (i + j) % 3 else 'default')
            if bad:
                acc.violate(bad, '{} {} already={}'.format(A.tolist(), B.tolist(), already))
                return
            if g is not None:
                acc.out(round(float(g), 6))
        B = M[(i * 7 + 3) % len(M)]
        j = (i * 7 + 3) % len(M)
        for p in pol:
            for X, Y, cX, cY in ((A, B, C[i], C[j]), (B, A, C[j], C[i]), (A, A, C[i], C[i])):
                acc.transitions += 1
                bad, g = judge(X, Y, cX, cY, already, p)
                if bad:
                    acc.violate(bad, '{} {} already={} policy={!r}'.format(
                        X.tolist(), Y.tolist(), already, p))
                    return
        if not already:
            for s, sh, s2 in ((2.5, 0.0, 1.0), (1e4, 3.0, 1.0), (1e-3, -1.0, 1.0),
                              (1.0, 50.0, 1.0), (1e-5, 0.0, 1e-5), (1e-5, 0.0, 1.0),
                              (1e-5, 0.0, 1e5), (1e6, 0.0, 1e6), (1e-4, 1e-4, 3e-5),
                              (1e60, 0.0, 1e60), (1e5, 7.0, 1e-5)):
                acc.transitions += 1
                bad, g = judge(A * s + sh, B * s2, C[i] * s, C[j] * s2, False, 0.0)
                # below about 1e-8 a matrix counts as vanishing: nothing is claimed there
                if bad and ref.fnorm(C[i]) * s > 1e-6 and ref.fnorm(C[j]) * s2 > 1e-6:
                    acc.violate('scaled by {} shifted by {}: {}'.format(s, sh, bad),
                                '{} {}'.format(A.tolist(), B.tolist()))
                    return
        big = np.zeros((n + 1, n + 1))
        big[:n, :n] = A
        big[n, :] = big[:, n] = np.arange(n + 1) - 2.0
        cent = (lambda a: a) if already else ref.centered
        for P, Q in ((A, A.T), (A, A[::-1, ::-1]), (A[:, ::-1], A), (A[::-1], A.T[::-1]),
                     (big[:n, :n], big[1:, 1:]), (big[1:, :n], big[:n, 1:])):
            acc.transitions += 1                # two views of the same memory
            bad, g = judge(P, Q, cent(P), cent(Q), already, 0.0)
            if bad:
                acc.violate('overlapping views: {}'.format(bad), '{} {}'.format(
                    P.tolist(), Q.tolist()))
                return
        for lab, F in mats.forms(A):
            acc.transitions += 1
            bad, g = judge(F, B, C[i], C[j], already, 0.0)
            if bad:
                acc.violate('{}: {}'.format(lab, bad), '{} {}'.format(A.tolist(),
                                                                     B.tolist()))
                return
        acc.states += 1
        acc.sample('alignment({}, {})'.format(A.tolist(), B.tolist()))
    acc.traces += 1


def ladder(acc, n):
    from kernelmethods.operations import (alignment_centered, frobenius_norm,
                                          frobenius_product)
    A, B = mats.psd(n, n), mats.psd(n, n + 1) - mats.seeded(n, n, 3).T
    H = np.eye(n) - 1.0 / n
    cA, cB = H @ A @ H, H @ B @ H
    acc.transitions += 4
    acc.states += 1
    acc.traces += 1
    if not np.isclose(frobenius_product(A, B), np.einsum('ij,ij->', A, B)) or \
            not np.isclose(frobenius_norm(B), np.sqrt((B ** 2).sum())):
        acc.violate('product or norm wrong for n={}'.format(n), '')
    R = mats.seeded(n, 3, n)
    if not np.isclose(frobenius_product(R, R * 2 + 1), (R * (R * 2 + 1)).sum()):
        acc.violate('product wrong for {}x3'.format(n), '')
    if n < 2:
        return
    w = (cA * cB).sum() / np.sqrt((cA ** 2).sum() * (cB ** 2).sum())
    if not np.isclose(alignment_centered(A, B), w, rtol=1e-7, atol=1e-9) or \
            not np.isclose(alignment_centered(B, A), w, rtol=1e-7, atol=1e-9) or \
            not np.isclose(alignment_centered(cA, cB, centered_already=True), w, rtol=1e-7,
                           atol=1e-9) or \
            not np.isclose(alignment_centered(A, A), 1.0):
        acc.violate('alignment wrong for n={}'.format(n), '')


def rejects(acc, _):
    from kernelmethods.operations import alignment_centered, frobenius_product
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
    for a, b in itertools.product(shapes, repeat=2):
        A, B = np.arange(a[0] * a[1]).reshape(a) + 1.0, np.ones(b) * 2
        acc.states += 1
        for name, f, ok in (('product', lambda: frobenius_product(A, B), a == b),
                            ('alignment', lambda: alignment_centered(A, B, 0.0),
                             a == b and a[0] == a[1])):
            acc.transitions += 1
            try:
                r = f()
            except Exception as e:
                if ok:
                    acc.violate('{} of {} and {} raised {!r}'.format(name, a, b, e), '')
                continue
            if not ok:
                acc.violate('{} of {} and {} gave {!r}'.format(name, a, b, r), '')
    acc.traces += 1


def run(ctx):
    ctx.explore(products, [(n, m, v, True, p, 4) for n, m, v in (
        (1, 1, (-2.0, 0.0, 1.0, 50.0)), (1, 2, (-1.0, 0.0, 3.0, 99.0)),
        (2, 1, (-1.0, 0.0, 2.0)), (2, 2, (-1.0, 0.0, 2.0, 40.0)), (1, 3, (-1.0, 0.5, 2.0)),
        (2, 3, (0.0, -1.5))) for p in range(4)])
    ctx.explore(aligns, [(n, v, s, a, p, 8) for n, v, s in (
        (1, (0.0, 2.0), False), (2, ctx.pick((-1.0, 0.0, 2.0), (-1.0, 0.0, 2.0, 5.0)), False),
        (2, (-1.0, 0.0, 1.0, 4.0), True), (3, (0.0, 1.0, -2.0), True))
        for a in (False, True) for p in range(8)])
    if ctx.thorough:
        ctx.explore(aligns, [(3, (0.0, 1.0), False, a, p, 16) for a in (False, True)
                             for p in range(16)])
    ns = list(range(1, 70)) + [100, 101, 128, 129, 200, 256, 257]
    ctx.explore(ladder, ns + ctx.pick([], [300, 500, 512, 513, 1000]))
    ctx.explore(rejects, [0], parallel=False)
