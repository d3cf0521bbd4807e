"""Enumerations of small matrices and samples shared by several checks."""
import itertools

import numpy as np


def all_matrices(n, m, vals):
    for v in itertools.product(vals, repeat=n * m):
        yield np.array(v, float).reshape(n, m)


def sym_matrices(n, diag, off):
    iu = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for d in itertools.product(diag, repeat=n):
        for o in itertools.product(off, repeat=len(iu)):
            K = np.diag(np.array(d, float))
            for (i, j), v in zip(iu, o):
                K[i, j] = K[j, i] = v
            yield K


def samples(n, d, vals, ordered=False):
    """all samples of n points of vals^d: multisets, or sequences if ordered"""
    pts = list(itertools.product(vals, repeat=d))
    it = itertools.product(pts, repeat=n) if ordered else \
        itertools.combinations_with_replacement(pts, n)
    for s in it:
        yield np.array(s, float).reshape(n, d)


def forms(K):
    """the same matrix in other dtypes / memory layouts"""
    yield 'C', K
    yield 'F', np.asfortranarray(K)
    big = np.zeros((2 * K.shape[0], 3 * K.shape[1]))
    big[::2, ::3] = K
    yield 'view', big[::2, ::3]
    if np.all(K == np.round(K)) and np.all(np.abs(K) < 100):
        yield 'int64', K.astype(np.int64)
        yield 'int8', K.astype(np.int8)
        yield 'int32', K.astype(np.int32)
        if np.all(K >= 0):
            yield 'uint8', K.astype(np.uint8)
    ro = K.copy()
    ro.flags.writeable = False
    yield 'readonly', ro


def seeded(n, m, seed, lo=-2.0, hi=2.0):
    return np.round(np.random.default_rng(seed).uniform(lo, hi, (n, m)), 3)


def psd(n, seed, rank=None):
    F = seeded(n, rank or max(2, n // 2), seed) + 0.01
    return F @ F.T + 0.125 * np.eye(n)
