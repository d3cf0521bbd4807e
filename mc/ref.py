"""Boring reference definitions: what each result must be, written from the textbook
formulas and independent of the implementation's algorithms."""
import math

import numpy as np

RT, AT = 1e-8, 1e-9


def close(a, b, rt=RT, at=AT):
    """Same shape, and equal up to rounding; NaN/Inf must be at the same places."""
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rt, atol=at, equal_nan=True))


def rows(a):
    return [list(map(float, r)) for r in np.asarray(a)]


def raw_km(k, X, Y=None):
    """k: plain python function on two lists of floats"""
    Y = X if Y is None else Y
    return np.array([[float(k(x, y)) for y in Y] for x in X], dtype=float)


def normalized(K, dx=None, dy=None):
    if dx is None:
        dx = dy = [K[i][i] for i in range(len(K))]
    return np.array([[K[i][j] / math.sqrt(dx[i] * dy[j]) for j in range(len(dy))]
                     for i in range(len(dx))])


def centered(K):
    K = np.asarray(K, float)
    n = len(K)
    rm = [sum(K[i][j] for j in range(n)) / n for i in range(n)]
    cm = [sum(K[i][j] for i in range(n)) / n for j in range(n)]
    g = sum(rm) / n
    return np.array([[K[i][j] - rm[i] - cm[j] + g for j in range(n)]
                     for i in range(n)])


def fprod(A, B):
    A, B = np.asarray(A, float), np.asarray(B, float)
    return math.fsum(A[i][j] * B[i][j] for i in range(A.shape[0])
                     for j in range(A.shape[1]))


def fnorm(A):
    return math.sqrt(fprod(A, A))


def alignment(A, B):
    A, B = centered(A), centered(B)
    return fprod(A, B) / (fnorm(A) * fnorm(B))


# ---- kernel functions (on sequences of python floats) ---------------------------------
def dot(x, y):
    return math.fsum(a * b for a, b in zip(x, y))


def linear():
    return dot


def poly(degree=3, gamma=1.0, b=1.0):
    return lambda x, y: (b + gamma * dot(x, y)) ** degree


def gaussian(sigma=2.0):
    return lambda x, y: math.exp(-math.fsum((a - c) ** 2 for a, c in zip(x, y)) /
                                 (2.0 * sigma ** 2))


def laplacian(gamma=1.0):
    return lambda x, y: math.exp(-gamma * math.fsum(abs(a - c) for a, c in zip(x, y)))


def chi2(gamma=1.0):
    return lambda x, y: math.exp(-gamma * math.fsum(
        (a - c) ** 2 / (a + c) for a, c in zip(x, y) if a + c > 0))


def sigmoid(gamma=1.0, offset=1.0):
    return lambda x, y: math.tanh(offset + gamma * dot(x, y))


def hadamard(alpha=3):
    def f(x, y):
        t = []
        for a, c in zip(x, y):
            p, q = abs(a) ** alpha, abs(c) ** alpha
            if p + q > 0:
                t.append(p * q / (2.0 * (p + q)))
        return math.fsum(t)
    return f


def match(perc=True):
    def f(x, y):
        m = sum(1 for a, b in zip(x, y) if a == b)
        return m / len(x) if perc else m
    return f


def kernel_pairs():
    """(label, real kernel factory, reference function, needs non-negative data)"""
    from kernelmethods import numeric_kernels as nk
    K = []

    def add(cls, reff, nonneg=False, **p):
        K.append(('{}({})'.format(cls.__name__, ','.join(
            '{}={}'.format(*i) for i in sorted(p.items()))),
                  lambda skip=False, cls=cls, p=p: cls(skip_input_checks=skip, **p),
                  reff(**p), nonneg))
    add(nk.LinearKernel, linear)
    for d in (1, 2, 3, 4):
        for g in (1.0, 0.5):
            for b in (1.0, 0.0, 2.0):
                add(nk.PolyKernel, poly, degree=d, gamma=g, b=b)
    for s in (0.25, 0.5, 1, 2.0, 8):
        add(nk.GaussianKernel, gaussian, sigma=s)
    for g in (0.125, 0.5, 1, 2.0):
        add(nk.LaplacianKernel, laplacian, gamma=g)
        add(nk.Chi2Kernel, chi2, True, gamma=g)
        for o in (-2.0, 0.0, 1.0):
            add(nk.SigmoidKernel, sigmoid, gamma=g, offset=o)
    for a in (0.5, 1, 2, 3, 4):
        add(nk.HadamardKernel, hadamard, alpha=a)
    return K
