"""C08: centering."""
import itertools

import numpy as np

from mc import mats, ref
from mc.kmworld import TKernel
from mc.props.c07 import kernels


def check(acc, M, K, lab):
    from kernelmethods.operations import center_km
    before = M.tobytes()
    got = center_km(M)
    acc.transitions += 1
    W = ref.centered(K)
    s = max(1.0, np.abs(K).max())
    # the precision of the given type is enough: how it is computed is not prescribed
    t = 300.0 if M.dtype == np.float32 else 1.0
    if M.tobytes() != before:
        return 'center_km modified its input'
    if got is M:
        return 'center_km returned its input'
    if not ref.close(got, W, 1e-8, 3e-9 * s * t):
        return 'centered to\n{}\nexpected\n{}'.format(got, W)
    if np.abs(got.sum(0)).max() > 1e-7 * s * t * len(K) or \
            np.abs(got.sum(1)).max() > 1e-7 * s * t * len(K):
        return 'rows or columns do not sum to zero'
    if not ref.close(center_km(got), got, 1e-8, 1e-8 * s * t):
        return 'not idempotent'
    return None


def small(acc, n, vals, scale, allforms, part, parts):
    for c, K in enumerate(mats.all_matrices(n, n, vals)):
        if c % parts != part:
            continue
        K = K * scale
        for lab, M in (mats.forms(K) if allforms else (('C', K),)):
            bad = check(acc, M, K, lab)
            if bad:
                acc.violate(bad, '{} {}'.format(lab, K.tolist()))
                return
        acc.states += 1
    acc.traces += 1
    acc.sample('center_km({})'.format(K.tolist()))


def ladder(acc, n):
    for K in (mats.psd(n, n), mats.seeded(n, n, n), np.full((n, n), 3.5),
              mats.psd(n, n + 1) * 1e6 + 5, np.eye(n),
              (np.round(mats.psd(n, n + 2), 2) + 1e4).astype(np.float32),
              (np.outer(np.arange(n), np.arange(n)) % 11 + 2 ** 20).astype(np.float32), mats.seeded(n, n, n + 7) * 1e-3):
        bad = check(acc, K, K, '')
        if bad:
            acc.violate('{} points: {}'.format(n, bad[:600]), '')
            return
        acc.states += 1
    acc.traces += 1


def matrix(acc, kind, n, vals):
    """the centered form of kernel matrices, after every other access, then re-attached"""
    from kernelmethods.base import KernelMatrix
    mk, r = kernels()[kind]
    if kind == 'chi2':
        vals = [abs(v) for v in vals]
    prev = np.array([[1., 2.], [2., 1.], [0.5, 2.]])[:n]
    for X in mats.samples(n, 2, vals):
        W = ref.centered(ref.raw_km(r, X.tolist()))
        for nm, first, re in itertools.product((False, True), (
                None, 'full', 'normed_km', 'frob_norm', 'full_sparse', 'center'),
                (False, True)):
            km = KernelMatrix(mk(), normalized=nm)
            if re:
                km.attach_to(prev)
                km.centered
            km.attach_to(X)
            try:
                if first == 'center':
                    km.center()
                elif first:
                    getattr(km, first)
            except Exception:
                pass                     # e.g. can not be normalized: C07
            got = km.centered
            acc.transitions += 1
            if not ref.close(got, W):
                acc.violate('{} centered after {} (normalized={}):\n{}\nexpected\n{}'.format(
                    kind, first, nm, got, W), str(X.tolist()))
                return
        acc.states += 1
    acc.traces += 1


def rejects(acc, _):
    from kernelmethods.base import KernelMatrix
    from kernelmethods.operations import center_km

    def must_fail(what, f):
        acc.transitions += 1
        acc.states += 1
        try:
            r = f()
        except Exception:
            return
        acc.violate('{} was accepted: {!r}'.format(what, r), '')
    for s in ((1, 2), (2, 1), (2, 3), (3, 2), (1, 4)):
        must_fail('non-square {}'.format(s), lambda: center_km(np.ones(s)))
    for o in ([[1., 2.], [2., 1.]], ((1.,),), None, 'ab', 3.0):
        must_fail(repr(o), lambda: center_km(o))
    X, Y = np.array([[1., 2.], [3., 4.]]), np.array([[0., 1.], [1., 1.]])
    for nm, pre, Y in itertools.product((False, True), (None, 'full', 'one'),
                                        (Y, X, X.copy(), X[:1], np.array([[5., 5.]] * 3))):
        km = KernelMatrix(TKernel(), normalized=nm)
        if pre == 'one':
            km.attach_to(X)
            km.centered
        km.attach_to(X, sample_two=Y)
        if pre == 'full':
            km.full
        must_fail('two-sample centered', lambda: km.centered)
        must_fail('two-sample center()', km.center)
        must_fail('two-sample centered', lambda: km.centered)
        km.attach_to(Y)
        if not ref.close(km.centered, ref.centered(ref.raw_km(TKernel.value, Y.tolist()))):
            acc.violate('wrong after two-sample use', '')
    acc.traces += 1


def run(ctx):
    v5 = (-2.0, -1.0, 0.0, 1.0, 3.5)
    tasks = [(1, v5, s, True, 0, 1) for s in (1.0, 1e6, 1e-6)]
    tasks += [(2, v5, s, s == 1, 0, 1) for s in (1.0, 1e6, 1e-6)]
    tasks += [(2, (0.0, 1.0, 7.0, 100.0), 1.0, True, 0, 1)]
    tasks += [(3, (-1.0, 0.0, 2.0), 1.0, False, p, 8) for p in range(8)]
    if ctx.thorough:
        tasks += [(3, (-1.0, 0.0, 2.0, 5.0), 1.0, False, p, 32) for p in range(32)]
        tasks += [(4, (0.0, 1.0), 1.0, False, p, 16) for p in range(16)]
    ctx.explore(small, tasks)
    ns = list(range(1, 35)) + [50, 51, 64, 65, 100, 101, 128, 129, 150, 151]
    ctx.explore(ladder, (ns + ctx.pick([], list(range(52, 130)) + [200, 256, 257, 300]))[::-1])
    ctx.explore(matrix, [(k, n, v) for k in kernels() for n, v in
                         ((1, (-1.0, 0.0, 2.0)), (2, (-1.0, 0.0, 2.0)), (3, ctx.pick((0.0, 2.0), (-1.0, 0.0, 2.0))))])
    ctx.explore(rejects, [0], parallel=False)
