"""C01: kernel matrix values do not depend on the access history."""
import numpy as np
from scipy.sparse import issparse

from mc import ref
from mc.bfs import bfs
from mc.kmworld import ACCESS, GETS, SAMPLES, TKernel, World, resolve


def mk(kind):
    from kernelmethods import numeric_kernels as nk
    from kernelmethods.base import KernelFromCallable
    if kind == 'T':
        return TKernel(), TKernel.value
    if kind == 'lin':
        return nk.LinearKernel(), ref.linear()
    if kind == 'rbf':
        return nk.GaussianKernel(sigma=3.0), ref.gaussian(3.0)
    if kind == 'poly':
        return nk.PolyKernel(degree=2, skip_input_checks=True), ref.poly(2)
    if kind == 'lap':
        return nk.LaplacianKernel(0.25), ref.laplacian(0.25)
    if kind == 'sig':                     # some off-diagonal entries are negative
        return nk.SigmoidKernel(gamma=0.05, offset=0.0), ref.sigmoid(0.05, 0.0)
    if kind == 'call':
        return KernelFromCallable(_callable, name='mine', c=2.0), \
            lambda x, y: ref.dot(x, y) * 2.0 + 1
    raise KeyError(kind)


def _callable(x, y, c=1.0):
    return c * np.dot(x, y) + 1


def search(acc, kind, normalized, samples, attaches, layout, dtype, cap):
    def init():
        k, r = mk(kind)
        return World(k, r, samples, normalized, dtype, layout)
    ops = list(attaches) + ACCESS + [('get', g) for g in GETS]

    def step(w, op):
        bad = w.step(op)
        if w.raw is not None and op[0] not in ('attach', 'attach2', 'mutattach'):
            acc.out((w.att, op))
        return bad
    bfs(acc, init, ops, step, cap, '{}{}{}'.format(kind, '/normed' if normalized else '',
                                                   '/' + layout))


def sequences(acc, first, kind, normalized, depth):
    """Stateless: every operation sequence in one process, fresh objects each time."""
    import itertools
    ops = [('attach', 'A'), ('attach', 'B'), ('mutattach', 'A'), ('attach2', 'A', 'C'),
           ('full',), ('sparse',), ('centered',), ('normed',), ('frob',), ('diag',),
           ('get', '0,L'), ('get', ':,:'), ('get', '0,:'), ('normalize',)]
    for rest in itertools.product(ops, repeat=depth - 1):
        k, r = mk(kind)
        w = World(k, r, 'ABC', normalized)
        seq = (('attach', 'A'), first) + rest
        for op in seq:
            bad = w.step(op)
            acc.transitions += 1
            if bad:
                acc.violate(bad, 'history: ' + ' ; '.join(map(str, seq)))
                break
        acc.traces += 1
        acc.states += 1
        if acc.full:
            return
    acc.sample('sequence {}'.format(seq))


def blocks(acc, X, Y, kind, normalized):
    """Sub-matrices covering most of the matrix, on the same or different index sets, read
    from one matrix (each other's values are cached) and from a fresh one each."""
    from kernelmethods.base import KernelMatrix
    raw = vec_ref(kind, X, X if Y is None else Y)
    n, m = raw.shape
    k = min(n, m)
    picks = {'same head': (range(k - 1), range(k - 1)), 'same tail': (range(1, k), range(1, k)),
             'same odd': (range(1, k, 2), range(1, k, 2)), 'rows but last': (range(n - 1), range(m)),
             'columns but first': (range(n), range(1, m)), 'first row': (range(1), range(m)),
             'last column': (range(n), range(m - 1, m)), 'same prefix': (range(k), range(k)),
             'lower': (range(n // 2, n), range(m // 2)), 'upper': (range(n // 2), range(m // 2, m))}
    shared = None
    for fresh in (False, True):
        for what, (r, c) in picks.items():
            if not len(r) or not len(c):
                continue
            if fresh or shared is None:
                shared = KernelMatrix(mk(kind)[0], normalized=normalized)
                shared.attach_to(X, sample_two=Y)
            got = shared[list(r), list(c)]
            acc.transitions += 1
            if not ref.close(got, raw[np.ix_(r, c)]):
                acc.violate('{} block of {}x{} {} wrong (normalized={}, fresh={})'.format(
                    what, n, m, kind, normalized, fresh), '')
                return


def sizes(acc, n, kind, normalized):
    """Every access path on a fresh matrix of n points, and n x m for several m."""
    d = 1 + n % 3
    rng = np.random.default_rng(1000 + n)
    X = np.round(rng.uniform(-2, 2, (n, d)), 2) + 0.05
    for m in [None] + sorted({1, 2, max(1, n - 1), n, n + 1, n + 3}):
        Y = None if m is None else np.round(rng.uniform(-2, 2, (m, d)), 2) + 0.05
        for op in ACCESS + [('get', g) for g in GETS]:
            k, r = mk(kind)
            w = World(k, r, [], normalized)
            w.samples['X'] = X
            if m is not None:
                w.samples['Y'] = Y
            for o in [('attach', 'X') if m is None else ('attach2', 'X', 'Y'), op,
                      ('full',)]:
                bad = w.step(o)
                acc.transitions += 1
                if bad:
                    acc.violate('{} points x {}: {}'.format(n, m, bad[:1500]),
                                'attach ; {} ; full  ({} normalized={})'.format(
                                    op, kind, normalized))
                    return
            acc.traces += 1
        blocks(acc, X, Y, kind, normalized)
        acc.states += 1
    acc.sample('sizes n={} kernel={}'.format(n, kind))


def vec_ref(kind, X, Y):
    D = X @ Y.T
    if kind == 'T':
        return (1 + D) ** 2 + D + 1
    if kind == 'lin':
        return D
    if kind == 'poly':
        return (1 + D) ** 2
    if kind == 'sig':
        return np.tanh(0.05 * D)
    if kind == 'call':
        return 2 * D + 1
    diff = X[:, None, :] - Y[None, :, :]
    if kind == 'rbf':
        return np.exp(-(diff ** 2).sum(-1) / 18.0)
    return np.exp(-0.25 * np.abs(diff).sum(-1))


def large(acc, n, m, kind, normalized):
    """Large matrices: full twice, the sparse form, a block, after a smaller history."""
    rng = np.random.default_rng(7 + n)
    X = np.round(rng.uniform(-2, 2, (n, 3)), 2) + 0.05
    Y = X if m is None else np.round(rng.uniform(-2, 2, (m, 3)), 2) + 0.05
    raw = vec_ref(kind, X, Y)
    want = raw
    if normalized:
        dx = np.diag(vec_ref(kind, X, X)) if n < 2000 else None
        dy = np.diag(vec_ref(kind, Y, Y))
        want = raw / np.sqrt(np.outer(dx, dy))
    from kernelmethods.base import KernelMatrix
    km = KernelMatrix(mk(kind)[0], normalized=normalized)

    def chk(what, got, exp):
        acc.transitions += 1
        if issparse(got):
            got = np.asarray(got.todense())
            got, exp = np.triu(got), np.triu(exp)
        if not ref.close(got, exp):
            acc.violate('{} of {}x{} {} normalized={} is wrong'.format(
                what, n, m, kind, normalized), '')
    km.attach_to(X[:2])
    km.full
    km.attach_to(X, sample_two=None if m is None else Y)
    r = np.arange(0, raw.shape[0], max(1, n // 5))
    c = [raw.shape[1] - 1, 0]
    chk('block', km[r, c], raw[np.ix_(r, sorted(set(c)))])
    chk('full', km.full, want)
    chk('full again', km.full, want)
    chk('[:, :]', km[:, :], raw)
    if not normalized:
        chk('sparse', km.full_sparse, want)
    for what, got, exp in (('shape', km.shape, raw.shape), ('size', km.size, raw.size),
                           ('len', len(km), raw.size),
                           ('num_samples', km.num_samples, n if m is None else (n, m))):
        if not np.array_equal(got, exp):
            acc.violate('{} of {}x{} is {} not {}'.format(what, n, m, got, exp), '')
    chk('norm', km.frob_norm, np.sqrt((raw ** 2).sum()))
    if m is None:
        R = raw - raw.mean(0)[None] - raw.mean(1)[:, None] + raw.mean()
        if not np.allclose(km.centered, R, rtol=1e-6, atol=1e-6 * np.abs(raw).max()):
            acc.violate('centered form of {} points {} wrong'.format(n, kind), '')
        chk('diagonal', km.diagonal(), np.diag(raw))
    acc.states += 1
    acc.traces += 1
    acc.sample('big {}x{} {}'.format(n, m, kind))


def extents(acc, n, m):
    """shape, size, length and number of samples of large lazy matrices, and elements"""
    from kernelmethods.base import KernelMatrix
    km = KernelMatrix(mk('lin')[0], normalized=False)
    X = np.c_[np.arange(n) / 8.0, np.ones(n)]
    Y = None if m is None else np.c_[np.arange(m) / 4.0, np.ones(m) * 2]
    mm = n if m is None else m
    km.attach_to(np.ones((2, 2)))
    for _ in range(2):
        km.attach_to(X, sample_two=Y)
        for what, got, exp in (('shape', km.shape, (n, mm)), ('size', km.size, n * mm),
                               ('len', len(km), n * mm),
                               ('num_samples', km.num_samples, n if m is None else (n, m))):
            acc.transitions += 1
            if not np.array_equal(got, exp):
                acc.violate('{} of {}x{} is {} not {}'.format(what, n, m, got, exp), '')
                return
        Z = X if Y is None else Y
        for i, j in ((0, mm - 1), (n - 1, 0), (n - 1, mm - 1), (n // 2, mm // 3),
                     (n // 3, mm // 2), (min(n - 1, 256), min(mm - 1, 255))):
            acc.transitions += 2
            want = float(X[i] @ Z[j])
            for got in (km[i, j], km[i * mm + j], km[[i], [j]]):
                if not ref.close(got, [[want]]):
                    acc.violate('element {},{} of {}x{} is {} not {}'.format(
                        i, j, n, m, got, want), '')
                    return
    acc.states += 1
    acc.traces += 1


def run(ctx):
    two = [('attach2', 'A', 'C'), ('attach2', 'C', 'A'), ('attach2', 'A', 'A'),
           ('attach2', 'C', 'D')]
    one = [('attach', 'A'), ('attach', 'B'), ('attach_noname', 'C'), ('attach', 'E')]
    tasks = []
    cap = ctx.pick(60000, 200000)
    for kind in ctx.pick(('T', 'rbf', 'lin', 'sig'),
                         ('T', 'rbf', 'lin', 'sig', 'poly', 'lap', 'call')):
        for normalized in (False, True):
            if kind == 'sig' and normalized:
                continue
            tasks.append((kind, normalized, 'ABCDE', tuple(one + two), 'C', float, cap))
    for layout, dt in (('F', float), ('view', float), ('3d', float), ('ro', float),
                       ('C', np.float32), ('C', np.int64), ('C', np.int8)):
        for normalized in ctx.pick((False,), (False, True)):
            tasks.append(('T', normalized, 'AC', (('attach', 'A'), ('attach', 'C'),
                          ('attach2', 'A', 'C')), layout, dt, cap))
    if ctx.thorough:
        big = [('attach', 'G'), ('attach', 'A'), ('attach2', 'G', 'A'),
               ('attach2', 'A', 'G')]
        tasks += [('T', nm, 'GA', tuple(big), 'C', float, cap) for nm in (False, True)]
        tasks += [('T', nm, 'AFH', (('attach', 'A'), ('attach', 'F'), ('attach', 'H'),
                                    ('attach2', 'H', 'H')), 'C', float, cap)
                  for nm in (False, True)]
    firsts = [('attach', 'B'), ('mutattach', 'A'), ('attach2', 'A', 'C'), ('full',),
              ('sparse',), ('centered',), ('normed',), ('frob',), ('diag',),
              ('get', '0,L'), ('get', ':,:'), ('get', '0,:')]
    ctx.explore(sequences, [(f, k, nm, ctx.pick(3, 4)) for f in firsts
                            for k in ('T', 'rbf') for nm in (False, True)])
    ns = list(range(1, 13)) + ctx.pick([16, 17, 32, 33, 51, 64, 65, 101],
                                       list(range(13, 70)) + [100, 101, 128, 129, 200,
                                                              257])
    ctx.explore(sizes, [(n, k, nm) for n in ns[::-1] for k in ('T',) for nm in (False, True)]
                + [(n, k, nm) for n in ns if n <= ctx.pick(8, 33) for k in ('rbf', 'lin', 'lap')
                   for nm in (False, True)])
    kinds = ('T', 'lin', 'rbf', 'poly', 'lap', 'call')
    ctx.explore(large, [(n, None, 'T', False) for n in ctx.pick((1001,), (2001, 1500, 1001))] +
                [(n, None, 'T', nm) for n in (600, 513, 500, 257) for nm in (False, True)] +
                [(n, m, k, nm) for n, m in ((300, None), (150, None), (130, 210), (260, 5),
                                            (5, 260), (1100, 3), (3, 1100))
                 for k in kinds for nm in (False, True)])
    ex = (1, 2, 15, 16, 17, 127, 128, 181, 182, 255, 256, 257, 300, 1000, 4096, 46341, 65536,
          70000)
    ctx.explore(extents, [(n, m) for n in ex for m in (None,) + ex])
    ctx.explore(search, tasks)
    ctx.bounds.update(closure='all histories of any length over the operation alphabet '
                              'for each configuration (search runs to closure)',
                      stateless_depth=ctx.pick(3, 4), ladder=max(ns),
                      max_points=ctx.pick(1001, 2001))
    ctx.assumptions += ['the caller does not modify an attached sample in place without '
                        'attaching it again']
