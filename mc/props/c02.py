"""C02: the kernel function is evaluated lazily, and at most once per pair."""
import itertools

import numpy as np

from mc.bfs import bfs
from mc.kmworld import ACCESS, GETS, TKernel, World, resolve


def limits(w):
    """unordered content pair -> how often it may be evaluated in this attachment"""
    lim = {}
    X, Y = [tuple(x) for x in w.X], [tuple(y) for y in w.Y]
    for i, x in enumerate(X):
        for j, y in enumerate(Y):
            if w.two or i <= j:
                k = tuple(sorted((x, y)))
                lim[k] = lim.get(k, 0) + 1
    selfs = {}
    if w.two:
        for x in X + Y:
            selfs[(x, x)] = selfs.get((x, x), 0) + 1
    return lim, selfs


class LazyWorld(World):
    def start(self):
        self.evals = {}
        self.may_self = False

    def step(self, op):
        before = dict(self.kernel.log)
        bad = World.step(self, op)
        if bad:
            return bad
        new = {}
        for k, v in self.kernel.log.items():
            d = v - before.get(k, 0)
            if d:
                u = tuple(sorted(k))
                new[u] = new.get(u, 0) + d
        if op[0] in ('attach', 'attach2', 'attach_noname', 'badattach', 'size'):
            if new:
                return '{} evaluated the kernel on {}'.format(op, new)
            if op[0] != 'size':
                self.kernel.log.clear()
                self.start()
                self.lim = limits(self)
            return None
        if self.raw is None:
            return None
        if not (self.two and op[0] in ('center', 'centered', 'diag')):
            need = self.needs(op)
            extra = [u for u in new if u not in need]
            if extra:
                return '{} evaluated pairs that were not requested: {}'.format(op, extra)
        for u, d in new.items():
            self.evals[u] = self.evals.get(u, 0) + d
        if self.two and (op[0] in ('normalize', 'normed') or
                         op[0] in ('full', 'sparse') and self.normalized):
            self.may_self = True
        lim, selfs = self.lim
        for u in new:
            c = self.evals[u]
            m = lim.get(u, 0) + (selfs.get(u, 0) if self.may_self else 0)
            if c > m:
                return 'after {} the pair {} was evaluated {} times, at most {} ' \
                       'allowed'.format(op, u, c, m)
        return None


def mkworld(samples, normalized):
    w = LazyWorld(TKernel(log=True), TKernel.value, samples, normalized)
    w.start()
    return w


def search(acc, normalized, samples, attaches, cap):
    ops = list(attaches) + ACCESS + [('get', g) for g in GETS]
    bfs(acc, lambda: mkworld(samples, normalized), ops, lambda w, op: w.step(op), cap,
        'lazy{} {}'.format('/normed' if normalized else '', samples))


def ladder(acc, n, m, normalized):
    """Sizes beyond the closed searches: each read first, then all the others, twice."""
    rng = np.random.default_rng(n * 1000 + (m or 0))
    X = rng.permutation(n * 3)[:n].reshape(-1, 1) / 4.0 + np.zeros((n, 2))
    X[:, 1] = np.arange(n)
    Y = None
    if m is not None:
        Y = np.zeros((m, 2))
        Y[:, 0] = np.arange(m) + 0.125
        Y[:, 1] = -1.5
    reads = [o for o in ACCESS if o[0] != 'size'] + [('get', g) for g in GETS]
    for first in reads:
        w = mkworld([], normalized)
        w.samples['X'] = X
        if m is not None:
            w.samples['Y'] = Y
        seq = [('attach', 'X') if m is None else ('attach2', 'X', 'Y'), first, first] + \
            (reads if n <= 12 else reads[:8])
        for op in seq:
            bad = w.step(op)
            acc.transitions += 1
            if bad:
                acc.violate('{}x{}: {}'.format(n, m, bad[:800]),
                            'history: {} (normalized={})'.format(seq, normalized))
                return
        acc.traces += 1
    acc.states += 1
    acc.sample('ladder {}x{}'.format(n, m))


def partial_big(acc, n, m):
    """A few reads of a large matrix must not evaluate more than they need."""
    for reads in itertools.permutations([('get', '0,L'), ('get', '0,:'), ('get', ':,L'),
                                         ('diag',), ('get', 'linear-last')], 2):
        w = mkworld([], False)
        w.samples['X'] = np.c_[np.arange(n), np.arange(n)[::-1] % 7 + 0.5]
        if m is not None:
            w.samples['Y'] = np.c_[np.arange(m) + 0.25, np.ones(m)]
        for op in [('attach', 'X') if m is None else ('attach2', 'X', 'Y')] + list(reads):
            bad = w.step(op)
            acc.transitions += 1
            if bad:
                acc.violate('{}x{}: {}'.format(n, m, bad[:800]), str(reads))
                return
        acc.traces += 1
    acc.states += 1


class Plain:
    """a kernel counting its evaluations per pair of row numbers (last feature)"""

    def __new__(cls, value):
        from kernelmethods.base import BaseKernelFunction

        class K(BaseKernelFunction):
            def __init__(self):
                super().__init__('counting')
                self.count = {}

            def __call__(self, x, y):
                k = (x[-1], y[-1])
                k = k if k[0] <= k[1] else k[::-1]
                self.count[k] = self.count.get(k, 0) + 1
                return value(x, y)

            def __str__(self):
                return 'counting'
        return K()


VALUES = {'nan': lambda x, y: np.nan, 'inf': lambda x, y: np.inf, 'zero': lambda x, y: 0.0,
          'int': lambda x, y: 3, 'neg': lambda x, y: -1.0, 'bool': lambda x, y: True,
          'some nan': lambda x, y: np.nan if x[-1] != y[-1] else 1.0,
          'some zero': lambda x, y: 0.0 if x[-1] != y[-1] else 1.0,
          'array': lambda x, y: np.float64(2.0), '0-d': lambda x, y: np.array(2.0),
          'complexish': lambda x, y: np.float32(1.5)}


def odd_values(acc, name, kind):
    """special kernel values and kinds of data: never evaluated again, nothing on attach"""
    from kernelmethods.base import KernelMatrix, KernelSet
    dt = {'num': float, 'str': str, 'obj': object, 'bytes': 'S4', 'int8': np.int8}[kind]
    X = np.array([[5, 1], [4, 2], [3, 3]]).astype(dt)
    Y = np.array([[5, 6], [4, 7]]).astype(dt)
    reads = [('full', lambda k: k.full), ('sparse', lambda k: k.full_sparse),
             ('all', lambda k: k[:, :]), ('row', lambda k: k[0, :]), ('el', lambda k: k[1, 0]),
             ('frob', lambda k: k.frob_norm), ('diag', lambda k: k.diagonal()),
             ('normed', lambda k: k.normed_km), ('centered', lambda k: k.centered)]
    for two in (False, True):
        for seq in itertools.product(reads, repeat=2):
            for how in ('km', 'set'):
                kf = Plain(VALUES[name])
                km = KernelMatrix(kf, normalized=False)
                if how == 'km':
                    km.attach_to(X, sample_two=Y if two else None)
                elif two:
                    continue
                else:
                    KernelSet([km, KernelMatrix(kf, normalized=False)]).attach_to(X)
                if kf.count:
                    acc.violate('attaching {} data evaluated the kernel on {}'.format(
                        kind, kf.count), 'values {} two={} {}'.format(name, two, how))
                    return
                for lab, f in seq * 2:
                    try:
                        f(km)
                    except Exception:       # e.g. zero self-similarities
                        break
                    acc.transitions += 1
                worst = {p: c for p, c in kf.count.items()
                         if c > 1}
                if worst:
                    acc.violate('pairs evaluated more than once: {}'.format(worst),
                                'values {} data {} two={} reads {}'.format(
                                    name, kind, two, [a for a, _ in seq * 2]))
                    return
                acc.traces += 1
    acc.states += 1


def counted(acc, n, m, normalized):
    """large matrices read completely several times: one evaluation per pair"""
    from kernelmethods.base import KernelMatrix
    kf = Plain(lambda x, y: 2.0 if x[-1] == y[-1] else 1.0)
    X = np.c_[np.ones(n), np.arange(n)]
    Y = None if m is None else np.c_[np.ones(m), np.arange(m) + n]
    km = KernelMatrix(kf, normalized=normalized)
    km.attach_to(X, sample_two=Y)
    for f in (lambda: km[0, :], lambda: km.full, lambda: km[:, :], lambda: km[0, :],
              lambda: km[:, -1 + km.shape[1]], lambda: km.full, lambda: km.full_sparse,
              lambda: km.frob_norm, lambda: None if m else km.diagonal(),
              lambda: km[[0, n - 1], :]):
        f()
        acc.transitions += 1
        most = max(kf.count.values())
        if most > 1:
            acc.violate('{} pairs of {}x{} points evaluated more than once (up to {} times)'
                        ''.format(sum(v > 1 for v in kf.count.values()), n, m, most),
                        'normalized={}'.format(normalized))
            return
    acc.states += 1
    acc.traces += 1


def selections(acc, n, m, normalized):
    """every pair of row and column selections (up to 5 points; above: runs, and all but a
    few) on a fresh matrix, then the complement: only requested pairs are evaluated"""
    from kernelmethods.base import KernelMatrix
    X = np.c_[np.ones(n), np.arange(n)]
    mm = n if m is None else m
    Y = None if m is None else np.c_[np.ones(m), np.arange(m) + n]
    off = 0 if m is None else n

    def subsets(k):
        if k <= 5:
            return [c for L in range(1, k + 1) for c in itertools.combinations(range(k), L)]
        cuts = sorted({1, 2, k // 4, k // 2, 3 * k // 4, k - 2, k - 1})
        out = [tuple(range(c)) for c in cuts] + [tuple(range(c, k)) for c in cuts]
        out += [tuple(i for i in range(k) if i != j) for j in {0, 1, k // 2, k - 1}]
        return out + [tuple(range(0, k, 2)), tuple(range(k))]
    kf = Plain(lambda x, y: 2.0 if x[-1] == y[-1] else 1.0)
    for r in subsets(n):
        for c in subsets(mm):
            kf.count.clear()
            km = KernelMatrix(kf, normalized=normalized)
            km.attach_to(X, sample_two=Y)
            need = set()
            for rows, cols in ((r, c), (c, r) if m is None else (r[:1], c), (r, c)):
                km[list(rows), list(cols)]
                need |= {(min(i, j + off), max(i, j + off)) for i in rows for j in cols}
                acc.transitions += 1
                got = set((int(a), int(b)) for a, b in kf.count)
                if got - need or max(kf.count.values()) > 1:
                    acc.violate('[{}, {}] of {}x{} evaluated pairs not requested {} or more '
                                'than once'.format(rows, cols, n, m, sorted(got - need)[:9]),
                                'normalized={}'.format(normalized))
                    return
            acc.states += 1
    acc.traces += 1


def collections(acc, which):
    """Members of sets and composites: still at most once per pair."""
    from kernelmethods.base import (AverageKernel, KernelMatrix, KernelSet, ProductKernel,
                                    SumKernel)
    from kernelmethods.operations import linear_combination
    from kernelmethods.sampling import pairwise_similarity
    X = np.array([[1., 2.], [3., -1.], [2., 2.], [0., 1.]])
    acts = {'sum': lambda s: SumKernel(s).fit(), 'prod': lambda s: ProductKernel(s).fit(),
            'avg': lambda s: AverageKernel(s).fit(),
            'lin': lambda s: linear_combination(s, [1., 2.]),
            'corr': lambda s: pairwise_similarity(s, 'corr'),
            'align': lambda s: pairwise_similarity(s, 'align'),
            'full': lambda s: [k.full for k in s]}
    for seq in itertools.permutations(acts, 3):
        for nm in (False, True):
            ks = [TKernel(log=True), TKernel(log=True)]
            kset = KernelSet([KernelMatrix(k, normalized=nm) for k in ks])
            kset.attach_to(X)
            str(kset), len(kset), kset.get_attr('x')
            if any(k.log for k in ks):
                acc.violate('attaching or describing a set evaluated its kernels', '')
                return
            for a in seq:
                acts[a](kset)
                acc.transitions += 1
                for k in ks:
                    cnt = {}
                    for q, v in k.log.items():
                        u = tuple(sorted(q))
                        cnt[u] = cnt.get(u, 0) + v
                    if any(v > 1 for v in cnt.values()):
                        acc.violate('pairs evaluated more than once', '{} normalized={}'
                                    ''.format(seq, nm))
                        return
            acc.traces += 1
            acc.states += 1


def run(ctx):
    one = [('attach', 'A'), ('attach', 'C'), ('attach', 'E')]
    two = [('attach2', 'A', 'C'), ('attach2', 'C', 'A'), ('attach2', 'C', 'C')]
    cap = ctx.pick(60000, 400000)
    tasks = [(nm, 'ACDE', (a, ('attach', 'E')), cap) for a in two + one +
             [('attach2', 'C', 'D')] for nm in (False, True)]
    if ctx.thorough:
        tasks += [(nm, 'GA', (('attach', 'G'), ('attach2', 'G', 'A')), cap)
                  for nm in (False, True)]
        tasks += [(nm, 'BA', (('attach2', 'B', 'A'), ('attach2', 'A', 'A')), cap)
                  for nm in (False, True)]
    ctx.explore(counted, [(n, m, nm) for n, m in ctx.pick(((1001, None),), ((2001, None),)) +
                          ((300, 1200), (1200, 90), (500, None), (130, None)) for nm in (False, True)])
    ctx.explore(odd_values, [(v, k) for v in VALUES for k in ('num', 'str', 'obj', 'bytes',
                                                              'int8')])
    ctx.explore(search, tasks)
    ns = list(range(1, 13)) + ctx.pick([17, 33, 65], [16, 17, 31, 32, 33, 50, 51, 64, 65, 101,
                                                      129])
    ctx.explore(ladder, [(n, m, nm) for n in ns[::-1] for m in (None, 1, 2, n, n + 2)
                         for nm in (False, True)])
    ctx.explore(partial_big, [(n, m) for n in (100, 257, 400, ctx.pick(700, 1500))
                              for m in (None, 50)])
    ctx.explore(selections, [(n, m, nm) for n in ctx.pick((1, 2, 3, 4, 5, 6, 9, 16, 33),
                                                          tuple(range(1, 34)))
                             for m in (None, 1, 3, 5, 8) for nm in (False, True)])
    ctx.explore(collections, [0], parallel=False)
    ctx.bounds.update(ladder=max(ns))
