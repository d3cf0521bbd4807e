"""C13: user attributes against a dictionary model."""
import itertools

import numpy as np

from mc import bfs, ref

X = np.array([[1.0, 2.0], [0.5, -1.0]])
Y = np.array([[2.0, 1.0], [-1.5, 1.0]])
Z3 = np.array([[2.0, 1.0], [-1.5, 1.0], [1.0, 1.0]])


class World:
    def __init__(self, k):
        from kernelmethods.base import KernelMatrix, KernelSet
        from kernelmethods.numeric_kernels import LinearKernel, PolyKernel
        self.kms = [KernelMatrix(PolyKernel(1 + i, b=1.0), normalized=bool(i % 2))
                    for i in range(k)]
        self.set = KernelSet(self.kms)
        self.lone = KernelMatrix(LinearKernel(), normalized=False)
        self.all = self.kms + [self.lone]
        self.model = [dict() for _ in self.all]
        self.attached = [None] * len(self.all)
        # part of the world, so that a forked history attaches the very same arrays again
        self.X, self.Y = X.copy(), Y.copy()


def same(a, b):
    if type(a) != type(b) and not (isinstance(a, (int, float, np.generic)) and
                                   isinstance(b, (int, float, np.generic))):
        return False
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a is b or a == b


PROBE = ('a', 'b', ('t', 1), 'zz', '', 0)


def judge(w):
    for i, (km, m) in enumerate(zip(w.all, w.model)):
        att = km.attributes()
        if set(att) != set(m) or any(not same(att[k], m[k]) for k in m):
            return 'attributes of {} are {} expected {}'.format(i, att, m)
        for n in PROBE:
            for d in ((), (None,), (7,), ('dflt',)):
                got = km.get_attr(n, *d)
                want = m[n] if n in m else (d[0] if d else None)
                if not same(got, want):
                    return 'attribute {!r} (default {}) of {} reads {!r} expected {!r}' \
                           ''.format(n, d, i, got, want)
    for n in PROBE:
        got = w.set.get_attr(n, 'none')
        want = [m.get(n, 'none') for m in w.model[:-1]]
        if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
            return 'set reads {!r} = {!r} expected {!r}'.format(n, got, want)
    return None


def step(w, op):
    a = op[0]
    if a == 'set':
        _, i, n, v = op
        w.all[i].set_attr(n, v)
        w.model[i][n] = v
    elif a == 'attach':
        _, i, s = op
        {'X': lambda: w.all[i].attach_to(w.X), 'Y': lambda: w.all[i].attach_to(w.Y, 'why'),
         'XY': lambda: w.all[i].attach_to(w.X, sample_two=w.Y)}[s]()
        w.model[i].clear()
        w.attached[i] = s
    elif a == 'bad attach':
        for s in (np.ones(3), np.ones((2, 2, 2))):
            try:
                w.all[op[1]].attach_to(s)
                return 'attach of {}-dimensional data accepted'.format(s.ndim)
            except Exception:
                pass
    elif a == 'read':
        km = w.all[op[1]]
        if w.attached[op[1]]:
            km.full, km.normed_km, km.frob_norm, km[0, 1], km.size, str(km)
            if w.attached[op[1]] != 'XY':
                km.centered, km.diagonal()
            km.normalize()
    elif a == 'sets':
        _, n, v, each = op
        try:
            w.set.set_attr(n, v)
        except Exception as e:
            return None if each is None and judge(w) is None else \
                'set_attr({!r}) failed: {!r}; {}'.format(v, e, judge(w))
        if each is None:
            return 'set_attr({!r}) accepted'.format(v)
        for m, x in zip(w.model[:-1], each):
            m[n] = x
    elif a == 'attach set':
        _, s, at = op
        kw = {} if at is None else dict(attr_name=at[0], attr_value=at[1])
        w.set.attach_to({'X': w.X, 'Y': w.Y}[s], **kw)
        for i, m in enumerate(w.model[:-1]):
            m.clear()
            if at is not None:
                m[at[0]] = at[1]
            w.attached[i] = s
    elif a == 'bad attach set':
        if w.set.num_samples is None:
            return None
        try:
            w.set.attach_to(Z3, attr_name='a', attr_value='wrong')
            return 'attach of another size accepted'
        except Exception:
            pass
    elif a == 'take':
        t = w.set.take([0])
        t.set_attr(op[1], op[2])
        w.model[0][op[1]] = op[2]
    return judge(w)


def per_set(k):
    """(values, expected per member or None if refused)"""
    out = [(5, [5] * k), ('xy', ['xy'] * k), ('a' * k, ['a' * k] * k), (None, [None] * k),
           ([7], [7] * k), (('q',), ['q'] * k), (np.array([2.5]), [2.5] * k),
           ([0] * (k + 1), [0] if k + 1 == 1 else None), ([], None),
           ([None], [None] * k), ([[1, 2]], [[1, 2]] * k), ('', [''] * k)]
    if k > 1:
        v = ['m%d' % i for i in range(k)]
        out += [(v, v), (tuple(v), v), (np.arange(k) * 1.5, list(np.arange(k) * 1.5)),
                ([None] * k, [None] * k), ([0] * k, [0] * k)]
        if k > 2:
            out += [([1] * (k - 1), None), ('ab', ['ab'] * k)]
    return [(v, e) for v, e in out]


def search(acc, k, which, cap):
    rng = range(k + 1)
    two = (0, k)
    ops = {
        'members': [('set', i, n, v) for i in (0, 1) for n in ('a', ('t', 1)) for v in (1, None)]
        + [('attach', i, 'X') for i in (0, 1)] + [('read', 0)],
        'falsy': [('set', i, 'a', v) for i in two for v in (0, '', False, 'x')] +
        [('attach', i, s) for i in two for s in ('X', 'XY')] + [('read', i) for i in two] +
        [('bad attach', i) for i in two],
        'set': [('sets', 'a', v, e) for v, e in per_set(k)[:8]] +
        [('set', i, 'b', 3) for i in rng] + [('attach', k, 'Y')] +
        [('attach set', 'X', None), ('attach set', 'Y', ('a', 'fresh')),
         ('attach set', 'X', ('b', 0)), ('attach set', 'X', ('a', None)),
         ('bad attach set',), ('take', 'b', 9)],
        'values': [('sets', n, v, e) for n in ('a', 'b') for v, e in per_set(k)],
    }[which]

    def go(w, op):
        bad = step(w, op)
        acc.out([sorted((str(n), str(v)) for n, v in m.items()) for m in w.model])
        return bad
    bfs.bfs(acc, lambda: World(k), ops, go, cap, '{} members, {}'.format(k, which))


def ladder(acc, k):
    w = World(k)
    for n in ('a', 'b'):
        for v, e in per_set(k):
            bad = step(w, ('sets', n, v, e))
            acc.transitions += 1
            if bad:
                acc.violate('{} members: {}'.format(k, bad), repr(v))
                return
    bad = None
    for n in ('a', '', 0, ('t', 1), False):
        for v in (3, 0, '', False, None, [], [1, 2], 'text', 0.0, ()):
            acc.transitions += 1
            bad = bad or step(w, ('attach set', 'X' if v else 'Y', (n, v)))
    bad = bad or step(w, ('attach set', 'X', ('a', 3))) or step(w, ('set', k - 1, 'b', 4)) or \
        step(w, ('bad attach set',)) or step(w, ('attach set', 'Y', None))
    if bad:
        acc.violate('{} members: {}'.format(k, bad), 'attach')
    acc.states += 1
    acc.traces += 1


def many(acc, n):
    """n attributes at once, each of another kind of name"""
    w = World(2)
    names = ['n%d' % i for i in range(n)] + list(range(n)) + [('t', i) for i in range(n)] + \
        ['_', '__x__', '_priv', '', ' ', 'a b', 'name', 'kernel', 'full', '_attr', 'shape',
         'normalized', 'size', None, 1.5, frozenset([1]), b'x', 'A', 'é', 'a.b', '0', (), -1,
         'sample', '_sample', '_KM', 'None', 'x' * 300]
    for i, nm in enumerate(names):
        w.kms[0].set_attr(nm, i)
        w.model[0][nm] = i
    bad = judge(w)
    uses = {'full': lambda k: k.full, 'normed': lambda k: k.normed_km,
            'centered': lambda k: k.centered, 'frob': lambda k: k.frob_norm,
            'elem': lambda k: k[0, 0], 'diag': lambda k: k.diagonal(),
            'normalize': lambda k: k.normalize(), 'center': lambda k: k.center(),
            'sparse': lambda k: k.full_sparse, 'text': str}
    v = World(2)
    v.kms[0].attach_to(X)
    for i, nm in enumerate(names):
        v.kms[0].set_attr(nm, i)
        v.model[0][nm] = i
    for u, f in uses.items():
        acc.transitions += 1
        f(v.kms[0])
        if any(v.kms[0].get_attr(nm, 'gone') != i for i, nm in enumerate(names)):
            bad = bad or 'attributes changed by using the matrix ({})'.format(u)
    for i, nm in enumerate(names):
        acc.transitions += 1
        if w.kms[0].get_attr(nm) != i:
            bad = 'attribute {!r} lost'.format(nm)
    for again in range(2):
        w.kms[0].attach_to(X)
        w.model[0].clear()
        bad = bad or judge(w)
        for nm in names:
            if w.kms[0].get_attr(nm, 'gone') != 'gone':
                bad = 'attribute {!r} survived attach_to'.format(nm)
            w.kms[0].set_attr(nm, 'again')
            w.model[0][nm] = 'again'
        bad = bad or judge(w)
        w.set.attach_to(Y, attr_name='_new', attr_value=1)
        for m in w.model[:2]:
            m.clear()
            m['_new'] = 1
        bad = bad or judge(w)
    if bad:
        acc.violate(bad, '{} names'.format(n))
    acc.states += 1
    acc.traces += 1


def run(ctx):
    cap = ctx.pick(8000, 200000)
    ctx.explore(search, [(k, wh, cap) for k in (2, 3, 1) for wh in
                         ('members', 'falsy', 'set', 'values')])
    ctx.explore(ladder, list(range(1, 12)) + [20, 33])
    ctx.explore(many, [1, 5, 20, 100])
