"""C21: kernels made from callables."""
import functools
import itertools
import math

import numpy as np

from mc import ref


def plain(x, y):
    return ('plain', id(x), id(y))


def rec(log):
    def f(x, y, **kw):
        log.append((x, y, kw))
        return len(log)
    return f


def mink(x, y, p=2, shift=0.0):
    return shift + float(np.sum(np.abs(np.asarray(x, float) - 2 * np.asarray(y)) ** p))


def third(x, y, z):
    return (float(np.sum(x)) - float(np.sum(y))) * z


class Obj:
    def __init__(self, w):
        self.w = w

    def __call__(self, x, y, bias=0):
        return self.w * float(np.sum(x)) + float(np.sum(y)) + bias

    def meth(self, x, y):
        return self.w - float(np.sum(x)) * 2 + float(np.sum(y))

    @staticmethod
    def stat(x, y):
        return float(np.sum(x)) * 3 - float(np.sum(y))

    @classmethod
    def cm(cls, x, y):
        return float(np.sum(x)) * 5 - float(np.sum(y))


lam = lambda x, y: float(np.sum(x)) - 10 * float(np.sum(y))
lam_def = lambda x, y, c=4: c * float(np.sum(x)) - float(np.sum(y))


def deco(f):
    @functools.wraps(f)
    def g(*args, **kw):
        return f(*args, **kw) * 2 + 1
    return g


@deco
def wrapped(x, y, s=1.0):
    return s * float(np.sum(x)) - 3 * float(np.sum(y))


@functools.lru_cache(None)
def _raw(x, y, s):
    return s + x - 2 * y


def both_default(x=None, y=None, m=2):
    return m * float(np.sum(x)) + float(np.sum(y))


def y_default(x, y=None):
    return float(np.sum(x)) if y is None else float(np.sum(x)) - 4 * float(np.sum(y))


def star_kw(x, y, *, w=1):
    return w * float(np.sum(x)) - float(np.sum(y))


def many_args(x, y, *rest, **kw):
    return float(np.sum(x)) + 7 * float(np.sum(y)) + len(rest) + sum(kw.values())


def kinds():
    o = Obj(3)
    return [
        ('decorated', wrapped, 'wrapped', [{}, {'s': 2.5}]),
        ('defaults', both_default, 'both_default', [{}, {'m': 3}]),
        ('second default', y_default, 'y_default', [{}]),
        ('keyword only', star_kw, 'star_kw', [{}, {'w': 4}]),
        ('rest', many_args, 'many_args', [{}, {'u': 4, 'v': -1}]),
        ('decorated partial', functools.partial(wrapped, s=3.0), '', [{}]),
        ('function', mink, 'mink', [{}, {'p': 1}, {'p': 3, 'shift': -2.0}, {'shift': 5}]),
        ('needs parameter', third, 'third', [{'z': 2}, {'z': -0.5}]),
        ('lambda', lam, '<lambda>', [{}]),
        ('lambda default', lam_def, '<lambda>', [{}, {'c': -1}]),
        ('object', o, '', [{}, {'bias': 7}]),
        ('method', o.meth, 'meth', [{}]),
        ('static', Obj.stat, 'stat', [{}]),
        ('class method', Obj.cm, 'cm', [{}]),
        ('partial', functools.partial(mink, p=1), '', [{}, {'shift': 3}, {'p': 4}]),
        ('partial obj', functools.partial(o, bias=2), '', [{}]),
    ]


PTS = [np.array([1.0, 2.0]), np.array([0.5, -1.0]), np.array([0.0, 0.0]), [3, 4], (1.5, 2),
       np.array([2, 7], dtype=np.int8)]


def calls(acc, i):
    from kernelmethods.base import BaseKernelFunction, KernelFromCallable
    lab, f, nm, pars = kinds()[i]
    made = []
    for par in pars:
        for name in (None, 'given', '', 5):
            kw = dict(par)
            k = KernelFromCallable(f, name=name, **kw) if name is not None else \
                KernelFromCallable(f, **kw)
            acc.states += 1
            made.append((k, par))
            want = nm if name is None else str(name)
            what = '{} {} name={!r}'.format(lab, par, name)
            if not isinstance(k, BaseKernelFunction) or not isinstance(k.name, str) or \
                    (k.name != want and (nm or name is not None)):
                acc.violate('name {!r} expected {!r}'.format(k.name, want), what)
                return
            kw.clear()
        for a, b in itertools.product(PTS, repeat=2):
            w = f(a, b, **par)
            for rep in range(2):
                acc.transitions += 1
                g = k(a, b)
                if g != w or type(g) is not type(w):
                    acc.violate('({}, {}) gave {!r} expected {!r}'.format(a, b, g, w), what)
                    return
            acc.out(w)
    # kernels of one function with different parameters do not interfere
    for k, par in made + made[::-1]:
        acc.transitions += 1
        if k(PTS[0], PTS[1]) != f(PTS[0], PTS[1], **par):
            acc.violate('parameters of kernels made from one function mix', lab)
            return
    acc.sample('{}: {}'.format(lab, pars))
    acc.traces += 1


class Boom(Exception):
    pass


def exact(acc, _):
    """arguments pass through untouched, results come back untouched, failures too"""
    from kernelmethods.base import KernelFromCallable
    log = []

    def spy(x, y, **kw):
        log.append((x, y, kw))
        return res[0]
    for r in (0, 1.5, np.float32(2.5), -3, None, 'text', [1], np.array([1.0]), True, 2 + 1j,
              float('nan')):
        res = [r]
        for par in ({}, {'a': 1, 'b': [2]}, {'a': None}, {'a': 0, 'b': False, 'c': ''},
                    {'a': np.float32(0.5), 'b': 'text', 'c': (1, 2), 'd': {'k': 1}},
                    {'func': 1, 'f': 2, 'kernel': 3}, {'a': True, 'b': np.int8(3)}):
            k = KernelFromCallable(spy, **par)
            x, y = np.array([1.0, 2.0]), np.array([3.0, 4.0])
            n = len(log)
            got = k(x, y)
            acc.transitions += 1
            acc.states += 1
            same = all(type(log[-1][2].get(q, q)) is type(v) and log[-1][2][q] == v
                       for q, v in par.items())
            if got is not r or not same or len(log) != n + 1 or log[-1][0] is not x or \
                    log[-1][1] is not y or log[-1][2] != par:
                acc.violate('called {} times, gave {!r} for {!r}'.format(len(log) - n, got, r),
                            str(par))
                return

    # the very objects given, whatever they are
    res = ['result']
    k = KernelFromCallable(spy, a=1)
    things = ['abc', '', {'a': 1}, (1, 2), [1, [2]], {3}, None, 5, 2.5, object(), b'x', [],
              np.array(3.0), np.zeros((2, 3)), np.array(['u', 'v']), range(3), frozenset('ab'),
              np.float32(1), iter([1]), True, np.array([1, 2], np.int8), np.ones(4)[::2]]
    for x in things:
        for y in things:
            n = len(log)
            acc.transitions += 1
            if k(x, y) != 'result' or len(log) != n + 1 or log[-1][0] is not x or \
                    log[-1][1] is not y:
                acc.violate('not called with the objects given', '{!r} {!r}'.format(x, y))
                return

    # failing once, or using the kernel from within, does not change later calls
    def moody(x, y, p=0, q=0):
        calls_.append(1)
        if len(calls_) in bad_at:
            raise Boom('now')
        return (x, y, p, q)
    for bad_at in [set(c) for r in range(4) for c in itertools.combinations((1, 2, 3), r)]:
        calls_ = []
        k = KernelFromCallable(moody, p=3, q='t')
        for i in range(1, 5):
            acc.transitions += 1
            try:
                g = k(i, -i)
            except Boom:
                g = None
            if g != (None if i in bad_at else (i, -i, 3, 't')):
                acc.violate('call {} gave {!r}'.format(i, g), 'failing calls {}'.format(bad_at))
                return

    def nested(x, y, p=0):
        return p + (kk(x - 1, y) if x > 0 else y)
    kk = KernelFromCallable(nested, p=10)
    for d in range(5):
        acc.transitions += 1
        if kk(d, 1) != 10 * (d + 1) + 1:
            acc.violate('kernel used from within itself gave {}'.format(kk(d, 1)), str(d))
            return
    cached = KernelFromCallable(_raw, s=5)
    for x, y in itertools.product(range(3), repeat=2):
        acc.transitions += 1
        if cached(x, y) != 5 + x - 2 * y or cached.name != '_raw':
            acc.violate('cached function gave {}'.format(cached(x, y)), str((x, y)))
            return

    def boom(x, y):
        raise Boom('x')
    try:
        KernelFromCallable(boom)(1, 2)
        acc.violate('failure of the function swallowed', '')
    except Boom:
        pass
    acc.traces += 1


def reject(acc, _):
    from kernelmethods.base import KernelFromCallable

    class NoCall:
        pass

    class OneArg:
        def __call__(self, x):
            return 1
    for b in (5, 'abc', None, [], np.eye(2), NoCall(), lambda: 1, lambda x: 1, OneArg(),
              functools.partial(lambda x, y: 1, 2), OneArg().__call__):
        acc.transitions += 1
        acc.states += 1
        try:
            r = KernelFromCallable(b)
        except Exception:
            continue
        acc.violate('{!r} accepted'.format(b), repr(r))
    acc.traces += 1


def matrices(acc, n, norm):
    """matrices of symmetric functions, in all kinds of callables"""
    from kernelmethods.base import KernelFromCallable, KernelMatrix

    def f(x, y, c=1.0, p=2):
        return c + abs(float(np.dot(x, y))) ** p + float(np.sum(np.abs(x) * np.abs(y)))

    class O:
        def __call__(self, x, y):
            return f(x, y, 2.0)

        def m(self, x, y):
            return f(x, y, 4.0)
    X = np.round(np.random.default_rng(n).uniform(-1, 1, (n, 2)), 2)
    Y = np.round(np.random.default_rng(n + 50).uniform(-1, 1, (n + 1, 2)), 2)
    for k, r in ((KernelFromCallable(f), lambda x, y: f(x, y)),
                 (KernelFromCallable(f, c=3.0, p=1), lambda x, y: f(x, y, 3.0, 1)),
                 (KernelFromCallable(O()), lambda x, y: f(x, y, 2.0)),
                 (KernelFromCallable(O().m), lambda x, y: f(x, y, 4.0)),
                 (KernelFromCallable(functools.partial(f, c=0.5)),
                  lambda x, y: f(x, y, 0.5)),
                 (KernelFromCallable(lambda x, y: f(x, y)), lambda x, y: f(x, y))):
        km = KernelMatrix(k, normalized=norm)
        for two in (False, True):
            km.attach_to(X, sample_two=Y if two else None)
            Z = Y if two else X
            R = np.array([[r(x, y) for y in Z] for x in X])
            if norm:
                R = R / np.sqrt(np.outer([r(x, x) for x in X], [r(y, y) for y in Z]))
            acc.transitions += 1
            if not ref.close(km.full, R):
                acc.violate('matrix {} expected {}'.format(km.full.tolist(), R.tolist()),
                            'n={} two={} {}'.format(n, two, k))
                return
    acc.states += 1
    acc.traces += 1


def run(ctx):
    ctx.explore(calls, list(range(len(kinds()))))
    ctx.explore(exact, [0], parallel=False)
    ctx.explore(reject, [0], parallel=False)
    ctx.explore(matrices, [(n, nm) for n in list(range(1, 9)) + ctx.pick([20], [20, 33, 65])
                           for nm in (False, True)])
