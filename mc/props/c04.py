"""C04: failed accesses and rejected attaches never corrupt a kernel matrix."""
import itertools

import numpy as np

from mc.bfs import bfs
from mc.kmworld import ACCESS, Fault, TKernel, World


class HardFault(BaseException):
    """what Ctrl-C looks like to the code under test"""


GETS = ['0,0', 'L,0', '0,:', ':,L', ':,:', 'rev-list', 'linear-1']
ATT = ('attach', 'attach2', 'attach_noname', 'mutattach')


class FWorld(World):
    def start(self):
        self.tag = None
        return self

    def step(self, op):
        """op: ('fault', k, access) | ('heal',) | ('tag',) | ('tags',) | plain op"""
        k = self.kernel
        if op[0] == 'heal':
            k.poison = None
            return None
        if op[0] == 'poison':
            k.poison = op[1]
            return None
        if op[0] == 'tag':
            self.km.set_attr('t', 7)
            self.tag = 7
            return None
        if op[0] == 'tags':
            got = self.km.get_attr('t')
            return None if got == self.tag else 'attribute is {} not {}'.format(
                got, self.tag)
        arm = None
        if op[0] == 'fault':
            arm, op = op[1], op[2]
        k.arm, k.fired = arm, False
        res = exc = None
        try:
            res = self.run(op)
        except BaseException as e:
            exc = e
        fired = k.fired
        k.arm, k.fired = None, False
        if fired and exc is None:
            return 'the kernel failed during {}, yet it returned {!r}'.format(op, res)
        if fired:
            if k.poison is not None and arm is None and self.raw is not None and \
                    k.poison not in self.needs(op) and op[0] != 'centered':
                return '{} failed on a pair it does not need'.format(op)
            return None
        if op[0] in ('attach', 'attach2', 'attach_noname') and exc is None:
            self.set_model(*op[1:])
            self.tag = None
            return None
        if k.poison is not None and self.raw is not None and exc is None and \
                op[0] not in ATT + ('badattach', 'size') and \
                not (op[0] == 'sparse' and self.two) and \
                k.poison in self.needs(op) and not self.known(op):
            return '{} needs a pair that always fails, yet returned {!r}'.format(op, res)
        return self.judge(op, res, exc)

    def known(self, op):
        """the pair may have been evaluated before it was poisoned"""
        return self.late_poison

    late_poison = False


def mkworld(samples, normalized, exc, poison=None, late=False):
    k = TKernel(poison=poison)
    k.exc = exc
    w = FWorld(k, TKernel.value, samples, normalized).start()
    w.late_poison = late
    return w


BAD = ('dims', 'dims2', '1d', '3d', '1d-two', '3d-two')


def search(acc, attaches, normalized, hard, maxk, cap):
    exc = HardFault if hard else Fault
    samples = ''.join(sorted({s for a in attaches for s in a[1:]}))
    reads = [o for o in ACCESS if o[0] != 'size'] + [('get', g) for g in GETS]
    ops = list(attaches) + [('badattach', b) for b in BAD] + [('tag',), ('tags',)] + reads
    ops += [('fault', k, o) for o in reads for k in range(maxk)]
    bfs(acc, lambda: mkworld(samples, normalized, exc), ops, lambda w, op: w.step(op), cap,
        'faults{} {}{}'.format('/normed' if normalized else '', attaches,
                               ' hard' if hard else ''))


def poisoned(acc, attaches, normalized, cap):
    """every pair in turn fails permanently, from the start or from any point on, and may
    heal at any point"""
    samples = ''.join(sorted({s for a in attaches for s in a[1:]}))
    w = mkworld(samples, normalized, Fault)
    pairs = set()
    for a in attaches:
        w.set_model(*a[1:])
        pairs |= w.needs(('normed',))
    reads = [o for o in ACCESS] + [('get', g) for g in GETS]
    for p in sorted(pairs):
        ops = list(attaches) + [('heal',)] + reads
        bfs(acc, lambda: mkworld(samples, normalized, Fault, p), ops,
            lambda w, op: w.step(op), cap, 'failing pair {} {} normalized={}'.format(
                p, attaches, normalized))
        bfs(acc, lambda: mkworld(samples, normalized, Fault, None, True),
            ops + [('poison', p)], lambda w, op: w.step(op), cap,
            'pair {} starts failing {}'.format(p, attaches))
        if acc.full:
            return


def sequences(acc, first, normalized, ks):
    """Stateless: fault at the k-th evaluation of the first access, then two more accesses
    (with and without another fault), on samples larger than the closed searches'."""
    reads = [('full',), ('sparse',), ('centered',), ('normed',), ('frob',), ('diag',),
             ('get', '0,:'), ('get', ':,:'), ('normalize',), ('get', 'L,0')]
    for att in (('attach', 'G'), ('attach2', 'G', 'A'), ('attach2', 'A', 'G')):
        for k in ks:
            for a, b in itertools.product(reads, repeat=2):
                for second in (None, 0, 1):
                    w = mkworld('GA', normalized, Fault)
                    seq = [att, ('fault', k, first),
                           a if second is None else ('fault', second, a), b, a]
                    for op in seq:
                        bad = w.step(op)
                        acc.transitions += 1
                        if bad:
                            acc.violate(bad, 'history: {} normalized={}'.format(
                                seq, normalized))
                            return
                    acc.traces += 1
                    acc.states += 1
    acc.sample('faults {}'.format(seq))


def sizes(acc, n, normalized):
    rng = np.random.default_rng(n)
    X = np.c_[np.arange(n), rng.permutation(n) / 2.0]
    tot = n * (n + 1) // 2
    for k in sorted({0, 1, n - 1, n, tot // 2, tot - 2, tot - 1}):
        if k < 0:
            continue
        for op in (('full',), ('sparse',), ('centered',), ('normed',), ('frob',),
                   ('get', ':,:')):
            w = mkworld([], normalized, Fault)
            w.samples['X'] = X
            for o in (('attach', 'X'), ('fault', k, op), ('get', 'L,0'), op, ('full',),
                      ('frob',)):
                bad = w.step(o)
                acc.transitions += 1
                if bad:
                    acc.violate('{} points: {}'.format(n, bad[:900]),
                                'fault at evaluation {} of {}'.format(k, op))
                    return
            acc.traces += 1
        acc.states += 1


def exception_kinds(acc, exc):
    """the failure may be any exception: none may be mistaken for something harmless"""
    reads = [('full',), ('sparse',), ('centered',), ('normed',), ('frob',), ('diag',),
             ('normalize',), ('center',)] + [('get', g) for g in GETS]
    for att in (('attach', 'A'), ('attach2', 'A', 'B'), ('attach', 'C'), ('attach2', 'B', 'C')):
        for nm in (False, True):
            for first in reads:
                for k in range(10):
                    for then in (('full',), first, ('normed',)):
                        w = mkworld('ABC', nm, exc)
                        seq = [att, ('fault', k, first), then, ('frob',), ('get', 'L,0')]
                        for op in seq:
                            bad = w.step(op)
                            acc.transitions += 1
                            if bad:
                                acc.violate('{} raised by the kernel: {}'.format(
                                    exc.__name__, bad[:900]), 'history: {} normalized={}'
                                    ''.format(seq, nm))
                                return
                        acc.traces += 1
        acc.states += 1


def composites(acc, kind):
    """A member failing while a composite is fitted, or a set is attached to a bad sample"""
    from kernelmethods.base import (AverageKernel, KernelMatrix, KernelSet, ProductKernel,
                                    SumKernel, WeightedAverageKernel)
    from mc import ref
    X = np.array([[1., 2.], [3., -1.], [2., 2.]])
    cls = {'sum': SumKernel, 'prod': ProductKernel, 'avg': AverageKernel,
           'wavg': lambda s: WeightedAverageKernel(s, [1., 1.])}[kind]
    R = ref.raw_km(TKernel.value, ref.rows(X))
    want = {'sum': 2 * R, 'prod': R * R, 'avg': R, 'wavg': 2 * R}[kind]
    for who, k in itertools.product((0, 1), range(7)):
        ks = [TKernel(), TKernel()]
        kset = KernelSet([KernelMatrix(q, normalized=False) for q in ks])
        kset.attach_to(X)
        c = cls(kset)
        ks[who].arm = k
        failed = False
        try:
            c.fit()
        except Exception:
            failed = True
        acc.transitions += 1
        if failed != (k < 6):
            acc.violate('failure of a member not reported by fit()', '{} {}'.format(kind, k))
        ks[who].arm = None
        if failed:
            try:
                r = c.full
                if not ref.close(r, want):
                    acc.violate('failed fit left the result\n{}'.format(r), kind)
            except Exception:
                pass
        c.fit()
        if not ref.close(c.full, want):
            acc.violate('after a failed fit, the composite is\n{}\nexpected\n{}'.format(
                c.full, want), kind)
        acc.traces += 1
        acc.states += 1


def run(ctx):
    cap = ctx.pick(60000, 400000)
    tasks = []
    maxk = ctx.pick(4, 7)
    for nm in (False, True):
        for hard in (False, True):
            tasks += [((('attach2', 'C', 'D'), ('attach', 'C')), nm, hard, maxk + 1, cap),
                      ((('attach', 'C'), ('attach', 'D')), nm, hard, maxk, cap),
                      ((('attach', 'A'), ('attach', 'E')), nm, hard, maxk + 2, cap)]
        tasks += [((('attach2', 'C', 'A'), ('attach', 'E')), nm, False, maxk + 2, cap)]
        if ctx.thorough:
            tasks += [((('attach2', 'A', 'C'), ('attach', 'A')), nm, True, 10, cap),
                      ((('attach2', 'A', 'B'), ('attach', 'C')), nm, False, 12, cap)]
    ctx.explore(search, tasks)
    ctx.explore(poisoned, [(a, nm, cap) for a in (
        (('attach', 'C'),), (('attach', 'A'),), (('attach2', 'C', 'D'),),
        (('attach2', 'C', 'D'), ('attach', 'C'))) + ctx.pick((), (
            (('attach2', 'A', 'C'), ('attach', 'A')),)) for nm in (False, True)])
    firsts = [('full',), ('sparse',), ('centered',), ('normed',), ('frob',), ('diag',),
              ('get', '0,:'), ('get', ':,:')]
    ctx.explore(sequences, [(f, nm, ks) for f in firsts for nm in (False, True)
                            for ks in ctx.pick(((0, 3), (7, 9), (11,)), (range(0, 4), range(4, 8), range(8, 12), range(12, 16), range(16, 20)))])
    ctx.explore(sizes, [(n, nm) for n in list(range(1, 10)) + [17, 33, 51, ctx.pick(65, 130)]
                        for nm in (False, True)])
    ctx.explore(exception_kinds, [ZeroDivisionError, FloatingPointError, OverflowError,
                                  ValueError, TypeError, KeyError, IndexError,
                                  AttributeError, StopIteration, RuntimeError, MemoryError,
                                  AssertionError, NotImplementedError, OSError, TimeoutError,
                                  UserWarning, np.linalg.LinAlgError, UnicodeError,
                                  KeyboardInterrupt, GeneratorExit])
    ctx.explore(composites, ['sum', 'prod', 'avg', 'wavg'])
