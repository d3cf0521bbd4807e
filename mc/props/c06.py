"""C06: concurrent readers get the values a lone reader would get."""
import time

import numpy as np

from mc import core, ref, sched
from mc.kmworld import TKernel, World

DATA = {'A': [[1., 2.], [3., -1.]], 'B': [[0., 5.], [-2., 1.], [4., 3.]]}
READS = {'full': ('full',), 'normed': ('normed',), 'centered': ('centered',),
         'frob': ('frob',), 'diag': ('diag',), 'sparse': ('sparse',),
         'row': ('get', '0,:'), 'col': ('get', ':,L'), 'all': ('get', ':,:'), 'elem': ('get', 'L,0')}
AUDIT = ('full', 'normed', 'centered', 'frob', 'diag', 'all', 'elem')


def kernel(kind):
    from kernelmethods import numeric_kernels as nk
    return {'T': lambda: (TKernel(), TKernel.value),
            'rbf': lambda: (nk.GaussianKernel(3.0, skip_input_checks=True),
                            ref.gaussian(3.0)),
            'rbfc': lambda: (nk.GaussianKernel(3.0), ref.gaussian(3.0)),
            'lin': lambda: (nk.LinearKernel(skip_input_checks=True), ref.linear()),
            'poly': lambda: (nk.PolyKernel(2, skip_input_checks=True), ref.poly(2)),
            'lap': lambda: (nk.LaplacianKernel(0.5, skip_input_checks=True),
                            ref.laplacian(0.5)),
            'sig': lambda: (nk.SigmoidKernel(0.1, 1.0, skip_input_checks=True),
                            ref.sigmoid(0.1, 1.0)),
            'chi2': lambda: (nk.Chi2Kernel(0.5, skip_input_checks=True), ref.chi2(0.5)),
            'had': lambda: (nk.HadamardKernel(2, skip_input_checks=True), ref.hadamard(2)),
            }[kind]()


def world(k, r, normalized, two, nonneg=False):
    w = World(k, r, [], normalized)
    f = np.abs if nonneg else (lambda a: a)
    w.samples = {q: f(np.array(v)) for q, v in DATA.items()}
    return w


def attach(w, two):
    op = ('attach2', 'A', 'B') if two == 2 else ('attach', 'B' if two == 'B' else 'A')
    bad = w.step(op)
    if bad:
        raise RuntimeError(bad)


def same(acc, kind, normalized, two, plan, bound, opcodes, warm):
    """threads reading one kernel matrix; plan: one tuple of reads per thread"""
    ops = [[READS[r] for r in p] for p in plan]
    judged = []

    def make():
        w = world(*kernel(kind), normalized, two, kind in ('chi2',))
        attach(w, two)
        if warm:
            w.step(READS[warm])
        judged[:] = [w]

        def body(p):
            return lambda: [w.run(o) for o in p]
        return [body(p) for p in ops], audit

    def check(o, res):
        return judged[0].judge(o, res, None)

    def judge(results):
        for t, (st, res) in enumerate(results):
            if st != 'ok':
                return 'thread {} raised {}: {}'.format(t, type(res).__name__, res)
            for o, r in zip(ops[t], res):
                bad = check(o, r)
                if bad:
                    return 'thread {} reading {}: {}'.format(t, o, bad)

    def audit():
        for a in AUDIT:
            if two == 2 and a in ('centered', 'diag'):
                continue
            bad = judged[0].step(READS[a])
            if bad:
                return 'afterwards, {}: {}'.format(a, bad)
    sched.explore(acc, make, judge, bound, opcodes, '{} {} normalized={} samples={} bound={}'
                  '{}'.format(kind, plan, normalized, two, bound,
                              ' opcode' if opcodes else ''),
                  min(core.deadline(), time.time() + core.task_seconds()))
    acc.sample('{} threads reading {} ({})'.format(len(plan), plan, kind))


def shared(acc, kind, plan, bound, opcodes):
    """threads each with their own kernel matrix, sharing the kernel function and data"""
    ops = [[READS[r] for r in p] for p in plan]
    judged = []

    def make():
        k, r = kernel(kind)
        ws = []
        for i in range(len(plan)):
            w = world(k, r, False, 1, kind in ('chi2', 'had'))
            attach(w, 'B' if i else 1)
            ws.append(w)
        judged[:] = ws

        def body(i):
            return lambda: [ws[i].run(o) for o in ops[i]]
        return [body(i) for i in range(len(plan))], audit

    def judge(results):
        for t, (st, res) in enumerate(results):
            if st != 'ok':
                return 'thread {} raised {}: {}'.format(t, type(res).__name__, res)
            for o, r in zip(ops[t], res):
                bad = judged[t].judge(o, r, None)
                if bad:
                    return 'thread {} reading {}: {}'.format(t, o, bad)

    def audit():
        for w in judged:
            bad = w.step(('full',))
            if bad:
                return 'afterwards: ' + bad
    sched.explore(acc, make, judge, bound, opcodes, 'shared {} {} bound={}'.format(
        kind, plan, bound), min(core.deadline(), time.time() + core.task_seconds()))


def run(ctx):
    t = []
    one = ('full', 'normed', 'centered', 'frob', 'sparse', 'row', 'all', 'diag')
    for nm in (False, True):
        for two in (1, 2):
            names = [r for r in one if not (two == 2 and r in ('centered', 'diag'))]
            for i, a in enumerate(names):
                for b in names[i:]:
                    t.append(('T', nm, two, ((a,), (b,)), 1, False, None))
    # different parts of the matrix, element by element
    parts = ('row', 'col', 'elem')
    for two in (1, 2):
        for i, a in enumerate(parts):
            for b in parts[i:]:
                t.append(('T', False, two, ((a,), (b,)), 1, True, None))
    for a in parts:
        t.append(('T', False, 2, ((a,), ('full',)), 1, True, None))
    t.append(('T', False, 1, (('row', 'col'), ('col', 'elem')), 1, False, None))
    key = ('full', 'normed', 'centered', 'frob', 'sparse', 'all')
    for nm in (False, True):
        for i, a in enumerate(key):
            for b in key[i:]:
                t.append(('T', nm, 1, ((a,), (b,)), 1, True, None))
    # several reads per thread, and half-evaluated starting points
    for nm in (False, True):
        for p in ((('full', 'frob'), ('centered', 'normed')),
                  (('row', 'full'), ('all', 'sparse')),
                  (('normed', 'full'), ('full', 'normed'))):
            for warm in (None, 'row', 'sparse', 'full'):
                t.append(('T', nm, 1, p, 1, False, warm))
    # three threads
    for nm in (False, True):
        for p in ((('full',), ('full',), ('full',)), (('full',), ('normed',), ('centered',)),
                  (('frob',), ('all',), ('sparse',))):
            t.append(('T', nm, 1, p, 1, False, None))
    # two preemptions
    for nm in (False, True):
        for p in ctx.pick(((('normed',), ('full',)),) if nm else ((('full',), ('full',)),
                                                                  (('centered',), ('all',))),
                          ((('full',), ('full',)), (('normed',), ('full',)),
                           (('centered',), ('full',)), (('frob',), ('all',)),
                           (('normed',), ('normed',)))):
            t.append(('T', nm, 1, p, 2, False, None))
    # three preemptions on the last steps only: everything is evaluated already
    for nm, a, b, k in ((False, 'centered', 'centered', 3), (False, 'frob', 'frob', 3),
                        (False, 'normed', 'normed', ctx.pick(2, 3)),
                        (True, 'full', 'full', ctx.pick(2, 3)),
                        (False, 'centered', 'normed', ctx.pick(2, 3))):
        t.append(('T', nm, 1, ((a,), (b,)), k, False, 'full'))
    if ctx.thorough:
        for nm in (False, True):
            for two in (1, 2):
                names = [r for r in one if not (two == 2 and r in ('centered', 'diag'))]
                for i, a in enumerate(names):
                    for b in names[i:]:
                        t.append(('T', nm, two, ((a,), (b,)), 2, False, None))
                        t.append(('T', nm, two, ((a,), (b,)), 1, True, None))
            for p in ((('full',), ('full',), ('full',)),
                      (('full',), ('normed',), ('centered',))):
                t.append(('T', nm, 1, p, 2, False, None))
    ctx.explore(same, sorted(t, key=lambda a: (-a[4], not a[5], not a[1])))
    kinds = ('rbf', 'rbfc', 'lin', 'poly', 'lap', 'sig', 'chi2', 'had')
    ctx.explore(shared, [(k, (('full',), ('full',)), 1, True) for k in kinds
                         if k != 'rbfc'] + [('rbfc', (('elem',), ('row',)), 1, True)] +
                ctx.pick([], [(k, (('elem',), ('elem',)), 2, False) for k in kinds] + [(k, (('full',), ('row',)), 2, False) for k in kinds]))
    ctx.bounds.update(preemptions='1 at bytecode and line granularity, 2 at line '
                                  'granularity', threads='2 and 3')
    ctx.assumptions += ['preemption can only happen between bytecode instructions of the '
                        'package (GIL); calls into numpy are atomic']
