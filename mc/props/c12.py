"""C12: KernelSet against a list model, over all operation sequences."""
import itertools

import numpy as np

from mc import ref

X3 = np.array([[1.0, 2.0], [0.5, -1.0], [3.0, 0.0]])
X3b = np.array([[2.0, 1.0], [-1.5, 1.0], [0.0, 4.0]])
Y2 = np.array([[1.0, 1.0], [2.0, -1.0]])
C3 = np.array([['a', 'b'], ['b', 'b'], ['a', 'c']])
P3 = np.array([[2.0, 1.0, 0.0], [1.0, 3.0, 1.0], [0.0, 1.0, 4.0]])
P2 = np.eye(2) * 5
NORMED = 'BV'            # members kept normalized
SAMPLES = {'X3': X3, 'X3b': X3b, 'Y2': Y2, 'C3': C3}


class World:
    """fresh members; mem[name] = [object, what it is attached to, reference kernel]"""

    def __init__(self):
        from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed, KernelSet
        from kernelmethods.numeric_kernels import (GaussianKernel, LinearKernel,
                                                   PolyKernel)
        from kernelmethods.categorical import MatchCountKernel
        from kernelmethods.sampling import KernelBucket
        self.KS, self.KB = KernelSet, KernelBucket
        m = self.mem = {}
        for n, k, r in (('A', LinearKernel(), ref.linear()),
                        ('B', PolyKernel(2), ref.poly(2)),
                        ('U', GaussianKernel(1.5), ref.gaussian(1.5)),
                        ('V', LinearKernel(), ref.linear()),
                        ('D', PolyKernel(3), ref.poly(3)),
                        ('T', LinearKernel(), ref.linear()),
                        ('M', MatchCountKernel(), ref.match(True))):
            m[n] = [KernelMatrix(k, normalized=n in NORMED, name=n), None, r]
        for n, s in (('A', X3), ('B', X3), ('D', Y2)):
            m[n][0].attach_to(s)
            m[n][1] = s
        m['T'][0].attach_to(X3, sample_two=Y2)
        m['T'][1] = (X3, Y2)
        m['P'] = [KernelMatrixPrecomputed(P3), 'pre', P3]
        m['Q'] = [KernelMatrixPrecomputed(P2), 'pre', P2]

    def num(self, n):
        o, at, r = self.mem[n]
        if at is None:
            return None
        if isinstance(at, str):
            return len(r)
        return (len(at[0]), len(at[1])) if isinstance(at, tuple) else len(at)


class Stop(Exception):
    pass


def refuse(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Stop('{} was not refused, gave {!r}'.format(what, r))


CTORS = {
    'empty': ([], None, lambda w: w.KS()),
    'list AB': (['A', 'B'], None, lambda w: w.KS([w.mem['A'][0], w.mem['B'][0]])),
    'single A': (['A'], None, lambda w: w.KS(w.mem['A'][0], name='one')),
    'gen UV': (['U', 'V'], None, lambda w: w.KS(w.mem[x][0] for x in 'UV')),
    'tuple A,ndarray': (['A', '*P'], None, lambda w: w.KS((w.mem['A'][0], P3))),
    'num_samples=3': ([], 3, lambda w: w.KS(num_samples=3)),
    'A num_samples=3': (['A'], 3, lambda w: w.KS([w.mem['A'][0]], num_samples=3)),
    'pre': (['P', 'A'], None, lambda w: w.KS([w.mem['P'][0], w.mem['A'][0]])),
    'two-sample': (['T'], None, lambda w: w.KS([w.mem['T'][0]])),
    'from set': (['B', 'A'], None, lambda w: w.KS(w.KS([w.mem['B'][0], w.mem['A'][0]]))),
    'bucket': (['!'], None, lambda w: w.KB(None, None, None, None, None,
                                           normalize_kernels=False)),
    'categorical': (['M'], None, lambda w: w.KS([w.mem['M'][0]])),
}
BAD = {
    'A and D': lambda w: w.KS([w.mem['A'][0], w.mem['D'][0]]),
    'A and U': lambda w: w.KS([w.mem['A'][0], w.mem['U'][0]]),
    'D for 3': lambda w: w.KS([w.mem['D'][0]], num_samples=3),
    'U for 3': lambda w: w.KS([w.mem['U'][0]], num_samples=3),
    'text': lambda w: w.KS('abc'),
    'number': lambda w: w.KS(5),
    'asymmetric': lambda w: w.KS([np.array([[1.0, 2.0], [3.0, 4.0]])]),
    'T and A': lambda w: w.KS([w.mem['T'][0], w.mem['A'][0]]),
}
OPS = [('append', n) for n in ('A', 'B', 'U', 'D', 'P', 'T')] + \
      [('append array', 'P'), ('append array', 'Q'), ('append bad', 0)] + \
      [('extend', e) for e in ('AB', 'UV', 'D', 'PA', '')] + [('extend bad', 0)] + \
      [('attach', s) for s in ('X3', 'X3b', 'Y2', 'C3', '1D')]


def other(w, names):
    return w.KS([w.mem[n][0] for n in names])


def sizes(w, lst):
    return w.num(lst[0]) if lst else None


class Model:
    def __init__(self, w, ctor):
        names, num, mk = CTORS[ctor]
        self.w, self.S = w, mk(w)
        self.lst = []
        for n in names:
            if n == '!':                      # the linear kernel of a bucket
                w.mem['!'] = [self.S[0], None, ref.linear()]
            if n.startswith('*'):
                n = self.wrap(n[1:], len(self.lst))
            self.lst.append(n)
        self.num = num if num is not None else sizes(w, self.lst)
        self.fixed = num is not None or bool(self.lst)
        # num is None and fixed: holds unattached members, only more of those fit

    def wrap(self, n, pos):
        """arrays are wrapped on entry: remember the wrapper found in the set"""
        o = list(self.S)[pos]
        k = 'w{}'.format(pos)
        self.w.mem[k] = [o, 'pre', self.w.mem[n][2]]
        if not np.array_equal(o.full, self.w.mem[n][2]):
            raise Stop('appended array reads {}'.format(o.full))
        return k

    def fits(self, num):
        return not self.fixed or num == self.num

    def take(self, names):
        for n in names:
            if not self.fixed:
                self.num, self.fixed = self.w.num(n), True
            self.lst.append(n)

    def step(self, op):
        w, S = self.w, self.S
        a, x = op
        if a == 'append':
            f = lambda: S.append(w.mem[x][0])
            if not self.fits(w.num(x)):
                return refuse(f, op)
            f()
            self.take([x])
        elif a == 'append array':
            f = lambda: S.append(w.mem[x][2].copy())
            if not self.fits(len(w.mem[x][2])):
                return refuse(f, op)
            f()
            if not self.fixed:
                self.num, self.fixed = len(w.mem[x][2]), True
            self.lst.append(self.wrap(x, len(self.lst)))
        elif a == 'append bad':
            for b in (np.ones((2, 3)), np.array([[1.0, 2.0], [0.0, 1.0]]), 'abc', None,
                      np.ones(3), 7):
                refuse(lambda: S.append(b), 'append({!r})'.format(b))
        elif a == 'extend':
            if len({w.num(n) for n in x}) > 1:
                return refuse(lambda: other(w, x), 'set of different sizes')
            O = other(w, x)
            onum = sizes(w, x)
            f = lambda: S.extend(O)
            if onum != self.num:
                refuse(f, op)
            else:
                f()
                self.take(list(x))
            if [o for o in O] != [w.mem[n][0] for n in x] or len(O) != len(x):
                raise Stop('the set passed to extend was changed')
        elif a == 'extend bad':
            for b in ([w.mem['A'][0]], w.mem['A'][0], None, P3, 'A'):
                refuse(lambda: S.extend(b), 'extend({})'.format(type(b)))
        elif a == 'attach':
            if x == '1D':
                return refuse(lambda: S.attach_to(np.array([1.0, 2.0, 3.0])), op)
            s = SAMPLES[x]
            if self.num is not None and self.num != len(s):
                return refuse(lambda: S.attach_to(s), op)
            S.attach_to(s)
            self.num = len(s)
            if self.lst:
                self.fixed = True
            self.fixed = True
            for n in self.lst:
                w.mem[n][1] = s

    def skip(self, op):
        a, x = op
        if a == 'attach':      # attaching precomputed members is not supported
            return any(self.w.mem[n][1] == 'pre' if isinstance(self.w.mem[n][1], str)
                       else False for n in self.lst)
        return False

    def judge(self, full):
        w, S = self.w, self.S
        objs = [w.mem[n][0] for n in self.lst]
        k = len(objs)
        got = list(S)
        if len(S) != k or S.size != k or len(got) != k or \
                any(g is not o for g, o in zip(got, objs)):
            raise Stop('holds {} expected {}'.format(got, objs))
        if S.num_samples != self.num:
            raise Stop('num_samples {} expected {}'.format(S.num_samples, self.num))
        for i in range(k):
            for ix in (i, np.int64(i), np.int32(i)):
                if S[ix] is not objs[i]:
                    raise Stop('[{!r}] is another member'.format(ix))
        for ix in (-1, -k if k else -2, k, k + 1, 100, 0.0, 1.5, 'a', None, slice(0, 1)):
            refuse(lambda: S[ix], 'index {!r}'.format(ix))
        if not full:
            return
        for n in self.lst:
            o, at, r = w.mem[n]
            if at is None:
                if o.num_samples is not None:
                    raise Stop('{} became attached'.format(n))
                refuse(lambda: o.full, 'values of an unattached member')
                continue
            if isinstance(at, np.ndarray) and (at.dtype.kind == 'U') != (n == 'M'):
                continue             # no values: kernel and data do not go together
            want = r if isinstance(at, str) else ref.raw_km(r, at[0], at[1]) \
                if isinstance(at, tuple) else ref.raw_km(r, at.tolist())
            if n in NORMED:
                want = want / np.sqrt(np.outer(np.diag(want), np.diag(want)))
            if not ref.close(o.full, want):
                raise Stop('member {} reads {} expected {}'.format(n, o.full.tolist(),
                                                                   want.tolist()))
        for a, ia in zip(S, range(k)):         # iterations within an iteration
            if [b is a for b in S] != [o is objs[ia] for o in objs]:
                raise Stop('iterating within an iteration gives other members')
        if [(id(a), id(b)) for a, b in zip(S, S)] != [(id(o), id(o)) for o in objs] or \
                len([1 for a in S for b in S]) != k * k:
            raise Stop('simultaneous iterations disturb each other')
        it = iter(S)
        if k and (next(it) is not objs[0] or len(list(S)) != k or len(list(it)) != k - 1):
            raise Stop('an iteration that was begun is disturbed by another')
        sels = [()] + [(i,) for i in range(k)] + \
            list(itertools.product(range(k), repeat=2)) + \
            (list(itertools.product(range(k), repeat=3)) if k == 3 else []) + \
            [tuple(range(k)), tuple(range(k))[::-1]]
        for sel in sels:
            for form in (list(sel), np.array(sel, dtype=int)) + \
                    ((sel[0],) if len(sel) == 1 else (sel,)):
                t = S.take(form, name='sub')
                if not isinstance(t, w.KS) or t.name != 'sub' or len(t) != len(sel) or \
                        any(a is not objs[i] for a, i in zip(t, sel)):
                    raise Stop('take({!r}) gave {}'.format(form, list(t)))
                if sel and t.num_samples != objs[sel[0]].num_samples:
                    raise Stop('take({!r}) has num_samples {}'.format(form, t.num_samples))
            if all(hasattr(objs[i], 'kernel') for i in sel):
                kf = S.get_kernel_funcs(list(sel))
                if len(kf) != len(sel) or any(a is not objs[i].kernel
                                              for a, i in zip(kf, sel)):
                    raise Stop('get_kernel_funcs({}) gave {}'.format(sel, kf))
        for sel in ([-1], [k], [0, k], [k + 5, 0], k, -1):
            refuse(lambda: S.take(sel), 'take({})'.format(sel))
            refuse(lambda: S.get_kernel_funcs(sel), 'get_kernel_funcs({})'.format(sel))
        if not all(a is b for a, b in zip(S, objs)) or len(S) != k:
            raise Stop('changed by reading it')


def sequences(acc, ctor, depth, first):
    for hist in itertools.product(range(len(OPS)), repeat=depth):
        if hist[0] != first:
            continue
        w = World()
        try:
            m = Model(w, ctor)
            m.judge(depth < 2)
            for i, h in enumerate(hist):
                op = OPS[h]
                if m.skip(op):
                    acc.note('steps_outside_scope')
                    continue
                m.step(op)
                acc.transitions += 1
                m.judge(i == depth - 1)
        except Stop as e:
            acc.violate(str(e), 'KernelSet({}) ; {}'.format(ctor, ' ; '.join(
                str(OPS[h]) for h in hist)))
            if acc.full:
                return
            continue
        acc.out((ctor, tuple(m.lst), m.num))
        acc.states += 1
        acc.traces += 1
    acc.sample('KernelSet({}), all {}-step sequences beginning with {}'.format(
        ctor, depth, OPS[first]))


def refused(acc, _):
    for what, f in BAD.items():
        w = World()
        acc.transitions += 1
        try:
            refuse(lambda: f(w), 'construction from ' + what)
            for n, (o, at, r) in w.mem.items():
                if at is None or isinstance(at, (str, tuple)):
                    continue
                want = ref.raw_km(r, at.tolist())
                if n in NORMED:
                    want = want / np.sqrt(np.outer(np.diag(want), np.diag(want)))
                if not ref.close(o.full, want):
                    raise Stop('a refused construction changed a member')
        except Stop as e:
            acc.violate(str(e), what)
    # categorical samples, and features of any number
    w = World()
    S = w.KS([w.mem['M'][0]])
    S.attach_to(C3)
    acc.transitions += 1
    if not ref.close(w.mem['M'][0].full, ref.raw_km(ref.match(True), C3.tolist())):
        acc.violate('categorical attach reads {}'.format(w.mem['M'][0].full.tolist()), '')
    acc.traces += 1
    acc.states += 1


def ladder(acc, k, n):
    """k members on n points"""
    w = World()
    from kernelmethods.base import KernelMatrix
    from kernelmethods.numeric_kernels import PolyKernel
    kms = [KernelMatrix(PolyKernel(1 + i % 3, b=i), normalized=False) for i in range(k)]
    S = w.KS(kms)
    for rep in range(2):
        X = np.round(np.random.default_rng(n + rep).uniform(-1, 1, (n, 2)), 2)
        S.attach_to(X)
        acc.transitions += 1
        if len(S) != k or S.num_samples != n or any(a is not b for a, b in zip(S, kms)):
            acc.violate('set of {} on {} points lost members'.format(k, n), '')
        for i in sorted({0, k // 2, k - 1}):
            R = (i + X @ X.T) ** (1 + i % 3)
            if not ref.close(S[i].full, R):
                acc.violate('member {} of {} wrong on {} points'.format(i, k, n), '')
        refuse(lambda: S.attach_to(np.ones((n + 1, 2))), 'other size')
        if S.num_samples != n or kms[-1].num_samples != n:
            acc.violate('refused attach changed the set', 'k={} n={}'.format(k, n))
        for idx in (list(range(k))[::-2], [0] * k, [k - 1] * (k + 1), [0, k - 1] * k,
                    [i % 2 % k for i in range(k)], [1 % k] + [0] * (k - 1),
                    [0] * (k - 1) + [1 % k], list(range(k)) * 2):
            for form in (idx, tuple(idx), np.array(idx),
                         np.array(idx, np.uint8 if k < 256 else np.uint16)):
                t = S.take(form)
                acc.transitions += 1
                if any(a is not kms[i] for a, i in zip(t, idx)) or len(t) != len(idx):
                    acc.violate('take({})'.format(idx), '')
                f = S.get_kernel_funcs(form)
                if any(a is not kms[i].kernel for a, i in zip(f, idx)) or len(f) != len(idx):
                    acc.violate('get_kernel_funcs({})'.format(idx), '')
        if sum(1 for a in S for b in S if a is b) != k:
            acc.violate('nested iteration over {} members'.format(k), '')
    acc.states += 1
    acc.traces += 1


class Hang(Exception):
    pass


def hang(*_):
    raise Hang('the operation does not end')


def itself(acc, k, n):
    """Sets combined with themselves, with sets sharing members, built from iterators"""
    import signal
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.numeric_kernels import PolyKernel
    X = np.round(np.random.default_rng(n).uniform(-1, 1, (n, 2)), 2)
    kms = [KernelMatrix(PolyKernel(1 + i % 3, b=i), normalized=False) for i in range(k)]
    old = signal.signal(signal.SIGALRM, hang)
    try:
        for lab, build, want in (
                ('extend by itself', lambda s: s.extend(s), kms * 2),
                ('extend by itself twice', lambda s: (s.extend(s), s.extend(s)), kms * 4),
                ('extend by a part', lambda s: s.extend(s.take(range(k))), kms * 2),
                ('extend by the reverse', lambda s: s.extend(s.take(list(range(k))[::-1])),
                 kms + kms[::-1]),
                ('append an own member', lambda s: s.append(s[k - 1]), kms + kms[-1:]),
                ('append while iterating a copy',
                 lambda s: [s.append(m) for m in list(s)], kms * 2)):
            for start in ('list', 'generator', 'set'):
                s = KernelSet({'list': kms, 'generator': (m for m in kms),
                               'set': KernelSet(kms)}[start])
                s.attach_to(X)
                acc.transitions += 1
                signal.setitimer(signal.ITIMER_REAL, 5)
                try:
                    build(s)
                except Hang as e:
                    acc.violate(str(e), lab)
                    return
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                if len(s) != len(want) or any(a is not b for a, b in zip(s, want)):
                    acc.violate('{} of {} members gave {}'.format(lab, k, s), start)
                    return
                s.attach_to(X * 2)
                if any(not ref.close(m.full, (i % k + 4 * X @ X.T) ** (1 + i % k % 3))
                       for i, m in enumerate(kms)):
                    acc.violate('wrong values after ' + lab, start)
                    return
        acc.states += 1
    finally:
        signal.signal(signal.SIGALRM, old)
    acc.traces += 1


def run(ctx):
    for d in (1, 2, ctx.pick(3, 4)):
        ctx.explore(sequences, [(c, d, f) for c in CTORS for f in range(len(OPS))])
    ctx.explore(refused, [0], parallel=False)
    ctx.explore(ladder, [(k, n) for k in (1, 2, 3, 5, 9, 17, 33) for n in (1, 2, 5, 12)] +
                [(130, 2), (260, 2)])
    ctx.explore(itself, [(k, n) for k in (1, 2, 3, 4, 5) for n in (1, 2, 3, 4)])
    ctx.bounds['sequence_depth'] = ctx.pick(3, 4)
    ctx.assumptions.append('attaching sets that hold precomputed members, and re-attaching '
                           'a member behind the back of its set, are outside the property')
