"""A KernelMatrix together with its reference model, and the operations on it."""
import numpy as np
from scipy.sparse import issparse

from kernelmethods.base import BaseKernelFunction, KernelMatrix
from mc import ref


class Fault(Exception):
    """Injected failure of a kernel evaluation"""


class TKernel(BaseKernelFunction):
    """Exact, strictly positive, PSD test kernel with evaluation log and faults."""

    def __init__(self, log=False, poison=None, zero_ok=False):
        super().__init__('testkernel')
        self.log = {} if log else None
        self.poison = poison          # unordered content pair which always fails
        self.arm = None               # fail at this many evaluations from now
        self.exc = Fault
        self.fired = False
        self.zero_ok = zero_ok

    def __call__(self, x, y):
        a, b = tuple(map(float, x)), tuple(map(float, y))
        if self.arm is not None:
            if self.arm == 0:
                self.arm = None
                self.fired = True
                raise self.exc('injected')
            self.arm -= 1
        if self.poison is not None and tuple(sorted((a, b))) == self.poison:
            self.fired = True
            raise self.exc('poisoned pair')
        if self.log is not None:
            self.log[(a, b)] = self.log.get((a, b), 0) + 1
        return self.value(a, b)

    @staticmethod
    def value(a, b):
        return (1.0 + sum(p * q for p, q in zip(a, b))) ** 2 + \
            1.0 * sum(p * q for p, q in zip(a, b)) + 1.0

    def __str__(self):
        return 'testkernel'


# rows are pairwise distinct over all samples, so that (row, row) identifies a pair
SAMPLES = {
    'A': [[1., 2.], [3., -1.], [2., 2.]],
    'B': [[0., 5.], [-2., 1.], [4., 3.]],          # same shape as A, other content
    'C': [[1., 1.], [6., -3.]],
    'D': [[-1., 4.], [2., -5.]],
    'E': [[7., 1.]],
    'F': [[1., 2., 3.], [0., 1., -1.]],            # other number of features
    'G': [[9., 2.], [8., -1.], [7., 2.], [6., 6.]],
    'H': [[1.], [2.], [3.]],
}

ACCESS = [('full',), ('sparse',), ('center',), ('centered',), ('normalize',),
          ('normed',), ('frob',), ('diag',), ('size',)]
GETS = ['0,0', '0,L', 'L,0', '0,:', ':,L', ':,:', 'linear-last', 'linear-1',
        'all-lists', 'rev-list', 'L,L']


def resolve(desc, shape):
    """index description -> (index object, rows, cols)"""
    n, m = shape
    allr, allc = list(range(n)), list(range(m))
    ln, lm = n - 1, m - 1
    lin = min(1, n * m - 1)
    return {
        '0,0': ((0, 0), [0], [0]),
        '0,L': ((0, lm), [0], [lm]),
        'L,0': ((ln, 0), [ln], [0]),
        'L,L': ((ln, lm), [ln], [lm]),
        '0,:': ((0, slice(None)), [0], allc),
        ':,L': ((slice(None), lm), allr, [lm]),
        ':,:': ((slice(None), slice(None)), allr, allc),
        'linear-last': (n * m - 1, [ln], [lm]),
        'linear-1': (lin, [lin // m], [lin % m]),
        'all-lists': ((list(allr), np.array(allc)), allr, allc),
        'rev-list': ((allr[::-1][:2], allc[::-1][:2]), sorted(allr[::-1][:2]),
                     sorted(allc[::-1][:2])),
    }[desc]


class World:
    # replaced, never modified; all but the samples are functions of self.att
    SHARED = ('samples', 'X', 'Y', 'raw', 'kref', 'lim')

    def __deepcopy__(self, memo):
        import copy
        for a in self.samples.values():
            memo[id(a)] = a
        new = object.__new__(type(self))
        memo[id(self)] = new
        for k, v in vars(self).items():
            new.__dict__[k] = v if k in self.SHARED else copy.deepcopy(v, memo)
        return new

    def canon_state(self):
        """(constants by id, the state that matters)"""
        return ({id(a): n for n, a in self.samples.items()},
                {k: v for k, v in vars(self).items() if k not in self.SHARED})

    def __init__(self, kernel, kref, samples, normalized, dtype=float, layout='C'):
        self.kernel = kernel
        self.kref = kref
        self.normalized = normalized
        self.samples = {}
        for s in samples:
            a = np.array(SAMPLES[s], dtype=dtype)
            if layout == 'F':
                a = np.asfortranarray(a)
            elif layout == 'view':
                big = np.zeros((a.shape[0] * 2, a.shape[1] * 2), dtype)
                big[::2, ::2] = a
                a = big[::2, ::2]
            elif layout == 'ro':
                a.flags.writeable = False
            elif layout == '3d':
                a = a.reshape(a.shape + (1,))
            self.samples[s] = a
        self.km = KernelMatrix(kernel, normalized=normalized)
        self.att = None
        self.raw = None
        self.two = False
        self.X = self.Y = None
        self.normed_once = False

    # ------------------------------------------------------------- the model
    def set_model(self, one, two=None):
        X = self.samples[one].reshape(self.samples[one].shape[:2])
        Y = X if two is None else self.samples[two].reshape(
            self.samples[two].shape[:2])
        self.X, self.Y = ref.rows(X), ref.rows(Y)
        self.two = two is not None
        self.raw = ref.raw_km(self.kref, self.X, self.Y)
        self.att = (one, two)
        self.normed_once = False

    @property
    def shape(self):
        return self.raw.shape

    def normed(self):
        dx = [self.kref(x, x) for x in self.X]
        dy = [self.kref(y, y) for y in self.Y]
        return ref.normalized(self.raw, dx, dy)

    def needs(self, op):
        """unordered content pairs an access has to evaluate (or have evaluated)"""
        t = lambda v: tuple(v)
        if op[0] == 'size':
            return set()
        if op[0] == 'get':
            _, r, c = resolve(op[1], self.shape)
            return {tuple(sorted((t(self.X[i]), t(self.Y[j])))) for i in r for j in c}
        if op[0] == 'diag':
            return {(t(x), t(x)) for x in self.X}
        s = {tuple(sorted((t(x), t(y)))) for x in self.X for y in self.Y}
        if self.two and (op[0] in ('normalize', 'normed') or
                         op[0] in ('full', 'sparse') and self.normalized):
            s |= {(t(x), t(x)) for x in self.X} | {(t(x), t(x)) for x in self.Y}
        return s

    # --------------------------------------------------- running one operation
    def run(self, op):
        km = self.km
        if op[0] == 'attach':
            return km.attach_to(self.samples[op[1]], name_one=op[1])
        if op[0] == 'attach_noname':
            return km.attach_to(self.samples[op[1]])
        if op[0] == 'mutattach':
            self.samples[op[1]][0, 0] += 1
            return km.attach_to(self.samples[op[1]])
        if op[0] == 'attach2':
            return km.attach_to(self.samples[op[1]], name_one=op[1],
                                sample_two=self.samples[op[2]], name_two=op[2])
        if op[0] == 'badattach':
            one, two = self.bad(op[1])
            return km.attach_to(one, sample_two=two)
        if op[0] == 'get':
            idx = resolve(op[1], self.shape if self.raw is not None else (2, 2))[0]
            return km[idx]
        if op[0] == 'size':
            return (tuple(km.shape), int(km.size), len(km), km.num_samples)
        return {'full': lambda: km.full, 'sparse': lambda: km.full_sparse,
                'center': km.center, 'centered': lambda: km.centered,
                'normalize': km.normalize, 'normed': lambda: km.normed_km,
                'frob': lambda: km.frob_norm, 'diag': km.diagonal}[op[0]]()

    def bad(self, which):
        d = 2
        return {'dims': (np.ones((3, d)), np.ones((2, d + 1))),
                'dims2': (np.ones((2, d + 2)), np.ones((3, d))),
                '1d': (np.ones(4), None),
                '3d': (np.ones((2, 2, 2)), None),
                '1d-two': (np.ones((3, d)), np.ones(d)),
                '3d-two': (np.ones((3, d)), np.ones((2, d, 2)))}[which]

    def judge(self, op, res, exc):
        """None, or why (res, exc) is wrong for op"""
        if op[0] == 'badattach':
            if exc is None:
                return 'invalid sample(s) were accepted'
            return None
        if op[0] in ('attach', 'attach2', 'mutattach', 'attach_noname'):
            if exc is not None:
                return 'attach failed: {!r}'.format(exc)
            return None
        if self.raw is None:      # nothing attached yet: no data can be returned
            if op[0] == 'size':
                return None
            if exc is None:
                return 'unattached kernel matrix returned {!r}'.format(res)
            return None
        must_raise = self.two and op[0] in ('center', 'centered', 'diag')
        if must_raise:
            return None if exc is not None else 'must be rejected on two samples, ' \
                                                'returned {!r}'.format(res)
        if exc is not None:
            return 'raised {}: {}'.format(type(exc).__name__, exc)
        return self.judge_value(op, res)

    def judge_value(self, op, res):
        n, m = self.shape
        if op[0] in ('center', 'normalize'):
            return None
        if op[0] == 'size':
            want = ((n, m), n * m, n * m, (n, m) if self.two else n)
            got = tuple(res[:3]) + ((tuple(res[3]) if self.two else res[3]),)
            return None if got == want else 'sizes {} expected {}'.format(got, want)
        if op[0] == 'frob':
            want = ref.fnorm(self.raw)
        elif op[0] == 'diag':
            want = np.array([self.raw[i][i] for i in range(n)])
        elif op[0] == 'centered':
            want = ref.centered(self.raw)
        elif op[0] == 'normed':
            want = self.normed()
        elif op[0] == 'full':
            want = self.normed() if self.normalized else self.raw
        elif op[0] == 'get':
            _, r, c = resolve(op[1], self.shape)
            want = self.raw[np.ix_(r, c)]
        elif op[0] == 'sparse':
            want = self.normed() if self.normalized else self.raw
            if not self.normalized and not issparse(res):
                return 'sparse form requested, got {}'.format(type(res).__name__)
            got = np.asarray(res.todense()) if issparse(res) else np.asarray(res)
            if got.shape != want.shape or not ref.close(np.triu(got), np.triu(want)):
                return 'upper triangle is\n{}\nexpected\n{}'.format(got, want)
            lo = np.tril(got, -1)
            if not np.all((lo == 0) | np.isclose(lo, np.tril(want, -1))):
                return 'lower triangle is\n{}\nof\n{}'.format(got, want)
            return None
        if op[0] in ('full', 'centered', 'normed', 'get', 'diag') and \
                type(res) is not np.ndarray:
            return 'returned a {} instead of an ndarray'.format(type(res).__name__)
        if not ref.close(res, want):
            return 'returned\n{}\nexpected\n{}'.format(res, want)
        return None

    def step(self, op):
        """Execute one operation on the real object and judge it."""
        res = exc = None
        if op[0] in ('attach', 'attach_noname'):
            pre = lambda: self.set_model(op[1])
        elif op[0] == 'mutattach':
            pre = lambda: self.set_model(op[1])
        elif op[0] == 'attach2':
            pre = lambda: self.set_model(op[1], op[2])
        else:
            pre = None
        try:
            res = self.run(op)
        except Exception as e:
            exc = e
        bad = self.judge(op, res, exc)
        if pre and not bad:
            pre()
        return bad
