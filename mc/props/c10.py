"""C10: numeric kernel functions compute their documented formula."""
import itertools

import numpy as np

from mc import ref


def pairs():
    from kernelmethods import numeric_kernels as nk
    K = ref.kernel_pairs()

    def add(cls, reff, args, nonneg=False, **kw):
        p = dict(kw)
        K.append(('{}{}{}'.format(cls.__name__, args, kw or ''),
                  lambda skip=False: cls(*args, skip_input_checks=skip, **kw),
                  reff(*args, **kw), nonneg))
    add(nk.LinearKernel, ref.linear, ())
    add(nk.PolyKernel, ref.poly, ())
    add(nk.PolyKernel, ref.poly, (2, 0.5, 3.0))
    add(nk.PolyKernel, ref.poly, (5, 2.0, -1.0))
    add(nk.PolyKernel, ref.poly, (7,), gamma=-0.25)
    add(nk.PolyKernel, ref.poly, (0,), b=2)
    add(nk.PolyKernel, ref.poly, (10, 0.125))
    add(nk.PolyKernel, ref.poly, (2.5, 1.0, 1.5))
    add(nk.PolyKernel, ref.poly, (0.5,), b=2.0)
    add(nk.PolyKernel, ref.poly, (1.5, 0.25, 0.5))
    add(nk.PolyKernel, ref.poly, (np.int64(2), np.float64(0.5)))
    add(nk.GaussianKernel, ref.gaussian, ())
    for s in (1e-6, 1e-4, 1e-3, 0.1, 3, 10, 1e3, 1e6, np.float64(0.5)):
        add(nk.GaussianKernel, ref.gaussian, (s,))
    for g in (1e-9, 1e-3, 0.3, 3, 10, 100, 1e5):
        add(nk.LaplacianKernel, ref.laplacian, (g,))
        add(nk.Chi2Kernel, ref.chi2, (g,), True)
        add(nk.SigmoidKernel, ref.sigmoid, (g, -1.0))
    add(nk.LaplacianKernel, ref.laplacian, ())
    add(nk.Chi2Kernel, ref.chi2, (), True)
    add(nk.SigmoidKernel, ref.sigmoid, ())
    add(nk.SigmoidKernel, ref.sigmoid, (), offset=5)
    add(nk.HadamardKernel, ref.hadamard, ())
    for a in (0.25, 1.5, 5, 6):
        add(nk.HadamardKernel, ref.hadamard, (a,))
    return K


def ok(got, want, rt=1e-9):
    if want is None or isinstance(want, complex):
        return True         # a fractional power of a negative number: undefined
    if np.ndim(got) != 0:
        return False
    got, want = float(got), float(want)
    return got == want or abs(got - want) <= rt * abs(want) + 1e-12


def grid(acc, ki, d, vals, part, parts):
    lab, mk, r, nonneg = pairs()[ki]
    vecs = list(itertools.product([v for v in vals if v >= 0 or not nonneg], repeat=d))
    for skip in (False, True):
        k = mk(skip)
        for i, x in enumerate(vecs):
            if i % parts != part:
                continue
            xa = np.array(x)
            for y in vecs:
                ya = np.array(y)
                w = r(x, y)
                if isinstance(w, complex):
                    continue
                g = k(xa, ya)
                acc.transitions += 1
                if not ok(g, w):
                    acc.violate('{}({}, {}) = {!r}, expected {!r}'.format(lab, x, y, g, w),
                                'skip_input_checks={}'.format(skip))
                    return
                if not ok(k(ya, xa), g, 1e-11):
                    acc.violate('{} not symmetric at {}, {}'.format(lab, x, y), '')
                    return
                if tuple(xa) != x or tuple(ya) != y:
                    acc.violate('{} modified its input'.format(lab), '{} {}'.format(x, y))
                    return
            acc.out((lab, round(abs(w), 9)))
        acc.states += len(vecs) ** 2 // parts
    acc.traces += 1
    acc.sample('{} on all pairs of {}^{}'.format(lab, vals, d))


def containers(x, dt):
    a = np.array(x, dtype=dt)
    n = len(x)
    yield 'array', a
    yield 'list', [v for v in a.tolist()]
    yield 'tuple', tuple(a.tolist())
    yield 'list of scalars', list(a)
    big = np.zeros(3 * n, dt)
    big[::3] = a
    yield 'strided', big[::3]
    yield 'reversed', a[::-1].copy()[::-1]
    yield 'column', a.reshape(-1, 1)
    if n > 1:
        yield 'column3', a.reshape(-1, 1, 1)
        M = np.zeros((n, 2), dt)
        M[:, 1] = a
        yield 'matrix column', M[:, 1]
        yield 'fortran row', np.asfortranarray(np.vstack([a, a]))[1, :]
    ro = a.copy()
    ro.flags.writeable = False
    yield 'readonly', ro


def dtypes(acc, ki, dt):
    """equal numbers, whatever the dtype and container"""
    lab, mk, r, nonneg = pairs()[ki]
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        ii = np.iinfo(dt)
        vals = [0, 1, 2, 3, 20, 100, ii.min, ii.max] if dt.itemsize < 4 else \
            [0, 1, 5, 50000, -70000, 2 ** 31 - 1]
        vals = [v for v in vals if ii.min <= v <= ii.max]
        if dt.kind == 'i':
            vals += [-1, -7]
    elif dt.kind == 'b':
        vals = [0, 1]
    else:
        vals = [0.0, 0.5, -1.5, 3.0, 300.0, -250.0, 1024.0]
    if nonneg:
        vals = [v for v in vals if v >= 0]
    k = mk()
    cases = [(v, w) for v in itertools.product(vals, repeat=1) for w in
             itertools.product(vals, repeat=1)]
    v2 = list(itertools.product(vals, repeat=2))
    cases += [(v2[i], v2[j]) for i in range(len(v2)) for j in range(i % 3, len(v2), 3)]
    cases += [((vals[-1],) * 3 + (1,), (vals[0], 1, vals[-1], vals[-1]))]
    for x, y in cases:
        try:
            w = r([float(v) for v in x], [float(v) for v in y])
        except OverflowError:
            continue
        first = x is cases[-1][0] or len(x) == 1
        cx = list(containers(x, dt)) if first else [('array', np.array(x, dt))]
        cy = list(containers(y, dt)) if first else [('array', np.array(y, dt)),
                                                    ('list', np.array(y, dt).tolist())]
        for (la, a), (lb, b) in itertools.product(cx, cy):
            acc.transitions += 1
            g = k(a, b)
            if not ok(g, w, 1e-8):
                acc.violate('{} of {} {} and {} ({}): {!r}, expected {!r}'.format(
                    lab, la, x, lb, y, g, w), str(dt))
                return
            if isinstance(a, np.ndarray) and (a.ravel().tolist() != np.array(x, dt).tolist()
                                              or a.dtype != dt):
                acc.violate('{} modified its input'.format(lab), str(x))
                return
        # mixed with double precision
        acc.transitions += 2
        for a, b in ((np.array(x, dt), np.array(y, float)),
                     (np.array(x, float), np.array(y, dt))):
            if not ok(k(a, b), w, 1e-8):
                acc.violate('{} of {} and {} mixed {}/float64: {!r}, expected {!r}'.format(
                    lab, x, y, dt, k(a, b), w), str(dt))
                return
        acc.states += 1
    acc.traces += 1


def lengths(acc, ki, ds):
    lab, mk, r, nonneg = pairs()[ki]
    k, ks = mk(), mk(True)
    for d in ds:
        rng = np.random.default_rng(d)
        x = np.round(rng.uniform(-1, 1, d), 3) / np.sqrt(d)
        y = np.round(rng.uniform(-1, 1, d), 3) / np.sqrt(d)
        if nonneg:
            x, y = np.abs(x), np.abs(y)
        x[d // 2] = 0.0
        if d > 3:
            y[d // 3] = 0.0
        for X, Y in ((x, y), (x, x), (x + 1e3, y + 1e3) if not nonneg else (x + 9, y + 9),
                     (np.abs(np.round(x * 50)).astype(np.int8),
                      np.abs(np.round(y * 70)).astype(np.int8)), (x * 1e-5, y * 1e-5)):
            try:
                w = r(X.astype(float).tolist(), Y.astype(float).tolist())
            except OverflowError:
                continue
            for f in (k, ks) if X.dtype == float else (k,):
                acc.transitions += 1
                g = f(X, Y)
                if not ok(g, w, 1e-7):
                    acc.violate('{} on {} features: {!r}, expected {!r}'.format(
                        lab, d, g, w), str(X.dtype))
                    return
        acc.states += 1
    acc.traces += 1


def offsets(acc, ki):
    """magnitudes: tiny, huge, and close points far from the origin"""
    lab, mk, r, nonneg = pairs()[ki]
    k = mk()
    s = (1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e6)
    for a, b in itertools.product(s, repeat=2):
        for x, y in (([a], [b]), ([a, 0.0], [0.0, b]), ([a, b], [b, a]),
                     ([1e6 + a, 2.0], [1e6 + b, 2.0]), ([a + b, 1.0], [a, 1.5]),
                     ([a, a], [a, a]), ([0.0, 0.0], [a, b]), ([0.0], [0.0])):
            for sg in ((1,) if nonneg else (1, -1)):
                x2 = [sg * v for v in x]
                try:
                    w = r(x2, y)
                except OverflowError:
                    continue
                acc.transitions += 1
                g = k(x2, y)
                if not ok(g, w, 1e-6):
                    acc.violate('{}({}, {}) = {!r}, expected {!r}'.format(lab, x2, y, g, w),
                                '')
                    return
        acc.states += 1
    acc.traces += 1


def histories(acc, ki):
    """every order of a set of calls on one kernel object, arrays reused and modified"""
    lab, mk, r, nonneg = pairs()[ki]
    calls = [([1., 2.], [3., 0.5]), ([1., 2., 0.], [0., 1., 1.]), ([2.], [3.]),
             ([1., 2.], [3., 0.25]), ([3., 0.5], [1., 2.])]
    bad = (([1., 2.], [1.]), ('ab', [1., 2.]))
    for skip in (False, True):
        for perm in itertools.permutations(range(len(calls)), 4):
            k = mk(skip)
            for i, c in enumerate(perm):
                x, y = calls[c]
                if i == 2 and not skip:
                    try:
                        k(*bad[perm[0] % 2])
                    except Exception:
                        pass
                acc.transitions += 1
                g = k(np.array(x), np.array(y))
                if not ok(g, r(x, y)):
                    acc.violate('{}: call {} of the order {} gave {!r}, expected {!r}'.format(
                        lab, i, [calls[q] for q in perm], g, r(x, y)), '')
                    return
            acc.traces += 1
        x, y = np.array([1., 2., 3.]), np.array([0.5, 0.25, 4.])
        k = mk(skip)
        for i in range(40):                # the same array objects, new contents
            x[i % 3] = 0.25 * (i % 7)
            y[(i * 2) % 3] = 0.125 * (i % 5)
            acc.transitions += 1
            if not ok(k(x, y), r(x.tolist(), y.tolist())):
                acc.violate('{}: stale value for modified arrays'.format(lab), str(i))
                return
        acc.states += 1


def rejects(acc, ki):
    from kernelmethods.config import Chi2NegativeValuesException
    lab, mk, r, nonneg = pairs()[ki]
    k = mk()
    good = [1.0, 2.0]
    bads = [[1.0], [1.0, 2.0, 3.0], np.ones((2, 2)), np.ones((1, 2)), np.ones((2, 2, 1)),
            ['a', 'b'], 'ab', None, 1.0, np.float64(2), [None, object()], [[1.0, 2.0]],
            np.array(['x', 'y']), {}, [], [[1., 2.], [3., 4.]], [[1, 2], [3, 4]],
            ((1, 2),), np.ones(4), [1, 2, 3, 4], [True, False, True]]
    for dt in ('i1', 'u1', 'i4', 'i8', '?', 'f2', 'f4', 'g', 'O'):
        bads += [np.ones(sh, dt) for sh in ((2, 2), (1, 2), (1, 1, 2), (2, 1, 2), (3,), (4,),
                                            (2, 4), (1,))]
    for b in bads:
        combos = [(b, good), (good, b), (b, np.array(good))]
        if np.ndim(b) == 1 and len(b) != 1:
            combos += [(b, [1.0]), ([1.0], b), (b, np.array([2.0]))]
        if np.ndim(b) > 1:
            flat = np.ones(np.size(b), np.asarray(b).dtype)
            combos += [(b, b), (b, flat), (flat, b), (np.array(b), flat.tolist())]
        for x, y in combos:
            acc.transitions += 1
            try:
                g = k(x, y)
            except Exception:
                continue
            acc.violate('{} accepted {!r}, {!r}: {!r}'.format(lab, x, y, g), '')
            return
        acc.states += 1
    if nonneg:
        for n in (1, 2, 3, 5):
            for pos in range(n):
                for v in (-1.0, -1e-3, -1e6):
                    for skip in (False, True):
                        z = [1.0] * n
                        z[pos] = v
                        for x, y in ((z, [2.0] * n), ([2.0] * n, z), (z, z),
                                     ([0.0] * n, z)):
                            acc.transitions += 1
                            try:
                                g = mk(skip)(np.array(x), np.array(y))
                            except Chi2NegativeValuesException:
                                continue
                            except Exception as e:
                                acc.violate('{} raised {!r}'.format(lab, e), str((x, y)))
                                return
                            acc.violate('{} accepted negative values {} {}: {}'.format(
                                lab, x, y, g), '')
                            return
    acc.traces += 1


def alphas(acc, _):
    from kernelmethods.numeric_kernels import HadamardKernel
    for a in (0, 0.0, -0.0, np.float64(0), np.int64(0), 1e-12):
        acc.transitions += 1
        acc.states += 1
        try:
            HadamardKernel(alpha=a)
        except ValueError:
            continue
        acc.violate('Hadamard exponent {!r} accepted'.format(a), '')
    acc.traces += 1


def decay(acc, ki):
    """small and tiny similarities are right in relative terms"""
    lab, mk, r, nonneg = pairs()[ki]
    ts = [2.0 ** e * f for e in range(-12, 13) for f in (1.0, 1.25, 1.75)]
    for skip in (False, True):
        k = mk(skip)
        for t in ts:
            for x, y in (((0.0,), (t,)), ((t,), (0.0,)), ((1.0, 0.0), (1.0, t)),
                         ((t, 0.0, 1.0), (0.0, 0.5, 1.0))):
                w = r(x, y)
                if isinstance(w, complex) or not np.isfinite(w) or abs(w) < 1e-290:
                    continue
                g = k(np.array(x), np.array(y))
                acc.transitions += 1
                if abs(g - w) > 1e-7 * abs(w):
                    acc.violate('{}({}, {}) = {!r}, expected {!r}'.format(lab, x, y, g, w),
                                'skip_input_checks={}'.format(skip))
                    return
    acc.states += 1
    acc.traces += 1


def scaled(acc, name):
    """Data and parameters of all orders of magnitude, chosen so that values are ordinary"""
    import kernelmethods.numeric_kernels as nk
    vals = (0.0, 0.5, 1.0, 3.0)
    for e in range(-12, 13):
        for m in (1.0, 2.5):
            s = m * 10.0 ** e
            mk, r, f = {
                'Gaussian': lambda: (nk.GaussianKernel(sigma=s), ref.gaussian(s), 1.0),
                'Laplacian': lambda: (nk.LaplacianKernel(gamma=1 / s),
                                      ref.laplacian(1 / s), 1.0),
                'Chi2': lambda: (nk.Chi2Kernel(gamma=1 / s), ref.chi2(1 / s), 1.0),
                'Poly': lambda: (nk.PolyKernel(2, 1 / s / s, 0.5),
                                 ref.poly(2, 1 / s / s, 0.5), 1.0),
                'Sigmoid': lambda: (nk.SigmoidKernel(0.1 / s / s, -0.5),
                                    ref.sigmoid(0.1 / s / s, -0.5), 1.0),
                'Linear': lambda: (nk.LinearKernel(), ref.linear(), s * s),
                'Hadamard': lambda: (nk.HadamardKernel(1), ref.hadamard(1), s)}[name]()
            for x in itertools.product(vals, repeat=2):
                for y in itertools.product(vals, repeat=2):
                    x_, y_ = [s * v for v in x], [s * v for v in y]
                    g, w = mk(np.array(x_), np.array(y_)), r(x_, y_)
                    acc.transitions += 1
                    if not ok(g / f, w / f):
                        acc.violate('{}({}, {}) = {!r}, expected {!r}'.format(
                            mk, x_, y_, g, w), 'scale {}'.format(s))
                        return
            acc.states += 1
    acc.traces += 1


def run(ctx):
    n = len(pairs())
    R = range(n)
    big = (-3.0, -1.0, -0.5, 0.0, 1e-3, 1.0, 2.0, 7.0, 1e3)
    t = [(i, 1, big, 0, 1) for i in R]
    t += [(i, 2, ctx.pick((-1.5, -1.0, 0.0, 1.0, 2.0), (-1.5, -1.0, 0.0, 0.25, 1.0, 2.0, 10.0)), 0, 1)
          for i in R]
    t += [(i, 3, ctx.pick((-1.0, 0.0, 2.0), (-1.0, 0.0, 0.5, 2.0)), 0, 1) for i in R]
    if ctx.thorough:
        t += [(i, 4, (-1.0, 0.0, 2.0), 0, 1) for i in R]
    ctx.explore(grid, t)
    dts = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '?', 'f2', 'f4', 'f8', 'g']
    ctx.explore(dtypes, [(i, d) for i in R for d in dts])
    ds = list(range(1, 40)) + [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256,
                               257, 500, 512, 513, 1000, 1024, 1025, 2000] + \
        ctx.pick([], list(range(40, 300)) + [4096, 4097, 10000])
    ctx.explore(lengths, [(i, tuple(ds)) for i in R])
    ctx.explore(offsets, R)
    ctx.explore(histories, R)
    ctx.explore(decay, [i for i in R if pairs()[i][0].startswith(
        ('Gaussian', 'Laplacian', 'Chi2', 'Linear', 'gaussian', 'laplacian', 'chi2'))])
    ctx.explore(rejects, R)
    ctx.explore(alphas, [0], parallel=False)
    ctx.explore(scaled, ['Gaussian', 'Laplacian', 'Chi2', 'Poly', 'Sigmoid', 'Linear',
                         'Hadamard'])
    ctx.bounds.update(kernels_and_parameters=n, dtypes=dts, max_features=max(ds))
