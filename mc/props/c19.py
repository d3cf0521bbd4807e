"""C19: string forms."""
import itertools

import numpy as np

from mc import canon, mats, ref

X = np.array([[1.0, 2.0], [0.5, 1.0], [3.0, 0.5]])
Y = np.array([[2.0, 1.0], [1.5, 1.0]])


def forms(o):
    """all textual forms; raises if one fails"""
    a = str(o)
    out = [a, repr(o), format(o), '{}'.format(o), f'{o}', '%s' % (o,), '%r' % (o,),
           format(o, ''), f'{o!s}', f'{o!r}']
    if any(type(x) is not str for x in out):
        return None, 'not text'
    if any(x != a for x in out):
        return None, 'forms differ: {}'.format(sorted(set(out)))
    if not a.strip():
        return None, 'empty text'
    return a, None


def num_in(text, v):
    """the value appears in the text, in some notation"""
    cands = {str(v), repr(v), '{:g}'.format(v), '{}'.format(float(v)), str(np.float64(v))}
    return any(c in text for c in cands)


# nearly equal values, and values of very different scale
CLOSE = (0.12341, 0.123412, 0.1234123412, 1.2e-7, 1.3e-7, 123456.25, 123456.5)
GRID = {
    'PolyKernel': dict(degree=(1, 2, 3, 4), gamma=(1.0, 0.5, 2) + CLOSE,
                       b=(0.0, 1.0, 2.5) + CLOSE),
    'GaussianKernel': dict(sigma=(0.25, 0.5, 1, 2.0, 8, 100.0) + CLOSE),
    'LaplacianKernel': dict(gamma=(0.125, 0.5, 1, 2.0, 10) + CLOSE),
    'Chi2Kernel': dict(gamma=(0.125, 0.5, 1, 2.0, 10) + CLOSE),
    'SigmoidKernel': dict(gamma=(0.125, 1, 2.0) + CLOSE, offset=(-2.0, 0.0, 1.0, 3) + CLOSE),
    'HadamardKernel': dict(alpha=(0.5, 1, 2, 3, 4) + CLOSE),
    'LinearKernel': {},
}


def kernels(acc, cls):
    from kernelmethods import numeric_kernels as nk
    C = getattr(nk, cls)
    pars = GRID[cls]
    texts = {}
    for vals in itertools.product(*pars.values()):
        p = dict(zip(pars, vals))
        for skip in (False, True):
            k = C(skip_input_checks=skip, **p)
            c0 = canon.canon(k)
            t, bad = forms(k)
            acc.transitions += 1
            acc.states += 1
            if not bad and k.name not in t:
                bad = '{!r} does not name the kernel {!r}'.format(t, k.name)
            for n, v in p.items():
                if not bad and not num_in(t, v):
                    bad = '{!r} lacks {}={}'.format(t, n, v)
            if canon.canon(k) != c0:
                acc.note('state_touched_by_text')
            key = tuple(float(v) for v in vals)
            if not bad and texts.setdefault(t, key) != key:
                bad = '{!r} describes both {} and {}'.format(t, texts[t], key)
            k(np.array([1.0, 2.0]), np.array([2.0, 1.0]))
            if not bad and forms(k)[0] != t:
                bad = 'text changed by using the kernel'
            if bad:
                acc.violate(bad, '{}({})'.format(cls, p))
                return
            acc.out(t)
            # current values: parameters changed later show as well
            for n, v in p.items():
                if cls == 'GaussianKernel':
                    continue         # sigma and the derived gamma go together
                setattr(k, n, 7.75)
                t2, bad = forms(k)
                acc.transitions += 1
                if bad or t2 == t or '7.75' not in t2:
                    acc.violate('{!r} after {} was set to 7.75'.format(t2, n), cls)
                    return
                setattr(k, n, v)
    if len(set(texts.values())) != max(1, len(texts)):
        acc.violate('{} texts for {} kernels'.format(len(texts), len(set(texts.values()))),
                    cls)
    acc.sample('{} texts of {}'.format(len(texts), cls))
    acc.traces += 1


def across(acc, _):
    """all kinds of kernels differ from one another"""
    from kernelmethods.base import KernelFromCallable
    from kernelmethods.categorical import MatchCountKernel
    ks = [(lab, mk()) for lab, mk, r, nn in ref.kernel_pairs()]
    f = lambda x, y: 1.0

    def g(x, y, p=1, q='a'):
        return p
    ks += [('cat', MatchCountKernel(True)), ('cat2', MatchCountKernel(False)),
           ('call', KernelFromCallable(f, 'one')), ('call2', KernelFromCallable(f, 'two')),
           ('g', KernelFromCallable(g)), ('g1', KernelFromCallable(g, p=1)),
           ('g2', KernelFromCallable(g, p=2)), ('g3', KernelFromCallable(g, p=2, q='b')),
           ('g4', KernelFromCallable(g, 'nm', p=2, q='b')),
           ('g5', KernelFromCallable(g, p=3, q='b')), ('g6', KernelFromCallable(g, p=3, q='c')),
           ('g7', KernelFromCallable(g, q='c'))]
    texts = {}
    for lab, k in ks:
        acc.transitions += 1
        acc.states += 1
        t, bad = forms(k)
        if not bad and texts.setdefault(t, lab) != lab:
            bad = 'same text {!r} for {} and {}'.format(t, lab, texts[t])
        if bad:
            acc.violate(bad, lab)
            return
    def h(x, y, **kw):
        return 1.0
    seen = {}
    for names in itertools.permutations(('a', 'b', 'scale'), 2):
        for v in ((1, 2), (2, 1), (1, 1)):
            for kw in ({names[0]: v[0]}, dict(zip(names, v))):
                key = sorted(kw.items())
                t, bad = forms(KernelFromCallable(h, **kw))
                acc.transitions += 1
                if not bad and seen.setdefault(t, key) != key:
                    bad = 'same text {!r} for {} and {}'.format(t, key, seen[t])
                if bad:
                    acc.violate(bad, str(kw))
                    return
    seen = {}
    for n in range(5):
        for vals in itertools.product((1, 2.5, 'txt'), repeat=n):
            kw = {'arg%d' % i: v for i, v in enumerate(vals)}
            t, bad = forms(KernelFromCallable(h, **kw))
            acc.transitions += 1
            if not bad and any(str(v) not in t for v in vals):
                bad = '{!r} lacks a value of {}'.format(t, kw)
            if not bad and seen.setdefault(t, vals) != vals:
                bad = 'same text {!r} for {} and {}'.format(t, vals, seen[t])
            if bad:
                acc.violate(bad, str(kw))
                return
    for lab, nm in (('call', 'one'), ('call2', 'two'), ('g', 'g'), ('g2', 'g'), ('g4', 'nm')):
        if nm not in str(dict(ks)[lab]):
            acc.violate('{!r} does not name {}'.format(str(dict(ks)[lab]), nm), lab)
    acc.traces += 1


READS = ('full', 'normed_km', 'diagonal', 'elem', 'frob', 'none')


def matrices(acc, ki, norm):
    from kernelmethods.base import KernelMatrix
    lab, mk, r, nonneg = ref.kernel_pairs()[ki]
    for state in ('none', 'one', 'named', 'two', 'again'):
        for read in READS:
            if state == 'none' and read != 'none' or state == 'two' and read == 'diagonal':
                continue
            k = mk()
            km = KernelMatrix(k, normalized=norm, name='My KM 1')
            if state in ('one', 'again'):
                km.attach_to(X)
            if state == 'named':
                km.attach_to(X, name_one='trainset')
            if state == 'two':
                km.attach_to(X, name_one='first', sample_two=Y, name_two='second')
            if state == 'again':
                km.full
                km.attach_to(Y, name_one='other')
            before, bad = forms(km)
            km.set_attr('k', 1)
            {'full': lambda: km.full, 'normed_km': lambda: km.normed_km,
             'diagonal': lambda: km.diagonal(), 'elem': lambda: km[0, 1],
             'frob': lambda: km.frob_norm, 'none': lambda: 0}[read]()
            c0 = canon.canon(km)
            t, bad2 = forms(km)
            acc.transitions += 1
            acc.states += 1
            bad = bad or bad2
            if not bad and canon.canon(km) != c0:
                # lazily built text caches are fine as long as nothing observable changed
                acc.note('state_touched_by_text')
            if not bad and ('My KM 1' not in t or str(k) not in t):
                bad = '{!r} lacks the name or {!r}'.format(t, str(k))
            if not bad and t != before:
                bad = 'text changed from {!r} to {!r} by reading {}'.format(before, t, read)
            if not bad and state in ('named', 'two', 'again'):
                for nm in {'named': ['trainset'], 'two': ['first', 'second'],
                           'again': ['other']}[state]:
                    if nm not in t:
                        bad = '{!r} lacks sample name {}'.format(t, nm)
            if not bad and km.get_attr('k') != 1:
                bad = 'attributes lost'
            if not bad and state != 'none':
                A, B = {'two': (X, Y), 'again': (Y, None)}.get(state, (X, None))
                R = ref.raw_km(r, A.tolist(), None if B is None else B.tolist())
                if not ref.close(km[:, :], R):
                    bad = 'values changed'
            if bad:
                acc.violate(bad, '{} normalized={} state={} read={}'.format(lab, norm, state,
                                                                            read))
                return
            acc.out(t)
    acc.traces += 1


def others(acc, k):
    """precomputed, constant, sets, buckets, composites of k members"""
    from kernelmethods import base as B
    from kernelmethods.numeric_kernels import GaussianKernel, PolyKernel
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket
    objs = []
    for n in (1, 2, 5):
        objs += [(B.KernelMatrixPrecomputed(np.eye(n)), ['Precomputed', str(n)]),
                 (B.KernelMatrixPrecomputed(np.eye(n).tolist(), name='pp'), ['pp', str(n)]),
                 (B.ConstantKernelMatrix(n), [str(n)]),
                 (B.ConstantKernelMatrix(n, 2.5, name='cc'), ['cc', '2.5', str(n)]),
                 (B.ConstantKernelMatrix(n, -3, name=None, dtype='int'), ['-3', str(n)])]
    for attached in (False, True):
        kms = [B.KernelMatrix(PolyKernel(1 + i, b=i), name='km%d_' % i) for i in range(k)]
        ks = B.KernelSet(kms, name='theset')
        bk = KernelBucket([2, 3], [0.5], None, [0.25], None, name='thebucket')
        bk.append(B.KernelMatrix(GaussianKernel(3.25), name='appended'))
        if attached and k:
            ks.attach_to(X)
            bk.attach_to(X)
        rep = B.KernelSet([B.KernelMatrix(GaussianKernel(2.0), name='same') for _ in range(k)],
                          name='alike')
        if k:
            twice = B.KernelMatrix(PolyKernel(2), name='twice')
            rep.append(twice)
            rep.append(twice)
        for s in (ks, bk, rep, make_kernel_bucket('light'), B.KernelSet(name='nothing')):
            objs.append((s, [s.name] + [str(m) for m in s]))
        if attached and k > 1:
            for c in (B.SumKernel(ks, name='SS'), B.ProductKernel(ks, name='PP'),
                      B.AverageKernel(ks, name='AA'),
                      B.WeightedAverageKernel(ks, np.ones(k), name='WW')):
                parts = [c.name] + [str(m) for m in ks]
                t0, bad = forms(c)
                if not bad and any(q not in t0 for q in parts):
                    bad = '{!r} lacks members before fit'.format(t0)
                if bad:
                    acc.violate(bad, type(c).__name__)
                    return
                c.fit()
                objs.append((c, [c.name] + [str(m) for m in ks]))
                if str(c) != t0:
                    acc.note('text_depends_on_fit')
    for o, parts in objs:
        t, bad = forms(o)
        acc.transitions += 1
        acc.states += 1
        pos = 0
        for p in parts:
            if bad:
                break
            j = t.find(p, pos) if len(parts) > 3 else t.find(p)
            if j < 0:
                bad = '{!r} lacks {!r} (in order)'.format(t, p)
            elif len(parts) > 3:
                pos = j + len(p)
        if not bad and forms(o)[0] != t:
            bad = 'text changes from one call to the next'
        if bad:
            acc.violate(bad, type(o).__name__)
            return
        acc.out(t)
    acc.traces += 1


ODD = ['100%', '%s', '%d %(x)s', '{}', '{0}', '{name}', '}{', 'a\\nb', "it's", '"q"', 'é ü',
       'x' * 200, '  padded ', '\\x00', '$1', '<b>', 'None', '0', '%']
VALUES = [0.1 + 0.2, 1 / 3, 1e-9, 1.23456789012e10, 2.125, -7.0625, 12345.678, 1e300, 0.005,
          2 ** 40 + 0.5]


def odd_names(acc, i):
    """names with formatting characters are shown as they are"""
    from kernelmethods import base as B
    from kernelmethods.numeric_kernels import PolyKernel
    nm = ODD[i]
    k = B.KernelFromCallable(lambda x, y: float(np.dot(x, y)), nm)
    km = B.KernelMatrix(k, name=nm + '1')
    km2 = B.KernelMatrix(PolyKernel(2), name=nm + '2')
    ks = B.KernelSet([km, km2], name=nm + '3')
    objs = [(k, [nm]), (km, [nm + '1', str(k)]), (ks, [nm + '3', str(km), str(km2)]),
            (B.KernelMatrixPrecomputed(np.eye(3), name=nm), [nm]),
            (B.ConstantKernelMatrix(3, 2.5, name=nm), [nm, '2.5'])]
    for att in (0, 1, 2, 3):
        if att == 1:
            ks.attach_to(X)
            objs = objs[:3]
            objs[1] = (km, [nm + '1', str(k)])
            objs[2] = (ks, [nm + '3', str(km), str(km2)])
            objs += [(B.SumKernel(ks, name=nm), [nm, str(km), str(km2)]),
                     (B.WeightedAverageKernel(ks, np.ones(2), name=nm), [nm, str(km2)])]
        if att == 2:
            km.attach_to(X, name_one=nm + 'L', sample_two=Y, name_two=nm + 'R')
            objs = [(km, [nm + '1', nm + 'L', nm + 'R', str(k)])]
        if att == 3:
            km2.attach_to(X, name_one=nm + 'O')
            objs = [(km2, [nm + '2', nm + 'O'])]
        for o, parts in objs:
            acc.transitions += 1
            acc.states += 1
            t, bad = forms(o)
            for q in parts:
                if not bad and q not in t:
                    bad = '{!r} lacks {!r}'.format(t, q)
            if bad:
                acc.violate(bad, '{} named {!r}'.format(type(o).__name__, nm))
                return
            acc.out(t)
    acc.traces += 1


def values(acc, i):
    from kernelmethods import base as B
    v = VALUES[i]
    seen = {}
    for w in (v, np.nextafter(v, np.inf), v * (1 + 1e-9)):
        o = B.ConstantKernelMatrix(4, float(w), name='c')
        t, bad = forms(o)
        acc.transitions += 1
        acc.states += 1
        if not bad and not num_in(t, float(w)):
            bad = '{!r} lacks {!r}'.format(t, float(w))
        if not bad and seen.setdefault(t, w) != w:
            bad = '{!r} describes both {!r} and {!r}'.format(t, w, seen[t])
        if bad:
            acc.violate(bad, 'constant {!r}'.format(w))
            return
    acc.traces += 1


def run(ctx):
    ctx.explore(odd_names, list(range(len(ODD))))
    ctx.explore(values, list(range(len(VALUES))))
    ctx.explore(kernels, list(GRID))
    ctx.explore(across, [0], parallel=False)
    ctx.explore(matrices, [(i, n) for i in range(len(ref.kernel_pairs()))
                           for n in (True, False)])
    ctx.explore(others, list(range(0, ctx.pick(13, 40))) + [21, 33, 64])
    ctx.assumptions.append('values are looked for in the text in their usual notations; '
                           'rest of the wording is free')
