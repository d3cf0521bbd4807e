"""C22: the match-count kernel."""
import itertools

import numpy as np

from mc import ref

SETS = {
    'letters': ['a', 'b', 'B', ''],
    'widths': ['a', 'ab', 'abc', 'b'],
    'scripts': ['é', 'e\u0301', 'ß', 'я', '日'],
    'spaces': ['a', ' a', 'a ', 'A'],
    'digits': ['1', '01', '1.0', '10'],
    'long': ['x' * 40, 'x' * 41, 'x' * 39 + 'y', 'y' + 'x' * 39],
}


def forms(v):
    yield 'array', np.array(v)
    yield 'wide', np.array(v, dtype='U60')
    big = np.array([w for u in v for w in (u, '?')])
    yield 'view', big[::2]
    if len(v) > 1:
        yield 'list', list(v)
        yield 'tuple', tuple(v)


def pairs(acc, name, n, part, parts):
    from kernelmethods.categorical import MatchCountKernel
    ks = [(MatchCountKernel(True), True), (MatchCountKernel(), True),
          (MatchCountKernel(return_perc=False), False),
          (MatchCountKernel(False, skip_input_checks=True), False)]
    vecs = list(itertools.product(SETS[name], repeat=n))
    for i, v in enumerate(vecs):
        if i % parts != part:
            continue
        fv = dict(forms(v))
        for j, w in enumerate(vecs):
            m = sum(1 for a, b in zip(v, w) if a == b)
            if (i + j) % 5 == 0 or n == 1:
                combos = list(itertools.product(fv.values(), dict(forms(w)).values()))
            else:
                combos = [(fv['array'], np.array(w))]
            for x, y in combos:
                for k, perc in ks if (i + j) % 3 == 0 else ks[1:3]:
                    acc.transitions += 1
                    kx, ky = np.array(x, copy=True), np.array(y, copy=True)
                    try:
                        g, h = k(x, y), k(y, x)
                    except Exception as e:
                        acc.violate('raised {!r}'.format(e), '{} {}'.format(v, w))
                        return
                    t = m / n if perc else m
                    if not abs(g - t) < 1e-12 or not abs(h - t) < 1e-12 or \
                            isinstance(g, (bool, np.bool_)):
                        acc.violate('gave {!r}, {!r} expected {}'.format(g, h, t),
                                    '{} {} perc={}'.format(v, w, perc))
                        return
                    if not np.array_equal(kx, x) or not np.array_equal(ky, y):
                        acc.violate('input modified', '{} {}'.format(v, w))
                        return
            acc.states += 1
            acc.out((n, m))
    acc.sample('all pairs of {}^{}'.format(SETS[name], n))
    acc.traces += 1


def matrices(acc, name, n, d, norm, perc):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.categorical import MatchCountKernel
    pts = list(itertools.product(SETS[name][:3], repeat=d))
    km = KernelMatrix(MatchCountKernel(perc), normalized=norm)
    r = ref.match(perc)
    for idx in itertools.combinations_with_replacement(range(len(pts)), n):
        S = np.array([pts[i] for i in idx])
        for two in (None, np.array(pts[:2])):
            km.attach_to(S, sample_two=two)
            R = ref.raw_km(r, S.tolist(), None if two is None else two.tolist())
            if norm:
                R = R / (d if not perc else 1.0)
            acc.transitions += 1
            if not ref.close(km.full, R):
                acc.violate('matrix {} expected {}'.format(km.full.tolist(), R.tolist()),
                            '{} perc={} norm={}'.format(S.tolist(), perc, norm))
                return
        acc.states += 1
    acc.traces += 1


def ladder(acc, n):
    from kernelmethods.categorical import MatchCountKernel
    words = ['w%d' % (i % 5) for i in range(n)]
    for lab, alt in (('case', [w.upper() if i % 2 else w for i, w in enumerate(words)]),
                     ('space', [w + ' ' if i % 3 else w for i, w in enumerate(words)]),
                     ('front', [' ' + w if i % 3 else w for i, w in enumerate(words)]),
                     ('longer', [w + 'z' * (i % 4) for i, w in enumerate(words)]),
                     ('prefix', [w[:1 + i % 2] for i, w in enumerate(words)]),
                     ('none', [w + '!' for w in words]), ('one', words[:-1] + ['?']),
                     ('empty', ['' if i % 2 else w for i, w in enumerate(words)])):
        m = sum(a == b for a, b in zip(words, alt))
        for perc in (True, False):
            for a, b in ((words, alt), (alt, words), (alt, alt)):
                acc.transitions += 1
                g = MatchCountKernel(perc)(np.array(a), np.array(b))
                t = n if a is b else m
                if abs(g - (t / n if perc else t)) > 1e-12:
                    acc.violate('n={} {}: {} expected {}'.format(n, lab, g, t), str(perc))
                    return
    for shift in (0, 1, 5, 7):
        for upto in sorted({0, 1, n // 2, n - 1, n}):
            y = [words[(i + shift) % n] if i >= upto else words[i] for i in range(n)]
            m = sum(a == b for a, b in zip(words, y))
            for perc in (True, False):
                acc.transitions += 1
                g = MatchCountKernel(perc)(np.array(words), np.array(y))
                if abs(g - (m / n if perc else m)) > 1e-12:
                    acc.violate('n={}: {} expected {}'.format(n, g, m), str(perc))
                    return
    acc.states += 1
    acc.traces += 1


def rejects(acc, _):
    from kernelmethods.categorical import MatchCountKernel
    s = np.array(['a', 'b'])
    bad = [(s, np.array(['a'])), (s, np.array(['a', 'b', 'c'])), (['a', 'b'], ['a', 'b', 'c']),
           (np.array([['a', 'b'], ['c', 'd']]),) * 2, ([['a', 'b'], ['c', 'd']],) * 2,
           (s, np.array([['a'], ['b']])), (np.array([['a', 'b']]), s),
           (np.array([1.0, 2.0]),) * 2, (np.array([1, 2]),) * 2, ([1, 2], [1, 2]),
           (s, np.array([1, 2])), (np.array([1.0, 2.0]), s), (np.array([True, False]),) * 2,
           (np.array(1.0), np.array(1.0)), ([1.5, 2.5], ['a', 'b'])]
    for perc in (True, False):
        k = MatchCountKernel(perc)
        for x, y in bad:
            for a, b in ((x, y), (y, x)):
                acc.transitions += 1
                try:
                    r = k(a, b)
                except Exception:
                    continue
                acc.violate('{!r}, {!r} accepted: {!r}'.format(a, b, r), '')
                return
    acc.states += 1
    acc.traces += 1


def run(ctx):
    ctx.explore(pairs, [(s, n, p, 2) for s in SETS for n in (1, 2, 3) for p in range(2)] +
                [('letters', ctx.pick(4, 5), p, 16) for p in range(16)])
    ctx.explore(matrices, [(s, n, d, nm, pc) for s in SETS for n, d in
                           ((1, 2), (2, 2), (3, 2), (2, 3)) + ctx.pick((), ((4, 2), (3, 3)))
                           for nm in (True, False) for pc in (True, False)])
    ctx.explore(ladder, list(range(2, 70)) + [100, 127, 128, 129, 255, 256, 257, 300, 1000,
                                              ctx.pick(4096, 70000)])
    ctx.explore(rejects, [0], parallel=False)
    ctx.assumptions.append('one-element lists and empty vectors are outside the property')
