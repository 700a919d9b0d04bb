"""C03: FurthestSum against its non-deterministic greedy specification.

The specification is a state graph: states are tuples of selected indices,
transitions pick *any* candidate attaining the largest summed dissimilarity
(ties are resolved non-deterministically).  All reachable tuples are computed
and the result of the implementation must be one of them."""

import itertools

import numpy as np

from mc import lattice
from reor.furthest_sum import furthest_sum

PROP = 'C03'
BOUNDS = {
    'quick': 'all symmetric dissimilarity matrices over {0,1,2} for 2..4 '
             'samples, over {-2,-1,1} for 3..4 and over {1,2} for 5; all start indices, component '
             'counts, exclusion sets and 0..10 extra steps (5 samples: '
             'selected); 40 point sets of 6..14 points; impossible requests',
    'thorough': 'as quick with {0,1,2,3} and {-2,-1,0,2} for 4 samples, {0,1,2} for 5 '
                'samples and 100 point sets of 6..20 points',
}


def n_pairs(n):
    return n * (n - 1) // 2


def matrix(n, values, index):
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            index, d = divmod(index, len(values))
            D[i, j] = D[j, i] = values[d]
    return D


def cases(tier):
    big = tier == 'thorough'
    yield ('refuse',)
    for n in (1, 2, 3, 4):
        values = (0, 1, 2, 3) if big and n == 4 else (0, 1, 2)
        for i in range(len(values) ** n_pairs(n)):
            yield ('all', n, values, i)
    for n in (3, 4):
        values = (-2, -1, 0, 2) if big else (-2, -1, 1)
        for i in range(len(values) ** n_pairs(n)):
            yield ('all', n, values, i)
    values = (0, 1, 2) if big else (1, 2)
    for i in range(len(values) ** n_pairs(5)):
        yield ('five', 5, values, i)
    for k in range(100 if big else 40):
        yield ('points', 6 + k % (15 if big else 9), k)


def candidates(D, current, excluded, among, tol):
    """All points of largest summed dissimilarity to the given selection."""
    best, out = None, []
    sums = [(sum(D[i, j] for j in current), i) for i in among]
    best = max(s for s, _ in sums)
    return [i for s, i in sums if s >= best - tol]


def spec(D, k, start, excluded, extra, tol, r=None):
    """Sets of reachable selections after 0, 1, ..., extra extra steps."""
    n = D.shape[0]
    layer = {(start,)}
    for _ in range(1, k):
        nxt = set()
        for sel in layer:
            among = [i for i in range(n) if i not in sel and i not in excluded]
            for c in candidates(D, sel, excluded, among, tol):
                nxt.add(sel + (c,))
        layer = nxt
    layers = [layer]
    for step in range(extra):
        slot = step % k
        nxt = set()
        for sel in layer:
            rest = sel[:slot] + sel[slot + 1:]
            among = [i for i in range(n) if i not in rest and
                     i not in excluded]
            for c in candidates(D, rest, excluded, among, tol):
                nxt.add(sel[:slot] + (c,) + sel[slot + 1:])
        layer = nxt
        layers.append(layer)
    return layers


def explore(D, k, start, exclude, extras, tol, r, variants=False):
    layers = spec(D, k, start, set(exclude), max(extras), tol)
    for layer in layers:
        for sel in layer:
            r.states.add(hash((D.tobytes(), k, start, tuple(exclude), sel)))
    forms = [list(exclude)]
    if variants:
        forms = [list(exclude), tuple(exclude),
                 np.array(list(exclude), dtype='i8'),
                 list(exclude) * 2]
        if not exclude:
            forms[1] = None
    for extra in extras:
        for form in forms:
            keep = D.copy()
            got = furthest_sum(D, k, start, form, extra)
            r.step()
            r.trace()
            sel = tuple(int(i) for i in got)
            r.require(len(sel) == k and len(set(sel)) == k,
                      'wrong number of distinct points', D=D, k=k,
                      start=start, exclude=exclude, extra=extra, got=sel)
            r.require(all(0 <= i < D.shape[0] for i in sel) and
                      not set(sel) & set(exclude),
                      'inadmissible point selected', D=D, k=k, start=start,
                      exclude=exclude, extra=extra, got=sel)
            r.require(sel in layers[extra],
                      'selection is not reachable by greedy furthest-sum '
                      'steps', D=D, k=k, start=start, exclude=exclude,
                      extra=extra, got=sel, allowed=sorted(layers[extra])[:9])
            r.require(np.array_equal(D, keep), 'matrix was modified')


def subsets(items):
    for size in range(len(items) + 1):
        for c in itertools.combinations(items, size):
            yield c


def refusals(r):
    for n in (1, 2, 3, 4, 6):
        D = np.abs(np.subtract.outer(np.arange(n) ** 2, np.arange(n) ** 2)
                   ).astype('f8')
        for start in (-1, -n, n, n + 3):
            for k in range(1, n + 1):
                r.refused(lambda: furthest_sum(D, k, start),
                          'start index %d of %d points' % (start, n))
                r.step()
        for start in range(n):
            others = [i for i in range(n) if i != start]
            for ex in subsets(others):
                room = n - len(ex)
                for k in range(room + 1, n + 3):
                    for form in (list(ex), list(ex) + list(ex),
                                 np.array(ex, dtype='i8')):
                        r.refused(lambda: furthest_sum(D, k, start, form),
                                  'too few points', n=n, k=k, exclude=ex,
                                  start=start)
                        r.step()
                for k in range(1, n + 1):
                    r.refused(
                        lambda: furthest_sum(D, k, start,
                                             list(ex) + [start]),
                        'excluded start', n=n, k=k, exclude=ex, start=start)
                    r.step()
        r.refused(lambda: furthest_sum(np.zeros((n, n + 1)), 1, 0),
                  'non-square matrix')
        r.refused(lambda: furthest_sum(np.zeros((n + 1, n)), 1, 0),
                  'non-square matrix')
        r.state(n, 'refused')
    r.trace()


def run(case, r):
    if case[0] == 'refuse':
        return refusals(r)
    if case[0] in ('all', 'five'):
        kind, n, values, index = case
        D = matrix(n, values, index)
        full = kind == 'all'
        for start in range(n):
            others = [i for i in range(n) if i != start]
            for ex in subsets(others):
                if not full and (len(ex) > 1 or (start + index) % 3):
                    continue
                for k in range(1, n - len(ex) + 1):
                    extras = range(0, 11) if full and index % 4 == 0 else \
                        (0, 1, 2, 3, 2 * k, 10)
                    explore(D, k, start, ex, extras, 0.0, r,
                            variants=full and n < 4)
        return
    _, n, k0 = case
    kinds = k0 % 4
    if kinds == 0:
        P = lattice.pattern((n, 2), k0, 3.0)
    elif kinds == 1:
        P = np.round(lattice.pattern((n, 2), k0, 2.0))     # duplicates, ties
    elif kinds == 2:
        P = np.array([[i * i % (n + 1), i % 3] for i in range(n)], dtype='f8')
    else:
        P = np.arange(n)[:, np.newaxis] * np.ones((1, 3))
    D = np.sqrt(((P[:, None, :] - P[None, :, :]) ** 2).sum(axis=2))
    tol = 1e-9
    for start in (0, n // 2, n - 1):
        for ex in ((), (1,), (n - 2, 2), tuple(range(1, n // 2))):
            if start in ex:
                continue
            room = n - len(ex)
            for k in sorted({1, 2, 3, 5, 9, room - 3, room - 1, room}):
                if not 1 <= k <= room:
                    continue
                explore(D, k, start, ex, (0, 1, 2, k, 2 * k + 1, 12), tol, r)
