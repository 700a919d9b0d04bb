"""C20: FEM-BV affiliation updates are globally optimal under the bound."""

import numpy as np

from mc import fembv, lattice

PROP = 'C20'
BOUNDS = {
    'quick': 'distance matrices: all relative distances {-2,..,2} of 2 '
             'components to 1..4 samples, all {0,1,2} distances of 3 '
             'components to 1..2 samples, 240 patterned ones (up to 8 '
             'samples, 4 components, scales 1e-40 to 1e20); bounds none, 0, '
             '0.5, 1, 1.5, 2, 3, 50; against every lattice affiliation '
             'sequence (denominator 4 for 2 components, 2 otherwise); the '
             'same through FEM-BV k-means on 1-D data; 60 longer problems (up '
             'to 130 samples, 5 components) against every switching sequence '
             'within the bound (explicit-state search)',
    'thorough': 'as quick with 5 samples for 2 components, 3 samples for 3 '
                'components and 1500 patterned matrices',
}
# relative to the largest distance, per sample
TOL = 2e-6
SCALES = (1.0, 1e3, 1e-2, 1e5, 1e6, 1e-5, 1e8, 1e-9, 1e11, 1e-16, 1e20, 1e-40)


def cases(tier):
    big = tier == 'thorough'
    for n in range(1, 6 if big else 5):
        for i in range(5 ** n):
            yield ('two', n, i)
    for n in range(1, 4 if big else 3):
        for i in range(3 ** (3 * n)):
            if n < 2 or big or i % 3 == 0:
                yield ('three', n, i)
    for p in range(1500 if big else 240):
        yield ('pattern', p)
    for p in range(200 if big else 40):
        yield ('kmeans', p)
    for p in range(300 if big else 60):
        yield ('long', p)


def judge(r, G, D, bound, cost, **ctx):
    n, k = D.shape
    bad = fembv.infeasible(G, n, k, bound)
    if bad:
        r.fail(bad, distances=D, bound=bound, affiliations=G, **ctx)
    scale = np.abs(D).max() or 1.0
    tol = TOL * scale * n
    here = float(np.sum(G * D))
    if cost is not None:
        r.close(cost, here, 'reported cost is not the weighted distance',
                atol=1e-9 * scale, distances=D, **ctx)
    denom = 4 if k == 2 else (2 if k == 3 else 1)
    if (n, k) in ((5, 3), (6, 3), (7, 2), (8, 2), (8, 3), (7, 3)):
        denom = 1
    other, W = fembv.best(D, bound, denom)
    if here > other + tol:
        r.fail('another feasible affiliation sequence is better',
               distances=D, bound=bound, affiliations=G, better=W,
               weighted_distance=here, weighted_distance_better=other, **ctx)
    r.state(D, bound, G)
    r.step()
    r.trace()
    if bound is None and k > 1:
        for t in range(n):
            far = D[t] > D[t].min() + 2e-3 * scale
            r.require(G[t][far].sum() < 0.02, 'sample not assigned to a '
                      'nearest component', distances=D, affiliations=G,
                      sample=t, **ctx)


def update(r, D, bound, p=0):
    model = fembv.fixed_distance_model(
        D, bound, max_iterations=1 + p % 2, tolerance=0, random_state=p)
    n = D.shape[0]
    G = model.fit_transform(np.zeros((n, 1)))
    judge(r, G, D, bound, model.cost_)


def run(case, r):
    if case[0] == 'two':
        _, n, i = case
        diff = lattice.nth_grid(i, (-2.0, -1.0, 0.0, 1.0, 2.0), (n,))
        D = np.stack([np.maximum(diff, 0), np.maximum(-diff, 0)], axis=1)
        D += 0.25 * (i % 3)
        for b, bound in enumerate(fembv.BOUNDS):
            if n < 4 or (b + i) % 2 == 0:
                update(r, D, bound, i)
        return
    if case[0] == 'three':
        _, n, i = case
        D = lattice.nth_grid(i, (0.0, 1.0, 2.0), (n, 3))
        for b, bound in enumerate(fembv.BOUNDS):
            if n < 2 or (b + i) % 4 == 0:
                update(r, D, bound, i)
        return
    if case[0] == 'pattern':
        _, p = case
        k = (2, 3, 4, 1)[p % 4]
        n = (2, 5, 7, 8, 4, 6)[p // 4 % 6]
        if k == 4:
            n = min(n, 5)
        if k == 3:
            n = min(n, 7)
        D = np.abs(lattice.pattern((n, k), p, SCALES[p % 12]))
        if p % 7 == 3:
            # one sample far from everything
            D[n // 2] += 30 * D.max()
        update(r, D, fembv.BOUNDS[p // 2 % 8], p)
        return
    if case[0] == 'long':
        _, p = case
        n, k = ((12, 2), (40, 2), (9, 3), (25, 3), (130, 2), (8, 5), (70, 3),
                (15, 4))[p % 8]
        D = np.abs(lattice.pattern((n, k), p, (1.0, 30.0, 1e-2, 1e7, 1e-9)[p // 8 % 5]))
        if p // 8 % 2:
            # stretches belonging to one component each
            owner = np.arange(n) * (3 + p % 3) // n % k
            D[np.arange(n), owner] *= 0.1
        bound = (None, 0, 1, 2, 2.5, 4)[p // 3 % 6]
        if k > 3:
            bound = None if bound is None else min(bound, 2)
        model = fembv.fixed_distance_model(
            D, bound, max_iterations=1 + p % 2, tolerance=0, random_state=p)
        G = model.fit_transform(np.zeros((n, 1)))
        bad = fembv.infeasible(G, n, k, bound)
        if bad:
            r.fail(bad, distances=D, bound=bound, affiliations=G)
        here = float(np.sum(G * D))
        r.close(model.cost_, here, 'reported cost is not the weighted '
                'distance', atol=1e-9 * n * D.max(), distances=D)
        other = fembv.best_switching(D, bound)
        if here > other + TOL * n * D.max():
            r.fail('a switching sequence within the bound is better',
                   distances=D, bound=bound, weighted_distance=here,
                   weighted_distance_better=other)
        r.state(D, bound, G)
        r.step()
        r.trace()
        return
    _, p = case
    from reor.fembv_kmeans import FEMBVKMeans
    n, k = (3, 5, 7)[p % 3], 2 + p % 2
    if k == 3:
        n = min(n, 5)
    X = np.round(2 * lattice.pattern((n, 1), p, 2.0)) / 2
    Theta = np.round(2 * lattice.pattern((k, 1), p + 1, 2.0)) / 2
    size = (1.0, 1e-5, 50.0, 300.0, 2e4, 1e6)[p // 2 % 6]
    X, Theta = size * X, size * Theta
    for bound in fembv.BOUNDS:
        model = FEMBVKMeans(k, bound, init='custom', max_iterations=1,
                            tolerance=0, random_state=p)
        G = model.fit_transform(X, parameters=Theta, update_parameters=False,
                                weights=np.full((n, k), 1.0 / k))
        judge(r, G, (X - Theta.T) ** 2, bound, model.cost_)
