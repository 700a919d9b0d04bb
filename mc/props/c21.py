"""C21: FEM-BV k-means centroids are weighted means and the fit descends."""

import numpy as np

from mc import fembv, lattice, spaces

PROP = 'C21'
BOUNDS = {
    'quick': 'centroids for every lattice affiliation matrix (denominator 2) '
             'of 1..3 samples to 2 components and 2 samples to 3 components '
             '(empty components included) with one and two features; every '
             '1-D data set over {0,1,3} of 3..4 samples from every pair of '
             'starting centroids over {-1,1,2.5}, bounds none/0/1/2, costs '
             'of every iteration 1..4; 80 patterned fits (up to 30 samples, '
             '4 components, random and custom starts); 66 of unusual shape '
             '(up to 130 samples, 30 features, 12 components); 36 data sets offset by '
             'up to 1e8',
    'thorough': 'as quick with 4 samples and 3 components, 500 patterned '
                'fits',
}


def cases(tier):
    big = tier == 'thorough'
    for n, k, denom in ((1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (1, 1, 1),
                        (3, 1, 1)) + (((4, 2, 2), (3, 3, 2)) if big else ()):
        for i in range(lattice.count_row_stochastic(n, k, denom)):
            yield ('mean', n, k, denom, i)
    for n in (3, 4):
        for i in range(3 ** n):
            for c in range(9):
                if big or n == 3 or (i + c) % 5 == 0:
                    yield ('descend', n, i, c)
    for p in range(500 if big else 80):
        yield ('pattern', p)
    for i in range(spaces.N_WIDE):
        yield ('pattern', spaces.WIDE_FROM + i)
    for p in range(200 if big else 36):
        yield ('offset', p)


def cost_of(X, G, Theta):
    return float(sum(G[t, i] * np.sum((X[t] - Theta[i]) ** 2)
                     for t in range(G.shape[0]) for i in range(G.shape[1])))


def means(r, X, G, Theta, old=None, **ctx):
    """Theta are the weighted means of X under the affiliations G."""
    r.require(np.all(np.isfinite(Theta)) and
              Theta.shape == (G.shape[1], X.shape[1]),
              'centroids are not finite', centroids=Theta, weights=G, X=X,
              **ctx)
    for i in range(G.shape[1]):
        total = G[:, i].sum()
        if total > 1e-6:
            r.close(Theta[i], sum(G[t, i] * X[t] for t in range(len(X))) /
                    total, 'centroid is not the weighted mean',
                    atol=1e-9 * (1 + np.abs(X).max()) / min(total, 1),
                    weights=G, X=X, component=i, **ctx)


def run(case, r):
    from reor.fembv_kmeans import FEMBVKMeans
    if case[0] == 'mean':
        _, n, k, denom, i = case
        W = lattice.nth_row_stochastic(i, n, k, denom)
        for d in (1, 2):
            for kind in range(3):
                X = (lattice.pattern((n, d), i + kind, (3.0, 3e5, 3e-5)[i % 3]),
                     np.round(lattice.pattern((n, d), i, 3.0)),
                     np.zeros((n, d)) + 2.0)[kind]
                T0 = lattice.pattern((k, d), i + 7, 2.0)
                for m in (1, 2):
                    model = FEMBVKMeans(k, None, init='custom',
                                        max_iterations=m, tolerance=0)
                    G = model.fit_transform(X, parameters=T0, weights=W,
                                            update_weights=False)
                    means(r, X, W, model.Theta, start=T0)
                    r.close(model.cost_, cost_of(X, W, model.Theta),
                            'reported cost is not the weighted squared '
                            'distance', weights=W, X=X)
                    r.state(X, W, model.Theta)
                    r.step()
                    r.trace()
        return
    if case[0] == 'descend':
        _, n, i, c = case
        X = lattice.nth_grid(i, (0.0, 1.0, 3.0), (n, 1))
        T0 = lattice.nth_grid(c, (-1.0, 1.0, 2.5), (2, 1))
        bound = (None, 0, 1, 2)[(i + c) % 4]
        W = np.full((n, 2), 0.5)
        descend(r, X, 2, bound, {'parameters': T0, 'weights': W}, 'custom',
                4, i)
        return
    if case[0] == 'offset':
        # data far from the origin: distances matter, not magnitudes
        _, p = case
        n, k, d = (5, 9)[p % 2], 2 + p % 2, 1 + p // 2 % 2
        far = (1e5, 1e7, 1e8)[p // 4 % 3]
        X = lattice.pattern((n, d), p, 2.0)
        T0 = lattice.pattern((k, d), p + 1, 2.0)
        W = lattice.pattern_simplex(n, k, p)
        for sign in (1, -1):
            Y = X + sign * far
            for fixed in ({'update_parameters': False},
                          {'update_weights': False}, {}):
                model = FEMBVKMeans(k, None, init='custom', max_iterations=1,
                                    tolerance=0)
                G = model.fit_transform(Y, parameters=T0 + sign * far,
                                        weights=W, **fixed)
                spread = 1 + np.abs(X).max() + np.abs(T0).max()
                r.close(model.cost_, cost_of(Y, G, model.Theta),
                        'reported cost is not the weighted squared distance',
                        atol=n * spread * (1e-9 * spread + 1e-14 * far),
                        rtol=0, X=Y, **fixed)
                r.state(Y, fixed, G)
                r.step()
                r.trace()
        return
    _, p = case
    n = (4, 8, 15, 30)[p % 4]
    k = (1, 2, 3, 4)[p // 2 % 4]
    d = 1 + p % 3
    bound = (None, 0, 1.5, 4)[p // 3 % 4]
    X = lattice.pattern((n, d), p, (1.0, 20.0, 1e4, 1e-4, 1e6)[p % 5])
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        k = min(k, n)
    start, init = {}, 'random'
    if p % 3 == 1:
        init = 'custom'
        start = {'parameters': lattice.pattern((k, d), p, 1.0),
                 'weights': lattice.pattern_simplex(n, k, p)}
        if p % 2 and k > 1:
            # a component without any affiliated samples
            w = start['weights'].copy()
            w[:, 0] += w[:, 1]
            w[:, 1] = 0
            start['weights'] = w
    descend(r, X, k, bound, start, init, 5, p)


def descend(r, X, k, bound, start, init, top, seed):
    from reor.fembv_kmeans import FEMBVKMeans
    prev = None
    if start and fembv.infeasible(start['weights'], len(X), k,
                                  bound) is None:
        prev = cost_of(X, start['weights'], start['parameters'])
    last = None
    for m in tuple(range(1, top + 1)) + (60,):
        model = FEMBVKMeans(k, bound, init=init, max_iterations=m,
                            tolerance=0 if m < 60 else 1e-4,
                            random_state=seed)
        G = np.array(model.fit_transform(X, **start))
        ctx = dict(X=X, bound=bound, iterations=m, components=k)
        r.require(np.all(np.isfinite(model.Theta)), 'centroids not finite',
                  **ctx)
        cost = cost_of(X, G, model.Theta)
        scale = 1 + np.abs(X).max() ** 2 * len(X)
        r.close(model.cost_, cost, 'reported cost is not the weighted '
                'squared distance', atol=1e-9 * scale, **ctx)
        if prev is not None and m < 60 and cost > prev + 1e-6 * scale:
            r.fail('cost increased along the iterations', before=prev,
                   after=cost, **ctx)
        if m == 1:
            first = cost
        if m == 60 and cost > first + 1e-6 * scale:
            r.fail('cost at convergence above that of the first iteration',
                   before=first, after=cost, **ctx)
        if last is not None and m < 60:
            # the centroids used are the means of the previous affiliations
            means(r, X, last, model.Theta, bound=bound, iterations=m)
        prev, last = cost, G
        r.state(X, bound, G, model.Theta)
        r.step()
        r.trace()
