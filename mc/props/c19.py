"""C19: FEM-BV affiliations are feasible and respect the bound."""

import numpy as np

from mc import fembv, lattice, spaces

PROP = 'C19'
BOUNDS = {
    'quick': 'distance matrices over {0,1,3} of 2 components to 1..3 samples '
             'and of 3 components to 2 samples, 8 bounds (none, 0, 0.5, 1, '
             '1.5, 2, 3, 50), every iteration 1..3; FEM-BV k-means and VARX '
             'fits of 160 problems (1..40 samples, 1..4 components, random '
             'and custom starts, 10 bounds) after every iteration 1..3 and '
             'at convergence, and their transforms of training and of '
             'longer and shorter data; 66 problems of unusual shape (up to '
             '130 samples, 30 features, 12 components)',
    'thorough': 'as quick with 4 samples and 900 problems of up to 80 '
                'samples',
}
WIDE = fembv.BOUNDS + (0.1, 7.25)


def cases(tier):
    big = tier == 'thorough'
    for n in range(1, 5 if big else 4):
        for i in range(3 ** (2 * n)):
            yield ('grid', n, 2, i)
    for i in range(3 ** 6):
        if big or i % 2:
            yield ('grid', 2, 3, i)
    for p in range(900 if big else 160):
        yield ('kmeans' if p % 2 else 'varx', p, big)
    for i in range(spaces.N_WIDE):
        yield (('kmeans', 'varx')[i % 2], spaces.WIDE_FROM + i, big)


def feasible(r, G, n, k, bound, **ctx):
    bad = fembv.infeasible(G, n, k, bound)
    if bad:
        r.fail(bad, affiliations=G, bound=bound, **ctx)
    r.state(G, bound)
    r.step()


def run(case, r):
    if case[0] == 'grid':
        _, n, k, i = case
        D = lattice.nth_grid(i, (0.0, 1.0, 3.0), (n, k))
        for b, bound in enumerate(fembv.BOUNDS):
            if n > 1 and (b + i) % 2:
                continue
            model = fembv.fixed_distance_model(
                D, bound, max_iterations=1 + i % 3, tolerance=0,
                random_state=i)
            G = model.fit_transform(np.zeros((n, 1)))
            feasible(r, G, n, k, bound, distances=D)
            r.trace()
        return
    kind, p, big = case
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    n = (2, 4, 9, 20, 40, 1, 6)[p // 2 % 7]
    if big and p % 14 == 9:
        n = 80
    k = (1, 2, 3, 4)[p // 3 % 4]
    bound = WIDE[p // 4 % 10]
    d = 1 + p % 3
    if kind == 'kmeans':
        mem = 0
        k = min(k, n)
    else:
        mem = (0, 1, 2)[p // 5 % 3]
        n = max(n, mem + 3)
    X = lattice.pattern((n, d), p, (1.0, 30.0, 1e4, 1e-4, 1e6)[p // 2 % 5])
    if p % 5 == 0:
        X = np.round(X)
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        k = min(k, n) if kind == 'kmeans' else min(k, 6)
        mem = min(mem, n - 1)
    u = lattice.pattern((n + 4, 1), p) if kind == 'varx' and p % 3 == 0 \
        else None
    kw = {} if u is None else {'external_factors': u[:n]}

    def build(m, tol, init):
        if kind == 'kmeans':
            return FEMBVKMeans(k, bound, init=init, max_iterations=m,
                               tolerance=tol, random_state=p)
        return FEMBVVARX(k, bound, memory=mem, init=init, max_iterations=m,
                         tolerance=tol, random_state=p)
    start = {}
    init = ('random', None, 'custom')[p // 7 % 3]
    if init == 'custom':
        start['weights'] = lattice.pattern_simplex(n - mem, k, p)
        if kind == 'kmeans':
            start['parameters'] = lattice.pattern((k, d), p + 1)
        else:
            start['parameters'] = {'mu': lattice.pattern((k, d), p + 1)}
            if mem:
                start['parameters']['A'] = lattice.pattern((k, mem, d, d), p)
            if u is not None:
                start['parameters']['B0'] = lattice.pattern((k, d, 1), p)
    for m, tol in ((1, 0), (2, 0), (3, 0), (30, 1e-4)):
        model = build(m, tol, init)
        G = model.fit_transform(X, **start, **kw)
        feasible(r, G, n - mem, k, bound, problem=p, kind=kind, iterations=m)
        r.trace()
    for Y in (X, lattice.pattern((n + 4, d), p + 3, 2.0), X[:max(n - 1,
                                                              mem + 2)]):
        kw = {} if u is None else {'external_factors': u[:len(Y)]}
        G = model.transform(Y, **kw)
        feasible(r, G, len(Y) - mem, k, bound, problem=p, kind=kind,
                 transform=True)
        r.trace()
