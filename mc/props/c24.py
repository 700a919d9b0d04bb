"""C24: FEM-BV transform assigns new data to the fitted components."""

import itertools

import numpy as np

from mc import fembv, lattice, varx
from mc.props import c23

PROP = 'C24'
BOUNDS = {
    'quick': 'k-means: every 2-centroid model over {-1,0,1.5} transforming '
             'every data set over {-1,0,2} of 1..3 samples, bounds none, 0, '
             '1, 2; 140 fitted k-means and VARX models (up to 20 samples, 3 '
             'components, mixed memories, exogenous input) and every '
             'sequence of 3 transforms of training, other, longer, shorter, '
             'reversed and nearly equal data; every order of 3 transforms of '
             'nearly equal data with opposite assignments; optimality against every lattice affiliation '
             'sequence (and every nearest component without bound)',
    'thorough': 'as quick with 4 samples and 700 fitted models',
}


def cases(tier):
    big = tier == 'thorough'
    for c in range(9):
        for n in range(1, 5 if big else 4):
            for i in range(3 ** n):
                yield ('grid', c, n, i)
    for p in range(700 if big else 140):
        yield ('fitted', p)
    for p in range(200 if big else 40):
        yield ('near', p)


def judge(r, G, D, bound, **ctx):
    n, k = D.shape
    bad = fembv.infeasible(G, n, k, bound)
    if bad:
        r.fail('transform: ' + bad, affiliations=G, bound=bound, **ctx)
    scale = 1e-9 + np.abs(D).max()
    here = float(np.sum(G * D))
    tol = 2e-6 * scale * n
    if bound is None:
        other = float(D.min(axis=1).sum())
    elif k == 1:
        other = float(D.sum())
    else:
        # cheapest constant affiliation, every lattice sequence if small
        other = float(D.sum(axis=0).min())
        size = {2: {1: 4, 2: 4, 3: 4, 4: 4, 5: 2, 6: 2, 7: 1, 8: 1, 9: 1},
                3: {1: 2, 2: 2, 3: 2, 4: 2, 5: 1, 6: 1, 7: 1, 8: 1}}
        denom = size.get(k, {}).get(n)
        if denom:
            other = min(other, fembv.best(D, bound, denom)[0])
    if here > other + tol:
        r.fail('transform does not assign the data optimally to the fitted '
               'components', affiliations=G, distances=D, bound=bound,
               weighted_distance=here, best=other, **ctx)
    r.state(G, D, bound)
    r.step()
    r.trace()
    return here


def run(case, r):
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    if case[0] == 'grid':
        _, c, n, i = case
        Theta = lattice.nth_grid(c, (-1.0, 0.0, 1.5), (2, 1))
        Y = lattice.nth_grid(i, (-1.0, 0.0, 2.0), (n, 1))
        for bound in (None, 0, 1, 2):
            if n > 2 and (i + c + (bound or 7)) % 2:
                continue
            model = FEMBVKMeans(2, bound, init='custom', max_iterations=1,
                                tolerance=0)
            model.fit(np.array([[0.3], [0.7]]), parameters=Theta,
                      weights=np.full((2, 2), 0.5), update_parameters=False)
            G = model.transform(Y)
            judge(r, G, (Y - Theta.T) ** 2, bound, Y=Y, Theta=Theta)
            r.require(np.array_equal(model.Theta, Theta),
                      'transform changed the centroids', got=model.Theta,
                      want=Theta)
        return
    if case[0] == 'near':
        # every order of transforming nearly equal data which the model
        # assigns to different components
        _, p = case
        k, n = 2 + p % 2, 4 + p % 3
        bound = (None, 2, 0)[p // 2 % 3]
        far, gap = ((0.0, 0.05), (1e3, 0.5), (1e5, 0.5), (1.0, 0.3))[p % 4]
        Theta = np.array([[far - gap, 1.0], [far + gap, 1.0],
                          [far, 9.0]])[:k]
        model = FEMBVKMeans(k, bound, init='custom', max_iterations=1,
                            tolerance=0)
        model.fit(Theta[:2] + 0.1 * gap, parameters=Theta,
                  weights=np.full((2, k), 1.0 / k), update_parameters=False)
        side = np.where(lattice.pattern((n,), p) > 0, 1.0, -1.0)
        data = [np.stack([far + gap * side * f, np.ones(n)], axis=1)
                for f in (1.0, -1.0, 0.4)]
        data.append(data[1][::-1].copy())
        for trio in itertools.product(range(4), repeat=3):
            for i in trio:
                Y = data[i]
                G = model.transform(Y.copy())
                D = np.array([[np.sum((y - c) ** 2) for c in Theta]
                              for y in Y])
                judge(r, G, D, bound, Y=Y, Theta=Theta, order=trio)
                r.require(np.array_equal(model.Theta, Theta),
                          'transform changed the centroids')
        return
    _, p = case
    n = (4, 8, 12, 20)[p % 4]
    k = (2, 3, 1)[p // 2 % 3]
    d = 1 + p % 3
    bound = (None, 0, 1.5, 3)[p // 3 % 4]
    u = None
    if p % 2:
        mem = (0,) * k
        model = FEMBVKMeans(k, bound, max_iterations=5, tolerance=1e-4,
                            random_state=p)
    else:
        mem = tuple((p // 4 + i) % 3 for i in range(k))
        if p // 6 % 2:
            mem = (p // 4 % 3,) * k
        model = FEMBVVARX(k, bound, memory=list(mem), max_iterations=5,
                          tolerance=1e-4, random_state=p)
        if p // 2 % 3:
            u = lattice.pattern((n + 8, 1), p)
    pre = max(mem)
    n = max(n, pre + 4)
    X = lattice.pattern((n, d), p, (2.0, 2e4, 2e-4)[p % 3])
    names = ('Theta',) if p % 2 else ('mu', 'A', 'B0')

    def kw(m):
        return {} if u is None else {'external_factors': u[:m]}

    def dist(Y):
        if p % 2:
            return np.array([[np.sum((y - c) ** 2) for c in model.Theta]
                             for y in Y])
        return c23.distances(Y, None if u is None else u[:len(Y)], model,
                             mem, k)[0]
    model.fit(X, **kw(n))
    pars = {a: None if getattr(model, a) is None else
            np.array(getattr(model, a)) for a in names}
    # other data: longer, shorter, nearly the training data, its reverse
    others = [X, lattice.pattern((n + 3, d), p + 3, 3.0),
              lattice.pattern((pre + 2, d), p + 4),
              X + lattice.pattern((n, d), p + 6, 4e-3), X[::-1].copy(),
              np.round(X * 3) / 3]
    for a in range(len(others)):
        for b in range(len(others)):
            if a >= 3 and b >= 3 and a != b:
                continue
            costs = []
            for Y in (others[a], X, others[b], X):
                if p % 3 and Y is X and len(costs) > 1 and a != b:
                    continue
                G = model.transform(Y, **kw(len(Y)))
                cost = judge(r, G, dist(Y), bound, problem=p, Y=Y)
                if Y is X:
                    costs.append(cost)
                for name in names:
                    now = getattr(model, name)
                    same = now is None if pars[name] is None else \
                        np.array_equal(now, pars[name])
                    r.require(same, 'transform changed the fitted %s' % name,
                              before=pars[name], after=now, problem=p)
            scale = 1 + np.abs(X).max() ** 2 * n
            r.require(max(costs) - min(costs) <= 1e-6 * scale,
                      'repeated transforms of the training data differ in '
                      'cost', costs=costs, problem=p)
