"""C23: FEM-BV-VARX components are affiliation-weighted VARX fits."""

import itertools

import numpy as np

from mc import fembv, lattice, varx

PROP = 'C23'
BOUNDS = {
    'quick': 'every lattice affiliation matrix (denominator 2) of 4-sample '
             'series to 2 components, every pair of memories 0..2 and common '
             'memories, with and without exogenous input; 120 patterned '
             'fits (up to 25 samples, 3 features, 3 components, mixed '
             'memories up to 3, bounds none/0/1/3, random and custom '
             'starts), cost and coefficients of every iteration 1..4; 40 larger fits (up '
             'to 75 samples, 5 features, 5 components, memory 5, 5 exogenous '
             'series)',
    'thorough': 'as quick with 5-sample series, denominator 3 and 700 '
                'patterned fits',
}


def cases(tier):
    big = tier == 'thorough'
    mems = [(a, b) for a in range(3) for b in range(3)]
    for j, mem in enumerate(mems):
        N = 5 if big else 4
        pre = max(mem)
        for i in range(lattice.count_row_stochastic(N - pre, 2, 2)):
            yield ('grid', N, mem, i)
    for p in range(700 if big else 120):
        yield ('pattern', p)
    for p in range(200 if big else 40):
        yield ('wide', p)


def distances(X, u, model, mem, k):
    pre = max(mem)
    n = len(X)
    D = np.zeros((n - pre, k))
    R = [np.zeros_like(X) for _ in range(k)]
    for i in range(k):
        A = None if mem[i] == 0 else model.A[i][:mem[i]]
        for t in range(pre, n):
            e = X[t] - varx.predict(X, u, t, model.mu[i], A, None,
                                    None if u is None else model.B0[i])
            R[i][t] = e
            D[t - pre, i] = e.dot(e)
    return D, R


def verify(r, model, X, u, mem, used, G, **ctx):
    """used: affiliations behind the parameters; G: current affiliations."""
    n, d = X.shape
    k = len(mem)
    pre = max(mem)
    r.require(np.shape(model.mu) == (k, d) and
              np.all(np.isfinite(model.mu)), 'intercepts missing', **ctx)
    if pre:
        r.require(np.shape(model.A) == (k, pre, d, d),
                  'wrong shape of A', **ctx)
        for i in range(k):
            r.require(not np.any(model.A[i][mem[i]:]), 'coefficients beyond '
                      'the memory of the component are not zero', A=model.A,
                      memory=mem, **ctx)
    r.require((model.B0 is None) == (u is None), 'B0 does not match the '
              'exogenous input', **ctx)
    D, R = distances(X, u, model, mem, k)
    scale = 1 + np.abs(D).max()
    r.close(model.cost_, np.sum(G * D), 'reported cost is not the weighted '
            'squared prediction error', atol=1e-9 * scale, X=X, u=u,
            memory=mem, affiliations=G, **ctx)
    if used is not None:
        for i in range(k):
            w = np.zeros(n)
            w[pre:] = used[:, i]
            varx.check_optimal(
                r, X, u, list(range(pre, n)), w, R[i], mem[i], 0, True,
                'component coefficients are not the affiliation-weighted '
                'fit', component=i, memory=mem, **ctx)
    r.state(X, u, mem, G, model.mu)
    r.step()
    r.trace()
    return float(np.sum(G * D))


def run(case, r):
    from reor.fembv_varx import FEMBVVARX
    if case[0] == 'grid':
        _, n, mem, i = case
        pre = max(mem)
        W = lattice.nth_row_stochastic(i, n - pre, 2, 2)
        for j in range(6):
            d = 1 + j % 2
            X = (lattice.pattern((n, d), i + j, 2.0),
                 lattice.nth_grid((i * 17 + j) % 3 ** (n * d),
                                  (-1.0, 0.0, 2.0), (n, d)))[j // 2 % 2]
            u = lattice.pattern((n, 1 + j % 2), i + 3) if j >= 3 else None
            kw = {} if u is None else {'external_factors': u}
            mems = [tuple(mem), list(mem)] + (
                [mem[0]] if mem[0] == mem[1] else [])
            if mem == (0, 0):
                mems.append(None)
            for memory in mems:
                model = FEMBVVARX(2, None, memory=memory, init='custom',
                                  max_iterations=1 + j % 2, tolerance=0)
                model.fit_transform(X, weights=W, update_weights=False, **kw)
                verify(r, model, X, u, mem, W, W)
        return
    name, p = case
    n = (6, 10, 15, 25)[p % 4]
    k = (1, 2, 3)[p // 2 % 3]
    d = (1, 2, 3)[p // 3 % 3]
    common = p % 3 == 0
    mem = tuple((p // 4 + 2 * i) % 4 for i in range(k))
    if common:
        mem = (p // 4 % 4,) * k
    q = 1 + p % 2
    if name == 'wide':
        n = (30, 75, 12)[p % 3]
        k = (2, 5, 3, 1)[p % 4]
        d = (3, 4, 1, 2, 5)[p % 5]
        mem = tuple((p // 2 + 3 * i) % 6 for i in range(k))
        if common:
            mem = (p // 3 % 6,) * k
        q = (d, 3, 4)[p // 4 % 3]
    pre = max(mem)
    n = max(n, pre + 4)
    bound = (None, 0, 1, 3)[p // 5 % 4]
    X = lattice.pattern((n, d), p, (1.0, 10.0, 1e4, 1e-4)[p % 4])
    u = lattice.pattern((n, q), p + 5) if p % 5 < 2 or name == 'wide' \
        else None
    kw = {} if u is None else {'external_factors': u}
    prev = used = None
    init = 'random'
    if p % 4 == 1:
        init = 'custom'
        pars = {'mu': lattice.pattern((k, d), p + 1)}
        if pre:
            pars['A'] = lattice.pattern((k, pre, d, d), p, 0.5)
            for i in range(k):
                pars['A'][i, mem[i]:] = 0
        if u is not None:
            pars['B0'] = lattice.pattern((k, d, u.shape[1]), p)
        W = lattice.pattern_simplex(n - pre, k, p)
        kw.update(parameters=pars, weights=W)
        used = W

        class Start:
            mu, A, B0 = pars['mu'], pars.get('A'), pars.get('B0')
        D, _ = distances(X, u, Start, mem, k)
        if fembv.infeasible(W, n - pre, k, bound) is None:
            prev = float(np.sum(W * D))
    for m in (1, 2, 3, 4):
        model = FEMBVVARX(k, bound, memory=mem[0] if common else mem,
                          init=init, max_iterations=m, tolerance=0,
                          random_state=p)
        G = np.array(model.fit_transform(X, **kw))
        cost = verify(r, model, X, u, mem, used, G, problem=p, iterations=m,
                      bound=bound)
        scale = 1 + np.abs(X).max() ** 2 * n
        if prev is not None and cost > prev + 1e-6 * scale:
            r.fail('cost increased along the iterations', before=prev,
                   after=cost, X=X, problem=p, iterations=m, memory=mem,
                   bound=bound)
        prev, used = cost, G
