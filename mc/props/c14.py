"""C14: the reduced-order model fits stochastic lag dynamics."""

import itertools

import numpy as np

from mc import factor, lattice, ref, spaces
from mc.props.c13 import WIDE_LAGS

PROP = 'C14'
BOUNDS = {
    'quick': 'frozen weights: every one-hot sequence of length 2..6 over 2 '
             'components and 2..5 over 3, lag sets (1),(2),(1,2),(2,1),(1,3) '
             'and (3); every lattice weights matrix (denominator 2) of 3..4 '
             'samples and 2 components; residual after 1..6 iterations, and '
             'at convergence for one lag (after another fit of the same model) '
             'compared with every '
             'column-stochastic matrix of denominator 6 (3 for 3 components) '
             'and with all vertices of the polytope; 80 full fits (every '
             'init mode, up to 30 samples, 5 components) against plain '
             'convex coding; 66 fits of unusual shape with up to 7 lags and '
             'lags up to 40',
    'thorough': 'as quick with one-hot sequences up to 8 (2 components) and '
                '6 (3 components), denominator 3 weights and 400 full fits',
}
LAGS = ((1,), (2,), (1, 2), (2, 1), (1, 3), (3,))
INITS = ('random', 'furthest_sum', None, 'custom')


def cases(tier):
    big = tier == 'thorough'
    for k, top in ((2, 8 if big else 6), (3, 6 if big else 5)):
        for n in range(2, top + 1):
            for i, seq in enumerate(itertools.product(range(k), repeat=n)):
                for j in range(len(LAGS)):
                    if big or n <= 4 or (i + j) % 3 == 0:
                        yield ('onehot', seq, k, j)
    for n, denom in ((3, 3 if big else 2), (4, 2)):
        for i in range(lattice.count_row_stochastic(n, 2, denom)):
            for j in range(len(LAGS)):
                if big or n == 3 or (i + j) % 2 == 0:
                    yield ('lattice', n, denom, i, j)
    for p in range(400 if big else 80):
        yield ('full', p)
    for p in range(spaces.N_WIDE):
        yield ('full', spaces.WIDE_FROM + p)


def residual(W, order_weights, P, lags):
    n, k = W.shape
    m = max(lags)
    E = np.zeros((max(n - m, 0), k))
    for t in range(m, n):
        E[t - m] = W[t]
        for i, lag in enumerate(lags):
            E[t - m] -= order_weights[i] * P[i].dot(W[t - lag])
    return float(np.sum(E * E))


def stochastic(r, model, lags, k, **ctx):
    w = np.asarray(model.order_weights)
    P = np.asarray(model.transition_matrices)
    r.require(w.shape == (len(lags),) and P.shape == (len(lags), k, k),
              'lag parameters have wrong shapes', w=w, P=P, **ctx)
    r.require(ref.is_rows_stochastic(w), 'lag weights are not convex '
              'weights', w=w, **ctx)
    r.require(ref.is_cols_stochastic(P), 'transition matrix columns are not '
              'convex weights', P=P, **ctx)
    return w, P


def optimal(r, W, P, lag, tol, **ctx):
    """No column-stochastic matrix predicts W better than P by more than tol."""
    n, k = W.shape
    here = residual(W, [1.0], [P], (lag,))
    denom = {1: 1, 2: 6, 3: 3}.get(k)
    if denom:
        A, B = W[:max(n - lag, 0)], W[lag:]
        pts = np.array(lattice.simplex_points(k, denom))
        # columns interact through the squares: try every combination
        for combo in itertools.product(range(len(pts)), repeat=k):
            Q = pts[list(combo)].T
            other = float(np.sum((B - A.dot(Q.T)) ** 2))
            if here > other + tol:
                r.fail('a column-stochastic matrix predicts the weights '
                       'better', fitted=P, better=Q, error_fitted=here,
                       error_better=other, W=W, lag=lag, **ctx)
    # tangent bound at every vertex covers all other matrices
    G = np.zeros((k, k))
    for t in range(lag, n):
        G -= 2 * np.outer(W[t] - P.dot(W[t - lag]), W[t - lag])
    gap = float(np.sum(G * P) - np.sum(G.min(axis=0)))
    if gap > 100 * tol:
        r.fail('the fitted transition matrix is not optimal at convergence',
               fitted=P, possible_gain=gap, error_fitted=here, weights=W,
               lag=lag, **ctx)


def frozen(r, W, lags, k, **ctx):
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    n = W.shape[0]
    X = lattice.pattern((n, 2), n)
    D = lattice.pattern((k, 2), k + 3)
    prev = None
    for m in (1, 2, 3, 4, 5, 6):
        model = GPNHConvexCodingCROM(
            k, lags=lags, init='custom', tolerance=0, max_iterations=m,
            random_state=7)
        out = model.fit_transform(X, dictionary=D, weights=W,
                                  update_dictionary=False,
                                  update_weights=False)
        r.step()
        r.require(np.array_equal(out, W) and
                  np.array_equal(model.dictionary_, D),
                  'frozen weights or dictionary changed', **ctx)
        w, P = stochastic(r, model, lags, k, W=W, lagset=lags)
        r.state(W, lags, w, P)
        e = residual(W, w, P, lags)
        if prev is not None and not e <= prev + 1e-9 * prev + 1e-12:
            r.fail('one-step prediction error increased with more iterations',
                   before=prev, after=e, iterations=m, W=W, lags=lags)
        prev = e
    r.trace(6)
    if len(lags) == 1:
        model = GPNHConvexCodingCROM(
            k, lags=lags, init='custom', tolerance=1e-13,
            max_iterations=3000, random_state=3)
        # also after a fit to other weights of the same ranking
        model.fit(X, dictionary=D, weights=0.6 * W + 0.4 / k,
                  update_dictionary=False, update_weights=False)
        model.fit(X, dictionary=D, weights=W, update_dictionary=False,
                  update_weights=False)
        w, P = stochastic(r, model, lags, k, W=W, lagset=lags)
        optimal(r, W, P[0], lags[0], 1e-6 * max(1, n - lags[0]))


def run(case, r):
    if case[0] == 'onehot':
        _, seq, k, j = case
        W = np.eye(k)[list(seq)]
        return frozen(r, W, LAGS[j], k)
    if case[0] == 'lattice':
        _, n, denom, i, j = case
        W = lattice.nth_row_stochastic(i, n, 2, denom)
        return frozen(r, W, LAGS[j], 2)
    _, p = case
    n = (4, 9, 16, 30)[p % 4]
    d = (1, 2, 3)[p // 4 % 3]
    k = min((1, 2, 3, 5)[p // 2 % 4], n)
    init = INITS[p // 3 % 4]
    lags = (LAGS + ((1, 4), (2, 3)))[p % 8]
    eps = (0.0, 0.5)[p % 2]
    tol, iters = ((0, 12), (1e-6, 400))[p // 5 % 2]
    X = lattice.pattern((n, d), p, (1.0, 5.0)[p % 2])
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        if init in (None, 'furthest_sum'):
            k = min(k, n)
        lags = WIDE_LAGS[p % len(WIDE_LAGS)]
    start = spaces.pattern_start('GPNH', n, d, k, p) if init == 'custom' \
        else None
    cfg = dict(init=init, random_state=p, epsilon_states=eps, tolerance=tol)
    plain, W0 = factor.run_fit('GPNH', X, k, cfg, start, iters)
    model, W = factor.run_fit('CROM', X, k, dict(cfg, lags=lags), start,
                              iters)
    r.require(np.allclose(W, W0, atol=1e-9, rtol=1e-9) and
              np.allclose(model.dictionary_, plain.dictionary_, atol=1e-9,
                          rtol=1e-9),
              'weights or dictionary differ from plain convex coding',
              W=W, plain=W0, p=p)
    r.close(model.cost_, plain.cost_, 'cost differs from plain convex coding')
    r.require(model.n_iter_ == plain.n_iter_ and
              model.n_components_ == plain.n_components_,
              'iteration or component count differs from plain convex coding')
    w, P = stochastic(r, model, lags, k, p=p)
    r.state(X, lags, k, w, P)
    r.step(2)
    r.trace(2)
    if len(lags) == 1 and tol > 0:
        tight, W1 = factor.run_fit('CROM', X, k, dict(
            cfg, lags=lags, tolerance=1e-13), start, 3000)
        w, P = stochastic(r, tight, lags, k, p=p)
        optimal(r, np.array(W1), P[0], lags[0], 1e-6 * n, p=p)
