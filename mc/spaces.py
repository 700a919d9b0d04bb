"""Bounded input spaces for the factorisation models."""

import numpy as np

from mc import lattice


def kernel_of(X, kind):
    X = np.asarray(X, dtype='f8')
    if kind == 'linear':
        return X.dot(X.T)
    if kind == 'rbf':
        d = ((X[:, None] - X[None]) ** 2).sum(axis=2)
        return np.exp(-0.7 * d)
    if kind == 'poly':
        return (1 + X.dot(X.T)) ** 2
    if kind == 'ones':
        return np.ones((X.shape[0], X.shape[0]))
    if kind == 'identity':
        return np.eye(X.shape[0])
    if kind == 'zero':
        return np.zeros((X.shape[0], X.shape[0]))
    raise KeyError(kind)


def aa_starts(n, k, denom):
    nc = lattice.count_row_stochastic(k, n, denom)
    ns = lattice.count_row_stochastic(n, k, denom)
    return nc * ns


def aa_start(index, n, k, denom):
    nc = lattice.count_row_stochastic(k, n, denom)
    a, b = index % nc, index // nc
    return {'dictionary': lattice.nth_row_stochastic(a, k, n, denom),
            'weights': lattice.nth_row_stochastic(b, n, k, denom)}


def pattern_start(kind, n, d, k, seed, lags=(1,)):
    """Irregular but fixed custom start."""
    st = {'weights': lattice.pattern_simplex(n, k, seed)}
    if kind in ('AA', 'KernelAA'):
        st['dictionary'] = lattice.pattern_simplex(k, n, seed + 3)
    else:
        st['dictionary'] = lattice.pattern((k, d), seed + 3, 1.5)
    if kind == 'MTD':
        L = len(lags)
        st['order_weights'] = lattice.pattern_simplex(1, L, seed + 1)[0]
        st['transition_matrices'] = np.array(
            [lattice.pattern_simplex(k, k, seed + i).T for i in range(L)])
    return st


# ------------------------------------------------------------- MTD starts

MTD_SPACES = (
    # lags, samples, weight denominator, matrix denominator, lag denominator
    ((1,), 3, 2, 2, 1),
    ((1,), 4, 1, 2, 1),
    ((2,), 4, 1, 2, 1),
    ((1, 2), 4, 1, 1, 2),
    ((2, 1), 4, 1, 1, 2),
    ((3,), 4, 1, 2, 1),
    ((1, 3), 5, 1, 1, 1),
)


def mtd_sizes(space):
    lags, n, dw, dp, dl = MTD_SPACES[space]
    return (lattice.count_row_stochastic(n, 2, dw),
            lattice.count_row_stochastic(2, 2, dp) ** len(lags),
            len(lattice.simplex_points(len(lags), dl)))


def mtd_count(space):
    a, b, c = mtd_sizes(space)
    return a * b * c


def mtd_case(space, index):
    """Lattice start of the MTD model plus a data set varying with it."""
    lags, n, dw, dp, dl = MTD_SPACES[space]
    a, b, c = mtd_sizes(space)
    iw, index = index % a, index // a
    ip, il = index % b, index // b
    per = lattice.count_row_stochastic(2, 2, dp)
    P = []
    for _ in lags:
        ip, q = divmod(ip, per)
        P.append(lattice.nth_row_stochastic(q, 2, 2, dp).T)
    start = {
        'weights': lattice.nth_row_stochastic(iw, n, 2, dw),
        'order_weights': lattice.simplex_points(len(lags), dl)[il],
        'transition_matrices': np.array(P)}
    return lags, n, start


# ----------------------------------------------------------- unusual shapes

WIDE_FROM = 10000
WIDE_SHAPES = (
    # samples, features, components
    (2, 1, 5), (3, 2, 7), (1, 1, 3), (1, 3, 2), (4, 4, 3),
    (5, 5, 2), (3, 12, 2), (2, 30, 3), (130, 2, 3), (70, 1, 2), (12, 9, 10),
    (9, 3, 9), (8, 8, 4), (6, 6, 8), (66, 5, 7), (10, 2, 1), (3, 3, 3),
    (20, 21, 12), (7, 16, 5))
WIDE_KINDS = ('irregular', 'symmetric', 'one-hot', 'constant columns',
              'counts', 'sorted', 'negative', 'repeated', 'far', 'alternating',
              'gram')
N_WIDE = 66


def wide(i):
    """Problems of unusual shape and structure: (data, components)."""
    n, d, k = WIDE_SHAPES[i % len(WIDE_SHAPES)]
    kind = WIDE_KINDS[i % len(WIDE_KINDS)]
    X = lattice.pattern((n, d), i, 2.0)
    if kind == 'symmetric' or (n == d and kind == 'sorted'):
        m = min(n, d)
        X[:m, :m] = X[:m, :m] + X[:m, :m].T
    elif kind == 'gram' and n == d:
        X = X.dot(X.T)
    elif kind == 'one-hot':
        X = np.zeros((n, d))
        X[np.arange(n), (np.arange(n) * 3 + i) % d] = 1.0
    elif kind == 'constant columns':
        X[:, ::2] = 3.0
        X[:, 1::3] = 0.0
    elif kind == 'counts':
        X = np.round(np.abs(X) * 4)
    elif kind == 'sorted':
        X = np.sort(X, axis=0)
    elif kind == 'negative':
        X = -np.abs(X) - 1
    elif kind == 'repeated':
        X = X[np.arange(n) // 3]
    elif kind == 'far':
        X = X + 40.0
    elif kind == 'alternating':
        X = np.where(np.arange(n)[:, None] % 2, 1.0, -1.0) * np.ones(d)
    return X, k


def wide_cases(*extra):
    for i in range(N_WIDE):
        yield ('problem', WIDE_FROM + i) + extra
