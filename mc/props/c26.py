"""C26: cluster-Markov predictions propagate cluster membership."""

import itertools

import numpy as np

from mc import lattice, spaces
from mc.props import c25

PROP = 'C26'
BOUNDS = {
    'quick': 'every label sequence using all of 1..3 clusters of length 1..5 '
             'and 4 clusters of length 4, horizons 0..6 and 25, predicting '
             'training data, every single position and every pair; 100 '
             'patterned models (up to 30 samples, 6 clusters, sample '
             'weights) and 66 of unusual shape with horizons to 60; 30 long '
             'series with rare transitions; fit_predict and fit_transform on '
             'fresh and on already fitted models',
    'thorough': 'as quick with lengths up to 7 and 600 patterned models',
}


def cases(tier):
    big = tier == 'thorough'
    for k, top in ((1, 4), (2, 7 if big else 5), (3, 6 if big else 5),
                   (4, 5 if big else 4)):
        for n in range(k, top + 1):
            for seq in lattice.set_partitions(n, k):
                yield ('labels', seq, k)
    for p in range(600 if big else 100):
        yield ('pattern', p)
    for i in range(spaces.N_WIDE):
        yield ('pattern', spaces.WIDE_FROM + i)
    for i in range(120 if big else 30):
        yield ('rare', i)


def propagate(T, labels, horizon):
    k = T.shape[0]
    out = np.zeros((len(labels), k))
    for i, a in enumerate(labels):
        v = [1.0 if b == a else 0.0 for b in range(k)]
        for _ in range(horizon):
            v = [sum(T[b, c] * v[c] for c in range(k)) for b in range(k)]
        out[i] = v
    return out


def nearest(C, Y):
    return np.array([int(np.argmin([np.sum((y - c) ** 2) for c in C]))
                     for y in Y])


def check(r, model, Y, horizons, unique=True, **ctx):
    C = np.array(model.cluster_centers_)
    T = np.array(model.transition_matrix_)
    labels = nearest(C, Y)
    for h in horizons:
        got = model.predict(Y, horizon=h) if h else (
            model.predict(Y) if len(Y) % 2 else model.predict(Y, horizon=0))
        want = propagate(T, labels, h)
        if got.shape != want.shape or \
                not np.allclose(got, want, atol=1e-9):
            r.fail('prediction is not the propagated current cluster',
                   horizon=h, data=Y, transition_matrix=T, labels=labels,
                   got=got, want=want, **ctx)
        if not (got.min() >= 0 and np.allclose(got.sum(axis=1), 1,
                                               atol=1e-8)):
            r.fail('prediction is not a probability distribution',
                   horizon=h, got=got, **ctx)
        r.state(T, labels, h)
        r.step()
        r.trace()
    r.require(np.array_equal(model.transition_matrix_, T) and
              np.array_equal(model.cluster_centers_, C),
              'prediction changed the fitted model', **ctx)
    D = model.transform(Y)
    r.close(D, np.array([[np.sqrt(np.sum((y - c) ** 2)) for c in C]
                         for y in Y]), 'transform is not the distance to the '
            'centres', atol=1e-6 * (1 + np.abs(Y).max()), **ctx)


def run(case, r):
    from reor.crom import KMeansMarkovCROM
    if case[0] == 'labels':
        _, seq, k = case
        X = c25.data_of(seq, 1 + len(seq) % 2)
        d = X.shape[1]
        centres = c25.data_of(range(k), d)
        for kw in ({'init': centres, 'n_init': 1},
                   {'random_state': 3, 'n_init': 1}):
            model = KMeansMarkovCROM(k, **kw).fit(X)
            check(r, model, X, (0, 1, 2, 3, 4, 5, 6, 25))
            for a in range(k):
                check(r, model, centres[a:a + 1] + 0.2, (0, 1, 3))
                for b in range(k):
                    check(r, model, centres[[a, b]] - 0.2, (0, 2))
            forms(r, lambda: KMeansMarkovCROM(k, **kw), X, None)
        return
    if case[0] == 'rare':
        # long stays with rare transitions: probabilities down to 1e-4 and
        # (after several steps) 1e-9
        _, i = case
        k = 2 + i % 3
        n = (200, 1000, 6000)[i // 3 % 3]
        t = np.arange(n)
        seq = np.zeros(n, dtype=int)
        for a in range(1, k):
            seq[(t + 7 * a) % (n // (2 + i % 2) // a) == 5] = a
        X = c25.data_of(seq, 1)
        centres = c25.data_of(range(k), 1)
        model = KMeansMarkovCROM(k, init=centres, n_init=1).fit(X)
        check(r, model, centres, (0, 1, 2, 3, 5, 9, 40), rare=i)
        return
    _, p = case
    n = (6, 12, 20, 30)[p % 4]
    k = min((1, 2, 3, 4, 6)[p % 5], n)
    d = (1, 2, 3)[p // 2 % 3]
    X = lattice.pattern((n, d), p, (3.0, 3e6, 3e-6)[p % 3])
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        k = min(k, len(np.unique(X, axis=0)))
    w = None if p % 2 else np.abs(lattice.pattern((n,), p)) + 0.05
    kw = {'random_state': p, 'n_init': 1}
    model = KMeansMarkovCROM(k, **kw).fit(X, sample_weight=w)
    for Y in (X, lattice.pattern((n + 2, d), p + 3, 4.0),
              lattice.pattern((1, d), p + 4)):
        check(r, model, Y, (0, 1, 2, 7, 60), problem=p)
        got = model.predict(Y, sample_weight=np.ones(len(Y)), horizon=1)
        r.close(got, model.predict(Y, horizon=1), 'sample weights change the '
                'prediction')
    forms(r, lambda: KMeansMarkovCROM(k, **kw), X, w)


def forms(r, build, X, w):
    """fit_predict and fit_transform fit and return results of that fit."""
    ref = build().fit(X, sample_weight=w)
    kw = {} if w is None else {'sample_weight': w}
    for stale in (False, True):
        for name in ('fit_predict', 'fit_transform'):
            model = build()
            if stale:
                model.fit(lattice.pattern(X.shape, 11, 5.0) + 100)
            out = np.array(getattr(model, name)(X, **kw))
            r.step()
            r.trace()
            r.require(np.array_equal(model.labels_, ref.labels_) and
                      np.allclose(model.cluster_centers_,
                                  ref.cluster_centers_, atol=1e-12) and
                      np.allclose(model.transition_matrix_,
                                  ref.transition_matrix_, atol=1e-12),
                      '%s does not fit the model to the data' % name, X=X)
            if name == 'fit_predict':
                r.require(np.array_equal(out, model.labels_), 'fit_predict '
                          'does not return the labels of the fit', X=X,
                          got=out, want=model.labels_)
            else:
                C = model.cluster_centers_
                r.close(out, np.array([[np.sqrt(np.sum((x - c) ** 2))
                                        for c in C] for x in X]),
                        'fit_transform does not return the distances to the '
                        'fitted centres', atol=1e-6 * (1 + np.abs(X).max()))
