"""C25: cluster-Markov transition matrices are observed frequencies."""

import itertools

import numpy as np

from mc import lattice, spaces

PROP = 'C25'
BOUNDS = {
    'quick': 'every label sequence using all of 1..3 clusters of length 1..6 '
             '(1..5 for 3 clusters, all starting or ending patterns), as '
             'data with one or two features, centres given or found by '
             'k-means++, through function and class; 150 patterned data sets '
             '(up to 40 samples, 6 clusters, sample weights incl. zeros) and 66 of unusual shape; long '
             'regular label sequences (up to 70000 samples)',
    'thorough': 'as quick with lengths up to 8 (6 for 3 clusters) and 800 '
                'patterned data sets',
}


def cases(tier):
    big = tier == 'thorough'
    for k, top in ((1, 5), (2, 8 if big else 6), (3, 6 if big else 5),
                   (4, 5 if big else 4)):
        for n in range(k, top + 1):
            for seq in lattice.set_partitions(n, k):
                yield ('labels', seq, k)
    for p in range(800 if big else 150):
        yield ('pattern', p)
    for i in range(spaces.N_WIDE):
        yield ('pattern', spaces.WIDE_FROM + i)
    for n in (150, 300, 700) + ((40000, 70000, 140000) if big else
                                (70000,)):
        for k in (1, 2, 3):
            yield ('long', n, k)


def frequencies(labels, k):
    T = np.full((k, k), np.nan)
    for a in range(k):
        steps = [labels[t + 1] for t in range(len(labels) - 1)
                 if labels[t] == a]
        for b in range(k):
            if steps:
                T[b, a] = sum(1 for s in steps if s == b) / len(steps)
    return T


def data_of(seq, d):
    """Well separated positions, slightly different for each sample."""
    X = np.array([[10.0 * s + 0.1 * (t % 3)] for t, s in enumerate(seq)])
    if d == 2:
        X = np.hstack([X, 3.0 * X + 1])
    return X


def check(r, T, labels, k, **ctx):
    T = np.asarray(T)
    r.require(T.shape == (k, k), 'transition matrix has the wrong shape',
              got=T, **ctx)
    want = frequencies(labels, k)
    seen = ~np.isnan(want)
    if not np.allclose(T[seen], want[seen], atol=1e-12):
        r.fail('transition matrix is not the observed frequencies',
               labels=labels, got=T, want=want, **ctx)
    if not (np.all(np.isfinite(T)) and T.min() >= 0 and
            np.allclose(T.sum(axis=0), 1, atol=1e-9)):
        r.fail('a column is not a probability distribution', labels=labels,
               got=T, **ctx)
    r.state(tuple(int(v) for v in labels[:200]), len(labels), T)
    r.step()
    r.trace()


def run(case, r):
    from sklearn.cluster import KMeans
    from reor.crom import KMeansMarkovCROM, kmeans_markov_crom
    if case[0] == 'labels':
        _, seq, k = case
        for d in (1, 2):
            X = data_of(seq, d)
            centres = data_of(range(k), d)
            for kw in ({'init': centres, 'n_init': 1},
                       {'random_state': 3, 'n_init': 2}):
                model = KMeansMarkovCROM(k, **kw).fit(X)
                if 'random_state' not in kw:
                    r.require(np.array_equal(model.labels_, seq),
                              'labels are not those of the k-means fit',
                              got=model.labels_, want=seq)
                ref = KMeans(n_clusters=k, **kw).fit(X)
                r.require(np.array_equal(model.labels_, ref.labels_) and
                          np.allclose(model.cluster_centers_,
                                      ref.cluster_centers_, atol=1e-12),
                          'labels or centres are not those of the k-means '
                          'fit', X=X, got=model.labels_, want=ref.labels_)
                check(r, model.transition_matrix_, model.labels_, k)
            km, T = kmeans_markov_crom(X, n_clusters=k, **kw)
            r.require(np.array_equal(km.labels_, ref.labels_),
                      'labels are not those of the k-means fit')
            check(r, T, km.labels_, k)
        if k == 2:
            check(r, KMeansMarkovCROM(None, init=centres, n_init=1).fit(
                X).transition_matrix_, seq, 2)
            check(r, kmeans_markov_crom(X, init=centres, n_init=1)[1], seq,
                  2)
        return
    if case[0] == 'long':
        # transition counts beyond the range of narrow integers
        _, n, k = case
        t = np.arange(n)
        seq = (0 * t, (t % 97 > 60).astype(int),
               np.where(t % 11 == 10, 1 + (t // 11) % 2, 0))[k - 1]
        X = data_of(seq, 1)
        centres = data_of(range(k), 1)
        model = KMeansMarkovCROM(k, init=centres, n_init=1).fit(X)
        r.require(np.array_equal(model.labels_, seq), 'labels are not those '
                  'of the k-means fit', samples=n)
        check(r, model.transition_matrix_, seq, k, samples=n)
        check(r, kmeans_markov_crom(X, n_clusters=k, init=centres,
                                    n_init=1)[1], seq, k, samples=n)
        return
    _, p = case
    n = (5, 12, 25, 40)[p % 4]
    k = (1, 2, 3, 4, 6)[p % 5]
    k = min(k, n)
    d = (1, 2, 3)[p // 2 % 3]
    X = lattice.pattern((n, d), p, (3.0, 3e6, 3e-6)[p % 3])
    if p % 3 == 1:
        X = np.round(X * 2)
        k = min(k, len(np.unique(X, axis=0)))
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        k = min(k, len(np.unique(X, axis=0)))
    w = (None, np.ones(n), np.abs(lattice.pattern((n,), p)) *
         (np.arange(n) % 3 != 1))[p % 3]
    kw = {'random_state': p, 'n_init': 1 + p % 2}
    model = KMeansMarkovCROM(k, **kw)
    model.fit(X, sample_weight=w)
    ref = KMeans(n_clusters=k, **kw).fit(X, sample_weight=w)
    r.require(np.array_equal(model.labels_, ref.labels_) and
              np.allclose(model.cluster_centers_, ref.cluster_centers_,
                          atol=1e-12) and
              np.isclose(model.inertia_, ref.inertia_, rtol=1e-9, atol=1e-12),
              'labels, centres or inertia are not those of the k-means fit',
              problem=p)
    check(r, model.transition_matrix_, model.labels_, k, problem=p)
    km, T = kmeans_markov_crom(X, n_clusters=k, sample_weight=w, **kw)
    r.require(np.array_equal(km.labels_, ref.labels_),
              'sample weights or options not passed to k-means', problem=p)
    check(r, T, km.labels_, k, problem=p)
