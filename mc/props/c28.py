"""C28: piecewise VARX clusters on lagged state, classifies the same way."""

import itertools

import numpy as np

from mc import lattice
from mc.props import c27

PROP = 'C28'
BOUNDS = {
    'quick': 'every order pair p, s in 0..3, one-dimensional, single-column '
             'and two-column series, no, one-dimensional and two-column '
             'exogenous input, 1..8 usable samples, trend on/off, every '
             'sequence of up to 3 calls after the fit out of {transform '
             'training data, transform other data of three lengths, refit}, '
             'with recording clusterer and classifier; 240 patterned models '
             'with default k-means/SVC and sklearn clusterers/classifiers; 60 '
             'larger ones (up to 140 samples, 5 features, 7 regimes, orders '
             'to 6)',
    'thorough': 'as quick with call sequences of length 4 and 1500 patterned '
                'models',
}


class Clusterer:
    def __init__(self, k, log):
        self.k, self.log = k, log

    def fit_predict(self, z):
        self.log.append(('cluster', np.array(z)))
        return (np.arange(len(z)) * 2 + 1) % self.k


class Classifier:
    """Memorises what it is fitted to; predictions depend on the values."""

    def __init__(self, k, log):
        self.k, self.log = k, log
        self.key = 0

    def fit(self, x, labels):
        self.log.append(('fit', np.array(x), np.array(labels)))
        self.key += 1 + len(x)
        return self

    def rule(self, x):
        x = np.asarray(x, dtype='f8')
        h = np.array([sum(np.floor(abs(v) * 7) * (j + 2)
                          for j, v in enumerate(row)) for row in x])
        return (h.astype(int) + self.key) % self.k if len(x) \
            else np.zeros(0, dtype=int)

    def predict(self, x):
        self.log.append(('predict', np.array(x)))
        return self.rule(x)


def lagged(X, u, p, s):
    """Lagged values, most recent first, endogenous before exogenous."""
    pre = max(p, s)
    rows = []
    for t in range(pre, len(X)):
        row = []
        for a in range(1, p + 1):
            row += list(X[t - a])
        if u is not None:
            for b in range(1, s + 1):
                row += list(u[t - b])
        rows.append(row)
    width = p * X.shape[1] + (s * u.shape[1] if u is not None else 0)
    return np.array(rows, dtype='f8').reshape(len(rows), width)


def cases(tier):
    big = tier == 'thorough'
    for p, s in itertools.product(range(4), repeat=2):
        for kind in ('1d', 'column', 'two'):
            for ukind in (None, '1d', 'two'):
                for k in (1, 2, 3):
                    yield ('stub', p, s, kind, ukind, k, 4 if big else 3)
    for c in range(1500 if big else 240):
        yield ('sklearn', c)
    for c in range(400 if big else 60):
        yield ('wide', c)


def same(a, b):
    """Same set of columns, in any order (shape and values)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return sorted(map(tuple, a.T.tolist())) == sorted(map(tuple, b.T.tolist()))


def series(kind, n, seed):
    return lattice.pattern((n, 2 if kind == 'two' else 1), seed, 2.0)


def check_fit(r, X, u, p, s, log, labels, rule, **ctx):
    x = lagged(X, u, p, s)
    y = X[max(p, s):]
    kinds = [e[0] for e in log]
    r.require('cluster' in kinds and 'fit' in kinds and 'predict' in kinds,
              'fit does not cluster, fit the classifier and classify',
              calls=kinds, **ctx)
    z = [e[1] for e in log if e[0] == 'cluster'][-1]
    r.require(same(z, np.hstack([x, y])), 'clustering does not use each '
              'sample with its lagged values', got=z,
              want=np.hstack([x, y]), X=X, u=u, p=p, s=s, **ctx)
    clusters = (np.arange(len(z)) * 2 + 1)
    fitted = [e for e in log if e[0] == 'fit'][-1]
    r.require(same(fitted[1], x), 'the classifier is not fitted to the '
              'lagged values only', got=fitted[1], want=x, X=X, u=u, p=p,
              s=s, **ctx)
    r.require(np.array_equal(fitted[2], clusters % ctx['k']), 'the '
              'classifier is not fitted to the cluster labels', got=fitted[2],
              **ctx)
    r.require(np.array_equal(labels, rule(fitted[1])), 'fit does not return '
              'the labels of the classifier', got=labels, **ctx)
    return fitted[1]


def run(case, r):
    if case[0] in ('sklearn', 'wide'):
        return sklearn_case(case[1], r, case[0] == 'wide')
    from reor.pwvarx import ClusterPWVARX
    _, p, s, kind, ukind, k, depth = case
    pre = max(p, s)
    i = 0
    for n in (1, 2, 5, 8):
        X = series(kind, n + pre, p + s + n)
        u = series(ukind, n + pre, 3 * p + n) if ukind else None
        calls = ('same', 'short', 'long', 'one', 'refit')
        for seq in itertools.product(calls, repeat=depth):
            if 'refit' in seq[:1] and seq.count('refit') > 1:
                continue
            i += 1
            if n != 5 and i % 4:
                continue
            log = []
            clf = Classifier(k, log)
            model = ClusterPWVARX(k, p, s=s, include_trend=bool(i % 2),
                                  clusterer=Clusterer(k, log),
                                  classifier=clf)
            kw = {} if u is None else {'exog': c27.present(u, ukind)}
            if i % 3:
                labels = model.fit_transform(c27.present(X, kind), **kw)
            else:
                model.fit(c27.present(X, kind), **kw)
                labels = clf.rule(log[-1][1])
            columns = check_fit(r, X, u, p, s, log, labels, clf.rule, k=k)
            r.step()
            here = (X, u)
            first = np.array(labels)
            for call in seq:
                r.state(p, s, kind, ukind, k, n, call)
                r.step()
                r.trace()
                del log[:]
                if call == 'refit':
                    here = (series(kind, n + pre + 1, 7 + i % 3),
                            series(ukind, n + pre + 1, 9) if ukind else None)
                    first = np.array(model.fit_transform(
                        c27.present(here[0], kind),
                        **({} if u is None else
                           {'exog': c27.present(here[1], ukind)})))
                    check_fit(r, here[0], here[1], p, s, log, first,
                              clf.rule, k=k)
                    continue
                if call == 'same':
                    Y, v = here
                else:
                    m = pre + {'short': 2, 'long': 11, 'one': 1}[call]
                    Y = series(kind, m, 5)
                    v = series(ukind, m, 6) if ukind else None
                out = model.transform(
                    c27.present(Y, kind),
                    **({} if v is None else
                       {'exog': c27.present(v, ukind)}))
                used = [e for e in log]
                r.require(len(used) == 1 and used[0][0] == 'predict',
                          'transform does more than classify',
                          calls=[e[0] for e in used])
                x = lagged(Y, v, p, s)
                r.require(same(used[0][1], x), 'transform does not classify '
                          'the lagged values', got=used[0][1], want=x)
                r.require(np.array_equal(out, clf.rule(used[0][1])),
                          'transform does not return the labels of the '
                          'fitted classifier', got=out)
                if call == 'same':
                    r.require(np.array_equal(out, first), 'transforming the '
                              'training data does not reproduce the labels '
                              'of the fit', got=out, want=first)


def sklearn_case(c, r, wide=False):
    from reor.pwvarx import ClusterPWVARX
    from sklearn.cluster import AgglomerativeClustering, KMeans
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.svm import SVC
    n = (10, 14, 25, 40)[c % 4]
    d = (1, 2, 3)[c // 4 % 3]
    k = (2, 1, 3, 4)[c // 3 % 4]
    p = (1, 2, 3)[c // 5 % 3]
    s = (0, 1, 2)[c // 7 % 3]
    q = (1, 2, 0)[c // 2 % 3]
    if wide:
        n = (60, 140, 90)[c % 3]
        d = (3, 4, 2, 5)[c % 4]
        k = (5, 2, 7, 3)[c // 2 % 4]
        p = (5, 1, 2, 4)[c // 3 % 4]
        s = (3, 0, 6, 1)[c // 5 % 4]
        q = (d, 3, 4, 1)[c // 7 % 4]
    X = lattice.pattern((n, d), c, 2.0) + \
        np.where(np.arange(n) % 7 < 3, 4.0, 0.0)[:, None]
    u = lattice.pattern((n, q), c + 5, 2.0) if q else None
    kw = {} if u is None else {'exog': u}
    which = c // 6 % 3
    x = lagged(X, u, p, s)
    y = X[max(p, s):]
    if which == 0:
        model = ClusterPWVARX(k, p, s=s, random_state=c)
        clusters = KMeans(n_clusters=k, random_state=c).fit_predict(
            np.hstack([x, y]))
        ref = SVC()
    elif which == 1:
        ref = KNeighborsClassifier(2)
        model = ClusterPWVARX(
            k, p, s=s, clusterer=AgglomerativeClustering(n_clusters=k),
            classifier=KNeighborsClassifier(2))
        clusters = AgglomerativeClustering(n_clusters=k).fit_predict(
            np.hstack([x, y]))
    else:
        ref = SVC(kernel='linear')
        model = ClusterPWVARX(
            k, p, s=s, random_state=c, classifier=SVC(kernel='linear'),
            clusterer=KMeans(n_clusters=k, random_state=3, n_init=1))
        clusters = KMeans(n_clusters=k, random_state=3, n_init=1).fit_predict(
            np.hstack([x, y]))
    if len(set(clusters)) == 1:
        if which == 2:
            return
        predict = lambda z: np.full(len(z), clusters[0])
    else:
        predict = ref.fit(x, clusters).predict
    got = np.array(model.fit_transform(X, **kw))
    want = predict(x)
    r.require(np.array_equal(got, want), 'fit does not return the labels of '
              'the classifier trained on the clusters', got=got, want=want,
              problem=c)
    for m, shift in ((n, None), (n - 2, 0), (n, 1), (max(p, s) + 1, 2)):
        Y = X if shift is None else lattice.pattern((m, d), c + shift, 3.0)
        v = u if shift is None else (
            lattice.pattern((m, q), c + shift + 7) if q else None)
        out = model.transform(Y, **({} if v is None else {'exog': v}))
        want = predict(lagged(Y, v, p, s))
        r.require(np.array_equal(out, want), 'transform does not apply the '
                  'fitted classifier to the lagged values', got=out,
                  want=want, problem=c, training=shift is None)
        r.state(Y, v, p, s, out)
        r.step()
        r.trace()
