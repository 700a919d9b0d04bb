"""C27: piecewise VARX fits one least-squares model per regime."""

import itertools

import numpy as np

from mc import lattice, varx

PROP = 'C27'
BOUNDS = {
    'quick': 'every assignment of up to 6 usable samples to 1..3 regimes '
             '(empty ones included), orders p, s in 0..2, trend on/off, '
             'one-dimensional, single-column and two-column series, no, '
             'one-dimensional and two-column exogenous input, three series '
             'each, imposed through stub clusterer and classifier; 400 '
             'patterned problems (up to 40 samples, 3 features, 4 regimes, '
             'orders to 3) with imposed and with default k-means/SVC regimes; 60 larger '
             'ones (up to 137 samples, 5 features, 7 regimes, orders to 7)',
    'thorough': 'as quick with 7 usable samples and 4000 patterned problems',
}


class Fixed:
    """Clusterer and classifier returning prescribed labels."""

    def __init__(self, labels):
        self.labels = np.asarray(labels)

    def fit_predict(self, z):
        return self.labels.copy()

    def fit(self, x, labels):
        return self

    def predict(self, x):
        return self.labels[:len(x)].copy()


def cases(tier):
    big = tier == 'thorough'
    for n in range(1, 8 if big else 7):
        for k in (1, 2, 3):
            if k ** n > (2187 if big else 300):
                continue
            for p, s in itertools.product(range(3), repeat=2):
                for form in range(6):
                    yield ('grid', n, k, p, s, form)
    for c in range(4000 if big else 400):
        yield ('pattern', c)
    for c in range(600 if big else 60):
        yield ('wide', c)


def verify(r, model, X, u, labels, k, p, s, trend, **ctx):
    """The fitted model has optimal coefficients in every regime."""
    n, d = X.shape
    q = u.shape[1] if u is not None and s else 0
    pre = max(p, s)
    mu, A, B = model.mu, model.A, model.B
    r.require((mu is None) == (not trend) and
              (mu is None or np.shape(mu) == (k, d)), 'wrong shape of mu',
              mu=mu, **ctx)
    r.require((A is None) == (p == 0) and
              (A is None or np.shape(A) == (k, p, d, d)),
              'wrong shape of A', A=A, **ctx)
    r.require((B is None) == (q == 0) and
              (B is None or np.shape(B) == (k, s, d, q)),
              'wrong shape of B', B=B, **ctx)
    res = np.asarray(model.residuals)
    r.require(res.shape == (n - pre, d), 'wrong shape of residuals',
              got=res.shape, want=(n - pre, d), **ctx)
    R = {}
    size = 1 + np.abs(X).max() + sum(
        np.abs(c).max() * np.abs(v).max()
        for c, v in ((A, X), (B, u)) if c is not None)
    for t in range(pre, n):
        a = labels[t - pre]
        coef = [c[a] if c is not None else None for c in (mu, A, B)]
        e = X[t] - varx.predict(X, u, t, coef[0] if trend else np.zeros(d),
                                coef[1], coef[2], None)
        if not np.allclose(res[t - pre], e, atol=1e-9 * size, rtol=1e-9):
            r.fail('residuals are not what the regime coefficients leave',
                   time=t, regime=a, residual=res[t - pre], want=e,
                   labels=labels, X=X, u=u, p=p, s=s, trend=trend, mu=mu,
                   A=A, B=B, **ctx)
        R[t] = e
    for a in range(k):
        times = [t for t in range(pre, n) if labels[t - pre] == a]
        varx.check_optimal(r, X, u if q else None, times,
                           np.ones(n), R, p, s if q else 0, False,
                           'regime coefficients do not minimise the squared '
                           'error over the samples of the regime',
                           trend=trend, size=size - 1, regime=a,
                           labels=labels, **ctx)
        df = len(times) - p * d - (1 if trend else 0) - q * s
        if df > 0:
            E = np.array([R[t] for t in times])
            want = E.T.dot(E) / df
            r.close(np.asarray(model.Sigma_u)[a], want, 'residual covariance '
                    'of a regime', atol=1e-7 * np.abs(X).max() ** 2 +
                    1e-13 * size * np.abs(E).max() * len(E),
                    rtol=1e-6, regime=a, labels=labels, X=X, u=u, **ctx)
    r.state(X, u, labels, p, s, trend)
    r.step()
    r.trace()


def present(M, kind):
    """One-dimensional or matrix form."""
    return M[:, 0].copy() if kind == '1d' else M.copy()


def run(case, r):
    from reor.pwvarx import ClusterPWVARX
    if case[0] == 'grid':
        _, n, k, p, s, form = case
        kind = ('1d', 'column', 'two')[form % 3]
        ukind = (None, '1d', 'two')[(form + p + s) % 3 if form < 3
                                    else (form + 1) % 3]
        pre = max(p, s)
        d = 2 if kind == 'two' else 1
        i = 0
        for labels in itertools.product(range(k), repeat=n):
            i += 1
            X = lattice.pattern((n + pre, d), i + p, 2.0)
            if i % 3 == 1:
                X = np.round(X)
            u = None
            if ukind:
                u = lattice.pattern((n + pre, 2 if ukind == 'two' else 1),
                                    i + 4)
            trend = bool((i + form // 3) % 2)
            stub = Fixed(labels)
            model = ClusterPWVARX(k, p, s=s, include_trend=trend,
                                  clusterer=stub, classifier=stub)
            out = model.fit_transform(
                present(X, kind),
                **({} if u is None else {'exog': present(u, ukind)}))
            r.require(np.array_equal(out, labels), 'labels of the classifier '
                      'are not returned', got=out, want=labels)
            verify(r, model, X, u, labels, k, p, s, trend)
        return
    name, c = case
    n = (8, 12, 20, 40)[c % 4]
    d = (1, 2, 3)[c // 4 % 3]
    k = (1, 2, 3, 4)[c // 3 % 4]
    p = (1, 0, 2, 3)[c // 5 % 4]
    s = (0, 1, 2, 3)[c // 7 % 4]
    q = (1, 2, 0)[c // 2 % 3]
    trend = bool(c // 11 % 2 == 0)
    if name == 'wide':
        n = (70, 130, 30)[c % 3]
        d = (3, 4, 1, 5)[c % 4]
        k = (5, 2, 7, 3, 1)[c % 5]
        p = (1, 5, 2, 0, 7)[c // 2 % 5]
        s = (3, 1, 6, 0, 2)[c // 3 % 5]
        q = (d, 3, 4, 1)[c // 5 % 4]
    pre = max(p, s)
    n += pre
    X = lattice.pattern((n, d), c, (1.0, 100.0, 1e-2, 1e6, 1e-6)[c // 2 % 5])
    u = lattice.pattern((n, q), c + 5, 2.0) if q else None
    kind = '1d' if d == 1 and c % 2 else 'matrix'
    ukind = '1d' if q == 1 and c // 2 % 2 else 'matrix'
    kw = {} if u is None else {'exog': present(u, ukind)}
    labels = np.array([int(abs(v) * 97) % k
                       for v in lattice.pattern((n - pre,), c + 2)])
    stub = Fixed(labels)
    model = ClusterPWVARX(k, p, s=s, include_trend=trend, clusterer=stub,
                          classifier=stub)
    model.fit(present(X, kind), **kw)
    verify(r, model, X, u, labels, k, p, s, trend, problem=c)
    if p or (s and q):
        # default regimes; two groups of samples which really differ
        X = X + np.where(np.arange(n) % 5 < 2, 3.0, 0.0)[:, None] * \
            np.abs(X).max()
        model = ClusterPWVARX(k, p, s=s, include_trend=trend, random_state=c)
        labels = np.array(model.fit_transform(present(X, kind), **kw))
        r.require(labels.shape == (n - pre,), 'wrong number of labels')
        verify(r, model, X, u, labels, k, p, s, trend, problem=c,
               default=True)
