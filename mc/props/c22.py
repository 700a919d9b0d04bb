"""C22: the local VARX model is the weighted least-squares fit."""

import itertools

import numpy as np

from mc import lattice, varx

PROP = 'C22'
BOUNDS = {
    'quick': 'every series over {-1,0,2} of 2..5 samples, VAR orders 0..2, '
             'every weight vector over {0,1,2.5} for up to 4 samples (36 '
             'each for 5) and no weights; 900 patterned problems: up to 3 '
             'features, 2 exogenous series, orders 0..3 and 0..3, up to 25 '
             'samples, weights none/zero/partly zero/tiny, noise-free '
             'recoveries, constant and linear data; 200 larger ones (up to 5 '
             'features, 5 exogenous series, orders to 7 and 8, 200 samples)',
    'thorough': 'as quick with 6 samples and 6000 patterned problems',
}


def cases(tier):
    big = tier == 'thorough'
    for n in range(2, 7 if big else 6):
        for i in range(3 ** n):
            yield ('grid', n, i)
    for p in range(6000 if big else 900):
        yield ('pattern', p)
    for p in range(2000 if big else 200):
        yield ('wide', p)


def verify(r, model, X, u, weights, p, s, **ctx):
    n, d = X.shape
    q = u.shape[1] if u is not None else 0
    pre = max(p, s if u is not None else 0)
    lag_s = s if u is not None else 0
    mu = np.asarray(model.mu)
    r.require(mu.shape == (d,) and np.all(np.isfinite(mu)),
              'intercept missing or not finite', mu=mu, **ctx)
    A, B, B0 = model.A, model.B, model.B0
    r.require((A is None) == (p == 0) and (A is None or
              np.shape(A) == (p, d, d)), 'wrong shape of A', **ctx)
    r.require((B0 is None) == (u is None) and (B0 is None or
              np.shape(B0) == (d, q)), 'wrong shape of B0', **ctx)
    r.require((B is None) == (lag_s == 0) and (B is None or
              np.shape(B) == (lag_s, d, q)), 'wrong shape of B', **ctx)
    res = np.asarray(model.residuals)
    r.require(res.shape == X.shape, 'wrong shape of residuals', **ctx)
    times = list(range(pre, n))
    size = 1 + np.abs(X).max() + sum(np.abs(c).max() * np.abs(v).max()
                                     for c, v in ((A, X), (B, u), (B0, u))
                                     if c is not None)
    for t in times:
        e = X[t] - varx.predict(X, u, t, mu, A, B, B0)
        if not np.allclose(res[t], e, atol=1e-9 * size, rtol=1e-9):
            r.fail('residuals are not what the coefficients leave', time=t,
                   residual=res[t], want=e, X=X, u=u, p=p, s=s, mu=mu, A=A,
                   B=B, B0=B0, **ctx)
    w = np.ones(n) if weights is None else weights
    varx.check_optimal(r, X, u, times, w, {t: res[t] for t in times}, p,
                       lag_s, True,
                       'coefficients do not minimise the weighted squared '
                       'error', size=size - 1, **ctx)
    covariance(r, model, res[pre:], weights, w[pre:],
               n - pre - p * d - 1 - q * (1 + lag_s), **ctx)
    r.state(X, u, weights, p, s, mu)
    r.step()
    r.trace()


def covariance(r, model, E, weights, w, df, **ctx):
    """Residual cross product per degree of freedom."""
    if weights is None:
        den = float(df)
    else:
        den = float(w.sum() - 1)
    if den < 1e-6:
        return
    want = E.T.dot(w[:, None] * E) / den
    r.close(model.Sigma_u, want, 'residual covariance', rtol=1e-7,
            atol=1e-9 * (np.abs(want).max() + 1e-9), weights=w, **ctx)


def run(case, r):
    from reor.fembv_varx import FEMBVVARXLocalLinearModel as Local
    if case[0] == 'grid':
        _, n, i = case
        X = lattice.nth_grid(i, (-1.0, 0.0, 2.0), (n, 1))
        for p in range(0, min(3, n)):
            model = Local(X, p=p)
            model.fit()
            verify(r, model, X, None, None, p, 0)
            ws = list(itertools.product((0.0, 1.0, 2.5), repeat=n))
            if n >= 5:
                ws = ws[(i + p) % 7::max(len(ws) // 36, 1)]
            for w in ws[::1 if n < 4 else 2]:
                w = np.array(w)
                model = Local(X, p=p)
                model.fit(weights=w)
                verify(r, model, X, None, w, p, 0)
        return
    name, c = case
    n = (4, 6, 9, 14, 25)[c % 5]
    d = (1, 2, 3)[c // 5 % 3]
    p = (0, 1, 2, 3)[c // 2 % 4]
    q = (0, 1, 2)[c // 3 % 3]
    s = (0, 1, 2, 3)[c // 7 % 4] if q else 0
    if name == 'wide':
        n = (30, 70, 130, 12)[c % 4]
        d = (1, 4, 3, 2, 5)[c % 5]
        p = (0, 1, 5, 7, 2)[c // 2 % 5]
        q = (3, 4, 1, 5, 0, d)[c // 3 % 6]
        s = (0, 1, 5, 2, 8)[c // 5 % 5] if q else 0
    n = max(n, max(p, s) + 1)
    X = lattice.pattern((n, d), c, (1.0, 1e3, 1e-2, 1e7, 1e-7)[c % 5])
    u = lattice.pattern((n, q), c + 5, 2.0) if q else None
    kind = c // 4 % 5
    exact = None
    if kind == 1:
        X = np.round(X * 2)
    elif kind == 2:
        X = np.zeros((n, d)) + 1.5
    elif kind == 3:
        X = np.outer(np.arange(n), np.ones(d))
    elif kind == 4:
        # noise-free realisation of known coefficients
        n = max(n, 20 if name == 'pattern' else 200)
        u = lattice.pattern((n, q), c + 5, 2.0) if q else None
        mu = lattice.pattern((d,), c)
        A = lattice.pattern((p, d, d), c + 1, 0.6 / max(p * d, 1))
        B = lattice.pattern((s, d, max(q, 1)), c + 2)
        B0 = lattice.pattern((d, max(q, 1)), c + 3)
        X = lattice.pattern((n, d), c, (3.0, 3e4, 3e-4)[c % 3])
        for t in range(max(p, s), n):
            X[t] = varx.predict(X, u, t, mu, A, B if s else None,
                                B0 if q else None)
        exact = (mu, A, B, B0)
    for w in (None, np.ones(n), np.abs(lattice.pattern((n,), c)),
              np.abs(lattice.pattern((n,), c)) *
              (lattice.pattern((n,), c + 1) > 0), np.zeros(n),
              np.eye(n)[-1], np.full(n, 1e-3)):
        kw = {} if u is None else {'u': u, 's': s}
        model = Local(X, p=p, **kw)
        model.fit(**({} if w is None else {'weights': w}))
        verify(r, model, X, u, w, p, s, case=c)
        if exact is not None and (w is None or w.min() > 1e-4):
            pre = max(p, s)
            Z = np.array([varx.regressors(X, u, t, p, s, True)
                          for t in range(pre, n)])
            sv = np.linalg.svd(Z, compute_uv=False)
            if len(sv) == Z.shape[1] <= Z.shape[0] and \
                    sv[-1] > 1e-4 * sv[0]:
                tol = 1e-6
                r.close(model.mu, exact[0], 'intercept not recovered',
                        atol=tol, case=c)
                if p:
                    r.close(model.A, exact[1], 'coefficients not recovered',
                            atol=tol, case=c)
                if s:
                    r.close(model.B, exact[2], 'lagged exogenous '
                            'coefficients not recovered', atol=tol, case=c)
                if q:
                    r.close(model.B0, exact[3], 'exogenous coefficients not '
                            'recovered', atol=tol, case=c)
