"""C43: special cases of one model are the other model."""

import numpy as np

from mc import lattice, spaces
from mc.props import c39

PROP = 'C43'
BOUNDS = {
    'quick': '30 problems (5..40 samples, 1..5 features, 2..6 components) x '
             '1..12 iterations (FEM-BV 1..3) from custom starts: archetypal '
             'analysis of data and of its kernel (linear and two kernel '
             'functions, with and without relaxation); MTD without the '
             'dynamics penalty, the reduced-order model and GPNH; '
             'FEM-BV-VARX without memory and FEM-BV k-means; unbounded '
             'FEM-BV k-means and cluster-Markov k-means; FEM-BV-VARX and '
             'piecewise VARX of one component (default and custom starts) and '
             'the local VARX fit; a FEM-BV '
             'fit stopped and continued from its results, and a longer '
             'one; '
             'tolerance 1e-8 (2e-5 through the linear programs)',
    'thorough': 'as quick with 90 problems and up to 40 (FEM-BV 8) '
                'iterations',
}
CASE_LIMIT = 300
CHUNK = 4
PAIRS = ('AA kernel', 'MTD GPNH', 'CROM GPNH', 'FEM-BV memoryless',
         'FEM-BV Lloyd', 'one regime', 'FEM-BV continued')
SIZES = c39.SIZES + ((9, 2, 2), (25, 3, 4))


def cases(tier):
    big = tier == 'thorough'
    for pair in PAIRS:
        fem = 'FEM' in pair or pair == 'one regime'
        deep = (8 if fem else 40) if big else (3 if fem else 12)
        for i in range(90 if big else 30):
            for m in range(1, deep + 1):
                if pair == 'one regime' and m > 1:
                    continue
                yield (pair, i, m)


def options(i):
    """Settings of the line search shared by two models."""
    return ({}, {'gamma': 0.3, 'sigma_two': 0.5}, {},
            {'alpha_min': 1e-2, 'alpha_max': 5.0, 'sigma_one': 0.3},
            {'step_size_tolerance': 1e-3, 'gamma': 0.6})[i % 5]


def size(i):
    return SIZES[i % len(SIZES)]


def factors(model, data, later, **start):
    W = model.fit_transform(data, **start)
    out = {'weights': np.array(W), 'dictionary': np.array(model.dictionary_),
           'cost': model.cost_, 'iterations': model.n_iter_}
    for name, given in later.items():
        model.random_state = np.random.RandomState(4)
        out[name] = np.array(model.transform(given))
    return out


def sides_aa(i, m):
    from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
    n, d, k = size(i)
    X = lattice.pattern((n, d), 5 * i + 1, 2.0)
    Y = lattice.pattern((n, d), 5 * i + 2, 2.0)
    start = spaces.pattern_start('AA', n, d, k, i)
    start = {a: start[a] for a in ('weights', 'dictionary')}
    kernel = (None, lambda Z: Z.dot(Z.T),
              lambda Z: np.exp(-0.3 * ((Z[:, None] - Z[None]) ** 2).sum(2)),
              lambda Z: (1 + Z.dot(Z.T)) ** 2)[i % 4]
    of = kernel or (lambda Z: Z.dot(Z.T))
    cfg = dict(delta=(0, 0.2, 0.5)[i // 4 % 3], init='custom',
               max_iterations=m, tolerance=0,
               require_monotonic_cost_decrease=False, **options(i))
    a = factors(ArchetypalAnalysis(k, kernel_func=kernel, **cfg), X,
                {'later': X, 'new data': Y}, **start)
    b = factors(KernelAA(k, **cfg), of(X),
                {'later': of(X), 'new data': of(Y)}, **start)
    return a, b


def sides_gpnh(i, m, other):
    from reor.gpnh_convex_coding import GPNHConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    from reor.mtd_convex_coding import MTDConvexCoding
    n, d, k = size(i)
    n = max(n, 9)
    lags = ((1,), (1, 2), (3, 1), (2,), (1, 2, 4))[i % 5]
    X = lattice.pattern((n, d), 5 * i + 1, 2.0)
    Y = lattice.pattern((n, d), 5 * i + 2, 2.0)
    start = spaces.pattern_start('MTD', n, d, k, i, lags)
    two = {a: start[a] for a in ('weights', 'dictionary')}
    cfg = dict(epsilon_states=(0, 0.3, 2.0)[i // 2 % 3], init='custom',
               max_iterations=m, tolerance=0,
               line_search_memory=(1, 4)[i // 3 % 2],
               require_monotonic_cost_decrease=False, **options(i))
    a = factors(GPNHConvexCoding(k, **cfg), X, {'later': X, 'new data': Y},
                **two)
    if other == 'MTD':
        model, start = MTDConvexCoding(
            k, epsilon_weights=0, lags=list(lags), **cfg), {
                name: start[name] for name in (
                    'weights', 'dictionary', 'order_weights',
                    'transition_matrices')}
    else:
        model, start = GPNHConvexCodingCROM(
            k, lags=list(lags), random_state=3, **cfg), two
    return a, factors(model, X, {'later': X, 'new data': Y}, **start)


def sides_memoryless(i, m):
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    n, d, k = size(i)
    X = lattice.pattern((n, d), 5 * i + 3, 2.0)
    Y = lattice.pattern((n, d), 5 * i + 4, 2.0)
    Theta = lattice.pattern((k, d), i + 3, 2.0)
    W = lattice.pattern_simplex(n, k, i)
    if i // 2 % 3 == 1:  # nearly hard
        W = np.where(W == W.max(axis=1, keepdims=True), 1.0, 4e-3 * W)
        W /= W.sum(axis=1, keepdims=True)
    elif i // 2 % 3 == 2:
        W = np.eye(k)[W.argmax(axis=1)]
        W[:k] = np.eye(k)[:n]
    out = []
    frozen = {1: {'update_parameters': False},
              2: {'update_weights': False}}.get(i // 3 % 4, {})
    for cls, par in ((FEMBVKMeans, Theta), (FEMBVVARX, {'mu': Theta})):
        model = cls(k, (None, 1.5, 3.0)[i % 3], init='custom',
                    max_iterations=m, tolerance=0)
        G = model.fit_transform(X, parameters=par, weights=W, **frozen)
        out.append({'weights': np.array(G), 'cost': model.cost_,
                    'iterations': model.n_iter_,
                    'centres': np.array(getattr(model, 'Theta', None)
                                        if cls is FEMBVKMeans else model.mu)})
        if not frozen:
            out[-1]['new data'] = np.array(model.transform(Y))
    return out


def sides_lloyd(i, m):
    from reor.crom import KMeansMarkovCROM
    from reor.fembv_kmeans import FEMBVKMeans
    n, d, k = size(i)
    n = n + 10
    X = lattice.pattern((n, d), 5 * i + 3, 2.0)
    # one centre in each of k groups keeps every cluster populated
    X += 3.0 * (np.arange(n) * 7 // 3 % k)[:, None]
    centres = X[[int(np.flatnonzero(np.arange(n) * 7 // 3 % k == a)[0])
                 for a in range(k)]] + 0.05
    nearest = ((X[:, None] - centres[None]) ** 2).sum(2).argmin(1)
    model = KMeansMarkovCROM(k, init=centres, n_init=1, max_iter=m, tol=0)
    model.fit(X)
    if len(set(model.labels_.tolist())) < k:
        return None
    a = {'weights': np.eye(k)[model.labels_],
         'centres': np.array(model.cluster_centers_),
         'cost': model.inertia_}
    other = FEMBVKMeans(k, None, init='custom', max_iterations=m, tolerance=0)
    G = other.fit_transform(X, parameters=centres, weights=np.eye(k)[nearest])
    return a, {'weights': np.array(G), 'centres': np.array(other.Theta),
               'cost': other.cost_}


def sides_regime(i, m):
    from reor.fembv_varx import FEMBVVARX, FEMBVVARXLocalLinearModel
    from reor.pwvarx import ClusterPWVARX
    n, d, _ = size(i)
    d, n, p, exog = min(d, 3), n + 25, i % 4, (i // 2) % 3
    X = lattice.pattern((n, d), 5 * i + 6, 2.0)
    u = lattice.pattern((n, exog), i + 6, 1.0) if exog else None
    local = FEMBVVARXLocalLinearModel(X, p=p, u=u)
    local.fit()
    model = FEMBVVARX(1, (None, 2.0)[i % 2], memory=(p, [p])[i % 2],
                      max_iterations=1 + i % 3, random_state=0)
    model.fit(X, **({} if u is None else {'external_factors': u}))
    start = {'mu': lattice.pattern((1, d), i, 2.0)}
    if p:
        start['A'] = lattice.pattern((1, p, d, d), i, 1.0)
    if u is not None:
        start['B0'] = lattice.pattern((1, d, exog), i, 1.0)
    other = FEMBVVARX(1, memory=p, init='custom', max_iterations=1 + i % 2)
    other.fit(X, parameters=start, weights=np.ones((n - p, 1)),
              **({} if u is None else {'external_factors': u}))
    a = {'mu': np.array(local.mu), 'custom mu': np.array(local.mu),
         'custom cost': (local.residuals[p:] ** 2).sum()}
    b = {'mu': np.array(model.mu[0]), 'custom mu': np.array(other.mu[0]),
         'custom cost': other.cost_}
    if p:
        a['A'], b['A'] = np.array(local.A), np.array(model.A[0])
    if u is not None:
        a['B0'], b['B0'] = np.array(local.B0), np.array(model.B0[0])
    a['cost'] = (local.residuals[p:] ** 2).sum()
    b['cost'] = model.cost_
    if u is None:
        pw = ClusterPWVARX(1, p, random_state=0)
        labels = pw.fit_transform(X)
        a.update({'PW mu': local.mu, 'PW Sigma': local.Sigma_u,
                  'PW residuals': local.residuals[p:],
                  'PW labels': np.zeros(n - p)})
        b.update({'PW mu': pw.mu[0], 'PW Sigma': pw.Sigma_u[0],
                  'PW residuals': pw.residuals, 'PW labels': labels})
        if p:
            a['PW A'], b['PW A'] = local.A, pw.A[0]
    return a, b


def sides_continued(i, m):
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    n, d, k = size(i)
    n, d, k = max(n, 12), min(d, 3), min(k, 4)
    X = lattice.pattern((n, d), 5 * i + 3, 2.0)
    W = lattice.pattern_simplex(n, k, i)
    tv = (None, 1.5, 3.0)[i % 3]
    if i % 2:
        make, exog = (lambda m: FEMBVKMeans(
            k, tv, init='custom', max_iterations=m, tolerance=0)), {}
        start = lattice.pattern((k, d), i + 3, 2.0)
    else:
        memory = [(a + i // 2) % 3 for a in range(k)]
        top = max(memory)
        W = W[top:]
        start = {'mu': lattice.pattern((k, d), i + 3, 2.0),
                 'A': lattice.pattern((k, top, d, d), i + 4, 0.8)}
        for a, own in enumerate(memory):
            start['A'][a, own:] = 0
        exog = {}
        if i % 4:
            exog['external_factors'] = lattice.pattern((n, 2), i, 1.0)
            start['B0'] = lattice.pattern((k, d, 2), i + 5, 1.0)
        make = (lambda m: FEMBVVARX(
            k, tv, memory=memory, init='custom', max_iterations=m,
            tolerance=0))

    def state(model, G):
        par = model.Theta if i % 2 else dict(
            {'mu': model.mu, 'A': model.A},
            **({'B0': model.B0} if exog else {}))
        return dict(parameters=par, weights=G, **exog)

    def outcome(model, G):
        out = state(model, G)
        par = out['parameters']
        par = par if isinstance(par, dict) else {'Theta': par}
        return dict({name: np.array(v) for name, v in par.items()},
                    weights=np.array(G), cost=model.cost_)
    whole = make(m + 1)
    a = outcome(whole, whole.fit_transform(X, **dict(
        parameters=start, weights=W, **exog)))
    begun, rest = make(m), make(1)
    at = state(begun, begun.fit_transform(X, **dict(
        parameters=start, weights=W, **exog)))
    return a, outcome(rest, rest.fit_transform(X, **at))


def sides(pair, i, m):
    return {'AA kernel': lambda: sides_aa(i, m),
            'MTD GPNH': lambda: sides_gpnh(i, m, 'MTD'),
            'CROM GPNH': lambda: sides_gpnh(i, m, 'CROM'),
            'FEM-BV memoryless': lambda: sides_memoryless(i, m),
            'FEM-BV Lloyd': lambda: sides_lloyd(i, m),
            'FEM-BV continued': lambda: sides_continued(i, m),
            'one regime': lambda: sides_regime(i, m)}[pair]()


def run(case, r):
    pair, i, m = case
    both = c39.quietly(lambda: sides(pair, i, m))
    if both is None:
        return
    a, b = both
    tol = 2e-5 if pair.startswith('FEM-BV') else 1e-8
    for name in a:
        x, y = np.asarray(a[name], float), np.asarray(b[name], float)
        r.step()
        scale = np.nanmax(np.abs(x)) if x.size else 0
        if x.shape != y.shape or not np.allclose(
                x, y, rtol=0, atol=tol * (1 + scale), equal_nan=True):
            r.fail('two models of the same problem differ in ' + name,
                   pair=pair, problem=i, iterations=m, one=x, other=y)
        r.state(pair, i, m, name, np.round(x, 6))
    r.trace(2)
