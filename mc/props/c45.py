"""C45: every well-formed problem is served, with finite results."""

import itertools

import numpy as np

from mc import lattice, ref
from mc.props import c39

PROP = 'C45'
BOUNDS = {
    'quick': 'all matrices over {0,1} of 1..4 samples of one and 1..2 samples '
             'of 2 features, and 13 families of special data '
             '(zero, constant, equal samples, one sample apart, alternating, '
             'vanishing or dependent features, far from the origin, of '
             'magnitude 1e-150..1e120) of 1, 2, 4, 8 samples of 1 or 3 '
             'features x 1, 2, 3, 5 components x every model, every way of '
             'starting, with and without penalties, relaxation, '
             'total-variation bound, memories, lags longer than the data '
             'included x 25 iterations at zero tolerance (FEM-BV 2); then '
             'all later calls',
    'thorough': 'as quick with 1, 2, 3, 5, 8 samples of 1..3 features, all '
                'matrices over {0,1} of up to 4 samples of 2 features and over {-1,0,1} of up to 4 samples of one, '
                'and 120 iterations (FEM-BV 4)',
}
CASE_LIMIT = 300
CHUNK = 4
FAMILIES = ('zero', 'ones', 'equal', 'first', 'alternating', 'column',
            'dependent', 'far', 'huge', 'tiny', 'outlier', 'integers',
            'ramp')


def family(name, n, d):
    base = np.tile([[0.0], [1.0], [-1.0]], ((n + 2) // 3, d))[:n]
    ramp = np.arange(n * d, dtype=float).reshape(n, d)
    wave = lattice.pattern((n, d), n + 3 * d, 2.0)
    if name == 'zero':
        return np.zeros((n, d))
    if name == 'ones':
        return np.ones((n, d))
    if name == 'equal':
        return np.tile(np.arange(d) - 0.7, (n, 1))
    if name == 'first':
        return np.vstack([np.ones((1, d)), np.zeros((n - 1, d))])
    if name == 'alternating':
        return np.tile([[0.0], [1.0]], ((n + 1) // 2, d))[:n]
    if name == 'column':
        wave[:, -1] = 0.0
        return wave
    if name == 'dependent':
        wave[:, -1] = 2.0 * wave[:, 0] - 3.0
        return wave
    if name == 'far':
        return wave + 1e6
    if name == 'huge':
        return 1e120 * base
    if name == 'tiny':
        return 1e-150 * base
    if name == 'outlier':
        wave[-1] = 1e5
        return wave
    if name == 'integers':
        return (3 * base + ramp % 4).astype('i8')
    return ramp


def data_of(source):
    if source[0] == 'all':
        _, n, d, values, code = source
        digits = []
        for _ in range(n * d):
            digits.append(values[code % len(values)])
            code //= len(values)
        return np.array(digits, dtype=float).reshape(n, d)
    return family(*source)


def sources(big):
    shapes = [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2)]
    if big:
        shapes += [(3, 2), (4, 2)]
    for n, d in shapes:
        for code in range(2 ** (n * d)):
            yield ('all', n, d, (0.0, 1.0), code)
    if big:
        for n in (2, 3, 4):
            for code in range(3 ** n):
                yield ('all', n, 1, (-1.0, 0.0, 1.0), code)
    for name, n, d in itertools.product(
            FAMILIES, (1, 2, 3, 5, 8) if big else (1, 2, 4, 8),
            (1, 2, 3) if big else (1, 3)):
        yield (name, n, d)


KINDS = ('KernelAA', 'AA', 'GPNH', 'MTD', 'CROM', 'FEMKMeans', 'FEMVARX',
         'Markov', 'PWVARX')


def cases(tier):
    big = tier == 'thorough'
    for source in sources(big):
        for kind in KINDS:
            yield (kind, source, big)


def finite(r, what, value, **where):
    if value is None:
        return
    r.require(np.all(np.isfinite(np.asarray(value, dtype=float))),
              'a well-formed problem gives a result that is not finite: ' +
              what, got=value, **where)


def stochastic(r, what, W, shape, **where):
    W = np.asarray(W)
    r.require(W.shape == shape and ref.is_rows_stochastic(W),
              'a well-formed problem gives invalid ' + what, got=W, **where)


def factorisations(kind, k, m):
    from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
    from reor.gpnh_convex_coding import GPNHConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    from reor.mtd_convex_coding import MTDConvexCoding
    cls, options = {
        'KernelAA': (KernelAA, ({}, {'delta': 0.4})),
        'AA': (ArchetypalAnalysis, ({}, {'delta': 0.4})),
        'GPNH': (GPNHConvexCoding, ({}, {'epsilon_states': 0.7})),
        'MTD': (MTDConvexCoding, (
            {'lags': [1]}, {'lags': [2, 1], 'epsilon_weights': 1.5},
            {'lags': [6], 'epsilon_weights': 0.5, 'epsilon_states': 0.7})),
        'CROM': (GPNHConvexCodingCROM, (
            {'lags': [1]}, {'lags': [3, 1], 'epsilon_states': 0.7},
            {'lags': [9]})),
    }[kind]
    for cfg in options:
        for init in ('random', 'furthest_sum', None, 'custom'):
            yield cfg, init, lambda: cls(
                k, init=init, max_iterations=m, tolerance=0, random_state=k,
                **cfg)


def custom(kind, n, d, k, lags):
    L = 1 if lags is None else len(lags)
    start = {'weights': lattice.pattern_simplex(n, k, 1),
             'dictionary': lattice.pattern_simplex(k, n, 2)
             if kind in ('KernelAA', 'AA') else
             lattice.pattern((k, d), 3, 1.0)}
    if kind == 'MTD':
        start['order_weights'] = lattice.pattern_simplex(1, L, 4)[0]
        start['transition_matrices'] = np.stack([
            lattice.pattern_simplex(k, k, 5 + a).T for a in range(L)])
    return start


def run_factorisation(r, kind, source, X, k, m):
    n, d = X.shape
    data = X
    if kind == 'KernelAA':
        data = X.dot(X.T)
    for cfg, init, build in factorisations(kind, k, m):
        if k > n and init in ('furthest_sum', None):
            continue  # as many different samples are selected
        start = custom(kind, n, d, k, cfg.get('lags')) \
            if init == 'custom' else {}
        where = dict(model=kind, source=source, components=k, init=init,
                     **cfg)

        def go():
            model = build()
            W = np.array(model.fit_transform(data, **start))
            out = {'dictionary': model.dictionary_, 'cost': model.cost_,
                   'transition matrices': getattr(
                       model, 'transition_matrices', None),
                   'lag weights': getattr(model, 'order_weights', None)}
            out = {a: None if v is None else np.array(v)
                   for a, v in out.items()}
            later = np.array(model.transform(data))
            if kind != 'KernelAA':
                out['decoded'] = np.array(model.inverse_transform(later))
            return W, later, out
        W, later, out = c39.quietly(go)
        r.step(3)
        stochastic(r, 'weights', W, (n, k), **where)
        stochastic(r, 'transformed weights', later, (n, k), **where)
        for name, value in out.items():
            finite(r, name, value, **where)
        r.require(out['cost'] >= -1e-9 * (1 + np.abs(
            data.astype(float)).max() ** 2), 'the cost is negative',
            cost=out['cost'], **where)
        r.state(kind, source, k, init, cfg, np.round(W, 6))


def run_fembv(r, kind, source, X, k, m):
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    n, d = X.shape
    u = lattice.pattern((n, 2), 5, 1.0)
    for tv in (None, 0.5, 2.0):
        for init in ('random', 'custom'):
            for memory in ((None,) if kind == 'FEMKMeans' else (0, 1, 2)):
                for exog in ((False,) if kind == 'FEMKMeans' else
                             (False, True)):
                    if exog and (memory == 2 or tv == 0.5):
                        continue
                    top = memory or 0
                    if n <= top + (tv is not None):
                        continue
                    if kind == 'FEMKMeans' and init == 'random' and k > n:
                        continue  # as many different samples are selected
                    W = lattice.pattern_simplex(n - top, k, 3)
                    if kind == 'FEMKMeans':
                        def build():
                            return FEMBVKMeans(k, tv, init=init,
                                               max_iterations=m,
                                               tolerance=0, random_state=k)
                        start = {'parameters': lattice.pattern((k, d), 3)}
                    else:
                        def build():
                            return FEMBVVARX(k, tv, memory=memory, init=init,
                                             max_iterations=m, tolerance=0,
                                             random_state=k)
                        start = {'parameters': {
                            'mu': lattice.pattern((k, d), 3),
                            'A': lattice.pattern((k, top, d, d), 4, 0.5)}}
                        if not top:
                            del start['parameters']['A']
                        if exog:
                            start['parameters']['B0'] = lattice.pattern(
                                (k, d, 2), 6)
                    start['weights'] = W
                    if init != 'custom':
                        start = {}
                    if exog:
                        start['external_factors'] = u
                    where = dict(model=kind, source=source, components=k,
                                 init=init, tv=tv, memory=memory, exog=exog)

                    def go():
                        model = build()
                        G = np.array(model.fit_transform(X, **start))
                        out = {'cost': model.cost_}
                        for a in ('Theta', 'mu', 'A', 'B0'):
                            out[a] = getattr(model, a, None)
                        out = {a: None if v is None else np.array(v)
                               for a, v in out.items()}
                        later = np.array(model.transform(
                            X, **({'external_factors': u} if exog else {})))
                        return G, later, out
                    G, later, out = c39.quietly(go)
                    r.step(2)
                    for name, value in (('affiliations', G),
                                        ('later affiliations', later)):
                        r.require(
                            value.shape == (n - top, k) and
                            np.all(value >= 0) and np.allclose(
                                value.sum(axis=1), 1, atol=1e-4),
                            'a well-formed problem gives invalid ' + name,
                            got=value, **where)
                    for name, value in out.items():
                        finite(r, name, value, **where)
                    r.state(kind, source, k, tv, init, memory, exog,
                            np.round(G, 3))


def run_markov(r, kind, source, X, k, m):
    from reor.crom import KMeansMarkovCROM
    n, d = X.shape
    if k > n:
        return
    for weights in (None, np.arange(1.0, n + 1)):
        where = dict(model=kind, source=source, components=k,
                     weighted=weights is not None)

        def go():
            model = KMeansMarkovCROM(k, random_state=0, n_init=1,
                                     max_iter=m)
            labels = np.array(model.fit_predict(X, sample_weight=weights))
            return labels, {
                'transition matrix': np.array(model.transition_matrix_),
                'centres': np.array(model.cluster_centers_),
                'inertia': model.inertia_,
                'distances': np.array(model.transform(X)),
                'now': np.array(model.predict(X)),
                'ahead': np.array(model.predict(X, horizon=5))}
        labels, out = c39.quietly(go)
        r.step(4)
        r.require(labels.shape == (n,) and set(labels.tolist()) <= set(
            range(k)), 'invalid labels', got=labels, **where)
        for name, value in out.items():
            finite(r, name, value, **where)
        for name in ('now', 'ahead'):
            stochastic(r, 'distributions', out[name], (n, k), **where)
        r.require(ref.is_cols_stochastic(out['transition matrix']),
                  'invalid transition matrix',
                  got=out['transition matrix'], **where)
        r.state(kind, source, k, labels, np.round(
            out['transition matrix'], 6))


def run_pwvarx(r, kind, source, X, k, m):
    from reor.pwvarx import ClusterPWVARX
    n, d = X.shape
    u = lattice.pattern((n, 1), 2, 1.0)
    for p, s in ((0, 1), (1, 0), (2, 0), (1, 2)):
        top = max(p, s)
        if n - top < max(k, 1):
            continue
        for trend in (True, False):
            where = dict(model=kind, source=source, components=k, p=p, s=s,
                         trend=trend)
            exog = u if s else None

            def go():
                model = ClusterPWVARX(k, p, s=s, include_trend=trend,
                                      random_state=0, max_iterations=m)
                labels = np.array(model.fit_transform(X, exog=exog))
                out = {a: getattr(model, a) for a in ('mu', 'A', 'B',
                                                      'residuals')}
                out = {a: None if v is None else np.array(v)
                       for a, v in out.items()}
                return labels, np.array(model.transform(X, exog=exog)), out
            labels, later, out = c39.quietly(go)
            r.step(2)
            for name, value in (('labels', labels), ('later', later)):
                r.require(value.shape == (n - top,) and set(
                    value.tolist()) <= set(range(k)), 'invalid labels',
                    got=value, **where)
            for name, value in out.items():
                finite(r, name, value, **where)
            r.state(kind, source, k, p, s, trend, labels)


def run(case, r):
    kind, source, big = case
    X = data_of(source)
    fem = kind.startswith('FEM')
    m = (4 if big else 2) if fem else (120 if big else 25)
    for k in (1, 2, 3, 5):
        if kind in ('KernelAA', 'AA', 'GPNH', 'MTD', 'CROM'):
            run_factorisation(r, kind, source, X, k, m)
        elif fem:
            run_fembv(r, kind, source, X, k, m)
        elif kind == 'Markov':
            run_markov(r, kind, source, X, k, m)
        else:
            run_pwvarx(r, kind, source, X, k, m)
    r.trace()
