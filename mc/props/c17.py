"""C17: iterations stop exactly at convergence or the limit, and say so."""

import warnings

import numpy as np

from mc import factor, lattice, spaces

PROP = 'C17'
BOUNDS = {
    'quick': 'KernelAA, ArchetypalAnalysis, GPNH, MTD, reduced-order and '
             'FEM-BV k-means/VARX models on 30 problems each (8 for FEM-BV) '
             'from custom starts, with all blocks updating or some frozen: '
             'for every tolerance interval separating the cost changes of '
             'the first 7 iterations and every limit 1..7, and tolerance 0 '
             'at stationary points',
    'thorough': 'as quick with 150 problems each (30 for FEM-BV) and 12 '
                'iterations',
}
ASSUMPTIONS = ('cost changes within 1e-12 relative of a tolerance are not '
               'used to decide the stopping iteration',)
CASE_LIMIT = 120
KINDS = ('KernelAA', 'AA', 'GPNH', 'MTD', 'CROM')
FLAGS = ({}, {'update_dictionary': False}, {'update_weights': False})


def cases(tier):
    big = tier == 'thorough'
    for kind in KINDS:
        for p in range(150 if big else 30):
            yield (kind, p, 12 if big else 7)
    for kind in ('KMeans', 'VARX'):
        for p in range(30 if big else 8):
            yield (kind, p, 7 if big else 4)
    for kind in KINDS + ('KMeans', 'VARX'):
        yield ('stationary', kind, 5)


def problem(kind, p):
    """(cost of the start, function running a fit)."""
    n = (4, 6, 9)[p % 3]
    d = (1, 2, 3)[p // 3 % 3]
    k = (2, 3, 1)[p // 2 % 3]
    X = lattice.pattern((n, d), p, (1.0, 4.0)[p % 2])
    if kind in ('KMeans', 'VARX'):
        n = (6, 9)[p % 2]
        k = 2 + p % 2
        X = lattice.pattern((n, d), p, 2.0)
        W = lattice.pattern_simplex(n, k, p)
        flags = ({}, {}, {'update_parameters': False},
                 {'update_weights': False})[p % 4]
        bound = (None, 2.0)[p // 2 % 2]
        if kind == 'KMeans':
            from reor.fembv_kmeans import FEMBVKMeans as cls
            pars = lattice.pattern((k, d), p + 3, 2.0)
            cfg = {}
            D = ((X[:, None] - pars[None]) ** 2).sum(axis=2)
        else:
            from reor.fembv_varx import FEMBVVARX as cls
            cfg = {'memory': 1}
            W = W[1:]
            pars = {'mu': lattice.pattern((k, d), p + 3, 2.0),
                    'A': lattice.pattern((k, 1, d, d), p + 4)}
            D = np.array([((X[1:] - pars['mu'][i] - X[:-1].dot(
                pars['A'][i, 0].T)) ** 2).sum(axis=1) for i in range(k)]).T

        def fit(m, tol):
            model = cls(k, bound, init='custom', max_iterations=m,
                        tolerance=tol, **cfg)
            G = model.fit_transform(X, parameters=pars, weights=W, **flags)
            st = [np.array(G)]
            if kind == 'KMeans':
                st.append(np.array(model.Theta))
            else:
                st += [np.array(model.mu), np.array(model.A)]
            return model, st
        return float(np.sum(W * D)), fit
    flags = FLAGS[p // 4 % 3]
    lags = ((1,), (1, 2), (2,))[p % 3]
    start = spaces.pattern_start('GPNH' if kind == 'CROM' else kind, n, d, k,
                                 p, lags)
    cfg = {}
    if kind in ('AA', 'KernelAA'):
        cfg['delta'] = (0.0, 0.2)[p // 5 % 2]
        K = spaces.kernel_of(X, ('linear', 'rbf')[p % 2] if
                             kind == 'KernelAA' else 'linear')
        obj = factor.AA(K, cfg['delta'])
        data = K if kind == 'KernelAA' else X
    else:
        cfg['epsilon_states'] = (0.0, 0.4)[p // 5 % 2]
        data = X
        obj = factor.GPNH(X, cfg['epsilon_states'])
        if kind != 'GPNH':
            cfg['lags'] = lags
        if kind == 'MTD':
            cfg['epsilon_weights'] = 0.6
            obj = factor.MTD(X, lags, cfg['epsilon_states'], 0.6)
    start_cost = obj.cost(factor.start_state(
        'GPNH' if kind == 'CROM' else kind, start, k))

    def fit(m, tol):
        model, W = factor.run_fit(kind, data, k,
                                  dict(cfg, tolerance=tol, random_state=1),
                                  start, m, flags)
        st = factor.read_state(kind, model, W)
        return model, [st[b] for b in sorted(st)]
    return start_cost, fit


def count(r, kind, model, performed, **ctx):
    got = model.n_iter_
    if got == performed - 1:
        r.known('n_iter_minus_one:' + type(model).__name__,
                '%s reports one iteration less than performed' %
                type(model).__name__, reported=got, performed=performed,
                **ctx)
    else:
        r.require(got == performed, 'wrong reported iteration count',
                  reported=got, performed=performed, kind=kind, **ctx)


def run(case, r):
    if case[0] == 'stationary':
        return stationary(case[1], case[2], r)
    kind, p, top = case
    f0, fit = problem(kind, p)
    states, costs = [None], [f0]
    for m in range(1, top + 1):
        model, st = fit(m, 0)
        states.append(st)
        costs.append(float(model.cost_))
        count(r, kind, model, m, p=p, tolerance=0)
        r.state(kind, p, st)
        r.step()
    deltas = np.abs(np.diff(costs))
    floor = 1e-11 * max(np.abs(costs))
    if kind in ('KMeans', 'VARX'):
        floor *= 1e3
    points = sorted({float(x) for x in deltas if x > floor})
    tols = []
    for a, b in zip(points, points[1:]):
        if b > 1.001 * a:
            tols.append(np.sqrt(a * b))
    if points:
        tols += [points[-1] * 10, points[0] / 3]
    else:
        tols = [1.0]
    for tol in tols:
        stop = next((i for i in range(1, top + 1) if deltas[i - 1] < tol),
                    None)
        for m in range(1, top + 1):
            performed = m if stop is None else min(stop, m)
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter('always')
                model, st = fit(m, tol)
            r.step()
            r.trace()
            ctx = dict(p=p, kind=kind, tolerance=tol, limit=m,
                       deltas=deltas)
            for a, b in zip(st, states[performed]):
                if not np.allclose(a, b, atol=1e-9, rtol=1e-9):
                    r.fail('the result is not the state after the first '
                           'iteration with a small enough cost change (or '
                           'the limit)', performed=performed, got=a, want=b,
                           **ctx)
            r.close(model.cost_, costs[performed], 'the reported cost is '
                    'not that of the returned state', **ctx)
            count(r, kind, model, performed, tolerance=tol, limit=m, p=p,
                  deltas=deltas)
            warned = any(issubclass(w.category, UserWarning) and
                         'iteration' in str(w.message).lower() for w in seen)
            if stop is None or stop > m:
                r.require(warned, 'no warning although unconverged at the '
                          'iteration limit', **ctx)
            elif stop < m:
                r.require(not warned, 'warning about the iteration limit '
                          'although converged before it', **ctx)


def stationary(kind, top, r):
    """At an exact stationary point only a positive tolerance stops."""
    X = np.array([[0.0], [1.0], [0.0], [1.0]])
    W = np.eye(2)[[0, 1, 0, 1]]
    D = np.array([[0.0], [1.0]])
    C = np.array([[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0]])
    P = np.array([[[0.0, 1.0], [1.0, 0.0]]])
    for m in range(1, top + 1):
        for tol in (0, 1e-9):
            if kind in ('KMeans', 'VARX'):
                from reor.fembv_kmeans import FEMBVKMeans
                from reor.fembv_varx import FEMBVVARX
                cls = FEMBVKMeans if kind == 'KMeans' else FEMBVVARX
                model = cls(2, None, init='custom', max_iterations=m,
                            tolerance=tol)
                model.fit(X, parameters=D if kind == 'KMeans' else
                          {'mu': D}, weights=W, update_weights=False,
                          update_parameters=False)
            else:
                start = {'weights': W, 'dictionary':
                         C if kind in ('AA', 'KernelAA') else D}
                if kind == 'MTD':
                    start.update(order_weights=np.ones(1),
                                 transition_matrices=P)
                model, _ = factor.run_fit(
                    kind, X.dot(X.T) if kind == 'KernelAA' else X, 2,
                    {'tolerance': tol}, start, m)
            r.step()
            r.trace()
            r.state(kind, m, tol)
            r.require(abs(model.cost_) < 1e-12, 'stationary point left')
            count(r, kind, model, m if tol == 0 else 1, limit=m,
                  tolerance=tol)
