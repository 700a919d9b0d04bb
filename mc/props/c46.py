"""C46: long fits approach stationary points, convex ones the minimum."""

import itertools

import numpy as np

from mc import factor, late, lattice, spaces
from mc.props import c39

PROP = 'C46'
BOUNDS = {
    'quick': 'every start (up to exchanging the components) of tiny '
             'problems (kernels and series of 3 samples, 2 components: '
             'one-hot weights x dictionaries of denominator 2 '
             'or over {0,1,2}; 4 samples with one lag: one-hot weights x '
             'dictionaries over {0,1} x deterministic transitions), all '
             'blocks or one of them updated, 300 iterations; 30 problems of '
             'up to 30 samples, 4 features, 5 components and 5 lags, as they '
             'are and with large data or penalties, 1000 iterations; distance '
             'from stationarity (for convex fits: from the global minimum) at the '
             'end relative to the first cost',
    'thorough': 'as quick with all starts, twice the data, dictionaries of '
                'denominator 3 (over {-1,0,1,2}), 120 problems and 3000 '
                'iterations',
}
CASE_LIMIT = 300
CHUNK = 4
MODES = {'KernelAA': ('all', 'dictionary', 'weights'),
         'AA': ('all', 'dictionary', 'weights'),
         'GPNH': ('all', 'dictionary', 'weights'),
         'MTD': ('all', 'dictionary', 'weights', 'parameters')}
# largest remaining gap relative to the cost of the start, for every mode: 30
# times or more what is found (the last digits depend on rounding)
LIMITS = {
    'tiny': {'KernelAA': (1e-5, 1e-5, 1e-9), 'AA': (1e-5, 1e-5, 1e-9),
             'GPNH': (1e-4, 1e-4, 1e-10), 'MTD': (3e-2, 1e-6, 1e-9, 1e-10)},
    'late': {'KernelAA': (5e-3, 2e-2, 1e-6), 'AA': (5e-3, 5e-3, 5e-5),
             'GPNH': (1e-6, 1e-6, 1e-10), 'MTD': (5e-2, 1e-2, 5e-2, 1e-4)},
    'stiff': {'KernelAA': (5e-2, 3e-2, 1e-4), 'AA': (5e-2, 5e-2, 5e-4),
              'GPNH': (2e-2, 5e-2, 1e-6), 'MTD': (5e-2, 5e-2, 3e-2, 1e-4)},
}
MANY_LAGS = ((1, 2, 3, 4), (5, 1, 3, 2, 4))
DATA = ((0.0, 1.0, 3.0), (0.0, 0.0, 1.0), (1.0, -1.0, 0.5), (2.0, 1.0, 1.5))


def labels(n, big):
    """All label sequences, up to exchanging the labels unless big."""
    for seq in itertools.product(range(2), repeat=n):
        if big or seq[0] == 0:
            yield seq


def tiny(kind, big):
    """All starts: (data, objective, settings, start)."""
    k = 2
    if kind == 'MTD':
        for x, epsw in itertools.product(
                ((0.0, 1.0, 3.0, 1.0), (0.0, 1.0, 0.0, 1.0)),
                (0.3, 2.0) if big else (0.3,)):
            X = np.array(x)[:, None]
            for seq in labels(4, big):
                for S in itertools.product((0.0, 1.0), repeat=k):
                    for P in itertools.product(range(k), repeat=k):
                        yield (X, factor.MTD(X, (1,), 0.0, epsw),
                               {'lags': [1], 'epsilon_weights': epsw},
                               {'weights': np.eye(k)[list(seq)],
                                'dictionary': np.array(S)[:, None],
                                'order_weights': np.ones(1),
                                'transition_matrices':
                                    np.eye(k)[list(P)].T[None]})
        return
    for x in DATA if big else DATA[::3]:
        X = np.array(x)[:, None]
        if kind == 'GPNH':
            values = (-1.0, 0.0, 1.0, 2.0) if big else (0.0, 1.0, 2.0)
            points = [np.array([v]) for v in values]
        else:
            points = [np.array(p) for p in lattice.simplex_points(
                3, 3 if big else 2)]
        for seq in labels(3, big):
            for rows in itertools.product(points, repeat=k):
                start = {'weights': np.eye(k)[list(seq)],
                         'dictionary': np.array(rows)}
                if kind == 'GPNH':
                    eps = (0.0, 0.5)[sum(seq) % 2]
                    yield (X, factor.GPNH(X, eps), {'epsilon_states': eps},
                           start)
                elif kind == 'KernelAA':
                    K = X.dot(X.T) + np.eye(3)
                    yield K, factor.AA(K), {}, start
                else:
                    delta = (0.0, 0.3)[sum(seq) % 2]
                    yield (X, factor.AA(X.dot(X.T), delta),
                           {'delta': delta}, start)


def stiff(kind, i):
    """Problems whose steps must be far shorter than the first one."""
    data, obj, k, cfg, start, _ = late.smooth_problem(kind, i)
    if kind in ('KernelAA', 'AA'):
        c = (1e3, 1e6)[i % 2]
        data = data * (c * c if kind == 'KernelAA' else c)
        return data, factor.AA(obj.K * c * c, obj.delta), k, cfg, start
    c, eps, epsw = ((1.0, 1e5, 1.0), (1e3, 0.0, 1e5),
                    (1.0, 1e3, 1e4))[i % 3]
    start = dict(start, dictionary=c * start['dictionary'])
    if kind == 'GPNH':
        return c * data, factor.GPNH(c * data, eps), k, {
            'epsilon_states': eps}, start
    return c * data, factor.MTD(c * data, obj.lags, eps, epsw), k, dict(
        cfg, epsilon_states=eps, epsilon_weights=epsw), start


def cases(tier):
    big = tier == 'thorough'
    for kind in ('KernelAA', 'AA', 'GPNH', 'MTD'):
        count = sum(1 for _ in tiny(kind, big))
        for first in range(0, count, 24):
            yield ('tiny', kind, first, big)
    for kind in ('KernelAA', 'AA', 'GPNH', 'MTD'):
        for i in range(120 if big else 30):
            yield ('late', kind, i, big)
            yield ('stiff', kind, i, big)


def gap(kind, obj, st, block):
    """First-order bound on the possible decrease over one block."""
    g, x = obj.grad(st, block), st[block]
    if block == 'scales':
        y = np.where(g > 0, 1 - obj.delta, 1 + obj.delta)
        return float(np.sum(g * (x - y)))
    if block == 'params':
        k = st['weights'].shape[1]
        w, P = obj.split(x, k)
        gw, gP = obj.split(g, k)
        return float(np.sum(gw * w) - gw.min() +
                     np.sum(gP * P) - np.sum(gP.min(axis=1)))
    if block == 'dictionary' and kind in ('GPNH', 'MTD'):
        return float(np.sum(np.abs(g)) * np.abs(obj.X).max())
    return factor.vertex_gap(obj, st, block)


def settle(r, family, kind, data, obj, k, cfg, start, mode, iters, **where):
    flags = {'all': {}, 'dictionary': {'update_weights': False},
             'weights': {'update_dictionary': False},
             'parameters': {'update_dictionary': False,
                            'update_weights': False}}[mode]
    cfg = dict(cfg, tolerance=0)
    iters *= 4 if mode == 'parameters' and family != 'tiny' else 1
    model, W = c39.quietly(lambda: factor.run_fit(
        kind, data, k, cfg, start, iters, flags))
    st = factor.read_state(kind, model, W)
    first = factor.start_state(kind, start, k)
    blocks = [b for b in obj.blocks if
              (mode != 'dictionary' or b != 'weights') and
              (mode != 'weights' or b not in ('dictionary', 'scales')) and
              (mode != 'parameters' or b == 'params')]
    scale = max(obj.cost(first), obj.noise(first))
    limit = LIMITS[family][kind][MODES[kind].index(mode)]
    r.step(iters)
    r.state(kind, mode, where, np.round(st['weights'], 4))
    for block in blocks:
        left = gap(kind, obj, st, block)
        if not left <= limit * scale:
            r.fail('a long fit does not approach a stationary point',
                   kind=kind, problems=family, updated=mode, block=block, iterations=iters,
                   gap=left, first_cost=scale, final_cost=obj.cost(st),
                   **where)


def run(case, r):
    if case[0] != 'tiny':
        family, kind, i, big = case
        if family == 'stiff':
            data, obj, k, cfg, start = stiff(kind, i)
        else:
            data, obj, k, cfg, start = late.smooth_problem(kind, i)[:5]
            if kind == 'MTD' and i % 3 == 1:
                obj = factor.MTD(data, MANY_LAGS[i % 2], obj.eps, obj.epsw)
                cfg = dict(cfg, lags=list(obj.lags))
                start = spaces.pattern_start('MTD', len(data), len(data[0]),
                                             k, i, obj.lags)
        for mode in MODES[kind]:
            settle(r, family, kind, data, obj, k, cfg, start, mode,
                   3000 if big else 1000, problem=i)
            r.trace()
        return
    _, kind, first, big = case
    for j, (data, obj, cfg, start) in enumerate(itertools.islice(
            tiny(kind, big), first, first + 24)):
        for mode in MODES[kind]:
            settle(r, 'tiny', kind, data, obj, 2, cfg, start, mode, 300,
                   start_number=first + j)
            r.trace()
