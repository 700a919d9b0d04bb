"""C13: MTD updates are sufficient-decrease (projected) gradient steps."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C13'
BOUNDS = {
    'quick': 'every lattice start (weights, transition matrices, lag '
             'weights with denominators 1 or 2) for 2 components, 3..5 '
             'samples, lag sets (1),(2),(3),(1,2),(2,1),(1,3), 2 data '
             'sets and penalties each, 2 iterations; 120 patterned '
             'problems with up to 25 samples, 5 components, 6 lag sets '
             'including none fitting in the data, scales 1e-6..1e5, over 25 '
             'iterations; '
             'non-default line search; every frozen-block combination; '
             '66 problems of unusual shape with up to 7 lags and lags up '
             'to 40, over 15 iterations; 24 slow fits (up to 30 samples, 5 components) watched '
             'at every iteration up to 201; line '
             'searches with a memory of 3 costs without required '
             'decrease',
    'thorough': 'as quick with 8 data sets, 3 iterations and 700 patterned '
                'problems over 100 iterations, 96 slow fits watched at every '
                'iteration up to 1001',
}
EPS = ((0.0, 1.0), (0.5, 30.0), (2.0, 1e-3), (0.3, 0.0))
FLAGS = ({}, {'update_dictionary': False}, {'update_weights': False},
         {'update_parameters': False},
         {'update_dictionary': False, 'update_weights': False},
         {'update_dictionary': False, 'update_parameters': False})
SETTINGS = ({}, {'gamma': 0.3}, {'alpha_min': 0.05, 'alpha_max': 2.0},
            {'sigma_one': 0.3, 'sigma_two': 0.6}, {'alpha_max': 50.0},
            {'line_search_memory': 3,
             'require_monotonic_cost_decrease': False})
WIDE_LAGS = ((1, 2, 3, 4, 5), (6, 5, 4, 3, 2, 1), (12,), (1, 2, 3, 4, 5, 6, 7),
             (10, 20), (2, 4, 6, 8, 10), (1,), (1, 40), (3, 1, 2))
LAGS = ((1,), (1, 2), (3,), (2, 1), (1, 3), (2, 5))


def cases(tier):
    big = tier == 'thorough'
    for space in range(len(spaces.MTD_SPACES)):
        for i in range(spaces.mtd_count(space)):
            for j in range(8 if big else 2):
                yield ('lattice', space, i, j, 3 if big else 2)
    for p in range(700 if big else 120):
        yield ('pattern', p, 100 if big else 25)
    yield from spaces.wide_cases(60 if big else 15)
    yield from late.cases(tier)


def run(case, r):
    if case[0] == 'late':
        late.steps('MTD', case, r)
        return
    if case[0] == 'lattice':
        _, space, i, j, iters = case
        lags, n, start = spaces.mtd_case(space, i)
        q = (i * 5 + j * 11) % 3 ** n
        X = lattice.nth_grid(q, (-1.0, 0.0, 2.0), (n, 1))
        start['dictionary'] = lattice.nth_grid((i + j) % 9, (-1.0, 0.0, 1.0),
                                               (2, 1))
        eps, epsw = EPS[(i + j) % 4]
        explore(X, lags, eps, epsw, 2, start, iters, {}, FLAGS[0], r)
        return
    _, p, iters = case
    n = (4, 7, 12, 25)[p % 4]
    d = (1, 2, 3, 4)[p // 4 % 4]
    k = (1, 2, 3, 4, 5)[p % 5]
    lags = LAGS[p // 2 % 6]
    eps, epsw = EPS[p // 3 % 4]
    X = lattice.pattern((n, d), p, late.SCALES[p % 7])
    if p >= spaces.WIDE_FROM:
        i = p - spaces.WIDE_FROM
        X, k = spaces.wide(i)
        n, d = X.shape
        lags = WIDE_LAGS[i % len(WIDE_LAGS)]
    start = spaces.pattern_start('MTD', n, d, k, p, lags)
    if p % 2:
        start['dictionary'] = start['dictionary'] * np.abs(X).max()
    flags = FLAGS if p % 2 else FLAGS[:1]
    for f in flags:
        explore(X, lags, eps, epsw, k, start, iters, SETTINGS[p % 6], f, r)


def explore(X, lags, eps, epsw, k, start, iters, settings, flags, r):
    obj = factor.MTD(X, lags, eps, epsw)
    states = [factor.start_state('MTD', start, k)]
    r.state(X, lags, eps, epsw, states[0])
    cfg = dict(settings, tolerance=0, epsilon_states=eps,
               epsilon_weights=epsw, lags=np.array(lags))
    reached, _ = late.trajectory('MTD', X, k, cfg, start, iters, flags)
    for st in reached:
        states.append(st)
        r.state(X, lags, eps, epsw, st)
    enabled = [b for b in obj.blocks if flags.get(
        {'params': 'update_parameters'}.get(b, 'update_' + b), True)]
    ls = {a: settings[a] for a in ('gamma', 'alpha_min', 'alpha_max')
          if a in settings}
    ls['memory'] = settings.get('line_search_memory', 1)
    factor.check_trajectory(obj, states, r, enabled=enabled,
                            ctx={'X': X, 'k': k, 'lags': lags, 'eps': eps,
                                 'eps_weights': epsw, 'start': start}, **ls)
    r.trace(iters)
