"""C10: GPNH updates are sufficient-decrease (projected) gradient steps."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C10'
BOUNDS = {
    'quick': 'every lattice start (weights denominator 2, dictionary '
             'over {-1,0,1}) for the 27 3x1 data sets over {-1,0,2}, 2 '
             'components, epsilon in {0, 0.5, 20}; all 2x2 data over '
             '{-1,1}; 2 iterations each; 120 patterned problems with up '
             'to 30 samples, 4 features, 6 components, scales '
             '1e-6..1e5, over 30 '
             'iterations, non-default line-search settings, frozen '
             'blocks; 66 problems of unusual shape over 20 iterations; 24 '
             'slow fits (up to 30 samples, 5 components) watched at every '
             'iteration up to 201; line searches '
             'with a memory of 3 costs without required decrease',
    'thorough': 'as quick with weights denominator 3 over 4 iterations and '
                '700 patterned problems over 100 iterations, 96 slow fits '
                'watched at every iteration up to 1001',
}
EPS = (0.0, 0.5, 20.0)
FLAGS = ({}, {'update_dictionary': False}, {'update_weights': False})
SETTINGS = ({}, {'gamma': 0.3}, {'alpha_min': 0.05, 'alpha_max': 2.0},
            {'sigma_one': 0.3, 'sigma_two': 0.6}, {'alpha_max': 50.0},
            {'line_search_memory': 3,
             'require_monotonic_cost_decrease': False})


def cases(tier):
    big = tier == 'thorough'
    denom = 3 if big else 2
    iters = 4 if big else 2
    nw = lattice.count_row_stochastic(3, 2, denom)
    for data in range(27):
        for s in range(9):
            for w in range(nw):
                for e in range(3):
                    if big or (w + data + s) % 3 == e:
                        yield ('lattice', (3, 1), (-1.0, 0.0, 2.0), data, s,
                               w, denom, e, iters)
    for data in range(16):
        for s in range(16):
            for w in range(9):
                yield ('lattice', (2, 2), (-1.0, 1.0), data, s, w, 2,
                       (data + s + w) % 3, iters)
    for p in range(700 if big else 120):
        yield ('pattern', p, 100 if big else 30)
    yield from spaces.wide_cases(60 if big else 20)
    yield from late.cases(tier)


def run(case, r):
    if case[0] == 'late':
        late.steps('GPNH', case, r)
        return
    if case[0] == 'lattice':
        _, shape, values, data, s, w, denom, e, iters = case
        X = lattice.nth_grid(data, values, shape)
        svals = (-1.0, 0.0, 1.0) if shape[1] == 1 else (-1.0, 1.0)
        start = {'dictionary': lattice.nth_grid(s, svals, (2, shape[1])),
                 'weights': lattice.nth_row_stochastic(w, shape[0], 2,
                                                       denom)}
        explore(X, EPS[e], 2, start, iters, {}, FLAGS[0], r)
        return
    _, p, iters = case
    n = (4, 7, 12, 30)[p % 4]
    d = (1, 2, 3, 4)[p // 4 % 4]
    k = (1, 2, 3, 4, 6)[p % 5]
    eps = (0.0, 1e-2, 0.7, 30.0)[p // 5 % 4]
    X = lattice.pattern((n, d), p, late.SCALES[p % 7])
    if p % 7 == 2:
        X = np.round(X)
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
    start = spaces.pattern_start('GPNH', n, d, k, p)
    if p % 2:
        start['dictionary'] = start['dictionary'] * np.abs(X).max()
    for flags in FLAGS:
        explore(X, eps, k, start, iters, SETTINGS[p % 6], flags, r)


def explore(X, eps, k, start, iters, settings, flags, r):
    obj = factor.GPNH(X, eps)
    states = [factor.start_state('GPNH', start, k)]
    r.state(X, eps, states[0]['dictionary'], states[0]['weights'])
    reached, _ = late.trajectory(
        'GPNH', X, k, dict(settings, tolerance=0, epsilon_states=eps), start,
        iters, flags)
    for st in reached:
        states.append(st)
        r.state(X, eps, st['dictionary'], st['weights'])
    enabled = [b for b in obj.blocks if flags.get('update_%s' % b, True)]
    ls = {a: settings[a] for a in ('gamma', 'alpha_min', 'alpha_max')
          if a in settings}
    ls['memory'] = settings.get('line_search_memory', 1)
    factor.check_trajectory(obj, states, r, enabled=enabled,
                            ctx={'X': X, 'k': k, 'eps': eps,
                                 'dictionary0': start['dictionary'],
                                 'weights0': start['weights']}, **ls)
    r.trace(iters)
