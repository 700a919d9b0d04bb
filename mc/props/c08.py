"""C08: archetypal-analysis updates are sufficient-decrease projected steps."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C08'
BOUNDS = {
    'quick': 'KernelAA/ArchetypalAnalysis: every lattice start '
             '(denominator 2) for all 3x1 data over {-1,0,2} with 2 '
             'components and all 2x2 data over {-1,0,1} with 2 '
             'components, denominator 1 for 3 components, 2 iterations; '
             '96 patterned problems with up to 30 samples and 6 '
             'components, scales 1e-6..1e5, over 30 iterations; '
             '66 problems of unusual shape over 20 iterations; 6 kernels; non-default '
             'line-search settings; frozen blocks; 24 slow fits (up to '
             '30 samples, 5 components) watched at '
             'every iteration up to 201; line searches with a memory of '
             '3 costs without required decrease',
    'thorough': 'as quick over 4 iterations on lattices, denominator 3 for '
                '3x1 data, and 600 patterned problems over 100 iterations, '
                '96 slow fits watched at every iteration '
                'up to 1001',
}
KERNELS = ('linear', 'rbf', 'poly', 'ones', 'identity', 'zero')
FLAGS = ({}, {'update_dictionary': False}, {'update_weights': False})
SETTINGS = ({}, {'gamma': 0.3}, {'alpha_min': 0.05, 'alpha_max': 2.0},
            {'sigma_one': 0.3, 'sigma_two': 0.6},
            {'line_search_memory': 3, 'alpha_max': 50.0,
             'require_monotonic_cost_decrease': False})


def cases(tier):
    big = tier == 'thorough'
    iters = 4 if big else 2
    for data in range(27):
        denom = 3 if big else 2
        for s in range(spaces.aa_starts(3, 2, denom)):
            yield ('lattice', (3, 1), (-1.0, 0.0, 2.0), data, 2, denom, s,
                   iters)
        for s in range(spaces.aa_starts(3, 3, 1)):
            if big or (s + data) % 3 == 0:
                yield ('lattice', (3, 1), (-1.0, 0.0, 2.0), data, 3, 1, s,
                       iters)
        for s in range(spaces.aa_starts(3, 1, 2)):
            yield ('lattice', (3, 1), (-1.0, 0.0, 2.0), data, 1, 2, s, iters)
    for data in range(81):
        for s in range(spaces.aa_starts(2, 2, 2)):
            yield ('lattice', (2, 2), (-1.0, 0.0, 1.0), data, 2, 2, s, iters)
    for p in range(600 if big else 96):
        yield ('pattern', p, 100 if big else 30)
    yield from spaces.wide_cases(60 if big else 20)
    yield from late.cases(tier)


def run(case, r):
    if case[0] == 'late':
        late.steps('KernelAA', case, r)
        return
    if case[0] == 'lattice':
        _, shape, values, data, k, denom, s, iters = case
        X = lattice.nth_grid(data, values, shape)
        kern = KERNELS[(data + s) % 3]
        start = spaces.aa_start(s, shape[0], k, denom)
        K = spaces.kernel_of(X, kern)
        explore('KernelAA', K, K, k, start, iters, {}, FLAGS[0], r)
        return
    _, p, iters = case
    n = (4, 7, 12, 30)[p % 4]
    d = (1, 2, 3)[p // 4 % 3]
    k = (1, 2, 3, 4, 6)[p % 5]
    k = min(k, n)
    X = lattice.pattern((n, d), p, late.SCALES[p % 7])
    if p % 7 == 2:
        X = np.round(X)
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
    kern = KERNELS[p // 3 % 6]
    K = spaces.kernel_of(X, kern)
    kind = 'AA' if kern == 'linear' and p % 2 else 'KernelAA'
    start = spaces.pattern_start(kind, n, d, k, p)
    for flags in FLAGS:
        explore(kind, X if kind == 'AA' else K, K, k, start, iters,
                SETTINGS[p % 5], flags, r)


def explore(kind, data, K, k, start, iters, settings, flags, r):
    obj = factor.AA(K)
    states = [factor.start_state(kind, start, k)]
    r.state(K, states[0]['dictionary'], states[0]['weights'])
    reached, _ = late.trajectory(
        kind, data, k, dict(settings, tolerance=0), start, iters, flags)
    for st in reached:
        states.append(st)
        r.state(K, st['dictionary'], st['weights'])
    enabled = [b for b in obj.blocks
               if flags.get('update_%s' % b, True)]
    ls = {a: settings[a] for a in ('gamma', 'alpha_min', 'alpha_max')
          if a in settings}
    ls['memory'] = settings.get('line_search_memory', 1)
    factor.check_trajectory(obj, states, r, enabled=enabled,
                            ctx={'K': K, 'k': k, 'kind': kind,
                                 'dictionary0': start['dictionary'],
                                 'weights0': start['weights']}, **ls)
    r.trace(iters)
