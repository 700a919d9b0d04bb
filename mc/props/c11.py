"""C11: MTD fits keep weights, lag weights and matrices stochastic."""

import numpy as np

from mc import factor, late, lattice, spaces
from mc.props.c13 import EPS, SETTINGS, WIDE_LAGS

PROP = 'C11'
BOUNDS = {
    'quick': 'every lattice start for 2 components, 3..5 samples, lag '
             'sets (1),(2),(3),(1,2),(2,1),(1,3), after 1 and 3 '
             'iterations; 360 problems (up to 60 samples, 6 components, '
             '8 lag sets up to lag 9 and data shorter than the lags, '
             'scales 1e-3..1e3, penalties up to 1e4, every init mode, '
             'several line-search settings) after 1..20 iterations of '
             'fit, and transform; 66 problems of unusual shape with lag '
             'sets of up to 7 lags and lags up to 40; 24 slow fits (up '
             'to 30 samples, 5 components) watched at '
             'every iteration up to 201; line searches with a memory of '
             '3 costs without required decrease',
    'thorough': 'as quick with 3 data sets per start, 1500 problems and up '
                'to 80 iterations, 96 slow fits watched '
                'at every iteration up to 1001',
}
LAGS = ((1,), (1, 2), (3,), (2, 1), (1, 3), (2, 5), (4, 9), (1, 2, 3))
INITS = ('random', 'furthest_sum', None, 'custom')


def cases(tier):
    big = tier == 'thorough'
    for space in range(len(spaces.MTD_SPACES)):
        for i in range(spaces.mtd_count(space)):
            for j in range(3 if big else 1):
                yield ('lattice', space, i, j)
    for p in range(1500 if big else 360):
        yield ('problem', p, big)
    yield from spaces.wide_cases(big)
    yield from late.cases(tier)


def lattice_problem(case):
    _, space, i, j = case
    lags, n, start = spaces.mtd_case(space, i)
    q = (i * 7 + j * 13) % 3 ** n
    X = lattice.nth_grid(q, (-1.0, 0.0, 2.0), (n, 1))
    start['dictionary'] = lattice.nth_grid((i + 2 * j) % 9,
                                           (-1.0, 0.0, 1.0), (2, 1))
    return X, lags, EPS[(i + j) % 4], start


def patterned_problem(p):
    n = (2, 3, 6, 13, 30, 60)[p % 6]
    d = (1, 2, 4)[p // 6 % 3]
    k = (1, 2, 3, 4, 6)[p % 5]
    init = INITS[p % 4]
    if init == 'furthest_sum':
        k = min(k, n)
    lags = LAGS[p // 2 % 8]
    scale = (1.0, 1e-3, 1e3)[p // 4 % 3]
    X = None
    if p >= spaces.WIDE_FROM:
        i = p - spaces.WIDE_FROM
        X, k = spaces.wide(i)
        n, d = X.shape
        lags, scale = WIDE_LAGS[i % len(WIDE_LAGS)], 1.0
        if init == 'furthest_sum':
            k = min(k, n)
    eps, epsw = ((0.0, 1.0), (0.5, 30.0), (2.0, 1e4), (0.0, 0.0),
                 (10.0, 1e-3))[p // 3 % 5]
    if X is None:
        X = lattice.pattern((n, d), p, scale)
        if p % 5 == 2:
            X = np.round(2 * X / scale) / 2 * scale
        if p % 9 == 4:
            X = X + 50 * scale
    start = None
    if init == 'custom':
        start = spaces.pattern_start('MTD', n, d, k, p, lags)
        start['dictionary'] = scale * start['dictionary']
    cfg = dict(tolerance=0, init=init, random_state=p, lags=list(lags),
               epsilon_states=eps, epsilon_weights=epsw)
    return X, lags, (eps, epsw), k, start, cfg


def check(r, obj, st, **ctx):
    bad = obj.feasible(st)
    if bad:
        r.fail(bad, state=st, X=obj.X, lags=obj.lags, **ctx)
    r.state(obj.X, obj.lags, st)
    r.step()


def run(case, r):
    if case[0] == 'late':
        late.feasible('MTD', case, r)
        return
    if case[0] == 'lattice':
        X, lags, (eps, epsw), start = lattice_problem(case)
        obj = factor.MTD(X, lags, eps, epsw)
        for m in (1, 3):
            model, W = factor.run_fit('MTD', X, 2, {
                'tolerance': 0, 'lags': lags, 'epsilon_states': eps,
                'epsilon_weights': epsw}, start, m)
            check(r, obj, factor.read_state('MTD', model, W), iterations=m,
                  start=start)
        r.trace()
        return
    _, p, big = case
    X, lags, (eps, epsw), k, start, cfg = patterned_problem(p)
    cfg.update(SETTINGS[p % 6])
    obj = factor.MTD(X, lags, eps, epsw)
    for m in (1, 2, 3, 7, 20) + ((80,) if big else ()):
        model, W = factor.run_fit('MTD', X, k, cfg, start, m)
        st = factor.read_state('MTD', model, W)
        check(r, obj, st, iterations=m, p=p)
        r.require(model.n_components_ == k, 'wrong n_components_', p=p)
    for Y in (X, lattice.pattern((max(X.shape[0] - 1, 1), X.shape[1]), p + 5,
                                 3.0)):
        W = model.transform(Y)
        st = factor.read_state('MTD', model, W)
        check(r, factor.MTD(Y, lags, eps, epsw), st, transform=True, p=p)
    r.trace(6)
