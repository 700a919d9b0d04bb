"""C12: MTD convex coding reports its true, non-increasing objective."""

import numpy as np

from mc import factor, late, lattice, spaces
from mc.props import c11

PROP = 'C12'
BOUNDS = {
    'quick': 'every lattice start for 2 components, 3..5 samples, lag '
             'sets (1),(2),(3),(1,2),(2,1),(1,3), 1..3 iterations; 240 '
             'problems (up to 60 samples, 6 components, 8 lag sets up to '
             'lag 9 and data shorter than the lags, scales 1e-3..1e3, '
             'penalties up to 1e4, every init mode) over 1..8 and 100 '
             'iterations at zero tolerance, and at the default '
             'tolerance; 66 problems of unusual shape with lag sets of '
             'up to 7 lags and lags up to 40; 24 slow fits (up to 30 '
             'samples, 5 components) watched at every '
             'iteration up to 201',
    'thorough': 'as quick with 3 data sets per start, 900 problems and 600 '
                'iterations, 96 slow fits watched at '
                'every iteration up to 1001',
}


def cases(tier):
    big = tier == 'thorough'
    for space in range(len(spaces.MTD_SPACES)):
        for i in range(spaces.mtd_count(space)):
            for j in range(3 if big else 1):
                yield ('lattice', space, i, j)
    for p in range(900 if big else 240):
        yield ('problem', p, 600 if big else 100)
    yield from spaces.wide_cases(600 if big else 100)
    yield from late.cases(tier)


def sequence(r, obj, k, cfg, start, ms, **ctx):
    prev = None
    if start is not None:
        prev = obj.cost(factor.start_state('MTD', start, k))
    for m in ms:
        model, W = factor.run_fit('MTD', obj.X, k, cfg, start, m)
        st = factor.read_state('MTD', model, W)
        r.step()
        r.state(obj.X, obj.lags, st)
        cost, noise = obj.cost(st), obj.noise(st)
        if not abs(model.cost_ - cost) <= 1e-9 * abs(cost) + 10 * noise:
            r.fail('reported cost is not the penalised objective',
                   reported=model.cost_, true=cost, iterations=m, X=obj.X,
                   lags=obj.lags, eps=obj.eps, eps_weights=obj.epsw, state=st,
                   **ctx)
        if prev is not None and not \
                cost <= prev + (1e-10 * abs(prev) + 20 * noise) * \
                max(1, m / 10):
            r.fail('cost increased along the iterations', before=prev,
                   after=cost, iterations=m, X=obj.X, lags=obj.lags,
                   eps=obj.eps, eps_weights=obj.epsw, **ctx)
        prev = cost


def run(case, r):
    if case[0] == 'late':
        late.descends('MTD', case, r)
        return
    if case[0] == 'lattice':
        X, lags, (eps, epsw), start = c11.lattice_problem(case)
        obj = factor.MTD(X, lags, eps, epsw)
        sequence(r, obj, 2, {'tolerance': 0, 'lags': lags,
                             'epsilon_states': eps, 'epsilon_weights': epsw},
                 start, (1, 2, 3), start0=start)
        r.trace()
        return
    _, p, long_run = case
    X, lags, (eps, epsw), k, start, cfg = c11.patterned_problem(p)
    obj = factor.MTD(X, lags, eps, epsw)
    sequence(r, obj, k, cfg, start, tuple(range(1, 9)) + (long_run,), p=p)
    sequence(r, obj, k, dict(cfg, tolerance=1e-6), start, (200,), p=p)
    r.trace(10)
