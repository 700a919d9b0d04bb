"""C09: GPNH convex coding stays feasible with true, non-increasing cost."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C09'
BOUNDS = {
    'quick': 'every lattice start (weights denominator 2, dictionary '
             'over {-1,0,1}) for the 27 3x1 data sets over {-1,0,2} with '
             '2 components and epsilon in {0, 0.5, 20}, 1..3 iterations; '
             'all 2x2 data over {-1,1} with lattice starts; 240 problems '
             '(up to 40 samples, 5 features, 6 components, scales '
             '1e-6..1e6, every init mode, epsilon up to 1e3) over 1..8 '
             'and 150 iterations at zero tolerance, transform of other '
             'data; 66 problems of unusual shape (more components or '
             'features than samples, 130 samples, square, symmetric, '
             'one-hot, repeated); 24 slow fits (up to 30 samples, 5 '
             'components) watched at every iteration '
             'up to 201',
    'thorough': 'as quick with weights denominator 3, 900 problems and 1000 '
                'iterations, 96 slow fits watched at '
                'every iteration up to 1001',
}
EPS = (0.0, 0.5, 20.0)
INITS = ('random', 'furthest_sum', None, 'custom')


def cases(tier):
    big = tier == 'thorough'
    denom = 3 if big else 2
    nw = lattice.count_row_stochastic(3, 2, denom)
    for data in range(27):
        for s in range(9):
            for e in range(3):
                for w in range(nw):
                    if big or (w + data + s) % 3 == e:
                        yield ('lattice', (3, 1), (-1.0, 0.0, 2.0), data, s,
                               w, denom, e)
    for data in range(16):
        for s in range(16):
            for w in range(9):
                yield ('lattice', (2, 2), (-1.0, 1.0), data, s, w, 2,
                       (data + s + w) % 3)
    for p in range(900 if big else 240):
        yield ('problem', p, 1000 if big else 150)
    yield from spaces.wide_cases(1000 if big else 150)
    yield from late.cases(tier)


def sequence(r, obj, X, k, cfg, start, ms, **ctx):
    prev = None
    if start is not None:
        prev = obj.cost(factor.start_state('GPNH', start, k))
    for m in ms:
        model, W = factor.run_fit('GPNH', X, k, dict(
            cfg, epsilon_states=obj.eps), start, m)
        st = factor.read_state('GPNH', model, W)
        bad = obj.feasible(st)
        if bad:
            r.fail(bad, iterations=m, X=X, **st, **ctx)
        r.step()
        r.state(X, obj.eps, st['dictionary'], st['weights'])
        cost, noise = obj.cost(st), obj.noise(st)
        if not abs(model.cost_ - cost) <= 1e-9 * abs(cost) + 10 * noise:
            r.fail('reported cost is not the penalised reconstruction error',
                   reported=model.cost_, true=cost, iterations=m, X=X,
                   **st, **ctx)
        if prev is not None and not \
                cost <= prev + (1e-10 * abs(prev) + 20 * noise) * \
                max(1, m / 10):
            r.fail('cost increased along the iterations', before=prev,
                   after=cost, iterations=m, X=X, **ctx)
        prev = cost
    return model


def run(case, r):
    if case[0] == 'late':
        late.feasible('GPNH', case, r)
        late.descends('GPNH', case, r)
        return
    if case[0] == 'lattice':
        _, shape, values, data, s, w, denom, e = case
        X = lattice.nth_grid(data, values, shape)
        svals = (-1.0, 0.0, 1.0) if shape[1] == 1 else (-1.0, 1.0)
        start = {'dictionary': lattice.nth_grid(s, svals, (2, shape[1])),
                 'weights': lattice.nth_row_stochastic(w, shape[0], 2,
                                                       denom)}
        sequence(r, factor.GPNH(X, EPS[e]), X, 2, {'tolerance': 0}, start,
                 (1, 2, 3), start0=start)
        r.trace()
        return
    _, p, long_run = case
    n = (1, 2, 5, 9, 20, 40)[p % 6]
    d = (1, 2, 3, 5)[p // 6 % 4]
    k = (1, 2, 3, 4, 6)[p % 5]
    init = INITS[p % 4]
    if init == 'furthest_sum':
        k = min(k, n)
    scale = (1.0, 1e-6, 1e6, 0.1, 12.0)[p // 2 % 5]
    eps = (0.0, 1e-3, 0.7, 1e3, 5.0)[p // 3 % 5]
    X = lattice.pattern((n, d), p, scale)
    if p % 4 == 1:
        X = np.round(2 * X / scale) / 2 * scale
    if p % 7 == 3:
        X = X + 100 * scale
    if p % 11 == 5:
        X = np.repeat(X[:1], n, axis=0)
    if p % 13 == 6:
        X = np.zeros_like(X)
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        if init == 'furthest_sum':
            k = min(k, n)
    start = None
    if init == 'custom':
        start = spaces.pattern_start('GPNH', n, d, k, p)
        start['dictionary'] = start['dictionary'] * scale
    cfg = {'tolerance': 0, 'init': init, 'random_state': p}
    obj = factor.GPNH(X, eps)
    sequence(r, obj, X, k, cfg, start, tuple(range(1, 9)) + (long_run,), p=p)
    model = sequence(r, obj, X, k, dict(cfg, tolerance=1e-6), start, (300,),
                     p=p)
    Y = lattice.pattern((7, d), p + 9, scale)
    W = model.transform(Y)
    bad = factor.GPNH(Y, eps).feasible(
        {'dictionary': model.dictionary_, 'weights': W})
    if bad:
        r.fail('transform: ' + bad, weights=W, p=p)
    r.trace(10)
