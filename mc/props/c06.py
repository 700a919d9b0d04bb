"""C06: archetypal analysis keeps dictionary and weights feasible."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C06'
BOUNDS = {
    'quick': 'every lattice start (denominator 2) for the 27 3x1 data '
             'sets over {-1,0,2}, 1..3 components (denominator 1 for 3), '
             'after 1 and 3 iterations; 360 problems (up to 60 samples, '
             '8 components, 6 kernels, relaxation 0/0.2/1.5, every init '
             'mode, several line-search settings) after 0..15 iterations '
             'of fit, and transform of the same and of other data; 66 '
             'problems of unusual shape (more components than samples, '
             'more features than samples, 130 samples, square, '
             'symmetric, one-hot, repeated, far from zero); frozen '
             'blocks; 24 slow fits (up to 30 samples, 5 components) '
             'watched at every iteration up to 201',
    'thorough': 'as quick with 1500 problems and up to 60 iterations, and '
                'denominator 3, 96 slow fits watched at '
                'every iteration up to 1001',
}
KERNELS = ('linear', 'rbf', 'poly', 'ones', 'identity', 'zero')
INITS = ('random', 'furthest_sum', None, 'custom')


def cases(tier):
    big = tier == 'thorough'
    for data in range(27):
        for k, denom in ((1, 2), (2, 3 if big else 2), (3, 1)):
            for s in range(spaces.aa_starts(3, k, denom)):
                if k == 3 and not big and (s + data) % 3:
                    continue
                yield ('lattice', data, k, denom, s)
    for p in range(1500 if big else 360):
        yield ('problem', p, big)
    yield from spaces.wide_cases(big)
    yield from late.cases(tier)


def check(r, obj, model, W, **ctx):
    st = factor.read_state('KernelAA', model, W)
    bad = obj.feasible(st)
    if bad:
        r.fail(bad, dictionary=st['dictionary'], weights=st['weights'], **ctx)
    r.state(obj.K, st['dictionary'], st['weights'])
    r.step()


def run(case, r):
    if case[0] == 'late':
        late.feasible('KernelAA', case, r)
        late.feasible('AA', case, r)
        return
    if case[0] == 'lattice':
        _, data, k, denom, s = case
        X = lattice.nth_grid(data, (-1.0, 0.0, 2.0), (3, 1))
        K = spaces.kernel_of(X, KERNELS[(data + s) % 3])
        obj = factor.AA(K)
        start = spaces.aa_start(s, 3, k, denom)
        for m in (1, 3):
            model, W = factor.run_fit('KernelAA', K, k, {'tolerance': 0},
                                      start, m)
            check(r, obj, model, W, K=K, start=start, iterations=m)
        r.trace()
        return
    _, p, big = case
    n = (1, 2, 5, 9, 20, 60)[p % 6]
    d = (1, 2, 4)[p // 6 % 3]
    k = min((1, 2, 3, 5, 8)[p % 5], n)
    scale = (1.0, 1e-3, 20.0)[p // 2 % 3]
    X = lattice.pattern((n, d), p, scale)
    if p % 4 == 1:
        X = np.round(2 * X) / 2
    if p % 9 == 4:
        X = np.repeat(X[:1], n, axis=0)            # all samples coincide
    init = INITS[p % 4]
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        if init in (None, 'furthest_sum'):
            k = min(k, n)
    kern = KERNELS[p // 3 % 6]
    K = spaces.kernel_of(X, kern)
    delta = (0, 0, 0.2, 1.5)[p // 4 % 4]
    start = spaces.pattern_start('AA', n, d, k, p) if init == 'custom' \
        else None
    settings = ({}, {'line_search_memory': 3,
                     'require_monotonic_cost_decrease': False},
                {'gamma': 0.4, 'alpha_max': 50.0},
                {'step_size_tolerance': 0.2,
                 'require_monotonic_cost_decrease': False})[p // 5 % 4]
    use_data = kern == 'linear' and p % 2
    kind = 'AA' if use_data else 'KernelAA'
    arg = X if use_data else K
    obj = factor.AA(K, delta)
    other = lattice.pattern((n, d), p + 50, scale)
    for m in (1, 2, 4, 15) + ((60,) if big else ()):
        cfg = dict(settings, tolerance=0, delta=delta, init=init,
                   random_state=p)
        model, W = factor.run_fit(kind, arg, k, cfg, start, m)
        check(r, obj, model, W, p=p, iterations=m)
        for Y in (X, other):
            T = model.transform(Y if use_data else spaces.kernel_of(Y, kern))
            check(r, factor.AA(K, delta), model, T, p=p, iterations=m,
                  call='transform')
    # one block given and frozen, the other started by the model
    given = spaces.pattern_start('AA', n, d, k, p + 1)
    for name in ('dictionary', 'weights'):
        for m in (1, 2):
            model = factor.make(kind, k, init=init, max_iterations=m,
                                **{a: b for a, b in cfg.items()
                                   if a != 'init'})
            kw = {name: given[name].copy(), 'update_' + name: False}
            if init == 'custom':
                kw = dict(start, **kw)
            W = model.fit_transform(arg, **kw)
            r.require(np.array_equal(W if name == 'weights' else
                                     model.dictionary_, given[name]),
                      'a frozen block changed', p=p, block=name)
            check(r, obj, model, W, p=p, frozen=name)
    r.trace()
