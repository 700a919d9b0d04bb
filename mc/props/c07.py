"""C07: archetypal analysis reports its true objective, which never rises."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C07'
BOUNDS = {
    'quick': 'every lattice start (denominator 2) for the 27 3x1 data '
             'sets over {-1,0,2} and 2 components, 1..3 iterations; 240 '
             'problems (up to 40 samples, 6 components, 6 kernels, '
             'scales 1e-6..1e6, every init mode) over 1..10 and 150 '
             'iterations at zero tolerance; 66 problems of unusual shape '
             '(more components than samples, more features than samples, '
             '130 samples, square, symmetric, one-hot, repeated); data '
             'form against kernel form; 24 slow fits (up to 30 samples, '
             '5 components) watched at every '
             'iteration up to 201',
    'thorough': 'as quick with 900 problems and 1000 iterations, '
                'denominator 3, 96 slow fits watched at '
                'every iteration up to 1001',
}
KERNELS = ('linear', 'rbf', 'poly', 'ones', 'identity', 'zero')
INITS = ('random', 'furthest_sum', None, 'custom')


def cases(tier):
    big = tier == 'thorough'
    denom = 3 if big else 2
    for data in range(27):
        for s in range(spaces.aa_starts(3, 2, denom)):
            yield ('lattice', data, 2, denom, s)
    for p in range(900 if big else 240):
        yield ('problem', p, 1000 if big else 150)
    yield from spaces.wide_cases(1000 if big else 150)
    yield from late.cases(tier)


def sequence(r, kind, arg, obj, k, cfg, start, ms, **ctx):
    """Costs along a fit, each compared with the reference objective."""
    prev = None
    if start is not None:
        prev = obj.cost(factor.start_state('KernelAA', start, k))
    states = []
    for m in ms:
        model, W = factor.run_fit(kind, arg, k, cfg, start, m)
        st = factor.read_state('KernelAA', model, W)
        cost = obj.cost(st)
        noise = obj.noise(st)
        r.step()
        r.state(obj.K, st['dictionary'], st['weights'])
        if not abs(model.cost_ - cost) <= 1e-9 * abs(cost) + 10 * noise:
            r.fail('reported cost is not the reconstruction error',
                   reported=model.cost_, true=cost, iterations=m, K=obj.K,
                   dictionary=st['dictionary'], weights=st['weights'], **ctx)
        if prev is not None and not \
                cost <= prev + (1e-10 * abs(prev) + 20 * noise) * \
                max(1, m / 10):
            r.fail('cost increased along the iterations', before=prev,
                   after=cost, iterations=m, K=obj.K, **ctx)
        prev = cost
        states.append((model, W, cost))
    return states


def run(case, r):
    if case[0] == 'late':
        late.descends('KernelAA', case, r)
        return
    if case[0] == 'lattice':
        _, data, k, denom, s = case
        X = lattice.nth_grid(data, (-1.0, 0.0, 2.0), (3, 1))
        K = spaces.kernel_of(X, KERNELS[(data + s) % 3])
        start = spaces.aa_start(s, 3, k, denom)
        sequence(r, 'KernelAA', K, factor.AA(K), k, {'tolerance': 0}, start,
                 (1, 2, 3), start0=start)
        r.trace()
        return
    _, p, long_run = case
    n = (1, 2, 5, 9, 20, 40)[p % 6]
    d = (1, 2, 4)[p // 6 % 3]
    k = min((1, 2, 3, 4, 6)[p % 5], n)
    scale = (1.0, 1e-6, 1e6, 0.1, 12.0)[p // 2 % 5]
    X = lattice.pattern((n, d), p, scale)
    if p % 4 == 1:
        X = np.round(2 * X / scale) / 2 * scale
    if p % 7 == 3:
        X = X + 100 * scale
    if p % 11 == 5:
        X = np.repeat(X[:1], n, axis=0)
    init = INITS[p % 4]
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        if init in (None, 'furthest_sum'):
            k = min(k, n)
    kern = KERNELS[p // 3 % 6]
    if p >= spaces.WIDE_FROM and p % 4:
        kern = 'linear'
    K = spaces.kernel_of(X, kern)
    start = spaces.pattern_start('AA', n, d, k, p) if init == 'custom' \
        else None
    cfg = {'tolerance': 0, 'init': init, 'random_state': p}
    obj = factor.AA(K)
    ms = tuple(range(1, 11)) + (long_run,)
    out = sequence(r, 'KernelAA', K, obj, k, cfg, start, ms, p=p)
    r.trace(len(ms))
    # default tolerance: same objective
    sequence(r, 'KernelAA', K, obj, k,
             {'init': init, 'random_state': p, 'tolerance': 1e-4}, start,
             (300,), p=p)

    # the data form is the kernel form of the Gram or supplied kernel
    def func(Y):
        r.require(np.array_equal(np.asarray(Y), X),
                  'kernel function is not given the data', p=p)
        return spaces.kernel_of(Y, kern)

    forms = [dict(cfg, kernel_func=func)]
    if kern == 'linear':
        forms.append(cfg)
        forms.append(dict(cfg, kernel_func=None))
    for form in forms:
        for m in (1, 3):
            model, W = factor.run_fit('AA', X, k, form, start, m)
            ref_model, ref_W, ref_cost = out[m - 1]
            tol = 1e-7
            r.close(W, ref_W, 'data form and kernel form give different '
                    'weights', atol=tol, rtol=tol, p=p)
            r.close(model.dictionary_, ref_model.dictionary_,
                    'data form and kernel form give different dictionaries',
                    atol=tol, rtol=tol, p=p)
            r.close(model.cost_, ref_model.cost_, 'data form and kernel form '
                    'report different costs', atol=20 * obj.noise(
                        {'dictionary': None}), rtol=1e-6, p=p)
            T = model.transform(X)
            T2 = ref_model.transform(K)
            r.close(T, T2, 'data form and kernel form transform differently',
                    atol=1e-6, rtol=1e-6, p=p)
            r.step()
            # the reference model was refitted by transform: rebuild it
            ref_model, ref_W = factor.run_fit('KernelAA', K, k, cfg, start, m)
            out[m - 1] = (ref_model, ref_W, ref_cost)
