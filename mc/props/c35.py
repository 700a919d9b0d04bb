"""C35: archetype relaxation optimises scale factors within its range."""

import numpy as np

from mc import factor, late, lattice, spaces

PROP = 'C35'
BOUNDS = {
    'quick': 'every lattice start (denominator 2) for the 27 3x1 data '
             'sets over {-1,0,2} and 2 components, relaxation 0, 0.25, 1 '
             'or 1.5 in turn, every update of 2 iterations compared with '
             'a sufficient-decrease step of the relaxed objective; 240 '
             'problems (up to 40 samples, 6 components, 6 kernels, '
             'relaxations 0..3, every init mode) over 1..8 and 150 '
             'iterations, frozen blocks, refits and transform; 24 slow '
             'fits (up to 30 samples, 5 components) watched at every '
             'iteration up to 201',
    'thorough': 'as quick with every start under all four relaxations, 3 '
                'iterations, 900 problems and 600 iterations, 96 slow fits '
                'watched at every iteration up to 1001',
}
KERNELS = ('linear', 'rbf', 'poly', 'ones', 'identity', 'zero')
INITS = ('random', 'furthest_sum', None, 'custom')
DELTAS = (0.25, 1.0, 0.0, 1.5)
FLAGS = ({}, {}, {'update_dictionary': False}, {'update_weights': False})
CASE_LIMIT = 120


def cases(tier):
    big = tier == 'thorough'
    for data in range(27):
        for s in range(spaces.aa_starts(3, 2, 2)):
            for e in range(4):
                if big or (s + data) % 4 == e:
                    yield ('lattice', data, s, e, 3 if big else 2)
    for p in range(900 if big else 240):
        yield ('problem', p, 600 if big else 150)
    yield from late.cases(tier)


def observe(r, obj, model, W, fitted=True, **ctx):
    """Range, feasibility and reported cost of a fitted model."""
    k = W.shape[1]
    a = np.asarray(model.alpha)
    r.require(a.shape == (k,), 'not one scale factor per archetype',
              factors=a, **ctx)
    if obj.delta == 0:
        r.require(np.all(a == 1), 'scale factors changed without relaxation',
                  factors=a, **ctx)
    else:
        r.require(np.all(a >= 1 - obj.delta) and np.all(a <= 1 + obj.delta),
                  'scale factors leave the allowed range', factors=a,
                  delta=obj.delta, **ctx)
    st = factor.read_state('KernelAA', model, W)
    bad = obj.feasible(st)
    if bad:
        r.fail(bad, **dict(ctx, **st))
    cost, noise = obj.cost(st), obj.noise(st)
    if fitted and not \
            abs(model.cost_ - cost) <= 1e-9 * abs(cost) + 10 * noise:
        r.fail('reported cost is not the reconstruction error with scaled '
               'archetypes', reported=model.cost_, true=cost, K=obj.K,
               **dict(ctx, **st))
    r.state(obj.K, obj.delta, st['dictionary'], st['scales'], st['weights'])
    r.step()
    return st, cost, noise


def descend(r, prev, cost, noise, m, **ctx):
    if prev is not None and not cost <= prev + \
            (1e-10 * abs(prev) + 20 * noise) * max(1, m / 10):
        r.fail('cost increased along the iterations', before=prev, after=cost,
               iterations=m, **ctx)


def run(case, r):
    if case[0] == 'late':
        late.steps('AA', case, r)
        late.feasible('AA', case, r)
        late.descends('AA', case, r)
        return
    if case[0] == 'lattice':
        _, data, s, e, iters = case
        X = lattice.nth_grid(data, (-1.0, 0.0, 2.0), (3, 1))
        K = spaces.kernel_of(X, KERNELS[(data + s) % 3])
        start = spaces.aa_start(s, 3, 2, 2)
        explore(r, 'KernelAA', K, factor.AA(K, DELTAS[e]), 2, {}, start,
                range(1, iters + 1), {}, start0=start)
        r.trace()
        return
    _, p, long_run = case
    n = (1, 2, 5, 9, 20, 40)[p % 6]
    d = (1, 2, 4)[p // 6 % 3]
    k = min((1, 2, 3, 4, 6)[p % 5], n)
    scale = (1.0, 1e-4, 1e4, 0.1, 12.0)[p // 2 % 5]
    delta = (0.1, 0.0, 0.5, 3.0, 1e-3, 1.0, 0.9)[p % 7]
    X = lattice.pattern((n, d), p, scale)
    if p % 4 == 1:
        X = np.round(2 * X / scale) / 2 * scale
    if p % 11 == 5:
        X = np.repeat(X[:1], n, axis=0)
    kern = KERNELS[p // 3 % 6]
    K = spaces.kernel_of(X, kern)
    init = INITS[p % 4]
    flags = FLAGS[p // 4 % 4]
    start = spaces.pattern_start('AA', n, d, k, p) if init == 'custom' \
        else None
    if start is None:
        flags = {}
    obj = factor.AA(K, delta)
    use_data = kern == 'linear' and p % 2
    kind, arg = ('AA', X) if use_data else ('KernelAA', K)
    cfg = {'init': init, 'random_state': p}
    model = explore(r, kind, arg, obj, k, cfg, start,
                    tuple(range(1, 9)), flags, p=p)
    # long runs
    full = dict(cfg, tolerance=0, delta=delta)
    prev = None
    for m in (8, long_run):
        model, W = factor.run_fit(kind, arg, k, full, start, m, flags)
        st, cost, noise = observe(r, obj, model, W, p=p, iterations=m)
        descend(r, prev, cost, noise, m, p=p)
        prev = cost
    # the fitted factors are kept by transform, and a refit starts afresh
    kept = np.array(model.alpha)
    other = lattice.pattern((n, d), p + 50, scale)
    for Y in (X, other):
        Ky = spaces.kernel_of(Y, kern)
        T = model.transform(Y if use_data else Ky)
        observe(r, factor.AA(Ky, delta), model, T, fitted=False, p=p,
                call='transform')
        r.require(np.array_equal(model.alpha, kept),
                  'transform changes the fitted scale factors',
                  before=kept, after=model.alpha, p=p)
        r.step()
    if init in ('furthest_sum', None, 'random'):
        return
    kw = {a: b.copy() for a, b in start.items()}
    W2 = model.fit_transform(arg, **dict(kw, **flags))
    r.require(np.array_equal(model.alpha, st['scales'] if delta else kept)
              and np.array_equal(W2, W),
              'a repeated fit does not start from factors one',
              first=st['scales'], second=model.alpha, p=p)
    r.trace()


def explore(r, kind, arg, obj, k, cfg, start, ms, flags, **ctx):
    """Every update along a fit is an admissible step."""
    states = [] if start is None else \
        [factor.start_state('KernelAA', start, k)]
    prev = obj.cost(states[0]) if states else None
    full = dict(cfg, tolerance=0, delta=obj.delta)
    for m in ms:
        model, W = factor.run_fit(kind, arg, k, full, start, m, flags)
        st, cost, noise = observe(r, obj, model, W, iterations=m, **ctx)
        descend(r, prev, cost, noise, m, **ctx)
        prev = cost
        states.append(st)
    blocks = [b for b in obj.blocks
              if not (b in ('dictionary', 'scales') and
                      flags.get('update_dictionary') is False) and
              not (b == 'weights' and flags.get('update_weights') is False)]
    if start is not None:
        factor.check_trajectory(obj, states, r, enabled=blocks,
                                ctx=dict(ctx, delta=obj.delta))
    return model
