"""C40: reduced-order lag parameters move by sufficient-decrease steps."""

import itertools

import numpy as np

from mc import factor, late, lattice
from mc.props.c13 import WIDE_LAGS

PROP = 'C40'
BOUNDS = {
    'quick': 'frozen weights: every one-hot sequence of length 2..6 over 2 '
             'components and 2..4 over 3, every lattice weights matrix '
             '(denominator 2) of 3..4 samples, lag sets (1),(2),(1,2),(2,1),'
             '(1,3),(3), 2 random parameter starts, 4 line-search settings in '
             'turn, iterations 2..7; 180 patterned weights (up to 40 '
             'samples, 6 components, up to 7 lags and lags up to 40), '
             'iterations 2..16; 24 slow fits watched at '
             'every iteration up to 201; fits with moving weights, whose '
             'parameters start after the weights have converged',
    'thorough': 'as quick with one-hot sequences up to 7 (5), 4 parameter '
                'starts, all settings, 12 iterations, 700 patterned weights, '
                '96 slow fits watched at every iteration up to 1001',
}
LAGS = ((1,), (2,), (1, 2), (2, 1), (1, 3), (3,))
PATTERN_LAGS = LAGS + ((1, 2, 3), (4, 1), (2, 5)) + tuple(WIDE_LAGS)
SETTINGS = ({}, {'gamma': 0.3}, {'alpha_min': 0.05, 'alpha_max': 2.0},
            {'line_search_memory': 3, 'alpha_max': 300.0,
             'require_monotonic_cost_decrease': False})


def cases(tier):
    big = tier == 'thorough'
    seeds = 4 if big else 2
    for k, top in ((2, 7 if big else 6), (3, 5 if big else 4)):
        for n in range(2, top + 1):
            for i, seq in enumerate(itertools.product(range(k), repeat=n)):
                for j in range(len(LAGS)):
                    for s in range(seeds):
                        if big or (i + j + s) % 2 == 0:
                            yield ('onehot', seq, k, j, s, i + j + s, big)
    for n in (3, 4):
        for i in range(lattice.count_row_stochastic(n, 2, 2)):
            for j in range(len(LAGS)):
                yield ('lattice', n, i, j, (i + j) % seeds, i + j, big)
    for p in range(700 if big else 180):
        yield ('pattern', p, big)
    yield from late.cases(tier)


def fits(W, lags, seed, settings, moving=False):
    """(build, fit, read) of the model fitted to given weights."""
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    n, k = W.shape
    D = lattice.pattern((k, 2), k + 3)
    X = lattice.pattern((n, 2), n)

    def build(m, verbose):
        return GPNHConvexCodingCROM(
            k, lags=list(lags), init='custom', tolerance=0, max_iterations=m,
            random_state=seed, verbose=verbose, **settings)

    def fit(model):
        return model.fit_transform(
            X, dictionary=D, weights=W.copy(), update_dictionary=False,
            update_weights=moving)

    def read(model, out):
        return {'order_weights': np.array(model.order_weights),
                'transition_matrices': np.array(model.transition_matrices),
                'weights': np.array(out)}
    return build, fit, read


def whole(st):
    return {'params': factor.MTD.join(st['order_weights'],
                                      st['transition_matrices']),
            'weights': st['weights'],
            'dictionary': np.zeros((st['weights'].shape[1], 1))}


def parameters(W, lags, seed, settings, m, moving=False):
    build, fit, read = fits(W, lags, seed, settings, moving)
    model = build(m, 0)
    return whole(read(model, fit(model)))


class Error(factor.MTD):
    """The one-step prediction error of given weights alone."""
    blocks = ('params',)

    def __init__(self, n, lags):
        super().__init__(np.zeros((n, 1)), lags, 0.0, 1.0)

    def feasible(self, st, tol=1e-8):
        return super().feasible(st, tol)


def check(r, W, lags, seed, settings, counts, ctx):
    """counts: iteration counts observed; consecutive ones are steps."""
    n = W.shape[0]
    obj = Error(n, lags)
    known, recorded = {}, {}
    record = late.recorded(*fits(W, lags, seed, settings),
                           late.probe_counts(seed, counts[-1]))
    if record is not None:
        recorded = {m + 1: whole(st) for m, st in enumerate(record[0])}
        counts = list(range(1, counts[-1] + 1))

    def after(m):
        if m not in known:
            known[m] = recorded[m] if m in recorded else parameters(
                W, lags, seed, settings, m)
            r.state(W, lags, known[m]['params'])
            bad = obj.feasible(known[m])
            if bad:
                r.fail(bad, iterations=m, weights=W, lags=lags, **ctx)
        return known[m]
    run = []
    ls = {a: settings[a] for a in ('gamma', 'alpha_min', 'alpha_max')
          if a in settings}
    memory = settings.get('line_search_memory', 1)
    for m in counts:
        run.append(m)
        if m + 1 in counts:
            continue
        if len(run) > 1 and (memory == 1 or run[0] == 1):
            states = [after(a) for a in run]
            if memory == 1:
                factor.check_trajectory(
                    obj, states, r, ctx=dict(ctx, first=run[0], lags=lags),
                    first_alpha=None, **ls)
            else:
                # the start, hence the first cost remembered, is not
                # observable: judge from the step after it is forgotten
                judge_memory(r, obj, states, memory, ls,
                             dict(ctx, lags=lags))
            r.trace()
        run = []


def judge_memory(r, obj, states, memory, ls, ctx):
    costs = [obj.cost(st) for st in states]
    for i in range(memory - 1, len(states) - 1):
        r.step()
        factor.check_update(
            obj, states[i], 'params', states[i + 1]['params'], None, r,
            ctx=dict(ctx, iteration=i + 2),
            reference=max(costs[i - memory + 1:i + 1]), **ls)


def run(case, r):
    if case[0] == 'late':
        _, i, deep = case
        k = (2, 3, 2, 4)[i % 4]
        n = (12, 20, 30)[i % 3]
        lags = PATTERN_LAGS[i % len(PATTERN_LAGS)]
        n = max(n, max(lags) + 5)
        W = lattice.pattern_simplex(n, k, i + 2)
        settings = ({'alpha_max': 0.05}, {'alpha_max': 0.3},
                    {'alpha_min': 0.05, 'alpha_max': 0.05})[i % 3]
        return check(r, W, lags, i, settings,
                     list(range(1, late.LAST[deep] + 1)), {'late': i})
    if case[0] == 'pattern':
        _, p, big = case
        k = (2, 3, 5, 6, 4)[p % 5]
        n = (5, 9, 16, 40)[p // 2 % 4]
        lags = PATTERN_LAGS[p % len(PATTERN_LAGS)]
        W = lattice.pattern_simplex(n, k, p)
        if p % 7 == 3:
            W = np.eye(k)[W.argmax(axis=1)]
        settings = SETTINGS[p // 3 % len(SETTINGS)]
        if p % 6 == 5:
            # encode first, then fit the parameters of the encoding
            first = parameters(W, lags, p, settings, 8, moving=True)
            known = first['weights']
            other = parameters(known, lags, p, settings, 8)
            r.step(2)
            if not np.allclose(other['params'], first['params'], rtol=0,
                               atol=1e-9):
                r.fail('lag parameters are not those of the fitted weights',
                       got=first['params'], want=other['params'],
                       weights=known, lags=lags)
            W = known
        return check(r, W, lags, p, settings,
                     list(range(1, 25 if big else 17)), {'pattern': p})
    if case[0] == 'onehot':
        _, seq, k, j, seed, s, big = case
        W = np.eye(k)[list(seq)]
    else:
        _, n, i, j, seed, s, big = case
        W = lattice.nth_row_stochastic(i, n, 2, 2)
    for settings in SETTINGS if big else SETTINGS[s % len(SETTINGS):][:1]:
        check(r, W, LAGS[j], seed, settings,
              list(range(1, 13 if big else 8)), {'settings': settings})
