"""C15: forecasts are the iterated lag model applied to transformed data."""

import copy
import itertools

import numpy as np

from mc import factor, lattice, spaces
from mc.props.c13 import WIDE_LAGS

PROP = 'C15'
BOUNDS = {
    'quick': 'MTD and reduced-order models: every lattice choice of lag '
             'weights and transition matrices (denominators 1..2) for 2 '
             'components and lag sets (1),(2),(3),(1,2),(2,1),(1,3), '
             'horizons 0..6, data lengths 1..6; 120 fitted models (up to 12 '
             'samples, 4 components, lags up to 5, horizons up to 12); 66 of unusual shape with up to 7 '
             'lags, lags up to 40 and horizons up to 30',
    'thorough': 'as quick with horizons up to 12 and 600 fitted models with '
                'horizons up to 40',
}
LAGS = ((1,), (2,), (1, 2), (2, 1), (1, 3), (3,), (2, 5), (1, 2, 3), (4,))


def cases(tier):
    big = tier == 'thorough'
    for space in range(len(spaces.MTD_SPACES)):
        seen = set()
        lags, n, dw, dp, dl = spaces.MTD_SPACES[space]
        a, b, c = spaces.mtd_sizes(space)
        for i in range(b * c):
            # every parameter point, with a start weight varying with it
            yield ('lattice', space, a * i + (7 * i) % a, 12 if big else 6)
    for p in range(600 if big else 120):
        yield ('fitted', p, 40 if big else 12)
    for p in range(spaces.N_WIDE):
        yield ('fitted', spaces.WIDE_FROM + p, 30)


def recursion(W, order_weights, P, lags, horizon):
    """Weights forecast, NaN without a full history."""
    n, k = W.shape
    m = max(lags)
    out = np.full((n, k), np.nan)
    for t in range(m - 1, n):
        hist = [W[s] for s in range(t + 1)]
        for _ in range(horizon):
            nxt = np.zeros(k)
            for i, lag in enumerate(lags):
                nxt = nxt + order_weights[i] * P[i].dot(hist[-lag])
            hist.append(nxt)
        out[t] = hist[-1]
    return out


def compare(r, model, lags, Y, horizons, **ctx):
    base = copy.deepcopy(model)
    W = np.array(base.transform(np.array(Y)))
    S = np.array(model.dictionary_)
    w = np.array(model.order_weights)
    P = np.array(model.transition_matrices)
    for h in horizons:
        m = copy.deepcopy(model)
        got = m.predict(np.array(Y), horizon=h) if h else (
            m.predict(np.array(Y)) if len(Y) % 2 else m.predict(Y, horizon=0))
        want = W.dot(S) if h == 0 else recursion(W, w, P, lags, h).dot(S)
        r.step()
        r.require(got.shape == want.shape, 'forecast has the wrong shape',
                  horizon=h, got=got, want=want, **ctx)
        scale = 1 + np.abs(S).max()
        if not np.allclose(got, want, atol=1e-9 * scale, rtol=1e-9,
                           equal_nan=True):
            r.fail('forecast is not the iterated lag model', horizon=h,
                   lags=lags, got=got, want=want, weights=W, order_weights=w,
                   transition_matrices=P, dictionary=S, **ctx)
        r.state(W, w, P, h)
        r.trace()
        r.require(np.array_equal(m.dictionary_, S) and
                  np.array_equal(m.order_weights, w) and
                  np.array_equal(m.transition_matrices, P),
                  'prediction changed the fitted parameters', **ctx)


def run(case, r):
    from reor.mtd_convex_coding import MTDConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    if case[0] == 'lattice':
        _, space, i, top = case
        lags, n, start = spaces.mtd_case(space, i)
        X = lattice.pattern((n, 2), i)
        start['dictionary'] = np.array([[-1.0, 0.5], [1.0, 2.0]])
        model = MTDConvexCoding(2, lags=lags, init='custom', tolerance=1e-6,
                                max_iterations=30, random_state=i,
                                epsilon_weights=0.1)
        model.fit_transform(X, update_dictionary=False, update_weights=False,
                            update_parameters=False, **start)
        r.require(np.array_equal(model.transition_matrices,
                                 start['transition_matrices']) and
                  np.array_equal(model.order_weights,
                                 start['order_weights']),
                  'frozen lag parameters changed', start=start)
        # two lengths per parameter point, all lengths over the points
        for length in {1 + i % 6, 1 + (i // 2 + 3) % 6, max(lags)}:
            Y = lattice.pattern((length, 2), i + length, 1.5)
            compare(r, model, lags, Y, range(top + 1), i=i, length=length)
        return
    _, p, top = case
    n = (3, 6, 9, 12)[p % 4]
    d = (1, 2, 3)[p // 4 % 3]
    k = (1, 2, 3, 4)[p // 2 % 4]
    lags = LAGS[p % 9]
    init = ('random', 'custom', None, 'furthest_sum')[p // 3 % 4]
    if init == 'furthest_sum':
        k = min(k, n)
    X = lattice.pattern((n, d), p, 2.0)
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        if init in (None, 'furthest_sum'):
            k = min(k, n)
        lags = WIDE_LAGS[p % len(WIDE_LAGS)]
    kind = 'CROM' if p % 2 else 'MTD'
    cfg = dict(lags=lags, init=init, random_state=p, tolerance=1e-6)
    if kind == 'MTD':
        cfg.update(epsilon_weights=0.5)
    start = None
    if init == 'custom':
        start = spaces.pattern_start(kind, n, d, k, p, lags)
    model, W = factor.run_fit(kind, X, k, cfg, start, 40)
    for Y in (X, lattice.pattern((8, d), p + 4, 2.0),
              lattice.pattern((max(lags), d), p + 2),
              lattice.pattern((1, d), p + 1)):
        compare(r, model, lags, Y, (0, 1, 2, 3, 5, top), p=p)
