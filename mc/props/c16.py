"""C16: transform minimises against the frozen model; inverse decodes."""

import itertools

import numpy as np

from mc import factor, lattice, spaces
from mc.props.c13 import WIDE_LAGS

PROP = 'C16'
BOUNDS = {
    'quick': 'GPNH: every 2-component dictionary over {-1,0,1}^2 against '
             'every sample of the 5x5 grid, and every 3-component dictionary '
             'over {-1,0,1}; AA: every lattice dictionary (denominator 2) on '
             'all 3x1 data; MTD: every lattice parameter point on fixed '
             'data; 90 fitted models of 5 kinds (init modes incl. custom, '
             'relaxation) and 66 of unusual '
             'shape transforming training and other data; optimality '
             'certified against every vertex of the feasible polytope and '
             'every lattice weights matrix; inverse_transform of all lattice '
             'weights',
    'thorough': 'as quick with 400 fitted models and denominator 3',
}
INITS = ('random', 'furthest_sum', None, 'custom')


def cases(tier):
    big = tier == 'thorough'
    for s in range(81):
        yield ('gpnh', (2, 2), s)
    for s in range(27):
        yield ('gpnh', (3, 1), s)
    for data in range(27):
        for c in range(lattice.count_row_stochastic(2, 3, 3 if big else 2)):
            yield ('aa', data, c, 3 if big else 2)
    for space in range(len(spaces.MTD_SPACES)):
        a, b, c = spaces.mtd_sizes(space)
        for i in range(b * c):
            yield ('mtd', space, a * i + (7 * i) % a)
    for p in range(400 if big else 90):
        yield ('fitted', p)
    for p in range(spaces.N_WIDE):
        yield ('fitted', spaces.WIDE_FROM + p)


def certify(r, obj, st, tol, **ctx):
    """The weights are feasible and optimal for the frozen other blocks."""
    bad = obj.feasible(st)
    if bad:
        r.fail('transform: ' + bad, weights=st['weights'], **ctx)
    here = obj.cost(st)
    n, k = st['weights'].shape
    gap = factor.vertex_gap(obj, st, 'weights')
    if gap > 200 * tol:
        r.fail('transformed weights do not minimise the objective',
               weights=st['weights'], dictionary=st['dictionary'],
               cost=here, possible_gain=gap, **ctx)
    if k ** n <= 81:
        for W in lattice.row_stochastic(n, k, 1):
            other = obj.cost(dict(st, weights=W))
            if here > other + tol:
                r.fail('other feasible weights have a lower objective',
                       weights=st['weights'], better=W, cost=here,
                       cost_better=other, **ctx)
    r.state(st['dictionary'], st['weights'])
    r.step()
    r.trace()


def decode(r, model, D, **ctx):
    k = D.shape[0]
    for W in (np.eye(k), lattice.pattern_simplex(4, k, 1),
              lattice.pattern((3, k), 2), np.zeros((1, k))):
        got = model.inverse_transform(W)
        want = np.array([[sum(W[i, a] * D[a, j] for a in range(k))
                          for j in range(D.shape[1])]
                         for i in range(W.shape[0])])
        r.close(got, want, 'inverse_transform is not weights times '
                'dictionary', atol=1e-12 * (1 + np.abs(D).max()), **ctx)
        r.step()


def run(case, r):
    from reor.archetypal_analysis import KernelAA
    from reor.gpnh_convex_coding import GPNHConvexCoding
    from reor.mtd_convex_coding import MTDConvexCoding
    if case[0] == 'gpnh':
        _, shape, s = case
        D = lattice.nth_grid(s, (-1.0, 0.0, 1.0), shape)
        k, d = shape
        Y = np.array(list(itertools.product((-2.0, -0.6, 0.0, 0.3, 1.5),
                                            repeat=d)))
        for init in ('custom', 'random'):
            model = GPNHConvexCoding(k, init=init, tolerance=1e-14,
                                     max_iterations=1500, random_state=s)
            W0 = lattice.pattern_simplex(4, k, s)
            X = lattice.pattern((4, d), s)
            kw = {'dictionary': D, 'update_dictionary': False}
            if init == 'custom':
                kw['weights'] = W0
            model.max_iterations = 2
            model.fit(X, **kw)
            model.max_iterations = 1500
            frozen(r, model, D)
            # all samples together and each subset alone
            for Z in (Y, Y[:1], Y[3:5]):
                W = model.transform(Z)
                certify(r, factor.GPNH(Z), {'dictionary': D, 'weights': W},
                        1e-6, Y=Z)
                frozen(r, model, D)
            decode(r, model, D)
        return
    if case[0] == 'aa':
        _, data, c, denom = case
        X = lattice.nth_grid(data, (-1.0, 0.0, 2.0), (3, 1))
        D = lattice.nth_row_stochastic(c, 2, 3, denom)
        K = spaces.kernel_of(X, ('linear', 'rbf', 'poly')[(data + c) % 3])
        model = KernelAA(2, init='custom', tolerance=1e-14, max_iterations=2)
        model.fit(K, dictionary=D, weights=lattice.pattern_simplex(3, 2, c),
                  update_dictionary=False)
        frozen(r, model, D)
        model.max_iterations = 1000
        K2 = spaces.kernel_of(lattice.pattern((3, 2), c), 'rbf')
        for M in (K, K2):
            W = model.transform(M)
            certify(r, factor.AA(M), {'dictionary': D, 'weights': W,
                                      'scales': np.ones(2)}, 1e-6, K=M)
            frozen(r, model, D)
        decode(r, model, D)
        return
    if case[0] == 'mtd':
        _, space, i = case
        lags, n, start = spaces.mtd_case(space, i)
        D = np.array([[-1.0, 0.5], [1.0, 2.0]])
        model = MTDConvexCoding(2, lags=lags, init='custom', tolerance=1e-14,
                                max_iterations=2, epsilon_weights=0.5,
                                epsilon_states=0.1, random_state=i)
        model.fit(lattice.pattern((n, 2), i), dictionary=D,
                  update_dictionary=False, update_parameters=False, **start)
        model.max_iterations = 400
        params = factor.MTD.join(start['order_weights'],
                                 start['transition_matrices'])
        for m in (n, 6):
            Y = lattice.pattern((m, 2), i + m)
            W = model.transform(Y)
            certify(r, factor.MTD(Y, lags, 0.1, 0.5),
                    {'dictionary': D, 'weights': W, 'params': params}, 1e-6,
                    Y=Y, lags=lags)
            frozen(r, model, D, start)
        decode(r, model, D)
        return
    _, p = case
    kind = ('AA', 'KernelAA', 'GPNH', 'MTD', 'CROM')[p % 5]
    n = (3, 6, 10, 14)[p // 5 % 4]
    d = (1, 2, 3)[p // 2 % 3]
    k = (1, 2, 3, 4)[p // 3 % 4]
    init = INITS[p // 4 % 4]
    if init in ('furthest_sum', None) or kind in ('AA', 'KernelAA'):
        k = min(k, n)
    X = lattice.pattern((n, d), p, 2.0)
    Y = lattice.pattern((n, d), p + 5, 2.0)
    Z = lattice.pattern((n + 3, d), p + 2)
    lags = ((1,), (2,), (1, 3))[p % 3]
    if p >= spaces.WIDE_FROM:
        X, k = spaces.wide(p - spaces.WIDE_FROM)
        n, d = X.shape
        if init in (None, 'furthest_sum'):
            k = min(k, n)
        Y = lattice.pattern((n, d), p + 5, 2.0)
        Z = lattice.pattern((n + 3, d), p + 2)
        lags = WIDE_LAGS[p % len(WIDE_LAGS)]
    cfg = dict(init=init, random_state=p, tolerance=1e-14)
    delta = 0.0
    if kind in ('AA', 'KernelAA'):
        delta = (0.0, 0.3)[p // 5 % 2]
        cfg['delta'] = delta
    else:
        cfg['epsilon_states'] = (0.0, 0.5)[p // 5 % 2]
    if kind in ('MTD', 'CROM'):
        cfg['lags'] = lags
    if kind == 'MTD':
        cfg['epsilon_weights'] = 0.3
    start = None
    if init == 'custom':
        start = spaces.pattern_start(kind, n, d, k, p, lags)
    form = (lambda M: spaces.kernel_of(M, 'linear')) if kind == 'KernelAA' \
        else (lambda M: M)
    model, W = factor.run_fit(kind, form(X), k, cfg, start, 15)
    D = np.array(model.dictionary_)
    params = {a: np.array(getattr(model, a)) for a in
              ('order_weights', 'transition_matrices')
              if kind in ('MTD', 'CROM')}
    scales = np.array(model.alpha) if delta else np.ones(k)
    model.max_iterations = 1500
    for M in (X, Y) if kind in ('AA', 'KernelAA') else (X, Y, Z, X):
        W = model.transform(form(M))
        st = {'dictionary': D, 'weights': W, 'scales': scales}
        if kind in ('AA', 'KernelAA'):
            obj = factor.AA(spaces.kernel_of(M, 'linear'), delta)
        elif kind == 'MTD':
            obj = factor.MTD(M, lags, 0.0, 0.3)
            st['params'] = factor.MTD.join(params['order_weights'],
                                           params['transition_matrices'])
        else:
            obj = factor.GPNH(M)
        certify(r, obj, st, 1e-5, p=p, kind=kind)
        frozen(r, model, D, params)
        if delta:
            r.require(np.array_equal(model.alpha, scales),
                      'transform changed the scale factors', p=p)
    decode(r, model, D, p=p)


def frozen(r, model, D, params=None):
    r.require(np.array_equal(model.dictionary_, D),
              'the fitted dictionary changed', want=D,
              got=model.dictionary_)
    for name, value in (params or {}).items():
        if name == 'weights':
            continue
        r.require(np.array_equal(getattr(model, name), value),
                  'fitted %s changed' % name)
