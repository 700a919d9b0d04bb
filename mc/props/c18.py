"""C18: initial guesses and frozen factors are honoured exactly."""

import itertools

import numpy as np

from mc import factor, lattice, ref, spaces

PROP = 'C18'
BOUNDS = {
    'quick': 'all five factorisation models: every lattice custom start '
             '(denominator 2 or 1) with every subset of blocks frozen, 1 and '
             '3 iterations, every init mode for the rest; FEM-BV k-means and '
             'VARX custom starts and frozen blocks; FurthestSum starts of 4 '
             'models on all 81 4-sample data sets over {0,1,3} (with '
             'duplicates) and 16 patterned ones, every start index, '
             'component count 1..3, extra steps {0,1,2,5,default} and '
             'exclusion set of size up to 1 (every ninth combination), '
             'default start index',
    'thorough': 'as quick with denominator 2 throughout, exclusion sets up '
                'to size 2 and extra steps 0..8',
}
KINDS = ('KernelAA', 'AA', 'GPNH', 'CROM', 'MTD')


def cases(tier):
    big = tier == 'thorough'
    for kind in KINDS:
        for i in range(3000 if big else 120):
            yield ('custom', kind, i)
    for kind in ('KMeans', 'VARX'):
        for i in range(300 if big else 36):
            yield ('fembv', kind, i)
    for data in range(81 + 16):
        for j in range(4):
            yield ('fs', data, j, big)


def subsets(kind):
    blocks = ('update_dictionary', 'update_weights')
    if kind == 'MTD':
        blocks += ('update_parameters',)
    for on in itertools.product((True, False), repeat=len(blocks)):
        yield dict(zip(blocks, on))


def custom(case, r):
    _, kind, i = case
    n, k = ((3, 2), (4, 2), (3, 3), (3, 1), (2, 2))[i % 5]
    d = 1 + i // 5 % 2
    X = lattice.nth_grid((i * 7) % 3 ** (n * d), (-1.0, 0.0, 2.0), (n, d))
    lags = ((1,), (1, 2), (2,))[i % 3]
    denom = 2 if k < 3 else 1
    nw = lattice.count_row_stochastic(n, k, denom)
    start = {'weights': lattice.nth_row_stochastic((i * 11) % nw, n, k,
                                                   denom)}
    cfg = {'random_state': i, 'tolerance': 0}
    data = X
    if kind in ('KernelAA', 'AA'):
        nc = lattice.count_row_stochastic(k, n, 1)
        start['dictionary'] = lattice.nth_row_stochastic((i * 5) % nc, k, n,
                                                         1)
        K = spaces.kernel_of(X, 'linear' if kind == 'AA' else
                             ('linear', 'rbf', 'poly')[i % 3])
        data = K if kind == 'KernelAA' else X
        cfg['delta'] = (0.0, 0.0, 0.4)[i % 3]
        obj = factor.AA(K, cfg['delta'])
    else:
        start['dictionary'] = lattice.nth_grid(
            (i * 5) % 3 ** (k * d), (-1.0, 0.0, 1.5), (k, d))
        cfg['epsilon_states'] = (0.0, 0.5)[i % 2]
        obj = factor.GPNH(X, cfg['epsilon_states'])
        if kind != 'GPNH':
            cfg['lags'] = lags
        if kind == 'MTD':
            st = spaces.pattern_start('MTD', n, d, k, i, lags)
            for a in ('order_weights', 'transition_matrices'):
                start[a] = st[a]
            if i % 2:
                start['order_weights'] = np.eye(len(lags))[i % len(lags)]
                start['transition_matrices'] = np.array(
                    [np.eye(k)[:, ::-1]] * len(lags))
            cfg['epsilon_weights'] = 0.5
            obj = factor.MTD(X, lags, cfg['epsilon_states'], 0.5)
    base = 'GPNH' if kind == 'CROM' else kind
    st0 = factor.start_state(base, start, k)
    f0 = obj.cost(st0)
    frozen_of = {'update_dictionary': ('dictionary',),
                 'update_weights': ('weights',),
                 'update_parameters': ('order_weights',
                                       'transition_matrices')}
    for flags in subsets(kind):
        for m in (1, 3):
            for init in ('custom', 'random', None, 'furthest_sum'):
                off = [b for b in flags if not flags[b]]
                if init != 'custom' and not off:
                    continue
                kw = dict(flags)
                given = dict(start) if init == 'custom' else {
                    b: start[b] for f in off for b in frozen_of[f]}
                kw.update({b: v.copy() for b, v in given.items()})
                model = factor.make(kind, k, init=init, max_iterations=m,
                                    **cfg)
                W = model.fit_transform(data.copy(), **kw)
                r.step()
                got = {'weights': W, 'dictionary': model.dictionary_}
                if kind == 'MTD':
                    got['order_weights'] = model.order_weights
                    got['transition_matrices'] = model.transition_matrices
                for f in off:
                    for b in frozen_of[f]:
                        if not np.array_equal(got[b], start[b]):
                            r.fail('%s was switched off but changed' % b,
                                   supplied=start[b], got=got[b], kind=kind,
                                   flags=flags, init=init)
                st = factor.read_state(base, model, W)
                r.state(kind, init, flags, st)
                r.trace()
                if init == 'custom':
                    noise = obj.noise(st0)
                    r.require(obj.cost(st) <= f0 + 1e-9 * abs(f0) +
                              100 * noise, 'fit from a custom start ends '
                              'above the cost of that start', kind=kind,
                              start=start, cost_start=f0,
                              cost=obj.cost(st), flags=flags)
                    if len(off) == len(flags):
                        r.close(model.cost_, f0, 'cost of an entirely '
                                'frozen custom start', atol=100 * noise,
                                rtol=1e-8, kind=kind, start=start)
                # blocks switched on do move unless stationary
                if init != 'custom' or m > 1:
                    continue
                for b in obj.blocks:
                    if b == 'scales' or not flags.get(
                            {'params': 'update_parameters'}.get(
                                b, 'update_' + b)):
                        continue
                    # first enabled block is updated from the start itself
                    g = obj.grad(st0, b)
                    move = obj.project(b, st0[b] - g) - st0[b]
                    if np.abs(move).max() > 1e-3:
                        r.require(np.abs(st[b] - st0[b]).max() > 1e-12,
                                  '%s is switched on but did not move' % b,
                                  kind=kind, start=start, flags=flags)
                    break


def fembv(case, r):
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    _, kind, i = case
    n, d, k = (3, 4, 6)[i % 3], 1 + i // 3 % 2, 1 + i // 2 % 3
    X = lattice.pattern((n, d), i, 2.0)
    mem = (i // 2 % 3) if kind == 'VARX' else 0
    mem = min(mem, n - 2)
    u = lattice.pattern((n, 2), i + 9) if kind == 'VARX' and i % 2 else None
    N = n - mem
    nw = lattice.count_row_stochastic(N, k, 2)
    W = lattice.nth_row_stochastic((i * 7) % nw, N, k, 2)
    bound = (None, 1.0, 0.0)[i // 4 % 3]
    kw = {}
    if kind == 'KMeans':
        pars = {'Theta': lattice.pattern((k, d), i + 1, 2.0)}
        arg = pars['Theta']
    else:
        pars = {'mu': lattice.pattern((k, d), i + 1)}
        if mem:
            pars['A'] = lattice.pattern((k, mem, d, d), i + 2)
        if u is not None:
            pars['B0'] = lattice.pattern((k, d, 2), i + 3)
            kw['external_factors'] = u
        arg = pars
    def dist():
        if kind == 'KMeans':
            return ((X[:, None] - pars['Theta'][None]) ** 2).sum(axis=2)
        D = np.zeros((N, k))
        for c in range(k):
            for t in range(mem, n):
                e = X[t] - pars['mu'][c]
                for a in range(mem):
                    e = e - pars['A'][c, a].dot(X[t - a - 1])
                if u is not None:
                    e = e - pars['B0'][c].dot(u[t])
                D[t - mem, c] = e.dot(e)
        return D

    def build(m, init='custom'):
        if kind == 'KMeans':
            return FEMBVKMeans(k, bound, init=init, max_iterations=m,
                               tolerance=0, random_state=i)
        return FEMBVVARX(k, bound, memory=mem, init=init, max_iterations=m,
                         tolerance=0, random_state=i)
    for up, uw in itertools.product((False, True), repeat=2):
        for as_call in (False, True):
            for m in (1, 2):
                if m == 2 and (as_call or not (up or uw)):
                    continue
                model = build(m, None if as_call else 'custom')
                extra = dict(kw, init='custom') if as_call else dict(kw)
                G = model.fit_transform(X, parameters=arg, weights=W,
                                        update_parameters=up,
                                        update_weights=uw, **extra)
                r.step()
                r.trace()
                r.state(kind, X, W, up, uw, G)
                if not uw:
                    r.require(np.array_equal(G, W), 'affiliations were '
                              'switched off but changed', supplied=W, got=G,
                              kind=kind)
                if not up:
                    for name, value in pars.items():
                        r.require(np.array_equal(getattr(model, name), value),
                                  '%s was switched off but changed' % name,
                                  supplied=value, got=getattr(model, name),
                                  kind=kind)
                if not up and not uw:
                    r.close(model.cost_, np.sum(W * dist()), 'cost of an '
                            'entirely frozen custom start', kind=kind)
                if not up and uw and k > 1 and bound is None:
                    r.close(model.cost_, dist().min(axis=1).sum(),
                            'affiliations do not start from the custom '
                            'parameters', atol=1e-4, rtol=1e-4, kind=kind)
                if up and not uw and kind == 'KMeans':
                    for c in range(k):
                        if W[:, c].sum() > 0:
                            r.close(model.Theta[c], W[:, c].dot(X) /
                                    W[:, c].sum(), 'parameters do not start '
                                    'from the custom affiliations')
                        else:
                            r.close(model.Theta[c], pars['Theta'][c],
                                    'custom centroid lost')


def fs(case, r):
    from reor.furthest_sum import furthest_sum
    _, data, j, big = case
    if data < 81:
        X = lattice.nth_grid(data, (0.0, 1.0, 3.0), (4, 1))
        if j == 3:
            X = np.hstack([X, X ** 2])
    else:
        X = lattice.pattern((5, 2), data, 2.0)
    kind = ('KernelAA', 'AA', 'GPNH', 'MTD')[j]
    n, d = X.shape
    K = X.dot(X.T)
    if kind == 'KernelAA' and data >= 81:
        K = spaces.kernel_of(X, 'rbf')
    diss = np.sqrt(np.maximum(np.diag(K)[:, None] + np.diag(K)[None] - 2 * K,
                              0))
    steps = list(range(9)) if big else [0, 1, 2, 5]
    for start in list(range(n)) + [None]:
        for k in (1, 2, 3):
            for extra in steps + [None]:
                for ex in range(3 if big else 2):
                    for exclude in itertools.combinations(range(n), ex):
                        if start in exclude or k > n - ex:
                            continue
                        if start is None and extra not in (None, 2):
                            continue
                        kw = {}
                        if start is not None:
                            kw['start_index'] = start
                        if extra is not None:
                            kw['n_extra_steps'] = extra
                        if exclude:
                            kw['exclude'] = np.array(exclude)
                        if not big and (
                                data + (start or 0) + k + ex +
                                (extra or 0) + sum(exclude)) % 9:
                            continue
                        fs_one(r, furthest_sum, kind, X, K, diss, k, start,
                               10 if extra is None else extra, exclude, kw)


def fs_one(r, furthest_sum, kind, X, K, diss, k, start, extra, exclude, kw):
    n, d = X.shape
    W = lattice.pattern_simplex(n, k, 3)
    data = K if kind == 'KernelAA' else X
    more = {}
    custom_more = {}
    if kind == 'MTD':
        pars = spaces.pattern_start('MTD', n, d, k, 1)
        more = {'update_parameters': False,
                'order_weights': pars['order_weights'],
                'transition_matrices': pars['transition_matrices']}
    model = factor.make(kind, k, init='furthest_sum', max_iterations=1,
                        tolerance=0, random_state=5 + len(exclude) + n * k)
    model.fit_transform(data, weights=W, update_weights=False, **more, **kw)
    got = np.array(model.dictionary_)
    r.step()
    r.state(kind, X, k, start, extra, exclude, got)
    starts = [start] if start is not None else \
        [s for s in range(n) if s not in exclude]
    seen = []
    if k == 1 and extra > 0:
        # refilling the only slot: every admissible sample ties
        selections = [[s] for s in range(n) if s not in exclude]
    else:
        selections = [furthest_sum(diss.copy(), k, s,
                                   np.array(exclude, dtype='i8'), extra)
                      for s in starts]
    for sel in selections:
        D = np.eye(n)[list(sel)] if kind in ('KernelAA', 'AA') else \
            X[list(sel)]
        other = factor.make(kind, k, init='custom', max_iterations=1,
                            tolerance=0, random_state=5)
        other.fit_transform(data, dictionary=D, weights=W,
                            update_weights=False, **more)
        seen.append(np.array(other.dictionary_))
        r.trace()
        if np.allclose(got, seen[-1], atol=1e-7, rtol=1e-7):
            break
    else:
        r.fail('the fit does not start at the samples FurthestSum selects',
               kind=kind, X=X, components=k, options=kw, got=got, want=seen)
    if start is not None or exclude:
        # other iteration, all blocks updating: options accepted as well
        full = factor.make(kind, k, init='furthest_sum', max_iterations=2,
                           tolerance=0, random_state=5)
        full.fit_transform(data, **kw)


def run(case, r):
    {'custom': custom, 'fembv': fembv, 'fs': fs}[case[0]](case, r)
