"""C39: results do not depend on the labelling of components, features,
interchangeable samples, lags or input series, nor on signs and origin."""

import contextlib
import io
import itertools
import warnings

import numpy as np

from mc import lattice, spaces

PROP = 'C39'
BOUNDS = {
    'quick': 'all nine models, the local VARX fit, the FurthestSum selection '
             'and the projection, 18 irregular problems each, 1..5 (FEM-BV '
             '1..2) iterations from custom starts x all permutations of up '
             'to 4 components, up to 3 features with all sign patterns, up '
             'to 5 interchangeable samples, up to 3 lags, up to 3 exogenous '
             'series (cyclic shifts and reversal of larger sets), time '
             'reversal of FEM-BV k-means, shifts of the origin; the same for '
             'data with a constant, vanishing, nearly vanishing or dependent '
             'feature or with repeated samples; tolerance '
             '1e-7 (1e-4 through the linear programs)',
    'thorough': 'as quick with 48 problems each and up to 10 iterations',
}
CASE_LIMIT = 300
CHUNK = 2
KINDS = ('KernelAA', 'AA', 'GPNH', 'MTD', 'CROM', 'FEMKMeans', 'FEMVARX',
         'Markov', 'PWVARX', 'VARX', 'FurthestSum', 'Projection')


class Problem:
    """Named inputs and a run producing named outputs, axes labelled by
    letters: k components, d features, n samples, l lags, e series."""
    signs = 'd'
    moves = ()
    shift = False
    tolerance = 1e-7

    def __init__(self, inputs, run, relabel, **kw):
        self.inputs, self.run = inputs, run
        self.relabel = relabel
        self.sizes = {}
        for a, axes in inputs.values():
            for letter, size in zip(axes, np.shape(a)):
                self.sizes[letter] = size
        self.__dict__.update(kw)


def act(named, perms, flips, shift, shifted):
    out = {}
    for name, (a, axes) in named.items():
        a = np.array(a)
        for ax, letter in enumerate(axes):
            if letter in flips:
                shape = [1] * a.ndim
                shape[ax] = -1
                a = a * np.reshape(flips[letter], shape)
        if shift is not None and name in shifted:
            a = a + shift
        for ax, letter in enumerate(axes):
            if letter in perms:
                a = np.take(a, perms[letter], axis=ax)
        out[name] = (a, axes)
    return out


def values(inputs):
    return {name: a for name, (a, axes) in inputs.items()}


# ------------------------------------------------------------------ problems

SIZES = ((5, 2, 3), (5, 3, 2), (5, 1, 3), (5, 3, 4), (40, 5, 6), (12, 2, 3))


def size(i):
    return SIZES[i % len(SIZES)]


VARIED = ('AA', 'GPNH', 'MTD', 'CROM', 'FEMKMeans', 'Markov')


def problem(kind, i, m):
    """Problem i of this kind; from 100 on the same with special data."""
    variant, i = divmod(i, 100)
    return vary(globals()['make_' + kind](i, m), variant)


def vary(p, variant):
    if variant:
        X, axes = p.inputs['data']
        p.inputs['data'] = (special(X, variant), axes)
    return p


def special(X, variant):
    X = np.array(X)
    if variant == 1:  # a constant feature
        X[:, -1] = 1.3
    elif variant == 2:  # a vanishing feature
        X[:, 0] = 0.0
    elif variant == 3:  # dependent features
        X[:, -1] = 2.0 * X[:, 0] + 1.0
    elif variant == 4:  # repeated samples
        X[1::2] = X[0]
    elif variant == 5:  # nearly vanishing feature
        X[:, -1] *= 1e-5
    return X


def special_cases(kinds, big):
    for kind in kinds:
        for variant in range(1, 6):
            # empty clusters, linear programs with many solutions
            if variant == 4 and kind in ('Markov', 'FEMKMeans'):
                continue
            for i in range(14 if big else 7):
                if size(i)[1] < 2:  # all samples alike
                    continue
                for m in ((1, 2, 4) if kind != 'FEMKMeans' else (1, 2)):
                    yield (kind, 100 * variant + i, m)


def finish(model, W):
    return {'weights': (np.array(W), 'nk'), 'cost': (model.cost_, ''),
            'iterations': (model.n_iter_, '')}


def make_KernelAA(i, m, kernel=True):
    n, d, k = size(i)
    X = lattice.pattern((n, d), 7 * i + 1, 2.0)
    delta = (0, 0.3)[i % 2]
    start = spaces.pattern_start('AA', n, d, k, i)
    inputs = {'weights': (start['weights'], 'nk'),
              'dictionary': (start['dictionary'], 'kn')}
    K = spaces.kernel_of(X, ('rbf', 'poly')[i // 2 % 2])
    inputs['data'] = (K, 'nn') if kernel else (X, 'nd')

    def run(data, weights, dictionary):
        from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
        model = (KernelAA if kernel else ArchetypalAnalysis)(
            k, delta=delta, init='custom', max_iterations=m, tolerance=0)
        W = model.fit_transform(data, weights=weights, dictionary=dictionary)
        out = finish(model, W)
        out['dictionary'] = (np.array(model.dictionary_), 'kn')
        if delta:
            out['alpha'] = (np.array(model.alpha), 'k')
        if not kernel:
            out['later'] = (np.array(seeded(model).transform(data)), 'nK')
        return out
    # the origin matters once archetypes are relaxed
    return Problem(inputs, run, 'kn' if kernel else 'knd',
                   shift=not kernel and not delta, shifted=('data',))


def make_AA(i, m):
    return make_KernelAA(i, m, False)


def seeded(model):
    model.random_state = np.random.RandomState(5)
    return model


def make_GPNH(i, m):
    n, d, k = size(i)
    start = spaces.pattern_start('GPNH', n, d, k, i)
    inputs = {'data': (lattice.pattern((n, d), 7 * i + 2, 2.0), 'nd'),
              'weights': (start['weights'], 'nk'),
              'dictionary': (start['dictionary'], 'kd')}

    def run(data, weights, dictionary):
        from reor.gpnh_convex_coding import GPNHConvexCoding
        model = GPNHConvexCoding(
            k, epsilon_states=(0.0, 0.4, 3.0)[i % 3], init='custom',
            max_iterations=m, tolerance=0)
        W = model.fit_transform(data, weights=weights, dictionary=dictionary)
        out = finish(model, W)
        out['dictionary'] = (np.array(model.dictionary_), 'kd')
        out['later'] = (np.array(seeded(model).transform(data)), 'nK')
        return out
    return Problem(inputs, run, 'knd', shift=True,
                   shifted=('data', 'dictionary'))


def make_GPNHseries(i, m, cls='MTD'):
    n, d, k = size(i)
    lags = np.array(((1, 2), (2,), (3, 1), (1, 2, 3), (1, 3, 5), (4, 2))[
        i % 6])
    n = max(n, 9)
    start = spaces.pattern_start('MTD', n, d, k, i, lags)
    inputs = {'data': (lattice.pattern((n, d), 7 * i + 3, 2.0), 'nd'),
              'weights': (start['weights'], 'nk'),
              'dictionary': (start['dictionary'], 'kd'),
              'lags': (lags, 'l')}
    if cls == 'MTD':
        inputs['order_weights'] = (start['order_weights'], 'l')
        inputs['transition_matrices'] = (start['transition_matrices'], 'lkk')

    def run(data, lags, **kw):
        from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
        from reor.mtd_convex_coding import MTDConvexCoding
        cfg = dict(epsilon_states=(0.3, 0.0)[i % 2], init='custom',
                   max_iterations=m, tolerance=0,
                   lags=[int(v) for v in lags],
                   random_state=np.random.RandomState(3))
        if cls == 'MTD':
            model = MTDConvexCoding(k, epsilon_weights=(0.2, 2.0)[i % 2],
                                    **cfg)
        else:
            model = GPNHConvexCodingCROM(k, **cfg)
        W = model.fit_transform(data, **kw)
        out = finish(model, W)
        out['dictionary'] = (np.array(model.dictionary_), 'kd')
        own = cls == 'MTD'
        out['order_weights'] = (np.array(model.order_weights),
                                'l' if own else 'L')
        out['transition_matrices'] = (np.array(model.transition_matrices),
                                      'lkk' if own else 'LKK')
        out['later'] = (np.array(seeded(model).transform(data)), 'nK')
        out['later prediction'] = (np.array(
            seeded(model).predict(data, horizon=2)), 'nd')
        return out
    return Problem(inputs, run, 'kld' if cls == 'MTD' else 'd', shift=True,
                   shifted=('data', 'dictionary', 'later prediction'))


def make_MTD(i, m):
    return make_GPNHseries(i, m)


def make_CROM(i, m):
    return make_GPNHseries(i, m, 'CROM')


def make_FEMKMeans(i, m):
    n, d, k = size(i)
    n = min(n, 14)
    inputs = {'data': (lattice.pattern((n, d), 7 * i + 4, 2.0), 'nd'),
              'parameters': (lattice.pattern((k, d), i + 3, 2.0), 'kd'),
              'weights': (lattice.pattern_simplex(n, k, i), 'nk')}

    def run(data, parameters, weights):
        from reor.fembv_kmeans import FEMBVKMeans
        model = FEMBVKMeans(k, (1.5, None, 2.0)[i % 3], init='custom',
                            max_iterations=m, tolerance=0)
        W = model.fit_transform(data, parameters=parameters, weights=weights,
                                update_parameters=i % 4 != 1)
        out = finish(model, W)
        out['Theta'] = (np.array(model.Theta), 'kd')
        out['transformed'] = (np.array(seeded(model).transform(data)), 'nk')
        return out
    return Problem(inputs, run, 'kd', moves=[
        {'n': tuple(range(n))[::-1]}], shift=True, tolerance=2e-5,
        shifted=('data', 'parameters', 'Theta'))


def make_FEMVARX(i, m):
    n, d, k = size(i)
    n, k, d = max(n, 12), min(k, 3), min(d, 3)
    p = (1, 2)[i % 2]
    exog = i % 3
    inputs = {'data': (lattice.pattern((n, d), 7 * i + 5, 2.0), 'nd'),
              'mu': (lattice.pattern((k, d), i, 2.0), 'kd'),
              'A': (lattice.pattern((k, p, d, d), i + 1, 1.0), 'kpdd'),
              'memory': (np.array([(a * 2 + i) % (p + 1) for a in range(k)]),
                         'k'),
              'weights': (lattice.pattern_simplex(n, k, i), 'nk')}
    if exog:
        inputs['u'] = (lattice.pattern((n, exog), i + 6, 1.0), 'ne')
        inputs['B0'] = (lattice.pattern((k, d, exog), i + 2, 1.0), 'kde')

    def run(data, mu, A, memory, weights, u=None, B0=None):
        from reor.fembv_varx import FEMBVVARX
        A = A.copy()
        top = int(memory.max())
        for j, own in enumerate(memory):
            A[j, own:] = 0
        par = {'mu': mu}
        if top:
            par['A'] = A[:, :top]
        if u is not None:
            par['B0'] = B0
        model = FEMBVVARX(k, (2.0, None)[i % 2],
                          memory=[int(v) for v in memory], init='custom',
                          max_iterations=m, tolerance=0)
        W = model.fit_transform(data, parameters=par, weights=weights[top:],
                                **({} if u is None else
                                   {'external_factors': u}))
        out = finish(model, W)
        out['mu'] = (np.array(model.mu), 'kd')
        if top:
            out['A'] = (np.array(model.A), 'kpdd')
        if u is not None:
            out['B0'] = (np.array(model.B0), 'kde')
        out['transformed'] = (np.array(seeded(model).transform(
            data, **({} if u is None else {'external_factors': u}))), 'Nk')
        return out
    return Problem(inputs, run, 'kde', signs='de', tolerance=2e-5)


def make_VARX(i, m):
    n, d, _ = size(i)
    d, n = min(d, 3), max(n, 20) + i
    p, s, exog = (1, 0, 2)[i % 3], (0, 2, 1)[i // 2 % 3], i % 4
    inputs = {'data': (lattice.pattern((n, d), 7 * i + 6, 2.0), 'nd')}
    if exog:
        inputs['u'] = (lattice.pattern((n, exog), i + 6, 1.0), 'ne')
    weighted = (i + m) % 2

    def run(data, u=None):
        from reor.fembv_varx import FEMBVVARXLocalLinearModel
        model = FEMBVVARXLocalLinearModel(data, p=p, u=u, s=s if exog else 0)
        w = np.abs(lattice.pattern((n,), i + m)) + 0.1
        model.fit(weights=w if weighted else None)
        out = {'mu': (np.array(model.mu), 'd'),
               'residuals': (np.array(model.residuals), 'nd'),
               'Sigma_u': (np.array(model.Sigma_u), 'dd'),
               'Sigma_u_inv': (np.array(model.Sigma_u_inv), 'dd')}
        if p:
            out['A'] = (np.array(model.A), 'pdd')
        if exog:
            out['B0'] = (np.array(model.B0), 'de')
            if s:
                out['B'] = (np.array(model.B), 'sde')
        if d > 1 and not np.linalg.cond(model.Sigma_u) < 1e4:
            del out['Sigma_u_inv']
        return out
    return Problem(inputs, run, 'de', signs='de')


def make_PWVARX(i, m):
    n, d, k = size(i)
    d, n, k = min(d, 3), 60 + n, min(k, 3)
    p, s, exog = (1, 2)[i % 2], (0, 2, 1)[i // 2 % 3], i % 4
    # well separated regimes, so that labels are not decided by rounding
    X = lattice.pattern((n, d), 7 * i + 7, 1.0) + \
        9.0 * (np.arange(n) // 7 % k)[:, None]
    inputs = {'data': (X, 'nd')}
    if exog:
        inputs['u'] = (lattice.pattern((n, exog), i + 6, 1.0), 'ne')

    def run(data, u=None):
        from reor.pwvarx import ClusterPWVARX
        model = ClusterPWVARX(
            k, p, s=s, include_trend=bool(m % 2),
            random_state=np.random.RandomState(2))
        labels = model.fit_transform(data, exog=u)
        # clusters are numbered by the clusterer: by their first sample here
        order = list(dict.fromkeys(labels.tolist()))
        order += [a for a in range(k) if a not in order]
        place = np.argsort(order)
        out = {'labels': (place[labels], 'N'),
               'later': (place[model.transform(data, exog=u)], 'N'),
               'residuals': (np.array(model.residuals), 'Nd'),
               'Sigma_u': (np.array(model.Sigma_u)[order], 'Kdd'),
               'A': (np.array(model.A)[order], 'Kpdd')}
        if m % 2:
            out['mu'] = (np.array(model.mu)[order], 'Kd')
        if exog and s:
            out['B'] = (np.array(model.B)[order], 'Ksde')
        return out
    return Problem(inputs, run, 'de', signs='de', tolerance=1e-6)


def make_Markov(i, m):
    n, d, k = size(i)
    n = n + 12
    X = lattice.pattern((n, d), 7 * i + 8, 2.0)
    inputs = {'data': (X, 'nd'), 'centres': (X[:k] + 0.1, 'kd')}

    def run(data, centres):
        from reor.crom import KMeansMarkovCROM
        model = KMeansMarkovCROM(k, init=centres, n_init=1, max_iter=m)
        labels = model.fit_predict(data)
        return {'labels': (np.eye(k)[labels], 'nk'),
                'centres': (np.array(model.cluster_centers_), 'kd'),
                'squared distances': (np.array(
                    model.transform(data)) ** 2, 'nk'),
                'transition': (np.array(model.transition_matrix_), 'kk'),
                'inertia': (model.inertia_, ''),
                'now': (model.predict(data), 'nk'),
                'ahead': (model.predict(data, horizon=3), 'nk')}
    return Problem(inputs, run, 'kd', shift=True,
                   shifted=('data', 'centres'))


def make_FurthestSum(i, m):
    n, d, k = size(i)
    # on a line, sums of distances tie between points
    X = lattice.pattern((n, max(d, 2)), 7 * i + 9, 2.0)
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
    first = np.zeros(n)
    first[i % n] = 1
    excluded = np.zeros(n)
    if i % 2:
        excluded[(i + 2) % n] = 1
    k = min(k, n - int(excluded.sum()))
    inputs = {'data': (D, 'nn'), 'first': (first, 'n'),
              'excluded': (excluded, 'n')}

    def run(data, first, excluded):
        from reor.furthest_sum import furthest_sum
        chosen = furthest_sum(
            data, k, start_index=int(np.argmax(first)),
            exclude=[int(v) for v in np.flatnonzero(excluded)],
            extra_steps=m - 1)
        return {'selected': (np.eye(n)[np.asarray(chosen)], 'Kn')}
    return Problem(inputs, run, 'n')


def make_Projection(i, m):
    n, _, k = size(i)
    inputs = {'data': (lattice.pattern((n, k), 7 * i + m, (1.0, 4.0)[i % 2]),
                       'nk')}

    def run(data):
        from reor.simplex_projection import (
            simplex_project_columns, simplex_project_rows,
            simplex_project_vector)
        rows, columns = data.copy(), data.T.copy()
        simplex_project_rows(rows)
        simplex_project_columns(columns)
        return {'rows': (rows, 'nk'), 'columns': (columns, 'kn'),
                'vectors': (np.array([simplex_project_vector(row)
                                      for row in data]), 'nk')}
    return Problem(inputs, run, 'kn', shift=True, shifted=('data',))


# --------------------------------------------------------------- exploration

def reorderings(count):
    if count <= 5:
        return list(itertools.permutations(range(count)))[1:]
    out = [tuple(range(count))[::-1]]
    for by in (1, 2, count // 2, count - 1):
        out.append(tuple((a + by) % count for a in range(count)))
    swap = list(range(count))
    swap[0], swap[-1] = swap[-1], swap[0]
    return out + [tuple(swap)]


def moves(p):
    """All relabellings of the problem: (permutations, flips, shift)."""
    for letter in p.relabel:
        if letter in p.sizes:
            for perm in reorderings(p.sizes[letter]):
                yield {letter: perm}, {}, None
    for letter in p.signs:
        if letter in p.sizes and letter in p.relabel:
            count = p.sizes[letter]
            signs = itertools.product((1.0, -1.0), repeat=count) \
                if count <= 3 else ([-1.0] * count,
                                    [(-1.0) ** a for a in range(count)])
            for s in signs:
                if min(s) < 0:
                    yield {}, {letter: np.array(s)}, None
                    if count > 1:
                        yield ({letter: tuple(range(1, count)) + (0,)},
                               {letter: np.array(s)}, None)
    for perms in p.moves:
        yield perms, {}, None
    if p.shift:
        for by in (0.75, -3.0, 10.0):
            yield {}, {}, by
        for name in p.shifted:
            # the origin at a sample or at an initial dictionary element
            if name in p.inputs and p.inputs[name][1].endswith('d'):
                for row in p.inputs[name][0][:3]:
                    yield {}, {}, -np.array(row)
    everything = {letter: tuple(range(p.sizes[letter]))[::-1]
                  for letter in p.relabel if letter in p.sizes}
    yield everything, {}, 0.5 if p.shift else None


def cases(tier):
    big = tier == 'thorough'
    for kind in KINDS:
        fem = kind in ('FEMKMeans', 'FEMVARX')
        deep = (4 if fem else 10) if big else (2 if fem else 5)
        if kind == 'VARX':
            deep = 2
        for i in range(48 if big else 18):
            for m in range(1, deep + 1):
                yield (kind, i, m)
    yield from special_cases(VARIED, big)


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def run(case, r):
    kind, i, m = case
    p = problem(kind, i, m)
    base = quietly(lambda: p.run(**values(p.inputs)))
    for perms, flips, shift in moves(p):
        data = act(p.inputs, perms, flips, shift, getattr(p, 'shifted', ()))
        got = quietly(lambda: p.run(**values(data)))
        known = tuple(getattr(p, 'shifted', ()))
        if kind == 'Projection':
            known = ()
        want = act(base, perms, flips, shift,
                   [name for name in known if name != 'data' and
                    (name != 'dictionary' or kind in ('GPNH', 'MTD',
                                                      'CROM'))])
        for name, (a, _) in want.items():
            if name not in got:  # ill conditioned
                continue
            # starts of later calls are drawn for given places
            if name.startswith('later') and kind != 'PWVARX' and \
                    set(perms) - {'d'}:
                continue
            b = np.array(got[name][0])
            r.step()
            scale = max(np.nanmax(np.abs(a)) if np.size(a) else 0, 1e-300)
            if np.shape(a) != b.shape or not np.allclose(
                    a, b, rtol=0, atol=p.tolerance * (1 + scale),
                    equal_nan=True):
                r.fail('relabelling changes the result', kind=kind, problem=i,
                       iterations=m, output=name, permutations=perms,
                       signs=flips, shift=shift, got=b, want=a,
                       inputs=values(p.inputs))
        r.state(kind, i, m, perms, {a: list(b) for a, b in flips.items()},
                shift)
    r.trace()
