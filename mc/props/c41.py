"""C41: results follow the data through a change of units or of axes."""

import itertools

import numpy as np

from mc.props import c39

PROP = 'C41'
BOUNDS = {
    'quick': 'all nine models, the local VARX fit and the FurthestSum '
             'selection, 18 irregular problems each, 1..5 (FEM-BV 1..2) '
             'iterations from custom starts x rotations and reflections of '
             'the feature space (every pair of axes by 6 angles, mixed '
             'rotations), rotations of the exogenous series; changes of '
             'units by 2^-40..2^40 and by decimal factors for FurthestSum, '
             'FEM-BV k-means, Markov and GPNH dictionaries, by 1e-3..2^17 '
             'for the VARX, FEM-BV VARX and PWVARX fits; '
             'general affine changes of variables (3 matrices, 2 origins) '
             'for the VARX fits; the same for data with a constant, '
             'vanishing, nearly vanishing or dependent feature or repeated '
             'samples; tolerance 1e-7 (2e-5 through the linear '
             'programs)',
    'thorough': 'as quick with 48 problems each and up to 10 iterations',
}
CASE_LIMIT = 300
CHUNK = 2
KINDS = tuple(k for k in c39.KINDS if k != 'Projection') + ('GPNHstates',)

# Axes of inputs and outputs: d and e follow the change of the data and of
# the exogenous series, D and E the inverse change.
AXES = {'A': {'kpdd': 'kpdD', 'pdd': 'pdD', 'Kpdd': 'KpdD'},
        'B0': {'kde': 'kdE', 'de': 'dE'},
        'B': {'sde': 'sdE', 'Ksde': 'KsdE'},
        'Sigma_u_inv': {'dd': 'DD'}}
SQUARES = ('cost', 'inertia', 'squared distances')
FACTORS = (2.0 ** -40, 2.0 ** -12, 1e-3, 0.7, 3.0, 1e3, 2.0 ** 17,
           2.0 ** 40)
SCALED = ('FEMKMeans', 'FEMVARX', 'VARX', 'PWVARX', 'Markov', 'GPNHstates',
          'FurthestSum')


def make_GPNHstates(i, m):
    """Dictionary of given weights."""
    p = c39.make_GPNH(i, m)
    n = np.shape(p.inputs['data'][0])[0]

    def run(data, weights, dictionary):
        from reor.gpnh_convex_coding import GPNHConvexCoding
        model = GPNHConvexCoding(
            np.shape(weights)[1], epsilon_states=(0.0, 0.4, 3.0)[i % 3],
            init='custom', max_iterations=m, tolerance=0)
        model.fit_transform(data, weights=weights, dictionary=dictionary,
                            update_weights=False)
        return {'dictionary': (np.array(model.dictionary_), 'kd'),
                'cost': (model.cost_, '')}
    p.run = run
    return p


def problem(kind, i, m):
    if kind == 'GPNHstates':
        return c39.vary(make_GPNHstates(i % 100, m), i // 100)
    return c39.problem(kind, i, m)


def axes_of(name, axes):
    return AXES.get(name, {}).get(axes, axes)


def along(a, axis, M):
    return np.moveaxis(np.tensordot(M, a, axes=(1, axis)), 0, axis)


def transform(named, M, U, size):
    """size: the factor of lengths in the data (1 for a rotation)."""
    out = {}
    for name, (a, axes) in named.items():
        a = np.array(a, dtype=float)
        for axis, letter in enumerate(axes_of(name, axes)):
            by = {'d': M, 'e': U}.get(letter)
            if letter == 'D':
                by = np.linalg.inv(M).T if M is not None else None
            if letter == 'E':
                by = np.linalg.inv(U).T if U is not None else None
            if by is not None:
                a = along(a, axis, by)
        if name in SQUARES:
            a = a * size ** 2
        out[name] = (a, axes)
    return out


def rotation(d, a, b, angle):
    Q = np.eye(d)
    Q[a, a] = Q[b, b] = np.cos(angle)
    Q[a, b], Q[b, a] = -np.sin(angle), np.sin(angle)
    return Q


def rotations(d, thorough=False):
    if d < 2:
        return
    for a, b in itertools.combinations(range(d), 2):
        for angle in (1e-3, np.pi / 6, np.pi / 4, 2.0, 4.4, np.pi / 2):
            yield rotation(d, a, b, angle)
    Q = np.eye(d)
    for a in range(d - 1):
        Q = Q @ rotation(d, a, a + 1, 0.6 + a)
    yield Q
    v = np.arange(1.0, d + 1)
    yield np.eye(d) - 2 * np.outer(v, v) / (v @ v)


def general(d):
    yield np.diag(10.0 ** ((np.arange(d) - d // 2) * 1.5))
    L = np.eye(d) + np.tril(np.ones((d, d)), -1)
    yield L
    yield 3.0 * L.T - 0.5 * np.eye(d)


def moves(kind, p):
    """(label, change of data, change of series, factor of lengths)"""
    d, e = p.sizes.get('d'), p.sizes.get('e')
    if d and kind != 'FurthestSum':
        for Q in rotations(d):
            yield 'axes', Q, None, 1.0
    if e:
        for Q in rotations(e):
            yield 'axes of the series', None, Q, 1.0
    if kind in SCALED:
        for c in FACTORS:
            # a regression with an intercept loses digits with the ratio of
            # the units of its columns
            if 'VARX' in kind and not 1e-6 < c < 1e6:
                continue
            M = c * np.eye(d) if d else None
            if e and kind == 'PWVARX':  # clusters both together
                yield 'units', M, c * np.eye(e), c
            else:
                yield 'units', M, None, c
            if e and kind in ('VARX', 'FEMVARX'):
                yield 'units of the series', None, c * np.eye(e), 1.0
    if kind == 'VARX':
        for M in general(d):
            yield 'variables', M, None, 1.0
    if e and kind in ('VARX', 'FEMVARX'):
        for U in general(e):
            yield 'series', None, U, 1.0


def shifted(kind, named, by, series):
    """A move of the origins of a linear model: only the mean follows."""
    out = dict(named)
    if 'mu' in out:
        mu, axes = out['mu']
        mu = np.array(mu) + by
        if 'A' in out:
            A = np.array(out['A'][0])
            mu = mu - np.einsum('...pij,j->...i', A, by)
        for name in ('B0', 'B'):
            if name in out and series is not None:
                B = np.array(out[name][0])
                mu = mu - (B @ series if name == 'B0' else
                           (B @ series).sum(axis=-2))
        out['mu'] = (mu, axes)
    if 'data' in out:
        out['data'] = (out['data'][0] + by, out['data'][1])
    if 'u' in out and series is not None:
        out['u'] = (out['u'][0] + series, out['u'][1])
    return out


def usable(kind, inputs):
    """Coefficients of orders beyond a component's memory do not take part."""
    if kind != 'FEMVARX' or 'A' not in inputs:
        return inputs
    A = np.array(inputs['A'][0])
    for j, own in enumerate(inputs['memory'][0]):
        A[j, int(own):] = 0
    return dict(inputs, A=(A, inputs['A'][1]))


def cases(tier):
    big = tier == 'thorough'
    for kind in KINDS:
        fem = kind in ('FEMKMeans', 'FEMVARX')
        deep = (4 if fem else 10) if big else (2 if fem else 5)
        if kind in ('VARX', 'GPNHstates'):
            deep = 2
        for i in range(48 if big else 18):
            for m in range(1, deep + 1):
                yield (kind, i, m)
    yield from c39.special_cases(c39.VARIED + ('GPNHstates',), big)


def compare(r, kind, i, m, p, label, got, want, **where):
    for name, (a, _) in want.items():
        if name not in got:
            continue
        a, b = np.array(a), np.array(got[name][0])
        r.step()
        scale = np.nanmax(np.abs(a)) if np.size(a) else 0
        small = where.get('size', 1.0)
        unit = {1: small, 2: small ** 2}.get(
            2 if name in SQUARES else 1 if name in (
                'mu', 'dictionary', 'Theta', 'residuals', 'centres') else 0,
            1.0)
        if name == 'Sigma_u':
            unit = small ** 2
        if name == 'Sigma_u_inv':
            unit = small ** -2
        if np.shape(a) != b.shape or not np.allclose(
                a, b, rtol=0, atol=p.tolerance * (unit + scale),
                equal_nan=True):
            r.fail('the result does not follow a change of ' + label,
                   kind=kind, problem=i, iterations=m, output=name, got=b,
                   want=a, **where)


def run(case, r):
    kind, i, m = case
    p = problem(kind, i, m)
    p.inputs = usable(kind, p.inputs)
    base = c39.quietly(lambda: p.run(**c39.values(p.inputs)))
    for label, M, U, size in moves(kind, p):
        inputs = transform(p.inputs, M, U, size)
        if 'memory' in inputs:
            inputs['memory'] = p.inputs['memory']
        if 'lags' in inputs:
            inputs['lags'] = p.inputs['lags']
        if kind == 'FurthestSum':
            inputs['data'] = (p.inputs['data'][0] * size, 'nn')
        if kind == 'KernelAA' and label == 'axes':
            continue
        got = c39.quietly(lambda: p.run(**c39.values(inputs)))
        compare(r, kind, i, m, p, label, got,
                transform(base, M, U, size), M=M, U=U, size=size)
        r.state(kind, i, m, label, None if M is None else M.tolist(),
                None if U is None else U.tolist(), size)
    if kind in ('VARX', 'FEMVARX'):
        d, e = p.sizes['d'], p.sizes.get('e')
        for by in (0.7, -40.0):
            by = by * np.arange(1.0, d + 1)
            series = None if not e else 3.0 - np.arange(e)
            got = c39.quietly(lambda: p.run(**c39.values(shifted(
                kind, p.inputs, by, series))))
            compare(r, kind, i, m, p, 'origin', got,
                    shifted(kind, base, by, series), by=by)
            r.state(kind, i, m, by.tolist())
    r.trace()
