"""C44: results for given data do not depend on how the data are split."""

import numpy as np

from mc import lattice
from mc.props import c39

PROP = 'C44'
BOUNDS = {
    'quick': 'six fitted cluster-Markov models, six piecewise VARX models, '
             'twelve unbounded FEM-BV models (k-means and VARX), the local '
             'VARX residuals, and decoding of four factor models, each '
             'applied to series of 3, 11, 40, 130 and 300 rows: whole, one row '
             'at a time, and in windows of 7 lengths from every start '
             '(series over 40 rows: every 5th start), with the rows needed '
             'for the lags kept; without linear programs also the first and '
             'last 1, 2, ..., 299 rows; tolerance 1e-9 (5e-3 through the linear '
             'programs)',
    'thorough': 'as quick with twice the models, series of 600 rows and '
                'windows from every start of all series',
}
CASE_LIMIT = 300
CHUNK = 2
KINDS = ('Markov', 'PWVARX', 'FEMKMeans', 'FEMVARX', 'VARX', 'decoding')
LENGTHS = (3, 11, 40, 130, 300)


def cases(tier):
    big = tier == 'thorough'
    for kind in KINDS:
        for i in range(12 if big else 6):
            for N in LENGTHS + ((600,) if big else ()):
                yield (kind, i, N, big)


def new_data(i, N, d):
    return lattice.pattern((N, d), 11 * i + N, 3.0)


def make_Markov(i, N):
    from reor.crom import KMeansMarkovCROM
    d, k = i % 3 + 1, i % 4 + 2
    X = lattice.pattern((30, d), i, 3.0)
    model = KMeansMarkovCROM(k, init=X[:k] + 0.1, n_init=1).fit(X)
    return {'x': new_data(i, N, d)}, 0, {
        'distances': lambda x: model.transform(x),
        'clusters': lambda x: model.predict(x),
        'distribution': lambda x: model.predict(x, horizon=1 + i % 3)}


def make_PWVARX(i, N):
    from reor.pwvarx import ClusterPWVARX
    d, k, p, s = i % 3 + 1, i % 2 + 2, i % 3 + 1, (0, 2, 4)[i // 2 % 3]
    X = lattice.pattern((80, d), i, 1.0) + \
        6.0 * (np.arange(80) // 9 % k)[:, None]
    model = ClusterPWVARX(k, p, s=s, random_state=0)
    data = {'x': 2 * new_data(i, N, d) + 2}
    u = None
    if s:
        u = lattice.pattern((80, 2), i + 3, 1.0)
        data['u'] = lattice.pattern((N, 2), i + 4, 1.0)
    model.fit(X, exog=u)
    return data, max(p, s), {
        'labels': lambda x, u=None: model.transform(x, exog=u)}


def make_FEMKMeans(i, N):
    from reor.fembv_kmeans import FEMBVKMeans
    d, k = i % 3 + 1, i % 4 + 2
    X = lattice.pattern((20, d), i, 3.0)
    model = FEMBVKMeans(k, None, init='custom', max_iterations=2)
    model.fit(X, parameters=X[:k] + 0.1,
              weights=lattice.pattern_simplex(20, k, i))
    return {'x': new_data(i, N, d)}, 0, {
        'affiliations': lambda x: model.transform(x)}


def make_FEMVARX(i, N):
    from reor.fembv_varx import FEMBVVARX
    d, k = i % 2 + 1, i % 2 + 2
    memory = [(a + i) % 3 for a in range(k)]
    X = lattice.pattern((30, d), i, 3.0)
    model = FEMBVVARX(k, None, memory=memory, init='custom',
                      max_iterations=1)
    data = {'x': new_data(i, N, d)}
    kw = {}
    par = {'mu': lattice.pattern((k, d), i + 1, 3.0),
           'A': lattice.pattern((k, max(memory), d, d), i + 2, 1.0)}
    if i % 3:
        kw = {'external_factors': lattice.pattern((30, 2), i + 3, 1.0)}
        par['B0'] = lattice.pattern((k, d, 2), i + 3, 1.0)
        data['u'] = lattice.pattern((N, 2), i + 4, 1.0)
    model.fit(X, parameters=par, weights=lattice.pattern_simplex(
        30 - max(memory), k, i), **kw)

    def affiliations(x, u=None):
        return model.transform(x, **({} if u is None else
                                     {'external_factors': u}))
    return data, max(memory), {'affiliations': affiliations}


def make_VARX(i, N):
    from reor.fembv_varx import FEMBVVARXLocalLinearModel
    d, p, exog = i % 3 + 1, i % 4, i % 3
    data = {'x': new_data(i, N, d)}
    if exog:
        data['u'] = lattice.pattern((N, exog), i, 1.0)
    mu = lattice.pattern((d,), i, 1.0)
    A = lattice.pattern((p, d, d), i + 1, 1.0)
    B0 = lattice.pattern((d, exog), i + 2, 1.0)

    def residuals(x, u=None):
        model = FEMBVVARXLocalLinearModel(x, p=p, u=u)
        model.set_parameters(mu, A=A, B0=B0)
        return np.array(model.residuals[p:])
    return data, p, {'residuals': residuals}


def make_decoding(i, N):
    from reor.archetypal_analysis import ArchetypalAnalysis
    from reor.gpnh_convex_coding import GPNHConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    from reor.mtd_convex_coding import MTDConvexCoding
    d, k = i % 3 + 1, i % 4 + 1
    X = lattice.pattern((9, d), i, 3.0)
    out = {}
    for cls in (ArchetypalAnalysis, GPNHConvexCoding, GPNHConvexCodingCROM,
                MTDConvexCoding):
        model = cls(k, max_iterations=1, init='random', random_state=0)
        model.fit(X)
        out[cls.__name__] = lambda x, model=model: model.inverse_transform(x)
    return {'x': lattice.pattern_simplex(N, k, i)}, 0, out


def windows(N, lag, dense):
    for length in (1, 2, 3, 5, 8, 20, 64):
        if lag + length > N:
            break
        step = 1 if dense or N <= 40 else 5
        for start in range(0, N - lag - length + 1, step):
            yield start, length


def prefixes(r, kind, i, name, fn, data, lag, whole):
    """The first and the last rows of every number."""
    N = len(whole) + lag
    for length in range(1, N - lag):
        for start in (0, N - lag - length):
            part = {a: v[start:start + lag + length].copy()
                    for a, v in data.items()}
            got = np.array(c39.quietly(lambda: fn(**part)))
            want = whole[start:start + length]
            r.step()
            if got.shape != want.shape or not np.allclose(
                    got, want, rtol=0, atol=1e-9 * (1 + np.abs(want).max())):
                r.fail('the results for some rows depend on other rows',
                       model=kind, problem=i, rows=N, output=name,
                       first=start, count=length, got=got, want=want)
                return


def run(case, r):
    kind, i, N, dense = case
    data, lag, results = c39.quietly(lambda: globals()['make_' + kind](i, N))
    if N <= lag:
        return
    # affiliations come from an interior-point solver, blurred near ties
    tol = 5e-3 if 'FEM' in kind else 1e-9
    for name, fn in results.items():
        whole = np.array(c39.quietly(lambda: fn(**data)))
        r.require(len(whole) == N - lag, 'unexpected number of results',
                  model=kind, problem=i, rows=N, output=name,
                  got=whole.shape)
        for start, length in windows(N, lag, dense):
            if 'FEM' in kind and N > 11 and (start + length) % 4:
                continue
            part = {a: v[start:start + lag + length].copy()
                    for a, v in data.items()}
            got = np.array(c39.quietly(lambda: fn(**part)))
            want = whole[start:start + length]
            r.step()
            if got.shape != want.shape or not np.allclose(
                    got, want, rtol=0, atol=tol * (1 + np.abs(want).max())):
                r.fail('the results for some rows depend on other rows',
                       model=kind, problem=i, rows=N, output=name,
                       first=start, count=length, got=got, want=want)
            r.state(kind, i, N, name, start, length)
        if 'FEM' not in kind and N >= 130:
            prefixes(r, kind, i, name, fn, data, lag, whole)
    r.trace()
