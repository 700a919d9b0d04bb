"""C30: results depend on values, not on number type or memory layout."""

import numpy as np

from mc import lattice, models

PROP = 'C30'
BOUNDS = {
    'quick': '50 configurations of all nine models (12 of them with up to 90 '
             'samples, 6 components, 5 lags), calls fit_transform (and '
             'fit), transform, predict, inverse_transform on three integer '
             'valued data sets; every array argument alone and all together '
             'in each of 16 representations (row-major, column-major, '
             'strided, reversed, read-only, big-endian double; single '
             'precision; signed and unsigned integers of 8, 16, 32 and 64 '
             'bits where the values fit; strided and reversed integers; '
             'boolean); each argument as integers beside fractional others; '
             'FurthestSum, its exclusion list, simplex '
             'projection and local VARX inputs likewise',
    'thorough': 'as quick with every pair of representations of data and '
                'other arguments',
}
CASE_LIMIT = 120
CHUNK = 2


def representations(A):
    """Same values in other number types and layouts: (name, array)."""
    A = np.asarray(A, dtype='f8')
    for name, B in lattice.layouts(A):
        if name != 'C':
            yield name, B
    yield 'big-endian', A.astype('>f8')
    if np.array_equal(A, A.astype('f4')):
        yield 'f4', A.astype('f4')
    if np.array_equal(A, np.round(A)):
        for t in ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8'):
            info = np.iinfo(t)
            if A.min() >= info.min and A.max() <= info.max:
                yield t, A.astype(t)
        for name, B in lattice.layouts(A.astype('i8')):
            if name in ('strided', 'reversed', 'readonly', 'F'):
                yield 'i8 ' + name, B
        if set(np.unique(A)) <= {0.0, 1.0}:
            yield 'bool', A.astype(bool)


def slots(obj, path=()):
    """Paths of all arrays in nested arguments."""
    if isinstance(obj, np.ndarray):
        return [path]
    if isinstance(obj, dict):
        return [p for k in sorted(obj) for p in slots(obj[k], path + (k,))]
    if isinstance(obj, (list, tuple)):
        return [p for k, v in enumerate(obj) for p in slots(v, path + (k,))]
    return []


def get(obj, path):
    for k in path:
        obj = obj[k]
    return obj


def put(obj, path, value):
    for k in path[:-1]:
        obj = obj[k]
    obj[path[-1]] = value


def cases(tier):
    for i, spec in enumerate(models.ALL):
        for op in spec.ops():
            yield (i, op, tier)
    for c in range(30):
        yield ('functions', c)


def execute(spec, op, changed, mode):
    """Result of op after a plain fit (or of the fit itself)."""
    inst = spec.build(np.random.RandomState(3))
    fitted = None
    if op[0] not in spec.fits:
        pre = ('fit', op[1])
        spec.call(inst, pre, None, integral=True)
        fitted = op[1]
    inputs = spec.inputs(op, fitted, integral=True)
    inputs = list(inputs)
    for path, value in changed:
        put(inputs, path, value)
    out = spec.call(inst, op, fitted, inputs=inputs)
    return models.snapshot(out), spec.results(inst)


def run(case, r):
    if case[0] == 'functions':
        return functions(case[1], r)
    i, op, tier = case
    spec = models.ALL[i]
    fitted = None if op[0] in spec.fits else op[1]
    base = spec.inputs(op, fitted, integral=True)
    want = execute(spec, op, [], None)
    paths = slots(base)
    per = {p: list(representations(get(base, p))) for p in paths}
    trials = [[(p, name, B)] for p in paths for name, B in per[p]]
    # all arguments in the same representation
    names = sorted(set(n for p in paths for n, _ in per[p]))
    for n in names:
        trials.append([(p, n, dict(per[p])[n]) for p in paths
                       if n in dict(per[p])])
    if tier == 'thorough' and len(paths) > 1:
        for n, B in per[paths[0]]:
            for p in paths[1:]:
                for m, C in per[p]:
                    if m != n:
                        trials.append([(paths[0], n, B), (p, m, C)])
    run_trials(spec, op, trials, want, {}, r)
    # one argument integer valued, the others with fractional values
    frac = list(spec.inputs(op, fitted, integral=False))
    if len(paths) > 1 and slots(frac) == paths:
        for p in paths:
            mixed = {q: get(frac, q) for q in paths if q != p}
            if all(np.array_equal(get(base, q), v)
                   for q, v in mixed.items()):
                continue
            try:
                want = execute(spec, op, list(mixed.items()), None)
            except ValueError:
                continue
            run_trials(spec, op, [[(p, name, B)] for name, B in per[p]
                                  if B.dtype.kind in 'iub'], want, mixed, r)


def run_trials(spec, op, trials, want, mixed, r):
    for trial in trials:
        single = any(n == 'f4' for _, n, _ in trial)
        tol = spec.tolerance
        if single and isinstance(spec, models.MarkovSpec):
            tol = 1e-3
        label = [('.'.join(map(str, p)), n) for p, n, _ in trial]
        try:
            got = execute(spec, op, list(mixed.items()) +
                          [(p, B) for p, n, B in trial], None)
        except Exception as e:
            r.fail('%s: input rejected because of its number type or memory '
                   'layout: %s: %s' % (op[0], type(e).__name__, e),
                   model=spec.name, representation=label, op=op,
                   others='fractional' if mixed else 'integral')
        for a, b, what in ((got[0], want[0], 'result of ' + op[0]),
                           (got[1], want[1], 'fitted attributes')):
            if not models.close(a, b, 100 * tol):
                r.fail('%s differs for the same values in another number '
                       'type or memory layout' % what, model=spec.name,
                       representation=label, op=op, got=a, want=b)
        r.state(spec.name, op, label, len(mixed))
        r.step()
        r.trace()


class Recorder:
    """Clusterer and classifier which keep what they are given."""

    def __init__(self, seen):
        self.seen = seen

    def note(self, x):
        self.seen.append(np.array(x, dtype='f8').ravel())
        return np.arange(len(x)) % 2

    fit_predict = predict = note

    def fit(self, x, labels):
        self.note(x)


def predictors(y, u, c):
    """All matrices handed to clusterer and classifier."""
    from reor.pwvarx import ClusterPWVARX
    seen = []
    m = ClusterPWVARX(2, p=c % 3, s=1 + c % 2, clusterer=Recorder(seen),
                      classifier=Recorder(seen))
    m.fit(y, exog=u)
    m.transform(y, exog=u)
    return np.concatenate(seen + [m.residuals.ravel()])


def functions(c, r):
    from reor.furthest_sum import furthest_sum
    from reor.crom import kmeans_markov_crom
    from reor.simplex_projection import simplex_project_vector
    from reor.fembv_varx import FEMBVVARXLocalLinearModel as Local
    n = 4 + c % 5
    P = np.round(lattice.pattern((n, 2), c) * 6)
    D = ((P[:, None] - P[None]) ** 2).sum(axis=2)
    k = 1 + c % 3
    want = list(furthest_sum(D.copy(), k, c % n, extra_steps=c % 4))
    for name, B in representations(D):
        if B.dtype.kind == 'b':
            continue
        got = list(furthest_sum(B, k, c % n, extra_steps=c % 4))
        r.require(got == want, 'furthest_sum depends on the representation',
                  representation=name, got=got, want=want, D=D)
        r.step()
    # exclusion lists in every representation
    ex = [i for i in range(n) if i != c % n][1::2]
    k = 1 + c % 2
    want = list(furthest_sum(D.copy(), k, c % n, ex, c % 4))
    for name, B in representations(np.array(ex)):
        if B.dtype.kind not in 'iu':
            continue
        got = list(furthest_sum(D, k, c % n, B, c % 4))
        r.require(got == want, 'furthest_sum depends on the representation '
                  'of the exclusion list', representation=name, got=got,
                  want=want, D=D, exclude=ex)
        r.step()
    # dissimilarities filling the range of the narrow integer types, whose
    # sums do not fit
    for top in (127, 255):
        E = np.floor(np.sqrt(D / D.max()) * top)
        k = min(n, 3 + c % 3)
        want = list(furthest_sum(E.copy(), k, c % n, extra_steps=5))
        for name, B in representations(E):
            got = list(furthest_sum(B, k, c % n, extra_steps=5))
            r.require(got == want, 'furthest_sum depends on the '
                      'representation', representation=name, got=got,
                      want=want, D=E)
            r.step()
    v = np.round(lattice.pattern((n,), c) * 4)
    want = simplex_project_vector(v.copy())
    for name, B in representations(v):
        if B.dtype.kind == 'b':
            continue
        got = np.asarray(simplex_project_vector(B), dtype='f8')
        r.close(got, want, 'simplex projection depends on the representation',
                atol=1e-6 if name == 'f4' else 1e-12, representation=name)
        r.step()
    X = np.round(lattice.pattern((n + 3, 2), c) * 40)
    u = np.round(lattice.pattern((n + 3, 1), c + 2) * 3)
    w = np.round(np.abs(lattice.pattern((n + 3,), c)) * 3) + 1

    def fit(X, u, w):
        m = Local(X, p=c % 3, u=u, s=c % 2)
        m.fit(weights=w)
        return m
    ref = fit(X, u, w)
    for which in range(3):
        for name, B in representations((X, u, w)[which]):
            args = [X, u, w]
            args[which] = B
            got = fit(*args)
            tol = 1e-8
            if name == 'f4' and which == 2:
                tol = 1e-3
            r.close(got.mu, ref.mu, 'local VARX fit depends on the '
                    'representation', atol=tol * 100, representation=name,
                    argument=('y', 'u', 'weights')[which])
            r.close(got.residuals, ref.residuals, 'local VARX residuals '
                    'depend on the representation', atol=tol * 100,
                    representation=name, argument=which)
            r.step()
    # the predictors of the piecewise model, integers beside fractions
    frac = lattice.pattern((n + 3, 1), c + 2, 3.0)
    base = predictors(X, frac, c)
    for name, B in representations(X):
        r.close(predictors(B, frac, c), base, 'piecewise VARX predictors '
                'depend on the representation', representation=name,
                argument='endog')
        r.step()
    ints = np.round(frac)
    base = predictors(X + 0.25, ints, c)
    for name, B in representations(ints):
        r.close(predictors(X + 0.25, B, c), base, 'piecewise VARX predictors '
                'depend on the representation', representation=name,
                argument='exog')
        r.step()
    km, T = kmeans_markov_crom(X, n_clusters=2, random_state=c, n_init=1)
    for name, B in representations(X):
        km2, T2 = kmeans_markov_crom(B, n_clusters=2, random_state=c,
                                     n_init=1)
        r.close(T2, T, 'transition matrix depends on the representation',
                representation=name)
    r.state('functions', c)
    r.trace()
