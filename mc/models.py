"""Uniform view of every model of the package, for history exploration.

A Spec describes one model configuration: how to build an instance, which
calls it supports and with which inputs.  An operation is a tuple
(method, dataset[, horizon]); its inputs are created afresh on every request,
so that no two calls ever share memory unless a check wants them to.
"""

import numpy as np

from mc import lattice, spaces

N_SETS = 3
SHAPES = ((6, 2), (6, 2), (8, 3), (6, 3))


def data_set(i, integral=False, shapes=SHAPES):
    n, d = shapes[i]
    X = lattice.pattern((n, d), 3 * i + 1, 3.0)
    X[: n // 2] += 2.0 + i
    if integral:
        X = np.round(X * 9)
        return np.abs(X) if i == 1 else X
    return X


def exog_set(i, integral=False, shapes=SHAPES, columns=1):
    u = lattice.pattern((shapes[i][0], columns), 4 + i, 2.0)
    return np.round(u * 2) if integral else u


def one_hot(rows, cols, seed):
    W = np.zeros((rows, cols))
    for a in range(rows):
        W[a, (a * 2 + a // 3 + seed) % cols] = 1.0
    return W


class Spec:
    fits = ('fit', 'fit_transform')
    later = ('transform', 'inverse_transform')
    attributes = ()
    same_samples = False
    random = True
    tolerance = 1e-9
    columns = 1

    def __init__(self, name, **cfg):
        self.name = name
        self.cfg = cfg
        self.k = cfg.pop('k', 2)
        self.iters = cfg.pop('iters', 3)
        self.flags = cfg.pop('flags', {})
        self.shapes = cfg.pop('shapes', SHAPES)
        self.columns = cfg.pop('columns', 1)

    # -- to be provided
    def build(self, rs, verbose=0):
        raise NotImplementedError

    def fit_kwargs(self, i, integral):
        return {}

    # -- generic
    def form(self, X):
        return X

    def compatible(self, fitted, i):
        """Data set i can be transformed after fitting data set `fitted`."""
        if self.same_samples:
            return self.shapes[fitted][0] == self.shapes[i][0]
        return self.shapes[fitted][1] == self.shapes[i][1]

    def inputs(self, op, fitted=None, integral=False):
        """(args, kwargs) of the call, all arrays fresh."""
        method, i = op[0], op[1]
        if method in self.fits:
            return ([self.form(data_set(i, integral, self.shapes))],
                    dict(self.flags, **self.fit_kwargs(i, integral)))
        if method == 'inverse_transform':
            k = self.components(fitted)
            W = one_hot(4, k, i) if integral else \
                lattice.pattern_simplex(4, k, i)
            return [W], {}
        kw = dict(self.later_kwargs(i, integral))
        if method == 'predict':
            kw['horizon'] = op[2]
        return [self.form(data_set(i, integral, self.shapes))], kw

    def later_kwargs(self, i, integral):
        return {}

    def components(self, fitted):
        if self.k is not None:
            return self.k
        return self.shapes[fitted][1]

    def ops(self, sets=None, horizons=(0, 2)):
        out = []
        for i in range(N_SETS) if sets is None else sets:
            out += [(m, i) for m in self.fits]
            for m in self.later:
                if m == 'predict':
                    out += [(m, i, h) for h in horizons]
                elif m != 'inverse_transform' or i == 0:
                    out.append((m, i))
        return out

    def allowed(self, op, fitted):
        if op[0] in self.fits:
            return True
        if fitted is None:
            return False
        if op[0] == 'inverse_transform':
            return True
        return self.compatible(fitted, op[1])

    def call(self, inst, op, fitted=None, integral=False, inputs=None):
        """Execute the call; returns its result (None instead of self)."""
        args, kw = inputs if inputs is not None else \
            self.inputs(op, fitted, integral)
        out = getattr(inst, op[0])(*args, **kw)
        return None if out is inst else out

    def results(self, inst):
        """Fitted attributes of a just fitted model (copies)."""
        out = {}
        for a in self.attributes:
            if hasattr(inst, a):
                v = getattr(inst, a)
                out[a] = None if v is None else np.array(v)
        return out


class Factor(Spec):
    attributes = ('dictionary_', 'cost_', 'n_iter_', 'n_components_')

    def __init__(self, name, **cfg):
        self.own_options = cfg.pop('options', None)
        super().__init__(name, **cfg)

    def fit_kwargs(self, i, integral):
        if self.cfg.get('init') != 'custom':
            return dict(self.options(i))
        n, d = self.shapes[i]
        k = self.components(i)
        W = one_hot(n, k, i) if integral else lattice.pattern_simplex(n, k, i)
        return {'weights': W, 'dictionary': self.start_dictionary(
            n, d, k, i, integral)}

    def options(self, i):
        if self.own_options or self.cfg.get('init') == 'furthest_sum':
            return snapshot(self.own_options or {
                'start_index': 1, 'exclude': [3, 0], 'n_extra_steps': 3})
        return {}

    def start_dictionary(self, n, d, k, i, integral):
        D = lattice.pattern((k, d), i + 2, 3.0)
        return np.round(D) if integral else D

    def config(self, rs, verbose):
        return dict(self.cfg, max_iterations=self.iters, verbose=verbose,
                    random_state=rs)


class AAMixin:
    same_samples = True

    def start_dictionary(self, n, d, k, i, integral):
        return one_hot(k, n, i) if integral else \
            lattice.pattern_simplex(k, n, i + 3)

    def results(self, inst):
        out = super().results(inst)
        if inst.delta > 0:
            out['alpha'] = np.array(inst.alpha)
        return out


class KernelAASpec(AAMixin, Factor):
    def form(self, X):
        return X.dot(X.T)

    def components(self, fitted):
        return self.k if self.k is not None else self.shapes[fitted][0]

    def build(self, rs, verbose=0):
        from reor.archetypal_analysis import KernelAA
        return KernelAA(self.k, **self.config(rs, verbose))


def poly_kernel(X):
    return (1 + X.dot(X.T)) ** 2


class AASpec(AAMixin, Factor):
    def components(self, fitted):
        return self.k if self.k is not None else self.shapes[fitted][0]

    def build(self, rs, verbose=0):
        from reor.archetypal_analysis import ArchetypalAnalysis
        return ArchetypalAnalysis(self.k, **self.config(rs, verbose))


class GPNHSpec(Factor):
    def build(self, rs, verbose=0):
        from reor.gpnh_convex_coding import GPNHConvexCoding
        return GPNHConvexCoding(self.k, **self.config(rs, verbose))


class CROMSpec(Factor):
    later = ('transform', 'inverse_transform', 'predict')
    attributes = Factor.attributes + ('order_weights', 'transition_matrices')

    def build(self, rs, verbose=0):
        from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
        return GPNHConvexCodingCROM(self.k, **self.config(rs, verbose))


class MTDSpec(CROMSpec):
    def build(self, rs, verbose=0):
        from reor.mtd_convex_coding import MTDConvexCoding
        return MTDConvexCoding(self.k, **self.config(rs, verbose))

    def fit_kwargs(self, i, integral):
        kw = super().fit_kwargs(i, integral)
        if self.cfg.get('init') == 'custom':
            k = self.components(i)
            lags = self.cfg.get('lags')
            L = 1 if lags is None else len(lags)
            if integral:
                kw['order_weights'] = one_hot(1, L, i)[0]
                kw['transition_matrices'] = np.array(
                    [one_hot(k, k, i + a).T for a in range(L)])
            else:
                kw['order_weights'] = lattice.pattern_simplex(1, L, i + 1)[0]
                kw['transition_matrices'] = np.array(
                    [lattice.pattern_simplex(k, k, i + a).T
                     for a in range(L)])
        return kw


class FEMBVSpec(Spec):
    later = ('transform',)
    tolerance = 1e-6

    def config(self, rs, verbose):
        return dict(self.cfg, max_iterations=self.iters, verbose=verbose,
                    random_state=rs)

    def compatible(self, fitted, i):
        return self.shapes[fitted][1] == self.shapes[i][1]


class FEMKMeansSpec(FEMBVSpec):
    attributes = ('Theta', 'Gamma', 'cost_', 'n_iter_', 'n_components_')

    def build(self, rs, verbose=0):
        from reor.fembv_kmeans import FEMBVKMeans
        cfg = self.config(rs, verbose)
        return FEMBVKMeans(self.k, cfg.pop('tv', None), **cfg)

    def fit_kwargs(self, i, integral):
        if self.cfg.get('init') != 'custom':
            return {}
        n, d = self.shapes[i]
        k = self.components(i)
        T = lattice.pattern((k, d), i + 2, 3.0)
        return {'parameters': np.round(T) if integral else T,
                'weights': one_hot(n, k, i) if integral
                else lattice.pattern_simplex(n, k, i)}


class FEMVARXSpec(FEMBVSpec):
    attributes = ('mu', 'A', 'B0', 'Gamma', 'cost_', 'n_iter_',
                  'n_components_')

    def __init__(self, name, **cfg):
        self.exog = cfg.pop('exog', False)
        super().__init__(name, **cfg)

    def build(self, rs, verbose=0):
        from reor.fembv_varx import FEMBVVARX
        cfg = self.config(rs, verbose)
        return FEMBVVARX(self.k, cfg.pop('tv', None), **cfg)

    def has_exog(self, i):
        return self.exog is True or (self.exog == 'some' and i == 1)

    def later_kwargs(self, i, integral):
        return {'external_factors': exog_set(
            i, integral, self.shapes, self.columns)} \
            if self.has_exog(i) else {}

    def compatible(self, fitted, i):
        return self.shapes[fitted][1] == self.shapes[i][1] and \
            self.has_exog(fitted) == self.has_exog(i)

    def fit_kwargs(self, i, integral):
        kw = self.later_kwargs(i, integral)
        if self.cfg.get('init') == 'custom':
            n, d = self.shapes[i]
            k = self.components(i)
            mem = self.cfg.get('memory') or 0
            top = mem if isinstance(mem, int) else max(mem)
            rnd = np.round if integral else (lambda a: a)
            par = {'mu': rnd(lattice.pattern((k, d), i, 2.0))}
            if top:
                A = rnd(lattice.pattern((k, top, d, d), i + 1, 1.2))
                if not isinstance(mem, int):
                    for a, m in enumerate(mem):
                        A[a, m:] = 0
                par['A'] = A
            if self.has_exog(i):
                par['B0'] = rnd(lattice.pattern((k, d, self.columns),
                                                i + 2, 2.0))
            kw['parameters'] = par
            kw['weights'] = one_hot(n - top, k, i) if integral else \
                lattice.pattern_simplex(n - top, k, i)
        return kw


class MarkovSpec(Spec):
    fits = ('fit', 'fit_transform', 'fit_predict')
    later = ('transform', 'predict')
    attributes = ('cluster_centers_', 'labels_', 'inertia_', 'n_iter_',
                  'transition_matrix_')

    def __init__(self, name, **cfg):
        self.weighted = cfg.pop('weighted', False)
        self.centres = cfg.pop('centres', False)
        super().__init__(name, **cfg)
        self.random = not self.centres

    def compatible(self, fitted, i):
        return self.shapes[fitted][1] == self.shapes[i][1]

    def build(self, rs, verbose=0):
        from reor.crom import KMeansMarkovCROM
        cfg = dict(self.cfg, random_state=rs)
        if verbose:
            cfg['verbose'] = verbose
        if self.centres:
            cfg['init'] = data_set(0, False, self.shapes)[[0, 4]]
        return KMeansMarkovCROM(self.k, **cfg)

    def ops(self, sets=None, horizons=(0, 2)):
        if self.centres:  # fixed initial centres fit one feature count
            sets = [i for i in (sets or range(N_SETS))
                    if self.shapes[i][1] == self.shapes[0][1]]
        return super().ops(sets, horizons)

    def fit_kwargs(self, i, integral):
        if not self.weighted:
            return {}
        w = np.abs(lattice.pattern((self.shapes[i][0],), i)) + 0.5
        return {'sample_weight': np.round(w + 1) if integral else w}


class PWVARXSpec(Spec):
    later = ('transform',)
    attributes = ('mu', 'A', 'B', 'Sigma_u', 'residuals')
    tolerance = 1e-7

    def __init__(self, name, **cfg):
        self.exog = cfg.pop('exog', False)
        self.own = cfg.pop('own', False)
        super().__init__(name, **cfg)

    def has_exog(self, i):
        return self.exog is True or (self.exog == 'some' and i == 1)

    def build(self, rs, verbose=0):
        from reor.pwvarx import ClusterPWVARX
        kw = dict(self.cfg, random_state=rs, verbose=verbose)
        if self.own:
            from sklearn.cluster import KMeans
            from sklearn.neighbors import KNeighborsClassifier
            kw['clusterer'] = KMeans(self.k, random_state=rs, n_init=2)
            kw['classifier'] = KNeighborsClassifier(1)
        return ClusterPWVARX(self.k, kw.pop('p'), **kw)

    def compatible(self, fitted, i):
        return self.shapes[fitted][1] == self.shapes[i][1] and \
            self.has_exog(fitted) == self.has_exog(i)

    def later_kwargs(self, i, integral):
        return {'exog': exog_set(i, integral, self.shapes, self.columns)} \
            if self.has_exog(i) else {}

    fit_kwargs = later_kwargs


SPECS = [
    KernelAASpec('KernelAA random', init='random'),
    KernelAASpec('KernelAA furthest_sum', init='furthest_sum', k=3),
    KernelAASpec('KernelAA custom', init='custom'),
    KernelAASpec('KernelAA relaxed', init='random', delta=0.3, k=3),
    KernelAASpec('KernelAA all components', k=None, iters=2),
    AASpec('ArchetypalAnalysis default', k=3),
    AASpec('ArchetypalAnalysis random start', init='furthest_sum',
           options={'exclude': [4, 1], 'n_extra_steps': 0}),
    AASpec('ArchetypalAnalysis kernel function', init='random',
           kernel_func=poly_kernel),
    AASpec('ArchetypalAnalysis custom relaxed', init='custom', delta=0.5),
    GPNHSpec('GPNH random', init='random', k=3),
    GPNHSpec('GPNH furthest_sum', init='furthest_sum', epsilon_states=0.2),
    GPNHSpec('GPNH custom', init='custom', epsilon_states=0.5, k=3),
    GPNHSpec('GPNH all components', k=None),
    MTDSpec('MTD random', lags=[1, 2], epsilon_weights=0.3,
            epsilon_states=0.1),
    MTDSpec('MTD furthest_sum', init='furthest_sum', epsilon_weights=1.0,
            k=3),
    MTDSpec('MTD random start', init='furthest_sum', lags=[2],
            epsilon_weights=0.2, options={'exclude': [4, 1],
                                          'n_extra_steps': 1}),
    MTDSpec('MTD custom', init='custom', lags=(3, 1, 2), epsilon_weights=0.3),
    MTDSpec('MTD all components', k=None, lags=[1], epsilon_weights=0.2),
    CROMSpec('CROM random', lags=[1, 3]),
    CROMSpec('CROM custom', init='custom', lags=[2], k=3),
    CROMSpec('CROM all components', k=None),
    FEMKMeansSpec('FEMBVKMeans free', iters=2),
    FEMKMeansSpec('FEMBVKMeans bounded', tv=1.0, iters=2),
    FEMKMeansSpec('FEMBVKMeans solver options', tv=1.0, iters=2,
                  weights_solver_kwargs={}),
    FEMKMeansSpec('FEMBVKMeans custom', init='custom', tv=2.0, iters=2),
    FEMKMeansSpec('FEMBVKMeans all components', k=None, iters=2),
    FEMVARXSpec('FEMBVVARX memory', memory=1, tv=1.5, iters=2),
    FEMVARXSpec('FEMBVVARX mixed memory', memory=[0, 2], iters=2),
    FEMVARXSpec('FEMBVVARX exogenous', memory=1, exog='some', iters=2),
    FEMVARXSpec('FEMBVVARX custom', memory=[1, 0], init='custom', exog=True,
                iters=2),
    FEMVARXSpec('FEMBVVARX all components', k=None, memory=0, iters=2),
    MarkovSpec('KMeansMarkovCROM', n_init=2),
    MarkovSpec('KMeansMarkovCROM weighted', weighted=True, k=3, n_init=1),
    MarkovSpec('KMeansMarkovCROM centres', centres=True, n_init=1),
    PWVARXSpec('ClusterPWVARX', p=1),
    PWVARXSpec('ClusterPWVARX exogenous', p=1, s=2, exog='some',
               include_trend=False),
    PWVARXSpec('ClusterPWVARX own', p=2, own=True),
    PWVARXSpec('ClusterPWVARX all components', p=1, k=None),
]


# the same on longer series with more components, lags and input series
BIG = ((70, 3), (70, 3), (90, 4), (70, 4))
LARGE = [
    KernelAASpec('KernelAA large', init='custom', k=5, shapes=BIG, iters=2),
    AASpec('ArchetypalAnalysis large', k=6, shapes=BIG, iters=2, delta=0.1),
    AASpec('ArchetypalAnalysis large kernel function', init='random', k=4,
           kernel_func=poly_kernel, shapes=BIG, iters=2),
    GPNHSpec('GPNH large', init='custom', epsilon_states=0.4, k=5,
             shapes=BIG),
    GPNHSpec('GPNH large furthest_sum', init='furthest_sum', k=6,
             shapes=BIG),
    MTDSpec('MTD large', init='custom', lags=(1, 2, 3, 4, 6), k=5,
            epsilon_weights=0.3, epsilon_states=0.2, shapes=BIG),
    MTDSpec('MTD large random', init='random', lags=(12,), k=4,
            epsilon_weights=0.1, shapes=BIG),
    CROMSpec('CROM large', init='custom', lags=[3, 1, 2, 5, 4], k=5,
             shapes=BIG),
    FEMKMeansSpec('FEMBVKMeans large', init='custom', tv=3.0, k=4,
                  shapes=BIG, iters=1),
    FEMVARXSpec('FEMBVVARX large', memory=[3, 0, 2], init='custom',
                exog=True, k=3, columns=3, shapes=BIG, iters=1),
    MarkovSpec('KMeansMarkovCROM large', k=6, n_init=1, shapes=BIG),
    PWVARXSpec('ClusterPWVARX large', p=3, s=4, k=4, exog=True, columns=3,
               shapes=BIG),
]
ALL = SPECS + LARGE


def snapshot(obj):
    """Deep copy of arrays nested in lists, tuples and dicts."""
    if isinstance(obj, np.ndarray):
        return obj.copy()
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [snapshot(v) for v in obj]
    if isinstance(obj, tuple):
        return tuple(snapshot(v) for v in obj)
    return obj


def differs(a, b):
    """Exact comparison of nested results; None or where they differ."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape or a_.dtype != b_.dtype or \
                a_.tobytes() != b_.tobytes():
            if a_.shape == b_.shape and a_.dtype.kind in 'fiub' and \
                    b_.dtype.kind in 'fiub' and \
                    np.array_equal(a_, b_, equal_nan=True):
                return None
            return 'array'
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 'keys %r and %r' % (sorted(a), sorted(b))
        for k in a:
            d = differs(a[k], b[k])
            if d:
                return '%s: %s' % (k, d)
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 'length'
        for x, y in zip(a, b):
            d = differs(x, y)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return None
    return None if a is b or a == b else '%r and %r' % (a, b)


def close(a, b, tol):
    """Approximate comparison of nested results (relative tolerance)."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = np.nanmax(np.abs(b)) if np.isfinite(b).any() else 0.0
    return np.allclose(a, b, rtol=tol, atol=tol * (1 + scale),
                       equal_nan=True)


def arrays_in(obj):
    """All arrays nested in an object."""
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, dict):
        return [a for k in sorted(obj) for a in arrays_in(obj[k])]
    if isinstance(obj, (list, tuple)):
        return [a for v in obj for a in arrays_in(v)]
    return []


def histories(spec, depth, sets=None, first=True):
    """All call sequences up to the given depth starting with a fit."""
    ops = spec.ops(sets)

    def extend(prefix, fitted):
        yield prefix
        if len(prefix) == depth:
            return
        for op in ops:
            if spec.allowed(op, fitted):
                yield from extend(prefix + (op,), op[1]
                                  if op[0] in spec.fits else fitted)
    for op in ops:
        if op[0] in spec.fits:
            yield from extend((op,), op[1])


def short_histories(spec, tier):
    """Histories explored by the cross-cutting checks: all of up to 2 (3)
    calls, and those of 3 (4) calls in which every fit is a fit_transform."""
    base = 3 if tier == 'thorough' and not isinstance(spec, FEMBVSpec) else 2
    seen = list(histories(spec, base))
    known = set(seen)
    fits, spec.fits = spec.fits, ('fit_transform',)
    try:
        for h in histories(spec, base + 1):
            if h not in known:
                seen.append(h)
        if tier == 'thorough' and base == 2:
            for h in histories(spec, base + 2, sets=(0, 2)):
                if len(h) == base + 2:
                    seen.append(h)
    finally:
        spec.fits = fits
    return seen


def maximal(hs):
    """Drop histories which are prefixes of others."""
    prefixes = set(h[:i] for h in hs for i in range(1, len(h)))
    return [h for h in hs if h not in prefixes]


def settings(spec, inst):
    """Options of the model, as far as they are plain values."""
    return {a: snapshot(v) for a, v in vars(inst).items()
            if v is not None and (spec.k is not None or a != 'memory') and
            a in ('max_iterations', 'tolerance', 'verbose', 'delta',
                     'init', 'epsilon_states', 'epsilon_weights', 'lags',
                     'memory', 'max_tv_norm', 'p', 's', 'include_trend',
                     'kmeans_kwargs', 'require_monotonic_cost_decrease',
                     'weights_solver_kwargs') or a.startswith('line_search')}
