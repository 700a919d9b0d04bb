"""C33: malformed requests are refused; documented defaults accepted."""

import importlib
import inspect
import itertools
import re

import numpy as np

from mc import lattice, models, spaces

PROP = 'C33'
BOUNDS = {
    'quick': 'nine models: every listed malformed setting (component counts, '
             'iteration limits, tolerances, lags, memories, orders, init '
             'modes, kernels, exogenous inputs, sample weights) and every '
             'custom factor with each dimension one off and each row or '
             'column sum off by 1e-3..1 in either direction, on fresh and on '
             'already fitted models for 1..4 components; every documented '
             'default omitted, given as None and given explicitly, compared '
             'on equal random states for four data shapes; all docstring '
             'examples',
    'thorough': 'as quick with 12 data shapes and all pairs of defaults',
}
CASE_LIMIT = 120

COUNTS = (0, -1, -7, 1.5, 2.0, '2', np.float64(2))
LIMITS = (0, -1, -100, 2.5, 3.0, '5', None)
NEGATIVE = (-1e-12, -0.5, -3, -np.inf)
LAGS = ((0,), (-1,), [1, 0], [2, -3], (1.5,), [1, 2.0], ('1',))
MEMORIES = (-1, -5, (0, -1), [-2, 1], [1], [1, 2, 3], 1.5, '1', (0.5, 1),
            [0, '1'])
INITS = ('foo', 'Random', 'furthest-sum', '', 3, True)
KERNELS = ((4, 3), (3, 4), (1, 2), (5, 1))

FACTOR = ('KernelAA', 'AA', 'GPNH', 'MTD', 'CROM')
FEM = ('FEMBVKMeans', 'FEMBVVARX')
KINDS = FACTOR + FEM + ('KMeansMarkovCROM', 'ClusterPWVARX')


def make(kind, k, **cfg):
    if kind in FACTOR:
        from mc import factor
        return factor.make(kind, k, **cfg)
    if kind == 'FEMBVKMeans':
        from reor.fembv_kmeans import FEMBVKMeans
        return FEMBVKMeans(k, **cfg)
    if kind == 'FEMBVVARX':
        from reor.fembv_varx import FEMBVVARX
        return FEMBVVARX(k, **cfg)
    if kind == 'KMeansMarkovCROM':
        from reor.crom import KMeansMarkovCROM
        return KMeansMarkovCROM(k, **cfg)
    from reor.pwvarx import ClusterPWVARX
    return ClusterPWVARX(k, cfg.pop('p', 1), **cfg)


def data(kind, n=7, d=3, seed=0):
    X = lattice.pattern((n, d), seed, 3.0)
    X[::2] += 4.0
    return X.dot(X.T) if kind == 'KernelAA' else X


def good(kind, **cfg):
    """Settings making fits of the model cheap."""
    if kind != 'KMeansMarkovCROM':
        cfg.setdefault('max_iterations', 3)
    else:
        cfg.setdefault('n_init', 1)
    cfg.setdefault('random_state', 0)
    return cfg


FITTED = ('dictionary_', 'cost_', 'cluster_centers_', 'labels_',
          'transition_matrix_')


def refuse(r, kind, k, cfg, X, msg, kw=None, call='fit', **ctx):
    """Constructor or call must raise ValueError; nothing may be fitted."""
    box = []

    def attempt():
        model = make(kind, k, **good(kind, **cfg))
        box.append(model)
        getattr(model, call)(X, **(kw or {}))
    r.refused(attempt, '%s: %s' % (kind, msg), settings=cfg, k=k,
              arguments=kw, **ctx)
    if box:
        left = [a for a in FITTED if hasattr(box[0], a)]
        r.require(not left, '%s: refused request left a fitted model' % kind,
                  attributes=left, settings=cfg, arguments=kw, **ctx)
    r.state(kind, k, cfg, msg, ctx)
    r.step()
    r.trace()


def cases(tier):
    for kind in KINDS:
        for part in ('counts', 'limits', 'special', 'defaults', 'examples'):
            yield (kind, part, tier)
        for k in (1, 2, 3, 4):
            for init in ('custom',):
                yield (kind, 'factors', k)
                yield (kind, 'refit', k)


def run(case, r):
    kind, part, arg = case
    globals()['check_' + part](r, kind, arg)


def check_counts(r, kind, _):
    for k in COUNTS:
        for X in (data(kind), data(kind, 5, 2)):
            for call in ('fit', 'fit_transform'):
                refuse(r, kind, k, {}, X, 'component count %r' % (k,),
                       call=call)


def check_limits(r, kind, _):
    X = data(kind)
    name = {'KMeansMarkovCROM': 'max_iter'}.get(kind, 'max_iterations')
    tol = {'KMeansMarkovCROM': 'tol'}.get(kind, 'tolerance')
    for value in LIMITS:
        for k in (1, 2):
            refuse(r, kind, k, {name: value}, X, 'iteration limit %r'
                   % (value,))
    for value in NEGATIVE + ('x',):
        for k in (1, 2):
            refuse(r, kind, k, {tol: value}, X, 'tolerance %r' % (value,))
    if kind in FACTOR + FEM:
        for value in INITS + (('furthest_sum',) if kind in FEM else ()):
            for call in ('fit', 'fit_transform'):
                refuse(r, kind, 2, {'init': value}, X, 'init mode %r'
                       % (value,), call=call)


def check_special(r, kind, _):
    X = data(kind)
    if kind in ('MTD', 'CROM'):
        for lags in LAGS:
            refuse(r, kind, 2, {'lags': lags}, X, 'lags %r' % (lags,))
    if kind == 'FEMBVVARX':
        for memory in MEMORIES:
            refuse(r, kind, 2, {'memory': memory}, X, 'memory %r'
                   % (memory,))
        for n in (1, 6, 8, 14):
            for m in (0, 2):
                refuse(r, kind, 2, {'memory': m}, X, 'exogenous input with '
                       '%d instead of 7 rows' % n,
                       {'external_factors': lattice.pattern((n, 2), n)})
    if kind == 'KernelAA':
        for shape in KERNELS:
            for init in (None, 'random', 'custom'):
                for call in ('fit', 'fit_transform'):
                    refuse(r, kind, 1, {'init': init},
                           np.abs(lattice.pattern(shape, 1)),
                           'kernel of shape %r' % (shape,), call=call)
    if kind == 'AA':
        for shape in KERNELS:
            for init in (None, 'random', 'custom'):
                refuse(r, kind, 1, {'init': init, 'kernel_func':
                                    lambda M, s=shape: lattice.pattern(s, 1)},
                       X, 'kernel function giving shape %r' % (shape,))
    if kind == 'ClusterPWVARX':
        for name in ('p', 's'):
            for value in (-1, -4, 1.5, '1', None, 2.0):
                refuse(r, kind, 2, {name: value}, X, '%s=%r' % (name, value))
        for n in (1, 6, 8, 14):
            for s in (0, 1):
                refuse(r, kind, 2, {'s': s}, X, 'exogenous input with %d '
                       'instead of 7 rows' % n,
                       {'exog': lattice.pattern((n, 2), n)})
        model = make(kind, 2, **good(kind, s=1))
        model.fit(X, exog=lattice.pattern((7, 1), 1))
        for n in (6, 8):
            r.refused(lambda: model.transform(X, exog=lattice.pattern(
                (n, 1), 1)), 'transform with %d exogenous rows' % n)
    if kind == 'KMeansMarkovCROM':
        for n in (1, 6, 8, 14):
            refuse(r, kind, 2, {}, X, '%d sample weights for 7 samples' % n,
                   {'sample_weight': np.ones(n)})
    if kind == 'FEMBVVARX':
        from reor.fembv_varx import FEMBVVARXLocalLinearModel as Local
        for n in (1, 6, 8, 14):
            for p in (0, 2):
                r.refused(lambda: Local(X, p=p, u=lattice.pattern((n, 1), 1)),
                          'local model: exogenous input with %d rows' % n)
                r.refused(lambda: Local(X, p=p).fit(weights=np.ones(n)),
                          'local model: %d weights' % n)
                r.step(2)
        r.refused(lambda: Local(X, p=-1), 'local model: negative order')
        r.refused(lambda: Local(X, p=1, u=X, s=-1),
                  'local model: negative exogenous order')


# ------------------------------------------------------------ custom factors

def factors(kind, k, n, d):
    """Valid custom factors: name -> (array, axis summing to one or None)."""
    lags = (1, 2)
    W = lattice.pattern_simplex(n, k, k)
    out = {'weights': (W, 1)}
    if kind in ('KernelAA', 'AA'):
        out['dictionary'] = (lattice.pattern_simplex(k, n, k + 1), 1)
    elif kind in FACTOR:
        out['dictionary'] = (lattice.pattern((k, d), k), None)
    if kind == 'MTD':
        out['order_weights'] = (lattice.pattern_simplex(1, 2, 1)[0], 0)
        out['transition_matrices'] = (np.array(
            [lattice.pattern_simplex(k, k, i).T for i in range(2)]), 1)
    if kind == 'FEMBVKMeans':
        out['parameters'] = (lattice.pattern((k, d), k), None)
    if kind == 'FEMBVVARX':
        out['weights'] = (W[1:], 1)
        out['mu'] = (lattice.pattern((k, d), k), None)
        out['A'] = (lattice.pattern((k, 1, d, d), k), None)
        out['B0'] = (lattice.pattern((k, d, 2), k), None)
    return out


def reshaped(A):
    """Every shape with one dimension one larger or smaller."""
    for ax in range(A.ndim):
        for step in (-1, 1):
            shape = list(A.shape)
            shape[ax] += step
            if shape[ax] > 0:
                B = np.full(shape, 1.0 / max(shape[-1], 1))
                B[tuple(slice(0, min(a, b)) for a, b in
                        zip(A.shape, shape))] = A[tuple(
                            slice(0, min(a, b)) for a, b in
                            zip(A.shape, shape))]
                yield tuple(shape), B
    if A.ndim == 2 and A.shape[0] != A.shape[1]:
        yield 'transposed', np.ascontiguousarray(A.T)


def bad_sums(A, axis):
    """One row (column) sum off, all others right, or two whose deviations
    compensate each other."""
    slices = [i for i in np.ndindex(*[s for ax, s in enumerate(A.shape)
                                      if ax != axis])]
    for i in slices:
        for f in (0.0, 0.5, 0.999, 1.001, 1.5, -1.0):
            B = A.copy()
            sl = list(i)
            sl.insert(axis, slice(None))
            B[tuple(sl)] *= f
            yield (i, f), B
    for a, b in itertools.combinations(slices, 2):
        for f in (0.5, 0.75):
            B = A.copy()
            for i, g in ((a, f), (b, 2 - f)):
                sl = list(i)
                sl.insert(axis, slice(None))
                B[tuple(sl)] *= g
            yield (a, b, f), B


def arguments(kind, fs):
    kw = {name: a.copy() for name, (a, _) in fs.items()}
    if kind == 'FEMBVVARX':
        par = {name: kw.pop(name) for name in ('mu', 'A', 'B0')
               if name in kw}
        kw['parameters'] = par
    return kw


def custom_settings(kind):
    cfg = {'init': 'custom'}
    if kind == 'MTD':
        cfg['lags'] = [1, 2]
    if kind == 'FEMBVVARX':
        cfg['memory'] = 1
    return cfg


def variants(kind, k, n, d):
    """(what, arguments) of malformed custom factors."""
    fs = factors(kind, k, n, d)
    for name, (A, axis) in sorted(fs.items()):
        for shape, B in reshaped(A):
            if name == 'B0' and np.shape(B) == A.shape:
                continue
            yield '%s of shape %r instead of %r' % (name, shape, A.shape), \
                arguments(kind, dict(fs, **{name: (B, axis)}))
        if axis is not None:
            for what, B in bad_sums(A, axis):
                yield 'sum of %s%r' % (name, what), \
                    arguments(kind, dict(fs, **{name: (B, axis)}))
        if kind in FACTOR:
            kw = arguments(kind, fs)
            del kw[name]
            yield 'missing custom %s' % name, kw


def exog_for(kind, n):
    return {'external_factors': lattice.pattern((n, 2), 1)} \
        if kind == 'FEMBVVARX' else {}


def check_factors(r, kind, k):
    if kind not in FACTOR + FEM:
        return
    n, d = 6, 2
    X = data(kind, n, d)
    cfg = custom_settings(kind)
    model = make(kind, k, **good(kind, **cfg))
    model.fit(X, **dict(arguments(kind, factors(kind, k, n, d)),
                        **exog_for(kind, n)))
    for what, kw in variants(kind, k, n, d):
        kw.update(exog_for(kind, n))
        for call in ('fit', 'fit_transform'):
            refuse(r, kind, k, cfg, X, what, kw, call)
    # factors frozen under other init modes are checked as well
    if kind in FACTOR:
        for init in ('random', 'furthest_sum'):
            for what, kw in variants(kind, k, n, d):
                for name, flag in (('dictionary', 'update_dictionary'),
                                   ('weights', 'update_weights')):
                    if what.startswith(name) or \
                            what.startswith('sum of ' + name) or \
                            what == 'missing custom ' + name:
                        refuse(r, kind, k, dict(cfg, init=init), X,
                               'frozen ' + what, dict(kw, **{flag: False}))
                if kind == 'MTD' and ('order_weights' in what or
                                      'transition' in what):
                    refuse(r, kind, k, dict(cfg, init=init), X,
                           'frozen ' + what,
                           dict(kw, update_parameters=False))


def check_refit(r, kind, k):
    """Refused requests leave an already fitted model's results in place."""
    if kind not in FACTOR:
        return
    n, d = 6, 2
    X = data(kind, n, d)
    cfg = custom_settings(kind)
    model = make(kind, k, **good(kind, **cfg))
    valid = arguments(kind, factors(kind, k, n, d))
    model.fit(X, **valid)
    names = ('dictionary_', 'cost_', 'n_iter_', 'n_components_') + (
        ('order_weights', 'transition_matrices') if kind == 'MTD' else ())
    before = {a: np.array(getattr(model, a)) for a in names}
    for i, (what, kw) in enumerate(variants(kind, k, n, d)):
        r.refused(lambda: model.fit(X * 2, **kw), '%s: %s on a fitted model'
                  % (kind, what))
        after = {a: np.array(getattr(model, a)) for a in names}
        d_ = models.differs(before, after)
        if d_:
            r.fail('%s: refused request (%s) changed the fitted model (%s)'
                   % (kind, what, d_), before=before, after=after)
        r.step()
        r.trace()
        r.state(kind, 'refit', what, k)


# ------------------------------------------------------------------ defaults

def defaults(kind, n, d):
    """Documented defaults: setting -> (values meaning the default)."""
    out = {'verbose': (0,)}
    if kind in FACTOR:
        out['init'] = (None, 'furthest_sum') if kind in ('KernelAA', 'AA') \
            else (None, 'random')
        out['tolerance'] = (1e-4,) if kind in ('KernelAA', 'AA') else (1e-6,)
        out['max_iterations'] = (1000,)
        if kind in ('KernelAA', 'AA'):
            out['delta'] = (0, 0.0)
        else:
            out['epsilon_states'] = (0, 0.0)
        if kind == 'AA':
            out['kernel_func'] = (None, lambda M: M.dot(M.T))
        if kind in ('MTD', 'CROM'):
            out['lags'] = (None, [1], (1,))
        if kind == 'MTD':
            out['epsilon_weights'] = (0, 0.0)
    elif kind in FEM:
        out.update(max_tv_norm=(None,), init=(None, 'random'),
                   max_iterations=(500,), tolerance=(1e-4,))
        if kind == 'FEMBVVARX':
            out['memory'] = (None, 0, (0, 0))
    elif kind == 'ClusterPWVARX':
        out.update(s=(0,), include_trend=(True,), clusterer=(None,),
                   classifier=(None,), max_iterations=(500,),
                   tolerance=(1e-4,))
    return out


def observe(kind, model, X, kw):
    out = [np.array(model.fit_transform(X, **kw))]
    for a in ('dictionary_', 'cost_', 'n_iter_', 'n_components_', 'Theta',
              'mu', 'A', 'Gamma', 'order_weights', 'transition_matrices',
              'cluster_centers_', 'transition_matrix_', 'labels_',
              'Sigma_u'):
        if hasattr(model, a) and getattr(model, a) is not None:
            out.append((a, np.array(getattr(model, a))))
    return out


def check_defaults(r, kind, tier):
    shapes = ((7, 3), (6, 2), (5, 1), (9, 2))
    if tier == 'thorough':
        shapes += ((8, 4), (12, 3), (4, 2), (10, 1), (15, 2), (11, 3),
                   (6, 4), (20, 2))
    for n, d in shapes:
        X = data(kind, n, d, d)
        base = {'random_state': 5}
        if kind == 'KMeansMarkovCROM':
            base['n_init'] = 2
        want = observe(kind, make(kind, 2, **base), X, {})

        def same(k, cfg, kw, what, want=want):
            got = observe(kind, make(kind, k, **dict(base, **cfg)), X, kw)
            d_ = models.differs(got, want)
            if d_ and not all(models.close(a[-1] if isinstance(a, tuple)
                                           else a, b[-1]
                                           if isinstance(b, tuple) else b,
                                           1e-9)
                              for a, b in zip(got, want)):
                r.fail('%s: %s does not behave like the documented default '
                       '(%s)' % (kind, what, d_), data=X, got=got, want=want)
            r.step()
            r.trace()
            r.state(kind, n, d, what)
        table = defaults(kind, n, d)
        if kind in FEM and kind == 'FEMBVVARX':
            table['memory'] = tuple(v for v in table['memory'])
        for name, values in sorted(table.items()):
            for v in values:
                if callable(v) and name != 'kernel_func':
                    continue
                same(2, {name: v}, {}, '%s=%r' % (
                    name, 'function' if callable(v) else v))
        if tier == 'thorough':
            for name in sorted(table):
                for other in sorted(table):
                    if name < other:
                        for v in table[name]:
                            for w in table[other]:
                                same(2, {name: v, other: w}, {},
                                     '%s and %s' % (name, other))
        if kind in FACTOR:
            same(2, {}, {'dictionary': None, 'weights': None},
                 'no initial guess')
        if kind in FEM:
            same(2, {}, {'parameters': None, 'weights': None},
                 'no initial guess')
            same(2, {}, {'init': None}, 'init=None in the call')
        if kind == 'ClusterPWVARX':
            same(2, {}, {'exog': None}, 'no exogenous input')
        if kind == 'KMeansMarkovCROM':
            same(None, {}, {}, 'n_clusters=None')
            same(2, {}, {'sample_weight': None}, 'no sample weights')
        else:
            # component number None: all features (samples for kernels)
            cfg = {}
            every = n if kind in ('KernelAA', 'AA') and kind == 'KernelAA' \
                else n if kind == 'AA' else d
            want_all = observe(kind, make(kind, every, **base), X, {})
            model = make(kind, None, **base)
            got = observe(kind, model, X, cfg)
            d_ = models.differs(got, want_all)
            if d_:
                r.fail('%s: component number None is not %d components (%s)'
                       % (kind, every, d_), data=X, got=got, want=want_all)
            count = getattr(model, 'n_components_', every)
            r.require(count == every, '%s: n_components_ is %r instead of %r'
                      % (kind, count, every))
            r.step()
            r.trace()


MODULES = {'KernelAA': 'archetypal_analysis.KernelAA',
           'AA': 'archetypal_analysis.ArchetypalAnalysis',
           'GPNH': 'gpnh_convex_coding.GPNHConvexCoding',
           'MTD': 'mtd_convex_coding.MTDConvexCoding',
           'CROM': 'gpnh_convex_coding_crom.GPNHConvexCodingCROM',
           'FEMBVKMeans': 'fembv_kmeans.FEMBVKMeans',
           'FEMBVVARX': 'fembv_varx.FEMBVVARX',
           'KMeansMarkovCROM': 'crom.KMeansMarkovCROM',
           'ClusterPWVARX': 'pwvarx.ClusterPWVARX'}


def check_examples(r, kind, _):
    """The documented example of the model runs."""
    module, name = MODULES[kind].split('.')
    doc = inspect.getdoc(getattr(importlib.import_module('reor.' + module),
                                 name)) or ''
    m = re.search(r'Examples\n-+\n(.*?)(\n\n\w+\n-+|\Z)', doc, re.S)
    if not m:
        return
    np.random.seed(12)
    exec(compile(m.group(1), 'example of ' + name, 'exec'), {})
    r.step()
    r.state(kind, 'example')
