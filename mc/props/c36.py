"""C36: fit and fit_transform are one operation; attributes describe it."""

import numpy as np

from mc import models
from mc.props import c32

PROP = 'C36'
BOUNDS = {
    'quick': '50 configurations of all nine models (12 of them with up to '
             '90 samples, 6 components, 5 lags), on a fresh model and after '
             'every history of one call; each way of fitting, with every '
             'combination of options of the configuration (custom starts, '
             'frozen blocks, selection options, exogenous input, weights) on '
             'every data set, followed by every later call',
    'thorough': 'as quick after every history of up to 2 calls',
}
CASE_LIMIT = 120
CHUNK = 2


def cases(tier):
    big = tier == 'thorough'
    for i, spec in enumerate(models.ALL):
        slow = isinstance(spec, models.FEMBVSpec)
        hs = [()] + list(c32.prefixes(spec, 2 if big and not slow else 1))
        hs = [h for h in hs if not any(op[0] == 'refused' for op in h)]
        step = 4 if slow else 12
        for a in range(0, len(hs), step):
            yield (i, tuple(hs[a:a + step]))


def option_sets(spec, i):
    args, kw = spec.inputs(('fit', i), None)
    out = [('options of the configuration', kw)]
    if isinstance(spec, models.Factor):
        n, d = spec.shapes[i]
        k = spec.components(i)
        full = dict(kw)
        custom = spec.cfg.get('init') == 'custom'
        D = spec.start_dictionary(n, d, k, i + 1, False)
        W = np.full((n, k), 1.0 / k)
        own = kw if custom else {}
        out.append(('frozen dictionary', dict(
            own, update_dictionary=False, dictionary=D)))
        out.append(('frozen weights', dict(
            own, update_weights=False, weights=W)))
        if custom:
            out.append(('frozen given weights', dict(
                full, update_weights=False)))
    elif isinstance(spec, models.FEMBVSpec):
        out.append(('frozen parameters', dict(kw, update_parameters=False)))
        out.append(('frozen weights', dict(kw, update_weights=False)))
    return args, out


def describe(spec, r, inst, result, ctx):
    """The fitted attributes describe the returned result."""
    W = np.asarray(result)
    if isinstance(spec, models.Factor):
        k = W.shape[1]
        r.require(inst.n_components_ == k, 'n_components_ is not the number '
                  'of components', got=inst.n_components_, want=k, **ctx)
        D = np.asarray(inst.dictionary_)
        decoded = np.asarray(inst.inverse_transform(np.eye(k)))
        r.require(D.shape == decoded.shape and np.array_equal(D, decoded),
                  'inverse_transform of single components is not the fitted '
                  'dictionary', dictionary=D, decoded=decoded, **ctx)
        r.require(np.isscalar(inst.cost_) or np.ndim(inst.cost_) == 0,
                  'cost_ is not a number', **ctx)
    elif isinstance(spec, models.FEMBVSpec):
        r.require(inst.n_components_ == W.shape[1], 'n_components_ is not '
                  'the number of components', got=inst.n_components_, **ctx)
        r.require(np.array_equal(inst.Gamma, W), 'Gamma is not the returned '
                  'affiliation sequence', **ctx)


def run(case, r):
    index, hs = case
    spec = models.ALL[index]
    sets = sorted(set(op[1] for op in spec.ops() if op[0] == 'fit'))
    for h in hs:
        for i in sets:
            _, options = option_sets(spec, i)
            for which, _ in options:
                explore(spec, h, i, which, r)
        r.trace()


def explore(spec, h, i, which, r):
    first = None
    for method in spec.fits:
        inst = spec.build(np.random.RandomState(21)
                          if spec.random else 21)
        fitted = None
        for op in h:
            fitted = c32.perform(spec, inst, op, fitted)
        args, options = option_sets(spec, i)
        kw = dict(options)[which]
        ctx = dict(model=spec.name, history=h, data=i, options=which,
                   method=method)
        got = getattr(inst, method)(*args, **kw)
        r.step()
        if method == 'fit':
            r.require(got is inst, 'fit does not return the model', **ctx)
            result = None
        else:
            result = models.snapshot(np.asarray(got))
            if method == 'fit_transform':
                describe(spec, r, inst, got, ctx)
            elif method == 'fit_predict':
                r.require(np.array_equal(got, inst.labels_), 'fit_predict '
                          'does not return the labels', **ctx)
        out = [spec.results(inst)]
        for m in spec.later:
            op = (m, i, 2) if m == 'predict' else (m, i)
            if which.startswith('frozen') and spec.compatible(i, i) is False:
                continue
            out.append(models.snapshot(spec.call(inst, op, i)))
            r.step()
        r.state(spec.name, h, i, which)
        if first is None:
            first = out
            continue
        for j, (a, b) in enumerate(zip(out, first)):
            d = models.differs(a, b)
            if d and not models.close(a, b, 1e-12):
                r.fail('%s and %s give different %s (%s)' % (
                    method, spec.fits[0],
                    'fitted attributes' if j == 0 else
                    'results of a later ' + spec.later[j - 1], d),
                    got=a, want=b, **ctx)
