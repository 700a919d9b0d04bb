"""C32: refitting forgets the past."""

import numpy as np

from mc import lattice, models

PROP = 'C32'
BOUNDS = {
    'quick': 'every history of up to 2 calls (fits, fits with frozen factors, '
             'refused fits, transform, predict, inverse_transform on three '
             'data sets of two feature and sample counts) of 50 '
             'configurations of all nine models (12 of them with up to 90 '
             'samples, 6 components, 5 lags), followed by a fit on each '
             'data set (and on a fourth, of the features of one and the '
             'samples of another) and by transform, predict and '
             'inverse_transform, compared with a fresh model whose generator is in the same '
             'state',
    'thorough': 'as quick with histories of up to 3 calls',
}
CASE_LIMIT = 120
CHUNK = 2


def frozen_kwargs(spec, i):
    """Options of a fit with some updates switched off (None: no such fit)."""
    if isinstance(spec, models.Factor):
        n, d = spec.shapes[i]
        k = spec.components(i)
        kw = {'update_dictionary': False,
              'dictionary': spec.start_dictionary(n, d, k, i + 1, False)}
        if spec.cfg.get('init') == 'custom':
            kw = dict(spec.fit_kwargs(i, False), **kw)
        return kw
    if isinstance(spec, models.FEMBVSpec):
        return dict(spec.fit_kwargs(i, False), update_parameters=False)
    return None


def alphabet(spec):
    fits, spec.fits = spec.fits, ('fit_transform',)
    try:
        ops = spec.ops(horizons=(2,))
    finally:
        spec.fits = fits
    for i in (0, 2):
        if frozen_kwargs(spec, i) is not None:
            ops.append(('frozen', i))
    ops.append(('refused', 0))
    return ops


def prefixes(spec, depth):
    ops = alphabet(spec)

    def extend(prefix, fitted):
        if prefix:
            yield prefix
        if len(prefix) == depth:
            return
        for op in ops:
            if op[0] in ('fit_transform', 'frozen'):
                yield from extend(prefix + (op,), op[1])
            elif op[0] == 'refused':
                if prefix == () or prefix[-1][0] != 'refused':
                    yield from extend(prefix + (op,), fitted)
            elif spec.allowed(op, fitted):
                yield from extend(prefix + (op,), fitted)
    yield from extend((), None)


def cases(tier):
    big = tier == 'thorough'
    for i, spec in enumerate(models.ALL):
        slow = isinstance(spec, models.FEMBVSpec)
        hs = list(prefixes(spec, 3 if big and not slow else 2))
        step = 6 if slow else 20
        for a in range(0, len(hs), step):
            yield (i, tuple(hs[a:a + step]))


def perform(spec, inst, op, fitted):
    """Execute one call of the history; returns the new fitted set."""
    if op[0] == 'refused':
        args, kw = spec.inputs(('fit', 0), None)
        try:
            if isinstance(spec, (models.FEMBVSpec, models.Factor)):
                old = inst.max_iterations
                inst.max_iterations = -1
                try:
                    inst.fit(*args, **kw)
                finally:
                    inst.max_iterations = old
            else:
                inst.fit(args[0][:1, :0], **kw)
        except (ValueError, TypeError, IndexError):
            pass
        return fitted
    if op[0] == 'frozen':
        args, _ = spec.inputs(('fit', op[1]), None)
        inst.fit(*args, **frozen_kwargs(spec, op[1]))
        return op[1]
    spec.call(inst, op, fitted)
    return op[1] if op[0] in spec.fits else fitted


def observe(spec, inst, i):
    """Results of the fit and of all later calls."""
    out = [models.snapshot(spec.call(inst, ('fit_transform', i), None)),
           spec.results(inst)]
    for m in spec.later:
        op = (m, i, 2) if m == 'predict' else (m, i)
        out.append(models.snapshot(spec.call(inst, op, i)))
    return out


_FRESH = {}


def fresh(spec, i, state):
    key = (spec.name, i)
    if key not in _FRESH:
        rs = np.random.RandomState(9)
        rs.set_state(state)
        _FRESH[key] = observe(spec, spec.build(rs), i)
    return _FRESH[key]


def run(case, r):
    index, hs = case
    spec = models.ALL[index]
    state = np.random.RandomState(77).get_state()
    sets = sorted(set(op[1] for op in spec.ops() if op[0] == 'fit'))
    if not getattr(spec, 'centres', False):
        sets.append(3)  # samples as sets 0 and 1, features as set 2
    for h in hs:
        for i in sets:
            rs = np.random.RandomState(9)
            inst = spec.build(rs)
            fitted = None
            for op in h:
                fitted = perform(spec, inst, op, fitted)
                r.step()
            rs.set_state(state)
            got = observe(spec, inst, i)
            want = fresh(spec, i, state)
            r.step(len(got))
            for j, (a, b) in enumerate(zip(got, want)):
                if j == 1:
                    if set(a) != set(b):
                        r.fail('fitted attributes survive from an earlier '
                               'fit, or are missing', model=spec.name,
                               history=h, refit=i, got=sorted(a),
                               want=sorted(b))
                d = models.differs(a, b)
                if d and not models.close(a, b, 1e-12):
                    r.fail('refitting differs from fitting a fresh model: %s '
                           '(%s)' % (('result of the fit', 'attributes')[j]
                                     if j < 2 else spec.later[j - 2], d),
                           model=spec.name, history=h, refit=i, got=a,
                           want=b)
            r.state(spec.name, h, i)
            r.trace()
