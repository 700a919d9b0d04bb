"""C42: an interrupted call does no lasting damage."""

import copy
import sys
import warnings

import numpy as np

from mc import interrupt, models

PROP = 'C42'
BOUNDS = {
    'quick': '12 to 18 unsuitable inputs (shapes, kinds, missing or '
             'unexpected series, horizons) of transform, predict and '
             'inverse_transform of 50 fitted configurations of all nine '
             'models, then all later calls; KeyboardInterrupt before every executed line of the package '
             '(calls of more than 120 lines: the first, second and last '
             'execution of every line and an even grid of at least 40 '
             'others) of a first fit, a refit, transform, predict and '
             'inverse_transform of 38 configurations of all nine models at '
             '1 or 2 iterations; then a fit on each of two data sets with '
             'all later calls, compared with a fresh model',
    'thorough': 'as quick with every executed line of calls of up to 1500 '
                'lines, and all 50 configurations',
}
ASSUMPTIONS = (
    'interruption is explored before every line of the package; numpy, '
    'scikit-learn and cvxpy calls are interrupted before or after, not '
    'inside',)
CASE_LIMIT = 300
CHUNK = 1
PARTS = 4


def specs():
    out = []
    for s in models.ALL:
        s = copy.copy(s)
        s.iters = 1 if isinstance(s, models.FEMBVSpec) else 2
        s.flags = dict(s.flags)
        out.append(s)
    return out


SPECS = specs()


def calls(spec):
    """(operation, data set fitted before or None)"""
    last = max(op[1] for op in spec.ops() if op[0] == 'fit_transform')
    yield ('fit_transform', 0), None
    yield ('fit_transform', last), 0
    for m in spec.later:
        for i in (0, 1):
            op = (m, i, 2) if m == 'predict' else (m, i)
            if (m != 'inverse_transform' or i == 0) and \
                    spec.allowed(op, 0):
                yield op, 0


def spoilt(spec, op, before):
    """Unsuitable inputs of a call of a fitted model, and their kinds."""
    def inputs():
        return spec.inputs(op, before)
    (X,), kw = inputs()
    X = np.asarray(X)
    rows, cols = X.shape
    yield 'one row', ([X[:1]], kw)
    yield 'no rows', ([X[:0]], kw)
    yield 'one more row', ([np.vstack([X, X[:1]])], inputs()[1])
    yield 'one more column', ([np.hstack([X, X[:, :1]])], inputs()[1])
    yield 'one row and column less', ([X[1:, 1:]], inputs()[1])
    yield 'one more row and column', ([np.pad(X, ((0, 1), (0, 1)))],
                                      inputs()[1])
    yield 'a vector', ([X[0]], inputs()[1])
    yield 'three axes', ([X[None]], inputs()[1])
    yield 'text', ([[['a', 'b'], ['c', 'd']]], inputs()[1])
    yield 'nothing', ([None], inputs()[1])
    yield 'ragged rows', ([[[1.0, 2.0], [3.0]]], inputs()[1])
    yield 'not finite', ([np.where(X == X.flat[2], np.nan, X)], inputs()[1])
    if op[0] == 'predict':
        for horizon in (-1, 1.5, None, '2'):
            yield 'horizon', ([X], dict(inputs()[1], horizon=horizon))
    names = {models.FEMVARXSpec: 'external_factors',
             models.PWVARXSpec: 'exog'}.get(type(spec))
    if names:
        u = kw.get(names)
        if u is None:
            yield 'series', ([X], {names: np.ones((rows, 1))})
        else:
            yield 'no series', ([X], {})
            yield 'series with more columns', ([X], {
                names: np.hstack([u, u])})
            yield 'series with other rows', ([X], {names: u[:-2]})
            yield 'vector of a series', ([X], {names: u[:, 0]})
            yield 'no series', ([X], {names: None})
    yield 'unknown option', ([X], {'no_such_option': 1})


def refused(index, op, before, r):
    spec = SPECS[index]
    state = np.random.RandomState(77).get_state()
    inst, rs, _ = prepare(spec, before)
    unbroken = later(spec, inst, rs, state, before)
    for kind, inputs in spoilt(spec, op, before):
        inst, rs, kept = prepare(spec, before)
        held = models.snapshot(kept)
        around = surroundings()
        outcome = 'served'
        try:
            spec.call(inst, op, before, inputs=inputs)
        except Exception as e:  # of any kind
            outcome = type(e).__name__
        where = dict(model=spec.name, call=op, fitted=before, request=kind,
                     outcome=outcome)
        r.step()
        if surroundings() != around:
            r.fail('an unsuitable call left the interpreter in another '
                   'state', **where)
        if models.differs(held, kept):
            r.fail('an unsuitable call changed earlier results', got=kept,
                   want=held, **where)
        try:
            got = later(spec, inst, rs, state, before)
        except Exception as e:
            r.fail('after an unsuitable %s the model does not work: %r'
                   % (op[0], e), **where)
        r.step(len(got))
        for m, a, b in zip(spec.later, got, unbroken):
            if not models.close(a, b, 1e-12):
                r.fail('an unsuitable %s changed the fitted model: results '
                       'of %s' % (op[0], m), got=a, want=b, **where)
        r.state(spec.name, op, before, kind)
        r.trace()


def cases(tier):
    big = tier == 'thorough'
    for i, spec in enumerate(SPECS):
        for op, before in calls(spec):
            if before is not None and op[0] not in spec.fits:
                yield ('refused', i, op, before)
    for i, spec in enumerate(SPECS):
        if not big and i >= len(models.SPECS):
            continue
        for op, before in calls(spec):
            for part in range(PARTS):
                yield (i, op, before, part, 1500 if big else 120)


def surroundings():
    state = np.random.get_state()
    return (state[1].tolist(), state[2:], np.geterr(),
            np.get_printoptions(), sys.gettrace(), id(sys.stdout),
            len(warnings.filters))


def later(spec, inst, rs, state, fitted):
    """Results of all later calls."""
    out = []
    for m in spec.later:
        op = (m, fitted, 2) if m == 'predict' else (m, fitted)
        rs.set_state(state)
        out.append(models.snapshot(spec.call(inst, op, fitted)))
    return out


def everything(spec, inst, rs, state, i):
    rs.set_state(state)
    out = [models.snapshot(spec.call(inst, ('fit_transform', i), None)),
           spec.results(inst)]
    return out + later(spec, inst, rs, state, i)


def prepare(spec, before):
    rs = np.random.RandomState(3)
    inst = spec.build(rs)
    kept = []
    if before is not None:
        kept.append(spec.call(inst, ('fit_transform', before), None))
        kept += [getattr(inst, a) for a in spec.attributes
                 if isinstance(getattr(inst, a, None), np.ndarray)]
    return inst, rs, kept


def run(case, r):
    if case[0] == 'refused':
        return refused(*case[1:], r)
    index, op, before, part, limit = case
    spec = SPECS[index]
    state = np.random.RandomState(77).get_state()
    fits = op[0] in spec.fits
    sets = [i for i in (0, 2) if ('fit_transform', i) in spec.ops()]
    fresh = {}
    for i in sets:
        rs = np.random.RandomState(9)
        fresh[i] = everything(spec, spec.build(rs), rs, state, i)

    def call(inst, inputs):
        return spec.call(inst, op, before, inputs=inputs)

    inst, rs, _ = prepare(spec, before)
    inputs = spec.inputs(op, before)
    lines = interrupt.lines_of(lambda: call(inst, inputs))
    unbroken = None
    if not fits:
        inst, rs, _ = prepare(spec, before)
        unbroken = later(spec, inst, rs, state, before)
    todo = interrupt.points(lines, limit)
    for n in todo[part::PARTS]:
        inst, rs, kept = prepare(spec, before)
        held = models.snapshot(kept)
        inputs = spec.inputs(op, before)
        given = models.snapshot(inputs)
        options = models.settings(spec, inst)
        around = surroundings()
        where = dict(model=spec.name, call=op, fitted=before, point=n,
                     line='%s:%d' % (lines[n - 1][0].split('/')[-1],
                                     lines[n - 1][1]))
        stopped = interrupt.run_until(lambda: call(inst, inputs), n)
        r.step()
        if not stopped:
            r.fail('a repeated call took another path, or swallowed the '
                   'interruption', **where)
        if surroundings() != around:
            r.fail('an interrupted call left the interpreter in another '
                   'state', **where)
        d = models.differs(given, inputs)
        if d:
            r.fail('an interrupted call modified its input (%s)' % d,
                   got=inputs, want=given, **where)
        d = models.differs(held, kept)
        if d:
            r.fail('an interrupted call changed earlier results (%s)' % d,
                   got=kept, want=held, **where)
        now = {a: v for a, v in models.settings(spec, inst).items() if a in options}
        d = models.differs(options, now)
        if d:
            r.fail('an interrupted call changed the options of the model '
                   '(%s)' % d, got=now, want=options, **where)
        if not fits:
            got = later(spec, inst, rs, state, before)
            r.step(len(got))
            for m, a, b in zip(spec.later, got, unbroken):
                if not models.close(a, b, 1e-12):
                    r.fail('an interrupted %s changed the fitted model: '
                           'results of %s' % (op[0], m), got=a, want=b,
                           **where)
        i = sets[n % len(sets)]
        got = everything(spec, inst, rs, state, i)
        r.step(len(got))
        for j, (a, b) in enumerate(zip(got, fresh[i])):
            if not models.close(a, b, 1e-12):
                r.fail('a fit after an interrupted call differs from a fresh '
                       'one: %s' % (('result of the fit', 'attributes')[j]
                                    if j < 2 else spec.later[j - 2]),
                       refit=i, got=a, want=b, **where)
        r.state(spec.name, op, before, n)
        r.trace()
