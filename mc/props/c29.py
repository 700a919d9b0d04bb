"""C29: inputs are never modified, earlier results never change."""

import copy

import numpy as np

from mc import lattice, models

PROP = 'C29'
BOUNDS = {
    'quick': 'every call history of length up to 2 (fit, fit_transform, '
             'fit_predict, transform, predict at two horizons, '
             'inverse_transform on three data sets) of 50 configurations of '
             'all nine models (12 of them with up to 90 samples, 6 '
             'components, 5 lags), and of length 3 with fit_transform as the '
             'only fitting call; each history also with every input '
             'overwritten after each call, or with the lags or memories given '
             'to the constructor overwritten; FurthestSum and local VARX '
             'calls',
    'thorough': 'as quick with histories one call longer',
}
CASE_LIMIT = 120
CHUNK = 4


def cases(tier):
    for i, spec in enumerate(models.ALL):
        hs = models.maximal(models.short_histories(spec, tier))
        step = 8 if isinstance(spec, models.FEMBVSpec) else 40
        for a in range(0, len(hs), step):
            yield ('histories', i, tuple(hs[a:a + step]))
    for i, spec in enumerate(models.ALL):
        for name in ('lags', 'memory'):
            if isinstance(spec.cfg.get(name), (list, tuple)):
                for kind in ('int64', 'int32', 'list')[
                        2 if name == 'memory' else 0:]:
                    yield ('options', i, name, kind)
    for c in range(60):
        yield ('functions', c)


def replay(r, spec, history, mutate, **ctx):
    """Outputs of the history; inputs and earlier results are watched."""
    inst = spec.build(np.random.RandomState(5))
    config = models.snapshot(spec.cfg)
    settings = models.settings(spec, inst)
    fitted = None
    outs, returned = [], []
    for j, op in enumerate(history):
        args, kw = spec.inputs(op, fitted)
        before = models.snapshot((args, kw))
        out = spec.call(inst, op, fitted, inputs=(args, kw))
        r.step()
        d = models.differs(before, (args, kw))
        if d:
            r.fail('%s changed its input (%s)' % (op[0], d), before=before,
                   after=(args, kw), call=j, history=history, **ctx)
        if models.differs(config, spec.cfg):
            r.fail('%s changed the options of the model' % op[0],
                   before=config, after=spec.cfg, history=history, **ctx)
        now = {a: v for a, v in models.settings(spec, inst).items()
               if a in settings}
        d = models.differs(settings, now)
        if d:
            r.fail('%s changed an option kept by the model (%s)' % (op[0], d),
                   before=settings, after=now, history=history, **ctx)
        for i, (array, value, source) in enumerate(returned):
            if not np.array_equal(array, value, equal_nan=True):
                r.fail('%s changed an array returned earlier by %s' % (
                    op[0], source), was=value, now=array, history=history,
                    **ctx)
        if isinstance(out, np.ndarray):
            returned.append((out, out.copy(), op[0]))
        if op[0] in spec.fits:
            fitted = op[1]
        here = spec.results(inst)
        outs.append((models.snapshot(out), here))
        if mutate:
            for array in models.arrays_in((args, kw)):
                array[...] = array[::-1] * -3 + 11
            for value in kw.values():
                if isinstance(value, list):
                    value[:] = [2]
            d = models.differs(here, spec.results(inst))
            if d:
                r.fail('fitted attributes changed when the inputs of %s were '
                       'overwritten afterwards (%s)' % (op[0], d),
                       history=history, **ctx)
            if isinstance(out, np.ndarray) and not np.array_equal(
                    out, outs[-1][0], equal_nan=True):
                r.fail('the result of %s changed when its inputs were '
                       'overwritten afterwards' % op[0], history=history,
                       **ctx)
        r.state(spec.name, history[:j + 1], out)
    return outs


def run(case, r):
    if case[0] == 'functions':
        return functions(case[1], r)
    if case[0] == 'options':
        return options(case, r)
    _, i, hs = case
    spec = models.ALL[i]
    for history in hs:
        a = replay(r, spec, history, False, model=spec.name)
        b = replay(r, spec, history, True, model=spec.name)
        for j in range(len(history)):
            for which in (0, 1):
                d = models.differs(a[j][which], b[j][which])
                if d:
                    r.fail('overwriting the inputs of earlier calls affects '
                           'the model (%s)' % d, model=spec.name,
                           history=history, call=j, untouched=a[j][which],
                           overwritten=b[j][which])
        r.trace()


def options(case, r):
    """Lags and memories are taken by value when a model is built."""
    _, i, name, kind = case
    hs = [h for h in models.maximal(models.short_histories(
        models.ALL[i], 'quick')) if len(h) > 1]
    for history in hs[::max(1, len(hs) // 12)]:
        results = []
        for when in (None, 0, 1):
            spec = models.ALL[i]
            given = list(spec.cfg[name])
            if kind != 'list':
                given = np.array(given, dtype=kind)
            changed = copy.copy(spec)
            changed.cfg = dict(spec.cfg, **{name: given})
            inst = changed.build(np.random.RandomState(5))
            fitted, outs = None, []
            for j, op in enumerate(history):
                if when == j:
                    given[:] = [9] * len(given)
                outs.append(models.snapshot(spec.call(inst, op, fitted)))
                if op[0] in spec.fits:
                    fitted = op[1]
                    outs.append(spec.results(inst))
                r.step()
                r.state(spec.name, name, kind, when, history[:j + 1],
                        outs[-1])
            results.append(outs)
        for when, outs in ((0, results[1]), (1, results[2])):
            d = models.differs(results[0], outs)
            if d:
                r.fail('overwriting the %s given to the constructor affects '
                       'the model (%s)' % (name, d), model=spec.name,
                       history=history, when=when, kind=kind)
        r.trace()


def functions(c, r):
    from reor.furthest_sum import furthest_sum
    from reor.crom import kmeans_markov_crom
    from reor.fembv_varx import FEMBVVARXLocalLinearModel as Local
    from reor.spg import get_next_spg_alpha
    n = 4 + c % 4
    P = lattice.pattern((n, 2), c)
    D = ((P[:, None] - P[None]) ** 2).sum(axis=2)
    D0 = D.copy()
    exclude = [c % n] if c % 2 else np.array([c % n])
    if c % 3 == 0:
        # in no particular order
        exclude = [c % n, (c + 3) % n]
        exclude = sorted(exclude, reverse=c % 2 == 0)
    e0 = list(exclude)
    out = furthest_sum(D, 2, (c + 1) % n, exclude=exclude,
                       extra_steps=c % 5)
    first = np.array(out)
    r.require(np.array_equal(D, D0) and list(exclude) == e0,
              'furthest_sum changed its input', before=D0, after=D)
    furthest_sum(D + 1, 2, (c + 1) % n, extra_steps=3)
    r.require(np.array_equal(first, out), 'furthest_sum changed an earlier '
              'result')
    X = lattice.pattern((n + 4, 2), c, 2.0)
    w = np.abs(lattice.pattern((n + 4,), c)) + 0.1
    X0, w0 = X.copy(), w.copy()
    kmeans_markov_crom(X, n_clusters=2, sample_weight=w, random_state=c,
                       n_init=1)
    u = lattice.pattern((n + 4, 1), c + 3)
    u0 = u.copy()
    p, s = c % 3, c // 3 % 3
    model = Local(X, p=p, u=u, s=s)
    ref = Local(X.copy(), p=p, u=u.copy(), s=s)
    model.fit(weights=w)
    r.require(np.array_equal(X, X0) and np.array_equal(w, w0) and
              np.array_equal(u, u0), 'input arrays were modified')
    first = [np.array(v) for v in (model.mu, model.residuals)]
    X[:] = 5
    u[:] = -1
    w[:] = 7
    r.require(np.array_equal(first[0], model.mu) and
              np.array_equal(first[1], model.residuals), 'fitted local model '
              'changed with its inputs')
    model.fit(weights=w0[::-1].copy())
    ref.fit(weights=w0[::-1].copy())
    r.require(np.array_equal(model.mu, ref.mu) and
              np.array_equal(model.residuals, ref.residuals),
              'overwriting the data of a local VARX model after its '
              'construction affects later fits', p=p, s=s)
    m = lattice.pattern((2, 2), c)
    sk, yk = m.copy(), m[::-1].copy()
    get_next_spg_alpha(float(np.sum(sk * yk)), float(np.sum(sk * sk)),
                       1e-3, 1e3)
    r.state('functions', c)
    r.step(4)
    r.trace()
