"""C37: the progress output is true and complete, or absent."""

import contextlib
import io
import re
import warnings

import numpy as np

from mc import lattice, models

PROP = 'C37'
BOUNDS = {
    'quick': '48 iterative configurations (all fits of the factor models, '
             'lag models and FEM-BV models, 9 of them with up to 90 samples) '
             'x 3 data sets x iteration limits 1..6 x tolerances 0, 1e-3 and '
             'default x verbosity 0, 1, 2, True; transform likewise; all '
             'calls of all nine models silent at verbosity 0; every listed '
             'cost compared with the cost reported by the run limited to '
             'that iteration',
    'thorough': 'as quick with iteration limits up to 25',
}
CASE_LIMIT = 240
CHUNK = 1
NUMBER = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)'
ROW = re.compile(r'^\s*(\d+)\s*\|\s*(%s)\s*\|\s*(%s)\s*\|\s*(%s)\s*$' %
                 (NUMBER, NUMBER, NUMBER))
DONE = re.compile(r'onverged at iteration\s+(\d+)')
TOLERANCES = (0, 1e-3, None)


def cases(tier):
    big = tier == 'thorough'
    for i, spec in enumerate(models.ALL):
        for j in sorted(set(op[1] for op in spec.ops() if op[0] == 'fit')):
            yield ('silent', i, j)
            if not isinstance(spec, (models.Factor, models.FEMBVSpec)):
                continue
            for t in range(3):
                slow = isinstance(spec, models.FEMBVSpec) or \
                    spec.shapes is models.BIG
                yield ('table', i, j, t, 3 if slow and not big else
                       8 if slow else 25 if big else 6)


def captured(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        value = fn()
    return value, out.getvalue()


def tables(text):
    """Tables of (rows, announced convergence), in order of appearance."""
    found = []
    rows = None
    for line in text.split('\n'):
        row = ROW.match(line)
        done = DONE.search(line)
        if row:
            entry = (int(row.group(1)), float(row.group(2)),
                     float(row.group(3)), float(row.group(4)))
            if rows is None or rows[1] is not None or entry[0] == 1:
                rows = [[], None]
                found.append(rows)
            rows[0].append(entry)
        elif done:
            if rows is None:
                rows = [[], None]
                found.append(rows)
            rows[1] = int(done.group(1))
    return found


def build(spec, m, tol, verbose):
    old = spec.iters
    spec.iters = m
    try:
        inst = spec.build(np.random.RandomState(4) if spec.random else 4,
                          verbose)
    finally:
        spec.iters = old
    if tol is not None:
        inst.tolerance = tol
    return inst


def silent(spec, i, r):
    """Nothing is printed by any call at verbosity 0."""
    for m in spec.fits:
        inst = spec.build(np.random.RandomState(4) if spec.random else 4)
        calls = [(m, i)] + [(c, i, 2) if c == 'predict' else (c, i)
                            for c in spec.later]
        for op in calls:
            _, text = captured(lambda: spec.call(inst, op, i))
            r.step()
            r.require(not text.strip(), 'prints without verbosity',
                      model=spec.name, call=op, text=text[:300])
            r.state(spec.name, op)
    r.trace()


def residual(model, W):
    """Cost of the lag parameters of a reduced-order model."""
    k = W.shape[1]
    top = int(max(model.lags))
    if k == 1:
        return 0.0
    err = []
    for t in range(top, W.shape[0]):
        err.append(W[t] - sum(
            a * P.dot(W[t - lag]) for a, P, lag in
            zip(model.order_weights, model.transition_matrices, model.lags)))
    return float(np.sum(np.square(err))) / (k * max(len(err), 1)) \
        if err else 0.0


def agree(shown, value, scale):
    return abs(shown - value) <= 2e-6 * abs(value) + 1e-9 * scale


def judge(r, table, costs, tol, limit, ctx, first_known=None):
    """costs[j]: cost after j+1 iterations."""
    rows, done = table
    n = len(rows)
    r.require([e[0] for e in rows] == list(range(1, n + 1)),
              'iterations are not listed once each and in order',
              rows=rows, **ctx)
    scale = max([abs(c) for c in costs] + [abs(first_known or 0.0)])
    prev = first_known
    for j, (number, cost, delta, seconds) in enumerate(rows):
        r.require(agree(cost, costs[j], scale), 'listed cost is not the '
                  'cost of the state of that iteration', iteration=number,
                  listed=cost, true=costs[j], **ctx)
        if prev is not None:
            r.require(abs(delta - (costs[j] - prev)) <=
                      2e-6 * (abs(prev) + abs(costs[j]) + abs(delta)) +
                      1e-9 * scale,
                      'listed change is not the change of the cost',
                      iteration=number, listed=delta, true=costs[j] - prev,
                      **ctx)
        r.require(seconds >= 0, 'negative time', **ctx)
        # the same limit applies to the listed change
        met = abs(delta) < tol
        if abs(abs(delta) - tol) > 1e-5 * tol and tol > 0:
            r.require(met == (j == n - 1) or (j == n - 1 == limit - 1),
                      'rows continue after convergence, or stop without it',
                      iteration=number, change=delta, **ctx)
        prev = costs[j]
    last = abs(rows[-1][2])
    if tol == 0:
        r.require(done is None, 'announces convergence at zero tolerance',
                  **ctx)
    elif abs(last - tol) > 1e-5 * tol:
        r.require((done is not None) == (last < tol), 'announced '
                  'convergence does not match the last change',
                  announced=done, change=last, **ctx)
    if done is not None:
        r.require(done == n, 'announces convergence at the wrong iteration',
                  announced=done, performed=n, **ctx)


def run(case, r):
    if case[0] == 'silent':
        return silent(models.ALL[case[1]], case[2], r)
    _, index, i, t, limit = case
    spec = models.ALL[index]
    crom = isinstance(spec, models.CROMSpec) and \
        not isinstance(spec, models.MTDSpec)
    probe = build(spec, 1, TOLERANCES[t], 0)
    tol = probe.tolerance
    op = ('fit_transform', i)
    # costs after every number of iterations, from silent runs
    costs, params, weights, modelled = [], [], [], []
    for m in range(1, limit + 1):
        inst = build(spec, m, TOLERANCES[t], 0)
        W, _ = captured(lambda: spec.call(inst, op, None))
        costs.append(float(inst.cost_))
        weights.append(np.array(W))
        if crom:
            params.append(residual(inst, np.array(W)))
        r.step()
    for verbose in (1, 2, True):
        inst = build(spec, limit, TOLERANCES[t], verbose)
        _, text = captured(lambda: spec.call(inst, op, None))
        r.step()
        ctx = dict(model=spec.name, data=i, tolerance=tol, limit=limit,
                   verbose=verbose)
        found = tables(text)
        r.require(len(found) == (2 if crom else 1), 'not one table per '
                  'iteration of the model', text=text[:1500], **ctx)
        rows = found[0][0]
        n = len(rows)
        r.require(1 <= n <= limit, 'more rows than iterations', rows=n, **ctx)
        judge(r, found[0], costs, tol, limit, ctx)
        # first change: from the cost of the start
        r.require(rows[0][2] <= 1e-6 * abs(rows[0][1]) + 1e-9
                  or isinstance(spec, models.FEMBVSpec),
                  'first listed change is not a decrease', rows=rows[:1],
                  **ctx)
        if crom:
            # with zero tolerance both stages run to the limit, so that the
            # weights vary with it: rebuild the weights of the whole run
            last = found[1][0]
            final = residual(inst, weights[-1])
            r.require(agree(last[-1][1], final, max(final, 1e-3)),
                      'last listed cost is not the prediction error of the '
                      'parameters', listed=last[-1][1], true=final, **ctx)
            listed = [e[1] for e in last]
            judge(r, found[1], listed, tol, limit, ctx)
        # transform: one table, ending at the cost of the transformed weights
        _, text = captured(lambda: spec.call(inst, ('transform', i), i))
        found = tables(text)
        r.require(len(found) == 1, 'transform does not list its iterations',
                  text=text[:1500], **ctx)
        rows = found[0][0]
        judge(r, found[0], [e[1] for e in rows], tol, limit,
              dict(ctx, call='transform'))
        r.step()
        r.state(spec.name, i, t, verbose is True, text.count('\n'))
    r.trace(limit)
