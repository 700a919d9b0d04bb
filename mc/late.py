"""Long trajectories of the factorisation fits, observed at every iteration.

With a short bounded step length a fit is still moving after hundreds of
iterations.  The states after each iteration are recorded while a single fit
reports its iterations, and compared with the results of separate fits of
exactly so many iterations at several counts; where that comparison fails, all
states are obtained from such fits."""

import contextlib
import io
import re

import numpy as np

from mc import factor, lattice, spaces

LAST = {False: 201, True: 1001}
SCALES = (1.0, 0.1, 5.0, 1e-3, 1e3, 1e-6, 1e5)
N_LATE = 24
LAGS = ((1,), (1, 2), (3,), (2, 1), (1, 3), (2, 5))
EPS = ((0.0, 1.0), (0.5, 30.0), (2.0, 0.1), (0.3, 0.0))


def cases(tier):
    for i in range(4 * N_LATE if tier == 'thorough' else N_LATE):
        yield ('late', i, tier == 'thorough')


def sharp(P, floor, axis):
    """Stochastic array whose small entries are replaced by floor."""
    P = np.where(P < np.mean(P, axis=axis, keepdims=True), floor, P)
    return P / P.sum(axis=axis, keepdims=True)


def problem(kind, i):
    data, obj, k, cfg, start, ls = smooth_problem(kind, i)
    if i % 5 in (1, 3):
        # starts with vanishing or tiny weights
        floor = (0.0, 1e-6)[i % 5 // 2]
        for name, axis in (('weights', 1), ('order_weights', 0),
                           ('transition_matrices', 1)):
            if name in start:
                start[name] = sharp(start[name], floor, axis)
        if kind in ('AA', 'KernelAA'):
            start['dictionary'] = sharp(start['dictionary'], floor, 1)
    return data, obj, k, cfg, start, ls


def smooth_problem(kind, i):
    """(data argument, objective, components, settings, start, ls)"""
    n = (6, 12, 20, 9, 30)[i % 5]
    d = (2, 1, 3, 4)[i % 4]
    k = (2, 3, 2, 4, 3, 1, 5)[i % 7]
    X = lattice.pattern((n, d), i + 40, (1.0, 2.0, 0.5)[i % 3])
    if i % 6 == 4:
        X = np.round(2 * X)
    slow = i % 3
    if kind in ('AA', 'KernelAA'):
        K = spaces.kernel_of(X, ('linear', 'rbf')[i % 2])
        start = spaces.pattern_start('AA', n, d, k, i)
        ls = ({'alpha_max': 0.003}, {'alpha_max': 0.02},
              {'alpha_min': 0.01, 'alpha_max': 0.01})[slow]
        if kind == 'AA':
            K = X.dot(X.T)
            return X, factor.AA(K, 0.4), k, {'delta': 0.4}, start, ls
        return K, factor.AA(K), k, {}, start, ls
    ls = ({'alpha_max': 0.1 * n}, {'alpha_max': 0.02 * n},
          {'alpha_min': 0.05 * n, 'alpha_max': 0.05 * n})[slow]
    eps, epsw = EPS[i % 4]
    if kind == 'GPNH':
        start = spaces.pattern_start('GPNH', n, d, k, i)
        return X, factor.GPNH(X, eps), k, {'epsilon_states': eps}, start, ls
    lags = LAGS[i % 6]
    start = spaces.pattern_start('MTD', n, d, k, i, lags)
    return X, factor.MTD(X, lags, eps, epsw), k, {
        'epsilon_states': eps, 'epsilon_weights': epsw,
        'lags': list(lags)}, start, ls


class Recorder(io.TextIOBase):
    """Copies the arrays of a model whenever it prints a table row."""

    def __init__(self):
        self.model = None
        self.rows = []
        self.line = ''

    def write(self, text):
        self.line += text
        while '\n' in self.line:
            line, self.line = self.line.split('\n', 1)
            m = re.match(r'\s*(\d+)\s*\|', line)
            if m:
                self.rows.append((int(m.group(1)), {
                    name: np.array(a) for name, a in vars(self.model).items()
                    if isinstance(a, np.ndarray) and a.size < 10 ** 4}))
        return len(text)


def recorded(build, fit, read, probes):
    """State after every iteration 1..probes[-1], or None.

    build(m, verbose) makes a model limited to m iterations, fit(model) fits
    it and read(model, out) names the parts of its state.  The states are read
    off a single verbose fit at the times it reports an iteration, from the
    attributes holding each part.  They are only believed if at every probe
    they equal those of a separate silent fit of so many iterations; otherwise
    None is returned."""
    exact = {}
    for m in probes:
        model = build(m, 0)
        exact[m] = read(model, fit(model))
    recorder = Recorder()
    model = recorder.model = build(probes[-1], 1)
    with contextlib.redirect_stdout(recorder):
        final = read(model, fit(model))
    for name in final:
        if not np.array_equal(final[name], exact[probes[-1]][name]):
            return None
    rows = recorder.rows
    starts = [i for i, (m, _) in enumerate(rows) if m == 1]
    rows = rows[starts[-1]:] if starts else []
    if [m for m, _ in rows] != list(range(1, probes[-1] + 1)):
        return None
    where = {}
    for part in final:
        for name in rows[0][1]:
            if all(name in rows[m - 1][1] and np.array_equal(
                    rows[m - 1][1][name], exact[m][part]) for m in probes):
                where[part] = name
                break
        else:
            return None
    return [{part: arrays[name] for part, name in where.items()}
            for _, arrays in rows], exact


def probe_counts(i, last):
    """Iteration counts fitted separately, different for every problem."""
    out = set(m for m in (1, 2 + i % 7, 10 + i % 3, 64 + i % 2,
                          99 + i % 3) if m < last)
    return sorted(out) + [last]


def trajectory(kind, data, k, cfg, start, iters, flags=None):
    """(states after 1..iters iterations, reported costs where known)."""
    params = kind == 'MTD'
    costs = {}

    def build(m, verbose):
        return factor.make(kind, k, init='custom', max_iterations=m,
                           verbose=verbose, **cfg)

    def fit(model):
        return model.fit_transform(data, **dict(
            flags or {}, **{a: b.copy() for a, b in start.items()}))

    def read(model, out):
        st = factor.read_state(kind, model, out)
        costs[model.max_iterations] = model.cost_
        if params:
            del st['params']
            st['order_weights'] = np.array(model.order_weights)
            st['transition_matrices'] = np.array(model.transition_matrices)
        if kind in ('AA', 'KernelAA') and not model.delta > 0:
            del st['scales']
        return st

    def whole(st):
        st = dict(st)
        if params:
            st['params'] = factor.MTD.join(st.pop('order_weights'),
                                           st.pop('transition_matrices'))
        if kind in ('AA', 'KernelAA'):
            st.setdefault('scales', np.ones(k))
        return st
    if iters > 4:
        record = recorded(build, fit, read, probe_counts(iters + k, iters))
        if record is not None:
            exact = record[1]
            return [whole(st) for st in record[0]], {
                m: costs[m] for m in exact}
    out = []
    for m in range(1, min(iters, LAST[False]) + 1):
        model = build(m, 0)
        out.append(whole(read(model, fit(model))))
    return out, costs


def states(kind, i, deep):
    """Yield (m, cost reported, state after m iterations, after m + 1)."""
    data, obj, k, cfg, start, ls = problem(kind, i)
    last = LAST[deep]
    sequence, costs = trajectory(kind, data, k, dict(cfg, tolerance=0, **ls),
                                 start, last)
    for m in range(1, len(sequence)):
        yield m, costs.get(m + 1), sequence[m - 1], sequence[m], obj, ls


def steps(kind, case, r):
    """Each observed iteration is a sequence of admissible steps."""
    _, i, deep = case
    for m, _, before, st, obj, ls in states(kind, i, deep):
        factor.check_trajectory(obj, [before, st], r, ctx={
            'late': i, 'after': m}, first_alpha=None, **ls)
        r.state(kind, i, m, st)
    r.trace()


def feasible(kind, case, r):
    _, i, deep = case
    for m, _, _, st, obj, _ in states(kind, i, deep):
        bad = obj.feasible(st)
        if bad:
            r.fail(bad, late=i, iterations=m + 1, state=st)
        r.step()
        r.state(kind, i, m, st)
    r.trace()


def descends(kind, case, r):
    _, i, deep = case
    prev = None
    for m, reported, before, st, obj, _ in states(kind, i, deep):
        costs = [obj.cost(before), obj.cost(st)]
        noise = obj.noise(st)
        if prev is not None:
            costs.insert(0, prev)
        for a, b in zip(costs, costs[1:]):
            if not b <= a + 1e-10 * abs(a) + 20 * noise:
                r.fail('cost increased along the iterations', before=a,
                       after=b, late=i, iterations=m + 1)
        if reported is not None and not abs(reported - costs[-1]) <= \
                1e-9 * abs(costs[-1]) + 10 * noise:
            r.fail('reported cost is not the objective', reported=reported,
                   true=costs[-1], late=i, iterations=m + 1)
        prev = costs[-1]
        r.step()
        r.state(kind, i, m, st)
    r.trace()
