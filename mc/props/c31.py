"""C31: equal seeds and calls give equal results; others are inert."""

import contextlib
import io
import itertools
import random

import numpy as np

from mc import lattice, models

PROP = 'C31'
BOUNDS = {
    'quick': 'every call history of length up to 2 of 50 configurations of '
             'all nine models (12 of them with up to 90 samples, 6 '
             'components, 5 lags), for integer seeds and seeded generators, '
             'with and without verbosity (levels 1 and 2) and under two '
             'global random states; all interleavings of two 3-call histories on two instances, for '
             'every pair of configurations of the same model and one pair '
             'per pair of models, sharing the input arrays; twelve models on '
             'series of 30 samples for 16 seeds at verbosity 0, 1, 2 and 5',
    'thorough': 'as quick with histories of length 3, 3-call histories for '
                'every pair of configurations and four histories each, 60 seeds',
}
CASE_LIMIT = 120
CHUNK = 2


def cases(tier):
    big = tier == 'thorough'
    for i, spec in enumerate(models.ALL):
        hs = models.maximal(models.short_histories(spec, tier) if big else
                            list(models.histories(spec, 2)))
        for a in range(0, len(hs), 12):
            yield ('seeds', i, tuple(hs[a:a + 12]))
    for seed in range(60 if big else 16):
        yield ('larger', seed)
    n = len(models.SPECS)
    first = {}
    for i in range(n):
        first.setdefault(type(models.SPECS[i]), []).append(i)
    for i in range(n):
        for j in range(i, n):
            a, b = (type(models.SPECS[x]) for x in (i, j))
            if a is b or big or (first[a].index(i) ==
                                 j % len(first[a]) and
                                 first[b].index(j) == i % len(first[b])):
                for h in range(4 if big else 2):
                    yield ('interleave', i, j, h)


def larger(seed, verbose):
    """Models with more components, and calls on larger data."""
    from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
    from reor.gpnh_convex_coding import GPNHConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    from reor.mtd_convex_coding import MTDConvexCoding
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    from reor.crom import KMeansMarkovCROM
    from reor.pwvarx import ClusterPWVARX
    X = lattice.pattern((30, 2), seed, 3.0)
    kw = dict(random_state=seed, verbose=verbose)
    it = dict(kw, max_iterations=5)
    for model in (
            ClusterPWVARX(4, 1, **kw), ClusterPWVARX(5, 2, **kw),
            ClusterPWVARX(3, 0, s=1, **kw),
            KMeansMarkovCROM(5, **kw), KMeansMarkovCROM(4, n_init=1, **kw),
            KernelAA(4, **it), ArchetypalAnalysis(5, init='random', **it),
            GPNHConvexCoding(4, init='furthest_sum', **it),
            GPNHConvexCodingCROM(4, lags=[1, 2], **it),
            MTDConvexCoding(4, lags=[1, 3], epsilon_weights=0.2, **it),
            FEMBVKMeans(4, **dict(it, max_iterations=2)),
            FEMBVVARX(3, memory=1, max_tv_norm=2.0,
                      **dict(it, max_iterations=1))):
        name = type(model).__name__
        args = (X.dot(X.T),) if name == 'KernelAA' else (X,)
        opts = {'exog': X[:, :1]} if getattr(model, 's', 0) else {}
        with contextlib.redirect_stdout(io.StringIO()):
            out = [np.array(model.fit_transform(*args, **opts)),
                   np.array(model.transform(*args, **opts))]
            if hasattr(model, 'predict'):
                out.append(np.array(model.predict(*args, horizon=2)))
        yield name, out


def compare_larger(seed, r):
    np.random.seed(1)
    want = list(larger(seed, 0))
    for verbose in (0, 1, 2, 5):
        np.random.seed(verbose)
        state = np.random.get_state()[1].copy()
        for (name, got), (_, ref) in zip(larger(seed, verbose), want):
            for call, a, b in zip(('fit_transform', 'transform', 'predict'),
                                  got, ref):
                r.require(np.array_equal(a, b, equal_nan=True),
                          'verbosity, or a repeated run, changes the result '
                          'of ' + call, model=name, seed=seed,
                          verbose=verbose)
            r.step(len(got))
            r.trace()
            r.state('larger', name, seed, verbose)
        r.require(np.array_equal(state, np.random.get_state()[1]),
                  'a seeded model advances the global random state')


def generator(kind, seed):
    return seed if kind == 'int' else np.random.RandomState(seed)


def execute(spec, history, kind, seed, verbose=0, shared=None):
    inst = spec.build(generator(kind, seed), verbose)
    fitted = None
    out = []
    for op in history:
        out.append((models.snapshot(spec.call(inst, op, fitted)),
                    spec.results(inst)))
        if op[0] in spec.fits:
            fitted = op[1]
    return out


def compare(r, got, want, msg, **ctx):
    for j, (a, b) in enumerate(zip(got, want)):
        for x, y, what in ((a[0], b[0], 'result of call %d' % j),
                           (a[1], b[1], 'attributes after call %d' % j)):
            d = models.differs(x, y)
            if d:
                r.fail('%s: %s differs (%s)' % (msg, what, d), got=x, want=y,
                       **ctx)


def run(case, r):
    if case[0] == 'interleave':
        return interleave(case, r)
    if case[0] == 'larger':
        return compare_larger(case[1], r)
    _, i, hs = case
    spec = models.ALL[i]
    for history in hs:
        ctx = dict(model=spec.name, history=history)
        for kind, seed in (('int', 7), ('generator', 7)):
            np.random.seed(1)
            random.seed(1)
            g0 = np.random.get_state()
            p0 = random.getstate()
            want = execute(spec, history, kind, seed)
            g1 = np.random.get_state()
            r.require(np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:] and
                      random.getstate() == p0,
                      'a seeded model advances the global random state',
                      kind=kind, **ctx)
            np.random.seed(2)
            random.seed(2)
            compare(r, execute(spec, history, kind, seed,
                               verbose=2 if kind == 'int' else 1), want,
                    'verbosity, or the global random state, changes the '
                    'results', kind=kind, **ctx)
            np.random.seed(3)
            np.random.uniform(size=5)
            compare(r, execute(spec, history, kind, seed), want,
                    'two runs with equal seeds', kind=kind, **ctx)
            r.step(3 * len(history))
            r.trace(3)
            r.state(spec.name, history, kind)


def chosen(spec, h):
    """Representative 3-call histories of a model."""
    sets = (0, 1) if isinstance(spec, models.MarkovSpec) and spec.centres \
        else (0, 2)
    a, b = sets
    last = [m for m in spec.later][-1]
    op = lambda m, i: (m, i, 2) if m == 'predict' else (m, i)
    return (
        (('fit_transform', a), op(last, a), ('transform', a)),
        (('fit', b), ('transform', b), ('fit_transform', a)),
        (('fit', a), ('fit_transform', b), op(last, b)),
        (('fit_transform', b), ('fit_transform', b), ('transform', b)),
    )[h]


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield [0 if t in pos else 1 for t in range(n + m)]


def interleave(case, r):
    _, i, j, h = case
    specs = (models.SPECS[i], models.SPECS[j])
    hs = (chosen(specs[0], h), chosen(specs[1], (h + (i == j)) % 4))
    seeds = (3, 3 if h % 2 else 4)
    want = [execute(s, hh, 'generator', x)
            for s, hh, x in zip(specs, hs, seeds)]
    orders = list(interleavings(3, 3))
    if any(isinstance(s, models.FEMBVSpec) for s in specs):
        # slow: interleavings up to one switch back and forth
        orders = [o for o in orders
                  if sum(a != b for a, b in zip(o, o[1:])) in (2, 3)]
    for order in orders:
        insts = [s.build(generator('generator', x))
                 for s, x in zip(specs, seeds)]
        cache = {}
        fitted = [None, None]
        got = [[], []]
        pos = [0, 0]
        for who in order:
            s, op = specs[who], hs[who][pos[who]]
            pos[who] += 1
            args, kw = s.inputs(op, fitted[who])
            # equal inputs are the same object for both instances
            args = [cache.setdefault((a.shape, a.tobytes()), a)
                    for a in args]
            kw = {k: cache.setdefault((v.shape, v.tobytes()), v)
                  if isinstance(v, np.ndarray) else v for k, v in kw.items()}
            out = s.call(insts[who], op, fitted[who], inputs=(args, kw))
            got[who].append((models.snapshot(out), s.results(insts[who])))
            if op[0] in s.fits:
                fitted[who] = op[1]
            r.step()
        for who in (0, 1):
            compare(r, got[who], want[who], 'calls on another instance '
                    'change the results', models=[s.name for s in specs],
                    histories=hs, order=order, instance=who)
        r.state(specs[0].name, specs[1].name, hs, order)
        r.trace()
