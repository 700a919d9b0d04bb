"""C34: models in different threads do not affect each other."""

import copy

import numpy as np

from mc import models, threads

PROP = 'C34'
BOUNDS = {
    'quick': 'two real threads under a controlled scheduler, fit_transform '
             'followed by the other calls, for each of 31 configurations '
             'against itself and 14 mixed pairs of models: every schedule '
             'with one preemption at any function call of the package in '
             'either thread, every schedule alternating at each line, each '
             'call, and each 2nd and 3rd line; for ten small pairs every '
             'schedule with one preemption at any executed line and every '
             'schedule with one preemption in each thread at calls of fit '
             '(all pairs of points, or an even grid of about 700 of them)',
    'thorough': 'as quick for all 38 configurations and a quarter of the '
                'pairs of models, line-level preemptions for all pairs, two '
                'preemptions at calls for all pairs',
}
ASSUMPTIONS = (
    'preemption is explored between lines (calls) of the package; numpy and '
    'scikit-learn internals run atomically',)
CASE_LIMIT = 300
CHUNK = 1


def specs():
    out = []
    for s in models.SPECS:
        s = copy.copy(s)
        s.iters = 1
        out.append(s)
    return out


SPECS = specs()
NAMES = [s.name for s in SPECS]
MIXED = (
    ('GPNH random', 'MTD random'), ('MTD custom', 'CROM random'),
    ('ArchetypalAnalysis default', 'GPNH furthest_sum'),
    ('KernelAA relaxed', 'KernelAA random'),
    ('GPNH custom', 'CROM custom'), ('MTD furthest_sum', 'KernelAA custom'),
    ('FEMBVKMeans free', 'FEMBVKMeans custom'),
    ('FEMBVKMeans custom', 'FEMBVVARX memory'),
    ('FEMBVVARX memory', 'FEMBVVARX exogenous'),
    ('ClusterPWVARX', 'ClusterPWVARX exogenous'),
    ('ClusterPWVARX', 'FEMBVVARX memory'),
    ('KMeansMarkovCROM', 'ClusterPWVARX'),
    ('KMeansMarkovCROM', 'KMeansMarkovCROM weighted'),
    ('GPNH random', 'ArchetypalAnalysis custom relaxed'),
)
SMALL = (
    ('KernelAA custom', 'KernelAA custom'),
    ('ArchetypalAnalysis default', 'ArchetypalAnalysis default'),
    ('KernelAA relaxed', 'KernelAA relaxed'),
    ('GPNH custom', 'GPNH custom'), ('MTD custom', 'MTD custom'),
    ('CROM random', 'CROM random'), ('GPNH random', 'MTD random'),
    ('KMeansMarkovCROM centres', 'KMeansMarkovCROM centres'),
    ('ClusterPWVARX', 'ClusterPWVARX'),
    ('FEMBVKMeans custom', 'FEMBVKMeans custom'),
)
SKIP = ('all components',)
PARTS = 8


def index(name):
    return NAMES.index(name)


def cases(tier):
    big = tier == 'thorough'
    n = len(SPECS)
    if big:
        pairs = [(i, j) for i in range(n) for j in range(i, n)
                 if i == j or type(SPECS[i]) is not type(SPECS[j]) and
                 (i + j) % 4 == 0]
        pairs += [(index(a), index(b)) for a, b in MIXED]
    else:
        pairs = [(i, i) for i in range(n)
                 if not any(x in NAMES[i] for x in SKIP)]
        pairs += [(index(a), index(b)) for a, b in MIXED]
    small = [(index(a), index(b)) for a, b in SMALL]
    lines = pairs if big else small
    for i, j in dict.fromkeys(lines):
        for part in range(PARTS * (2 if big else 1)):
            for d in ((0, 1) if i != j else (0,)):
                yield ('line', i, j, d, part, PARTS * (2 if big else 1))
    for i, j in dict.fromkeys(pairs):
        for part in range(2):
            for d in ((0, 1) if i != j else (0,)):
                yield ('call', i, j, d, part, 2)
        yield ('alternate', i, j)
    for i, j in dict.fromkeys(pairs if big else small):
        for part in range(PARTS):
            yield ('two', i, j, big, part, PARTS)


def history(spec, sets, short=False):
    """The calls a thread makes on its instance."""
    out = [('fit_transform', sets[0])]
    if short:
        return out
    for m in spec.later:
        if m == 'predict':
            out.append((m, sets[0], 2))
        elif m == 'transform':
            out.append((m, sets[1] if spec.compatible(*sets) else sets[0]))
        else:
            out.append((m, 0))
    return out


def plan(i, j, short=False):
    """The two threads' call sequences (different data of equal shapes)."""
    a = history(SPECS[i], (0, 1), short)
    b = history(SPECS[j], (1, 0), short)
    return (SPECS[i], a, 5), (SPECS[j], b, 6)


def task(spec, ops, seed):
    """Callable for one thread; instance and inputs are built beforehand."""
    inst = spec.build(np.random.RandomState(seed))
    calls = [(op, spec.inputs(op, ops[0][1])) for op in ops]

    def go():
        out = []
        for op, inputs in calls:
            res = spec.call(inst, op, ops[0][1], inputs=inputs)
            out.append(models.snapshot(res))
            out.append(spec.results(inst))
        return out
    return go


_ALONE = {}


def alone(key):
    """Results of each thread's calls when run alone, and its points."""
    if key not in _ALONE:
        level, short, i, j = key
        out = []
        for t in plan(i, j, short):
            plain = task(*t)()
            run_ = threads.Run([task(*t), lambda: None], (), level).execute()
            out.append((plain, run_.counts[0], run_.results[0],
                        run_.errors[0]))
        _ALONE[key] = out
    return _ALONE[key]


def compare(r, key, switches, alternate=0, first=0):
    level, short, i, j = key
    base = alone(key)
    run_ = threads.Run([task(*t) for t in plan(i, j, short)], switches, level,
                       first=first, alternate=alternate).execute()
    r.step(sum(run_.counts))
    r.state(key, sorted(switches), alternate, first)
    ctx = dict(models=(NAMES[i], NAMES[j]),
               calls=[p[1] for p in plan(i, j, short)],
               schedule=('start thread %d, switch at %s %s' % (
                   first, level, sorted(switches) or
                   'every %d' % alternate)))
    for t in (0, 1):
        if run_.errors[t] is not None:
            r.fail('thread %d fails when interleaved: %s: %s' % (
                t, type(run_.errors[t]).__name__, run_.errors[t]), **ctx)
        d = models.differs(run_.results[t], base[t][0])
        if d:
            r.fail('thread %d gives other results than alone (%s)' % (t, d),
                   got=run_.results[t], want=base[t][0], **ctx)
    r.trace()
    return run_


def run(case, r):
    kind, i, j = case[:3]
    if kind in ('line', 'call'):
        d, part, parts = case[3:]
        key = (kind, False, i, j)
        base = alone(key)
        for t in (0, 1):
            d0 = models.differs(base[t][0], base[t][2])
            if d0 or base[t][3] is not None:
                r.fail('the calls give other results in a thread of their '
                       'own (%s%s)' % (d0, base[t][3]), model=NAMES[(i, j)[t]])
        for n in range(1 + part, base[d][1] + 1, parts):
            compare(r, key, {(d, n)}, first=d)
        return
    if kind == 'alternate':
        for level, steps in (('line', (1, 2, 3)), ('call', (1, 2))):
            for a in steps:
                for first in (0, 1):
                    compare(r, (level, False, i, j), (), alternate=a,
                            first=first)
        return
    _, _, _, big, part, parts = case
    key = ('call', True, i, j)
    base = alone(key)
    # thread 0 up to n, thread 1 up to m, thread 0 to its end, thread 1
    stride = 1
    total = base[0][1] * base[1][1]
    while not big and total // stride ** 2 > 700:
        stride += 1
    for n in range(1 + part * stride, base[0][1] + 1, parts * stride):
        for m in range(1, base[1][1] + 1, stride):
            compare(r, key, {(0, n), (1, m)})
