"""C05: random stochastic matrices."""

import numpy as np

from reor._random_matrix import (left_stochastic_matrix,
                                 right_stochastic_matrix)

PROP = 'C05'
BOUNDS = {
    'quick': 'all shapes up to 7x7 and 8 larger ones, 40 seeds each, every '
             'kind of random state',
    'thorough': 'all shapes up to 12x12 and 8 larger ones, 200 seeds each',
}


def cases(tier):
    big = tier == 'thorough'
    m = 12 if big else 7
    shapes = [(a, b) for a in range(1, m + 1) for b in range(1, m + 1)]
    shapes += [(100, 3), (3, 100), (64, 64), (1, 500), (500, 1), (33, 17),
               (17, 33), (129, 2)]
    for shape in shapes:
        for seed in range(200 if big else 40):
            yield (shape, seed)


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def run(case, r):
    shape, seed = case
    for name, fn, axis in (('left', left_stochastic_matrix, 0),
                           ('right', right_stochastic_matrix, 1)):
        np.random.seed(4242)
        before = np.random.get_state()
        a = fn(shape, random_state=seed)
        r.require(a.shape == shape, '%s: wrong shape' % name, got=a.shape)
        r.require(np.all(np.isfinite(a)) and np.all(a >= 0),
                  '%s: negative entries' % name)
        r.close(a.sum(axis=axis), np.ones(shape[1 - axis]),
                '%s: sums are not one' % name, atol=1e-12, rtol=0)
        b = fn(shape, random_state=seed)
        r.require(np.array_equal(a, b), '%s: equal seeds differ' % name)
        c = fn(shape, random_state=np.int64(seed))
        r.require(np.array_equal(a, c), '%s: numpy integer seed' % name)
        g, h = np.random.RandomState(seed), np.random.RandomState(seed)
        d1, d2 = fn(shape, random_state=g), fn(shape, random_state=g)
        e1, e2 = fn(shape, random_state=h), fn(shape, random_state=h)
        r.require(np.array_equal(d1, a),
                  '%s: generator and seed disagree' % name)
        r.require(np.array_equal(d1, e1) and np.array_equal(d2, e2),
                  '%s: equal generators differ' % name)
        r.require(not same_state(g.get_state(),
                                 np.random.RandomState(seed).get_state()),
                  '%s: generator is not consumed' % name)
        if shape[axis] > 1:
            r.require(not np.array_equal(d1, d2),
                      '%s: successive draws are equal' % name)
        r.require(same_state(before, np.random.get_state()),
                  '%s: global random state was consumed' % name)
        np.random.seed(seed)
        f = fn(shape)
        r.require(np.array_equal(f, a), '%s: global state not used' % name)
        r.require(not same_state(np.random.RandomState(seed).get_state(),
                                 np.random.get_state()),
                  '%s: global state not consumed' % name)
        r.state(name, a)
        r.step(8)
        r.trace(3)
