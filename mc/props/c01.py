"""C01: vector projection onto the simplex."""

import itertools

import numpy as np

from mc import lattice, ref
from reor.simplex_projection import simplex_project_vector

PROP = 'C01'
VALUES = (-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 3.0)
SMALL = (-1.0, 0.0, 0.5, 1.0)
DELTAS = (1e-2, 4e-4, 1e-6, 1e-9, 1e-12, 1e-15)
SCALES = (1.0, 1e-8, 1e-3, 37.0, 1e8, 1e20, 1e300)
BOUNDS = {
    'quick': 'all vectors over 8 values up to length 4, over 4 values up to '
             'length 6, over 2 values up to length 9, at 7 scales and 3 '
             'offsets; vectors over 6 values within 1e-2 ... 1e-15 of the points '
             'where the support changes, up to length 4; patterned vectors '
             'of every third length up to 530 and some up to 1025, spread '
             'from 1e-5 to 1e12; every out mode',
    'thorough': 'all vectors over 8 values up to length 5, over 4 values up '
                'to length 8, over 2 values up to length 13, at 7 scales and '
                '3 offsets; near-threshold vectors up to length 6; patterned '
                'vectors of every length up to 2050',
}


def cases(tier):
    big = tier == 'thorough'
    for n in range(1, (5 if big else 4) + 1):
        for v in itertools.product(VALUES, repeat=n):
            yield ('grid', v)
    for n in range(5, (8 if big else 6) + 1):
        for v in itertools.product(SMALL, repeat=n):
            yield ('grid', v)
    for n in range(7, (13 if big else 9) + 1):
        for v in itertools.product((0.0, 1.0), repeat=n):
            yield ('grid', v)
    for d in DELTAS:
        near = (0.0, d, -1.0, 1.0, 1 - d, 1 + d)
        for n in range(2, (6 if big else 4) + 1):
            for v in itertools.product(near, repeat=n):
                if n < 3 or any(x in near[1:2] + near[4:] for x in v):
                    yield ('near', v)
    lengths = list(range(7, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256,
                                    257, 400]
    if big:
        lengths += [512, 1000, 1025, 3000]
    for n in lengths:
        for k in range(12):
            yield ('pattern', n, k)
    for n in range(7, 2050 if big else 530, 1 if big else 3):
        yield ('pattern', n, n)
    for n in (1000, 1024, 1025):
        yield ('pattern', n, n)


def check_vector(x, r):
    x = np.asarray(x)
    want = np.array([float(v) for v in ref.project_exact(x)])
    n = x.size
    eps = 1e-6 if x.dtype == np.float32 else 1e-14
    tol = 20 * n * eps
    keep = x.copy()
    y = simplex_project_vector(x)
    r.step()
    r.state(x, y)
    r.require(np.array_equal(x, keep), 'input changed without out', x=keep)
    r.require(y.shape == x.shape, 'wrong shape', x=x)
    r.require(np.all(y >= 0), 'negative entry', x=x, got=y)
    r.close(y.sum(), 1, 'sum is not one', atol=n * tol, rtol=0, x=x)
    r.close(y, want, 'not the nearest point', atol=tol, rtol=0, x=x)
    z = simplex_project_vector(y)
    r.step()
    r.close(z, y, 'projection of a projected point moves',
            atol=n * tol, rtol=0, x=x)
    if x.dtype.kind != 'f':
        return
    # out= a fresh buffer, the input itself, and strided buffers
    buf = np.full(n, 55.0, dtype=x.dtype)
    res = simplex_project_vector(x, out=buf)
    r.close(buf, want, 'out buffer', atol=tol, rtol=0, x=x)
    r.require(res is buf, 'out buffer is not returned', x=x)
    r.require(np.array_equal(x, keep), 'input changed with out', x=keep)
    wide = np.full(2 * n + 3, 55.0, dtype=x.dtype)
    view = wide[1:1 + 2 * n:2]
    view[...] = x
    simplex_project_vector(view, out=view)
    r.close(view, want, 'in-place strided', atol=tol, rtol=0, x=x)
    mask = np.ones(wide.size, bool)
    mask[1:1 + 2 * n:2] = False
    r.require(np.all(wide[mask] == 55.0), 'wrote outside the buffer', x=x)
    back = x[::-1].copy()[::-1]
    simplex_project_vector(back, out=back)
    r.close(back, want, 'in-place reversed view', atol=tol, rtol=0, x=x)
    r.step(3)
    r.trace(4)


def run(case, r):
    if case[0] == 'near':
        base = np.array(case[1])
        for offset in (0.0, -1.0, 1e3):
            check_vector(base + offset, r)
    elif case[0] == 'grid':
        base = np.array(case[1])
        for scale in SCALES:
            check_vector(base * scale, r)
        for offset in (1e6, -1e3):
            check_vector(base + offset, r)
        if np.all(base == np.round(base)):
            check_vector(base.astype('i8'), r)
        check_vector(base.astype('f4'), r)
    else:
        _, n, k = case
        for scale in (1e-5, 0.5 / n, 0.01, 1.0, 30.0, 1e12):
            x = lattice.pattern((n,), k, scale)
            check_vector(x, r)
            check_vector(np.sort(x), r)
            check_vector(np.round(x * 4 / scale) / 4 * scale, r)
