"""C02: projection of the rows and columns of a matrix, in place."""

import itertools

import numpy as np

from mc import lattice, ref
from reor.simplex_projection import (simplex_project_columns,
                                     simplex_project_rows)

PROP = 'C02'
VALUES = (-1.0, 0.0, 0.5, 2.0)
SENTINEL = 123.456
BOUNDS = {
    'quick': 'all matrices over 4 values for shapes up to 6 entries and over '
             '3 values for 2x4, 4x2; two memory layouts each; patterned '
             'matrices of 56 shapes up to 300 rows or columns in 8 layouts, '
             'with entries up to 1e15',
    'thorough': 'as quick plus 3x3 over 4 values, 7 and 8 entries over 4 '
                'values, and patterned matrices up to 1500 rows',
}


def cases(tier):
    big = tier == 'thorough'
    shapes = [(a, b) for a in range(1, 7) for b in range(1, 7) if a * b <= 6]
    for shape in shapes:
        for i in range(4 ** (shape[0] * shape[1])):
            yield ('grid', shape, VALUES, i)
    for shape in ((2, 4), (4, 2)):
        vals = VALUES if big else VALUES[1:]
        for i in range(len(vals) ** 8):
            yield ('grid', shape, vals, i)
    if big:
        for shape in ((3, 3), (1, 8), (8, 1), (7, 1), (1, 7)):
            for i in range(4 ** (shape[0] * shape[1])):
                yield ('grid', shape, VALUES, i)
    shapes = [(a, b) for a in (1, 2, 3, 5, 8, 17, 33) for b in
              (1, 2, 3, 4, 7, 16, 33)]
    shapes += [(300, 3), (3, 300), (65, 65), (128, 2), (2, 128), (100, 101),
               (0, 3), (3, 0)]
    if big:
        shapes += [(1500, 4), (4, 1500), (257, 129)]
    for shape in shapes:
        for k in range(6):
            yield ('pattern', shape, k)


def buffers(A):
    """(name, buffer, view) triples with the view holding the values of A."""
    n, m = A.shape
    b = np.full((n, m), SENTINEL)
    yield 'C', b, b[:, :]
    b = np.full((n, m), SENTINEL, order='F')
    yield 'F', b, b[:, :]
    b = np.full((n + 2, m + 2), SENTINEL)
    yield 'inner block', b, b[1:n + 1, 1:m + 1]
    b = np.full((n + 2, m + 2), SENTINEL, order='F')
    yield 'inner block F', b, b[1:n + 1, 1:m + 1]
    b = np.full((2 * n + 1, 3 * m + 1), SENTINEL)
    yield 'strided', b, b[1:2 * n + 1:2, 1:3 * m + 1:3]
    b = np.full((n + 1, m + 1), SENTINEL)
    yield 'reversed', b, b[1:, 1:][::-1, ::-1]
    b = np.full((m + 1, n), SENTINEL)
    yield 'transposed', b, b[1:].T
    b = np.full((2, n, m), SENTINEL)
    yield 'slice of a stack', b, b[1]


def check(A, r, which):
    tol = 1e-12 * max(A.shape + (1,))
    for name, fn, want in (
            ('rows', simplex_project_rows, ref.project_rows(A)
             if A.shape[1] else A),
            ('columns', simplex_project_columns, ref.project_cols(A)
             if A.shape[0] else A)):
        if (name == 'rows' and A.shape[1] == 0) or \
                (name == 'columns' and A.shape[0] == 0):
            continue
        for layout, buf, view in which(A):
            view[...] = A
            before = buf.copy()
            res = fn(view)
            r.step()
            r.trace()
            r.close(view, want, '%s (%s) not projected in place'
                    % (name, layout), atol=tol, rtol=0, A=A)
            r.require(np.all(view >= 0), 'negative entry', A=A)
            if res is not None:
                r.close(res, want, 'returned value', atol=tol, rtol=0, A=A)
            view[...] = A
            r.require(np.array_equal(buf, before),
                      '%s (%s) wrote outside the view' % (name, layout), A=A)
        r.state(name, want)


def run(case, r):
    if case[0] == 'grid':
        A = lattice.nth_grid(case[3], case[2], case[1])
        # every matrix in row-major memory and in one other layout (chosen by
        # the number of the matrix); every layout for the patterned ones
        check(A, r, lambda A: [b for j, b in enumerate(buffers(A))
                               if j in (0, 1 + case[3] % 7)])
    else:
        for scale in (0.05, 1.0, 20.0, 1e10):
            A = lattice.pattern(case[1], case[2], scale)
            check(A, r, buffers)
            check(np.round(A * 2) / 2, r, buffers)
            # slices at different offsets do not influence each other
            B = A + 10.0 * np.arange(A.shape[0])[:, np.newaxis]
            check(B, r, buffers)
        # and are as accurate far from the origin
        rows, columns = np.indices(case[1])
        for places in (rows, columns):
            far = lattice.pattern(case[1], case[2], 0.5) + \
                10.0 ** (3 + (places + case[2]) % 13) * (-1.0) ** places
            check(far, r, buffers)
