"""Exhaustive enumerators of small discrete input spaces."""

import itertools
from fractions import Fraction

import numpy as np


def compositions(total, parts):
    """All tuples of `parts` non-negative integers with the given sum."""
    if parts == 1:
        yield (total,)
        return
    for first in range(total + 1):
        for rest in compositions(total - first, parts - 1):
            yield (first,) + rest


def simplex_points(parts, denom):
    """All points of the simplex lattice with the given denominator."""
    return [np.array(c, dtype='f8') / denom
            for c in compositions(denom, parts)]


def row_stochastic(rows, cols, denom):
    """All row-stochastic matrices with entries multiples of 1/denom."""
    pts = simplex_points(cols, denom)
    for combo in itertools.product(range(len(pts)), repeat=rows):
        yield np.array([pts[i] for i in combo])


def count_row_stochastic(rows, cols, denom):
    return len(simplex_points(cols, denom)) ** rows


def nth_row_stochastic(index, rows, cols, denom):
    pts = simplex_points(cols, denom)
    out = []
    for _ in range(rows):
        index, d = divmod(index, len(pts))
        out.append(pts[d])
    return np.array(out[::-1])


def grid(values, shape):
    """All arrays of the given shape with entries from the values."""
    size = int(np.prod(shape))
    for combo in itertools.product(values, repeat=size):
        yield np.array(combo, dtype='f8').reshape(shape)


def nth_grid(index, values, shape):
    size = int(np.prod(shape))
    out = []
    for _ in range(size):
        index, d = divmod(index, len(values))
        out.append(values[d])
    return np.array(out[::-1], dtype='f8').reshape(shape)


_PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)


def pattern(shape, k=0, scale=1.0):
    """Fixed irregular array (Weyl sequence), centred, entries in (-1, 1)."""
    n = int(np.prod(shape))
    i = np.arange(1, n + 1, dtype='f8')
    a = np.sqrt(_PRIMES[k % len(_PRIMES)]) * (1 + k // len(_PRIMES))
    x = np.modf(i * a + 0.37 * (i % 3) + 0.11 * k)[0]
    y = np.modf(i * i * np.sqrt(_PRIMES[(k + 5) % len(_PRIMES)]) * 0.618)[0]
    return (scale * (x + y - 1.0)).reshape(shape)


def pattern_simplex(rows, cols, k=0):
    """Fixed irregular row-stochastic matrix with some exact zeros."""
    x = np.abs(pattern((rows, cols), k)) + 0.02
    if cols > 1:
        for r in range(rows):
            if (r + k) % 3 == 0:
                x[r, (r * 7 + k) % cols] = 0.0
    return x / x.sum(axis=1, keepdims=True)


def set_partitions(n, k):
    """All surjective label sequences of length n onto 0..k-1."""
    for labels in itertools.product(range(k), repeat=n):
        if len(set(labels)) == k:
            yield labels


def layouts(A):
    """The same values in every memory layout: (name, array) pairs."""
    A = np.asarray(A)
    yield 'C', np.ascontiguousarray(A).copy()
    yield 'F', np.asfortranarray(A).copy(order='F')
    buf = np.full(tuple(2 * s + 3 for s in A.shape), 77.0).astype(A.dtype)
    view = buf[tuple(slice(1, 1 + 2 * s, 2) for s in A.shape)]
    view[...] = A
    yield 'strided', view
    buf = np.full(tuple(s + 2 for s in A.shape), 77.0).astype(A.dtype)
    sl = tuple(slice(s, 0, -1) for s in A.shape)
    view = buf[sl]
    view[...] = A
    yield 'reversed', view
    ro = np.array(A)
    ro.setflags(write=False)
    yield 'readonly', ro


def frac(x):
    return Fraction(float(x))
