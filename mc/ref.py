"""Independent reference definitions (explicit loops, exact where possible)."""

from fractions import Fraction

import numpy as np


def project_exact(x):
    """Nearest point of the simplex in exact rational arithmetic.

    Found by trying every support size of the sorted vector and keeping the
    one satisfying the optimality conditions."""
    xs = [Fraction(float(v)) for v in x]
    order = sorted(xs, reverse=True)
    for m in range(1, len(xs) + 1):
        tau = (sum(order[:m]) - 1) / m
        if order[m - 1] - tau > 0 and (m == len(xs) or
                                       order[m] - tau <= 0):
            return [max(v - tau, Fraction(0)) for v in xs]
    raise AssertionError('no threshold')


def project(x):
    """Floating-point simplex projection, independent of the code checked."""
    x = np.asarray(x, dtype='f8')
    u = np.sort(x)[::-1]
    # shift for accuracy: projection is invariant to adding constants
    s = u - u[0]
    c = np.cumsum(s)
    j = np.arange(1, x.size + 1)
    ok = s * j > c - 1
    m = np.nonzero(ok)[0][-1] + 1
    tau = (c[m - 1] - 1) / m
    return np.maximum(x - u[0] - tau, 0)


def project_rows(A):
    return np.array([project(r) for r in np.asarray(A)]).reshape(A.shape)


def project_cols(A):
    return project_rows(np.asarray(A).T).T


def is_rows_stochastic(A, tol=1e-8):
    A = np.asarray(A)
    return bool(np.all(np.isfinite(A)) and np.all(A >= -tol) and
                np.allclose(A.sum(axis=-1), 1, atol=tol, rtol=0))


def is_cols_stochastic(A, tol=1e-8):
    A = np.asarray(A)
    return is_rows_stochastic(np.swapaxes(A, -1, -2), tol)
