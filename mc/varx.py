"""Reference lag equations for the VARX models (explicit loops)."""

import numpy as np


def predict(X, u, t, mu, A, B, B0, s_lagged=True):
    """Prediction of X[t]; A: (p, d, d), B: lagged exogenous, B0: current."""
    out = np.array(mu, dtype='f8').copy()
    if A is not None:
        for a in range(len(A)):
            out = out + np.asarray(A[a]).dot(X[t - a - 1])
    if B is not None:
        for b in range(len(B)):
            out = out + np.asarray(B[b]).dot(u[t - b - 1])
    if B0 is not None:
        out = out + np.asarray(B0).dot(u[t])
    return out


def regressors(X, u, t, p, s, current, trend=True):
    """All values X[t] is regressed on."""
    z = [1.0] if trend else []
    for a in range(1, p + 1):
        z += list(X[t - a])
    if u is not None:
        for b in range(1, s + 1):
            z += list(u[t - b])
        if current:
            z += list(u[t])
    return np.array(z, dtype='f8')


def check_optimal(r, X, u, times, weights, residuals, p, s, current, msg,
                  trend=True, size=0.0, **ctx):
    """Normal equations: weighted residuals orthogonal to all regressors.

    The squared error is convex in the coefficients, so this holds exactly at
    its minimisers and nowhere else. `size` bounds the magnitude of the terms
    summed in a prediction (coefficients times data), whose rounding errors
    the residuals inherit in badly conditioned problems."""
    if not len(times):
        return
    Z = np.array([regressors(X, u, t, p, s, current, trend) for t in times])
    R = np.array([residuals[t] for t in times])
    w = np.array([weights[t] for t in times])
    if Z.shape[1] == 0:
        return
    g = Z.T.dot(w[:, None] * R)
    Y = np.array([X[t] for t in times])
    # rounding of a backward stable solver scales with the coefficients
    scale = np.abs(Z).T.dot(w[:, None] * (np.abs(Y) + np.abs(R)))
    worst = np.abs(g) - 1e-7 * (scale + 1e-6 * scale.max()) - 1e-13 \
        - 1e-11 * size * np.abs(Z).T.dot(w)[:, None]
    if worst.max() > 0:
        r.fail(msg, X=X, u=u, weights=w, times=times, p=p, s=s,
               normal_equations=g, **ctx)
