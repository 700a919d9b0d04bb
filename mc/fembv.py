"""FEM-BV helpers: models with prescribed distances, reference costs."""

import numpy as np

from mc import lattice

BOUNDS = (None, 0, 0.5, 1, 1.5, 2.0, 3, 50.0)
TOL = 1e-5


def fixed_distance_model(D, bound, **cfg):
    """A FEM-BV model whose component distances are the given matrix,
    written like the subclasses of the package and its tests."""
    from reor.fembv import FEMBV
    D = np.array(D, dtype='f8')

    class FixedDistance(FEMBV):
        def __init__(self):
            super().__init__(n_components=D.shape[1], max_tv_norm=bound,
                             **cfg)
            self.name = 'FEM-BV-fixed'

        def _evaluate_distance_matrix(self):
            self.distance_matrix = D.copy()

        def _initialize_components(self, data, parameters=None, init=None,
                                   **kwargs):
            self.distance_matrix = D.copy()

        def _update_parameters(self):
            return

    return FixedDistance()


def infeasible(G, n, k, bound, tol=TOL):
    """Reason why affiliations are infeasible, or None."""
    G = np.asarray(G)
    if G.shape != (n, k):
        return 'affiliations have the wrong shape'
    if not np.all(np.isfinite(G)):
        return 'affiliations are not finite'
    if G.min() < 0 or G.max() > 1 + 1e-9:
        return 'affiliations outside [0, 1]'
    if np.abs(G.sum(axis=1) - 1).max() > tol:
        return 'affiliations do not sum to one'
    if bound is not None:
        tv = np.abs(np.diff(G, axis=0)).sum(axis=0)
        if tv.max() > bound + tol * (1 + n):
            return 'total variation %.6g exceeds the bound %.6g' % (
                tv.max(), bound)
    return None


_CACHE = {}


def sequences(n, k, denom):
    """All lattice affiliation sequences and their total variations."""
    key = (n, k, denom)
    if key not in _CACHE:
        pts = np.array(lattice.simplex_points(k, denom))
        idx = np.indices((len(pts),) * n).reshape(n, -1).T
        G = pts[idx]
        tv = np.abs(np.diff(G, axis=1)).sum(axis=1).max(axis=1) if n > 1 \
            else np.zeros(len(G))
        _CACHE[key] = (G, tv)
    return _CACHE[key]


def best(D, bound, denom):
    """Lowest weighted distance over the feasible lattice sequences."""
    n, k = D.shape
    G, tv = sequences(n, k, denom)
    ok = np.ones(len(G), dtype=bool) if bound is None else \
        tv <= bound + 1e-12
    cost = np.einsum('gij,ij->g', G, D)
    cost[~ok] = np.inf
    i = int(np.argmin(cost))
    return float(cost[i]), G[i]


def best_switching(D, bound):
    """Lowest weighted distance over all one-hot sequences whose components
    each change at most floor(bound) times: explicit-state search over (time,
    component, changes made by every component)."""
    n, k = D.shape
    top = n if bound is None else int(np.floor(bound + 1e-9))
    layer = {(a, (0,) * k): float(D[0, a]) for a in range(k)}
    for t in range(1, n):
        nxt = {}
        for (a, used), cost in layer.items():
            for b in range(k):
                if b == a or bound is None:
                    u = used
                elif used[a] < top and used[b] < top:
                    u = tuple(v + (i in (a, b)) for i, v in enumerate(used))
                else:
                    continue
                key, c = (b, u), cost + float(D[t, b])
                if c < nxt.get(key, np.inf):
                    nxt[key] = c
        layer = nxt
    return min(layer.values())
