"""Reference model of the alternating-minimisation (factorisation) fits.

Each fit is a transition system: a state holds the values of the blocks
(dictionary, weights, lag parameters, scale factors); one iteration is one
transition per enabled block, in order.  The objective, its gradient and the
feasible sets are defined here independently of the code under test (by
residual matrices, never through the trace expansions used there)."""

import numpy as np

from mc import ref

GAMMA = 1e-4


# ---------------------------------------------------------------- objectives

class AA:
    """sum_i || phi(x_i) - sum_k S_ik a_k sum_j C_kj phi(x_j) ||^2"""
    blocks = ('dictionary', 'weights')

    def __init__(self, K, delta=0.0):
        self.K = np.asarray(K, dtype='f8')
        self.delta = delta
        if delta > 0:
            self.blocks = ('dictionary', 'scales', 'weights')

    def residual(self, st):
        n = self.K.shape[0]
        return np.eye(n) - (st['weights'] * st['scales']).dot(
            st['dictionary'])

    def cost(self, st):
        R = self.residual(st)
        return float(np.sum(R.dot(self.K) * R))

    def grad(self, st, block):
        RK = self.residual(st).dot(self.K)
        if block == 'dictionary':
            return -2 * st['scales'][:, None] * st['weights'].T.dot(RK)
        G = -2 * RK.dot(st['dictionary'].T)
        if block == 'weights':
            return G * st['scales']
        return np.sum(G * st['weights'], axis=0)

    def project(self, block, x):
        if block == 'scales':
            return np.clip(x, 1 - self.delta, 1 + self.delta)
        return ref.project_rows(x)

    def noise(self, st):
        n = self.K.shape[0]
        return 1e-14 * n * n * max(np.abs(self.K).max(), 1e-300) * \
            (1 + self.delta) ** 2 * 10

    def feasible(self, st, tol=1e-8):
        n = self.K.shape[0]
        k = st['dictionary'].shape[0]
        if st['dictionary'].shape != (k, n) or st['weights'].shape != (n, k):
            return 'wrong shapes'
        if not ref.is_rows_stochastic(st['dictionary'], tol):
            return 'dictionary rows are not convex weights'
        if not ref.is_rows_stochastic(st['weights'], tol):
            return 'weights rows are not convex weights'
        return None


class GPNH:
    """mean squared error + eps * mean over pairs, features of squared
    differences of dictionary rows."""
    blocks = ('dictionary', 'weights')

    def __init__(self, X, eps_states=0.0):
        self.X = np.asarray(X, dtype='f8')
        self.eps = eps_states

    def loss(self, st):
        R = self.X - st['weights'].dot(st['dictionary'])
        return float(np.mean(R * R))

    def spread(self, st):
        S = st['dictionary']
        k = S.shape[0]
        if k == 1:
            return 0.0
        vals = [np.mean((S[i] - S[j]) ** 2) for i in range(k)
                for j in range(i)]
        return float(np.mean(vals))

    def cost(self, st):
        return self.loss(st) + self.eps * self.spread(st)

    def grad(self, st, block):
        S, W = st['dictionary'], st['weights']
        n, d = self.X.shape
        R = self.X - W.dot(S)
        if block == 'dictionary':
            g = -2.0 / (n * d) * W.T.dot(R)
            k = S.shape[0]
            if k > 1:
                pairs = k * (k - 1) / 2.0
                for i in range(k):
                    for j in range(k):
                        if i != j:
                            g[i] += self.eps * 2.0 / (pairs * d) * (
                                S[i] - S[j])
            return g
        return -2.0 / (n * d) * R.dot(S.T)

    def project(self, block, x):
        return x if block == 'dictionary' else ref.project_rows(x)

    def noise(self, st):
        S = st['dictionary']
        n, d = self.X.shape
        return 1e-12 * (np.mean(self.X ** 2) +
                        (1 + self.eps) * np.sum(S * S) / d + 1e-300)

    def feasible(self, st, tol=1e-8):
        n, d = self.X.shape
        k = st['dictionary'].shape[0]
        if st['dictionary'].shape != (k, d) or st['weights'].shape != (n, k):
            return 'wrong shapes'
        if not np.all(np.isfinite(st['dictionary'])):
            return 'dictionary is not finite'
        if not ref.is_rows_stochastic(st['weights'], tol):
            return 'weights rows are not convex weights'
        return None


class MTD(GPNH):
    """GPNH objective + eps_w * normalised squared lag-prediction error."""
    blocks = ('dictionary', 'weights', 'params')

    def __init__(self, X, lags=(1,), eps_states=0.0, eps_weights=0.0):
        super().__init__(X, eps_states)
        self.lags = tuple(int(v) for v in lags)
        self.epsw = eps_weights

    def split(self, p, k):
        L = len(self.lags)
        return p[:L], p[L:].reshape(L, k, k)

    @staticmethod
    def join(order_weights, matrices):
        return np.concatenate([np.ravel(order_weights), np.ravel(matrices)])

    def lag_residual(self, st):
        W = st['weights']
        n, k = W.shape
        w, P = self.split(st['params'], k)
        m = max(self.lags)
        E = np.zeros((max(n - m, 0), k))
        for t in range(m, n):
            E[t - m] = W[t]
            for i, lag in enumerate(self.lags):
                E[t - m] -= w[i] * P[i].dot(W[t - lag])
        return E

    def lag_error(self, st):
        E = self.lag_residual(st)
        if E.size == 0:
            return 0.0
        return float(np.mean(E * E))

    def cost(self, st):
        return super().cost(st) + self.epsw * self.lag_error(st)

    def grad(self, st, block):
        if block == 'dictionary':
            return super().grad(st, block)
        W = st['weights']
        n, k = W.shape
        w, P = self.split(st['params'], k)
        m = max(self.lags)
        E = self.lag_residual(st)
        c = 2.0 * self.epsw / E.size if E.size else 0.0
        if block == 'weights':
            g = super().grad(st, block)
            for t in range(m, n):
                g[t] += c * E[t - m]
                for i, lag in enumerate(self.lags):
                    g[t - lag] -= c * w[i] * P[i].T.dot(E[t - m])
            return g
        gw = np.zeros_like(w)
        gP = np.zeros_like(P)
        for t in range(m, n):
            for i, lag in enumerate(self.lags):
                gw[i] -= c * E[t - m].dot(P[i].dot(W[t - lag]))
                gP[i] -= c * w[i] * np.outer(E[t - m], W[t - lag])
        return self.join(gw, gP)

    def project(self, block, x):
        if block != 'params':
            return super().project(block, x)
        L = len(self.lags)
        k = int(round(np.sqrt((x.size - L) / L)))
        w, P = self.split(x, k)
        return self.join(ref.project(w),
                         np.array([ref.project_cols(p) for p in P]))

    def noise(self, st):
        return super().noise(st) + 1e-12 * self.epsw

    def feasible(self, st, tol=1e-8):
        bad = super().feasible(st, tol)
        if bad:
            return bad
        k = st['weights'].shape[1]
        w, P = self.split(st['params'], k)
        if not ref.is_rows_stochastic(w, tol):
            return 'lag weights are not convex weights'
        if not ref.is_cols_stochastic(P, tol):
            return 'transition matrix columns are not convex weights'
        return None


# ------------------------------------------------- update-step conformance

def _direction(obj, block, x, g, alpha):
    return obj.project(block, x - alpha * g) - x


def check_update(obj, st, block, new, alpha, r, gamma=GAMMA,
                 alpha_min=1e-3, alpha_max=1e3, ctx=None, reference=None):
    """Is st[block] -> new an admissible sufficient-decrease step?

    Returns the predicted spectral length for the next step."""
    ctx = ctx or {}
    x = st[block]
    if new.shape != x.shape or not np.all(np.isfinite(new)):
        r.fail('%s update gives wrong shape or non-finite values' % block,
               **ctx)
    g = obj.grad(st, block)
    scale = max(1.0, np.abs(x).max())
    tol = 1e-9 * scale
    move = new - x

    def fit_alpha(a):
        d = _direction(obj, block, x, g, a)
        dd = float(np.sum(d * d))
        lam = float(np.sum(move * d)) / dd if dd > 0 else 0.0
        return d, dd, lam, float(np.abs(move - lam * d).max())

    noise = obj.noise(st)
    f0 = obj.cost(st) if reference is None else reference
    fnew = obj.cost(dict(st, **{block: new}))
    gsum = np.abs(g).sum()

    def judge(a, slack=1.0):
        """None if (x -> new) is an admissible step for step length a,
        otherwise (severity, message, details)."""
        d, dd, lam, err = fit_alpha(a)
        size = np.sqrt(dd)
        # rounding of the projected point scales with the gradient step
        atol = slack * tol + 1e-14 * a * np.abs(g).max() * x.size
        if not (err <= atol and
                (lam <= 1 + 1e-6 or size * (lam - 1) <= atol) and
                (lam >= 0 or size * -lam <= atol)):
            return 0, 'is not along a projected gradient direction', {}
        if size <= 10 * atol:
            if np.abs(move).max() > 20 * atol:
                return 1, 'changed although stationary', {}
            return None
        gd = float(np.sum(g * d))
        if not lam > 1e-9 and -gd > 1e4 * noise:
            return 2, 'left unchanged although not stationary', {
                'slope': gd}
        lam = min(lam, 1.0)
        if fnew > f0 + gamma * lam * gd + 4 * noise + atol * gsum:
            return 3, 'violates the sufficient-decrease condition', dict(
                step=lam, cost_before=f0, cost_after=fnew, slope=gd)
        if lam < 1 - 1e-6 and size * (1 - lam) > 100 * atol:
            ffull = obj.cost(dict(st, **{block: x + d}))
            if ffull < f0 + gamma * gd - 4 * noise - atol * gsum:
                return 4, 'takes a shorter step although the full one ' \
                    'satisfies sufficient decrease', dict(
                        step=lam, cost_before=f0, cost_full=ffull, slope=gd)
        return None

    tried = [alpha] if alpha is not None else []
    tried += [alpha_max, alpha_min, 1.0]
    verdict = worst = None
    for a in tried:
        verdict = judge(a)
        if verdict is None:
            break
        if worst is None or verdict[0] > worst[0]:
            worst = verdict
    if verdict is not None:
        # unknown step length: search the whole admissible interval for one
        # explaining the observed move, shortened (fit) or in full (gap)
        grid = np.exp(np.linspace(np.log(alpha_min), np.log(alpha_max), 1201))

        def gap(a):
            return float(np.abs(move - _direction(obj, block, x, g,
                                                  a)).max())
        for measure in (gap, lambda a: fit_alpha(a)[3]):
            errs = [measure(a) for a in grid]
            i = int(np.argmin(errs))
            lo, hi = grid[max(i - 1, 0)], grid[min(i + 1, len(grid) - 1)]
            for _ in range(60):
                m1, m2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
                if measure(m1) <= measure(m2):
                    hi = m2
                else:
                    lo = m1
            for a in (0.5 * (lo + hi), grid[i]):
                verdict = judge(a, slack=100.0)
                if verdict is None:
                    break
                if worst is None or verdict[0] > worst[0]:
                    worst = verdict
            if verdict is None:
                break
    if verdict is not None:
        r.fail('%s update %s' % (block, worst[1]), old=x, new=new, grad=g,
               **dict(ctx, **worst[2]))
    d, dd, lam, err = fit_alpha(a)
    if np.sqrt(dd) <= 10 * tol:
        return None
    gn = obj.grad(dict(st, **{block: new}), block)
    beta = float(np.sum(move * (gn - g)))
    sksk = float(np.sum(move * move))
    if abs(beta) <= 1e-12 * (np.abs(move).sum() * np.abs(g).max()):
        return None
    if beta <= 0:
        return alpha_max
    return min(alpha_max, max(alpha_min, sksk / beta))


def check_trajectory(obj, states, r, enabled=None, mode='update', ctx=None,
                     gamma=GAMMA, alpha_min=1e-3, alpha_max=1e3,
                     first_alpha=1.0, memory=1):
    """Check consecutive iterates states[0] -> states[1] -> ...

    memory is the number of earlier objective values (each taken when the
    block's update starts) among which the largest is the reference of the
    sufficient-decrease condition."""
    enabled = obj.blocks if enabled is None else enabled
    alphas = {b: first_alpha for b in obj.blocks}
    past = {b: [] for b in obj.blocks}
    for i in range(len(states) - 1):
        cur = dict(states[i])
        for block in obj.blocks:
            new = states[i + 1][block]
            c = dict(ctx or {}, iteration=i + 1, block=block)
            if block not in enabled:
                if not np.array_equal(new, cur[block]):
                    r.fail('%s changed although its update is off' % block,
                           **c)
                continue
            r.step()
            if mode == 'update':
                past[block] = (past[block] + [obj.cost(cur)])[-memory:]
                alphas[block] = check_update(
                    obj, cur, block, new, alphas[block], r, gamma=gamma,
                    alpha_min=alpha_min, alpha_max=alpha_max, ctx=c,
                    reference=max(past[block]))
            cur[block] = new


# --------------------------------------------------------- running the code

def make(kind, k, **cfg):
    """A fresh model of the given kind."""
    if kind == 'KernelAA':
        from reor.archetypal_analysis import KernelAA
        return KernelAA(k, **cfg)
    if kind == 'AA':
        from reor.archetypal_analysis import ArchetypalAnalysis
        return ArchetypalAnalysis(k, **cfg)
    if kind == 'GPNH':
        from reor.gpnh_convex_coding import GPNHConvexCoding
        return GPNHConvexCoding(k, **cfg)
    if kind == 'MTD':
        from reor.mtd_convex_coding import MTDConvexCoding
        return MTDConvexCoding(k, **cfg)
    if kind == 'CROM':
        from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
        return GPNHConvexCodingCROM(k, **cfg)
    raise KeyError(kind)


def read_state(kind, model, W):
    """Observable state after a fit."""
    st = {'dictionary': np.array(model.dictionary_), 'weights': np.array(W)}
    if kind in ('KernelAA', 'AA'):
        st['scales'] = np.array(model.alpha) if model.delta > 0 else \
            np.ones(st['dictionary'].shape[0])
    if kind == 'MTD':
        st['params'] = MTD.join(model.order_weights,
                                model.transition_matrices)
    return st


def start_state(kind, start, k):
    st = {'dictionary': start['dictionary'], 'weights': start['weights']}
    if kind in ('KernelAA', 'AA'):
        st['scales'] = np.ones(k)
    if kind == 'MTD':
        st['params'] = MTD.join(start['order_weights'],
                                start['transition_matrices'])
    return st


def run_fit(kind, data, k, cfg, start, m, flags=None):
    model = make(kind, k, init='custom' if start else cfg.get('init'),
                 max_iterations=m, **{a: b for a, b in cfg.items()
                                      if a != 'init'})
    kw = dict(flags or {})
    if start:
        kw.update({a: b.copy() for a, b in start.items()})
    W = model.fit_transform(data, **kw)
    return model, W


def vertex_gap(obj, st, block):
    """Bound on (objective - its minimum over the block's feasible set).

    The objective is convex in the block, so it lies above its tangent plane,
    whose minimum over the feasible polytope is attained at a vertex; the
    minimum over all vertices separates into rows (columns)."""
    g = obj.grad(st, block)
    x = st[block]
    if block == 'weights':
        return float(np.sum(g * x) - np.sum(g.min(axis=1)))
    if block == 'params':
        raise KeyError(block)
    return float(np.sum(g * x) - np.sum(g.min(axis=1)))
