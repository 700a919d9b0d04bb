"""C04: line-search step rule and spectral step length."""

import itertools
import math

import numpy as np

from reor.spg import get_next_spg_alpha, get_next_spg_step_length

PROP = 'C04'
BOUNDS = {
    'quick': 'all backtracking histories of depth 5 over 7 classes of '
             'observed values, from 4 slopes and 3 safeguard settings; '
             'adversarial histories down to 1e-12; step rule on a 4-d grid; '
             'spectral rule on a grid of 5 bound settings',
    'thorough': 'as quick with histories of depth 6',
}
RATIOS = (0.01, 0.12, 0.3, 0.5, 0.85, 0.95, 3.0)


def cases(tier):
    depth = 6 if tier == 'thorough' else 5
    for slope in (-1.0, -1e-6, -37.5, -1e4):
        for sig in ((None, None), (0.1, 0.9), (0.01, 0.5), (0.3, 0.6)):
            for first in RATIOS:
                yield ('history', slope, sig, first, depth)
            for pick in range(len(RATIOS) + 2):
                yield ('adversary', slope, sig, pick)
    for step in (1, 1.0, 0.9, 0.5, 0.2, 0.11, 0.05, 1e-3, 1e-7, 1e-12):
        yield ('grid', step)
    for bounds in ((None, None), (1e-3, 1e3), (0.1, 0.5), (1e-10, 1e10),
                   (2.0, 2.0)):
        yield ('alpha', bounds)


def kwargs(sig):
    if sig[0] is None:
        return {}
    return {'sigma_one': sig[0], 'sigma_two': sig[1]}


def check_step(step, slope, f_old, f_new, sig, r):
    s1, s2 = (0.1, 0.9) if sig[0] is None else sig
    got = get_next_spg_step_length(step, slope, f_old, f_new, **kwargs(sig))
    r.step()
    r.require(np.isfinite(got) and 0 < got < step,
              'next step is not positive and smaller', step=step,
              slope=slope, f_old=f_old, f_new=f_new, sigma=sig, got=got)
    # minimiser of q(t) = f_old + slope t + c t^2 with q(step) = f_new,
    # found without the closed form used by the code: q'(t) = 0 by secant
    c = (f_new - f_old - slope * step) / step ** 2
    t = -slope / (2 * c) if c != 0 and math.isfinite(c) else math.nan
    if math.isfinite(f_new):
        slack = 1e-9 * max(1.0, abs(f_old) / max(abs(f_new - f_old -
                                                     slope * step), 1e-300))
    else:
        slack, t = 0.0, 0.0
    inside = s1 * (1 + slack) < t < s2 * step * (1 - slack)
    outside = t < s1 * (1 - slack) or t > s2 * step * (1 + slack)
    ok_t = abs(got - t) <= max(slack, 1e-9) * abs(t)
    ok_half = abs(got - 0.5 * step) <= 1e-12 * step
    r.require((ok_t and not outside) or (ok_half and not inside),
              'step is neither the safeguarded interpolation minimiser nor '
              'half the current step as required', step=step, slope=slope,
              f_old=f_old, f_new=f_new, sigma=sig, got=got, minimiser=t)
    r.trace()
    return got


def f_for_ratio(step, slope, ratio):
    """Observed value making the interpolant minimiser ratio * step."""
    # t = -slope/(2c) = ratio*step  =>  c = -slope/(2 ratio step)
    c = -slope / (2 * ratio * step)
    return slope * step + c * step ** 2


def run(case, r):
    if case[0] == 'history':
        _, slope, sig, first, depth = case

        def explore(step, ratios_left, depth_left):
            for ratio in ratios_left:
                f_new = f_for_ratio(step, slope, ratio)
                nxt = check_step(step, slope, 0.0, f_new, sig, r)
                r.state(slope, sig, depth_left, float(nxt))
                if depth_left > 1:
                    explore(nxt, RATIOS, depth_left - 1)
        explore(1, (first,), depth)
    elif case[0] == 'adversary':
        _, slope, sig, pick = case
        step, n = 1, 0
        while step >= 1e-12:
            if pick < len(RATIOS):
                ratio = RATIOS[pick]
            elif pick == len(RATIOS):
                ratio = (0.9 if sig[0] is None else sig[1]) * (1 - 1e-6)
            else:
                ratio = RATIOS[n % len(RATIOS)]
            step = check_step(step, slope, 2.0 if pick % 2 else 0.0,
                              f_for_ratio(step, slope, ratio) +
                              (2.0 if pick % 2 else 0.0), sig, r) \
                if step > 1e-7 or not pick % 2 else \
                get_next_spg_step_length(step, slope, 0.0,
                                         f_for_ratio(step, slope, ratio),
                                         **kwargs(sig))
            n += 1
            r.state(slope, sig, pick, n)
            r.require(n <= 300, 'backtracking does not reach the step '
                      'tolerance', slope=slope, sigma=sig)
    elif case[0] == 'grid':
        step = case[1]
        for slope in (-1e6, -30.0, -1.0, -0.1, -1e-5, -1e-12):
            for f_old in (0.0, 1.0, 1e3):
                for rise in (1e-9, 1e-3, 0.05, 0.3, 0.56, 0.9, 1.0, 2.0, 10.0,
                             1e4, 1e12, math.inf):
                    f_new = f_old + abs(slope) * step * (rise - 1) * 1.0
                    if not f_new - f_old - slope * step > \
                            1e-9 * max(abs(f_old), abs(slope * step)):
                        continue
                    for sig in ((None, None), (0.1, 0.9), (0.02, 0.4),
                                (0.5, 0.99)):
                        for conv in (float, np.float64):
                            check_step(conv(step) if step != 1 or
                                       conv is not float else 1,
                                       conv(slope), conv(f_old), conv(f_new),
                                       sig, r)
                r.state('grid', step, slope, f_old)
    else:
        lo, hi = case[1]
        kw = {} if lo is None else {'alpha_min': lo, 'alpha_max': hi}
        lo, hi = (1e-3, 1e3) if lo is None else (lo, hi)
        mags = [0.0] + [m * 10.0 ** e for e in range(-14, 15, 2)
                        for m in (1.0, 3.7)]
        for sksk in mags:
            for beta in [-m for m in mags if m] + mags:
                got = get_next_spg_alpha(beta, sksk, **kw)
                r.step()
                r.trace()
                want = hi if beta <= 0 else min(hi, max(lo, sksk / beta))
                r.require(lo <= got <= hi and
                          abs(got - want) <= 1e-12 * want,
                          'spectral step length', beta=beta, sksk=sksk,
                          bounds=(lo, hi), got=got, want=want)
                r.state('alpha', lo, hi, float(got))
