"""C12: the approximation converges to the exact model as the grid is refined."""
import os

import numpy as np
import scipy.linalg as la

from vmon import gen, oracle as O
from vmon.core import Solves
from vmon.gen import choice

RULE = ('sequences of models of the same data and parameters on grids m and 4m (one and two input dimensions, '
        'default / inner / outer bounds), error of covariance, quadratic form, predictive mean and variance '
        'against the exact dense model; distinct = (configuration, grid sizes, bounds)')
ASSUMPTIONS = ['smooth kernels whose length scale is at least two cells of the coarser grid']
KINDS = ('rbf', 'matern', 'periodic', 'scaled')


def ell(k, span):
    while k['kind'] == 'scaled':
        k = k['inner']
    if k['kind'] == 'rbf':
        return k['g'] ** -0.5
    if k['kind'] == 'matern':
        return 1 / k['g']
    return min(k['T'] / (np.pi * np.sqrt(k['g'])), k['T'] / (2 * np.pi))


def errors(pr, m, mode, Ts, ref):
    pr.m = m
    sv = Solves()
    with sv:
        model = pr.build(trace_iterations=1, prediction=mode)
        mu, var = model.predict([T.copy() for T in Ts])
    K = model.kernel.K
    n = K.shape[0]
    eK = np.abs(K.matmat(np.eye(n)) - ref['K']).max() / np.abs(ref['K']).max()
    eq = abs(model.normal_quadratic() - ref['q']) / ref['q']
    s = ref['sd']
    em = np.abs((np.hstack(mu) - ref['mu']) / s).max()
    ev = np.abs((np.hstack(var) - ref['var']) / ref['native']).max()
    return {'covariance': eK, 'quadratic': eq, 'mean': em, 'variance': ev}, sv.res


# largest error on the fine grid and smallest reduction (when not negligible)
LIMIT = {'covariance': 1.5e-3, 'quadratic': 1.5e-2, 'mean': 1e-2, 'variance': 5e-3}
FACTOR = {'covariance': 10.}
TINY = {'covariance': 1e-5}


def run(rng, mon, P, D, mix=None, mode=None, ads=None, cap=None):
    pr = gen.Problem(rng, nmax=12 if P == 1 else 9, nmin=3, P=P, D=D, mix=mix, kinds=KINDS, ads=ads,
                     noise=(0.1, 1.), max_q=3)
    span = pr.span
    l = min(ell(k, span) for k in O.all_kernels(pr.sp)) / span
    X, _ = O.stack(pr.Xs, P)
    off = X.min() - 0.02 * span
    pr.lo = choice(rng, [None, None, off + 0.1 * span * np.ones(P), off - 0.2 * span * np.ones(P)])
    pr.hi = choice(rng, [None, None, off + 0.9 * span * np.ones(P), off + 1.3 * span * np.ones(P)])
    ext = 1.6
    m = int(np.ceil(2.2 * ext / l)) + 2
    top = cap or (60 if P == 1 else 18)
    if cap or m > top:
        f = m / float(top)      # stretch the kernels instead
        for k in O.all_kernels(pr.sp):
            while k['kind'] == 'scaled':
                k = k['inner']
            if k['kind'] == 'rbf':
                k['g'] /= f ** 2
            elif k['kind'] == 'matern':
                k['g'] /= f
            else:
                k['T'] *= f
        m = top
    mode = mode or choice(rng, ['on-the-fly', 'exact', 'precompute'])
    if len({O.ad_of(k, P) for k in O.all_kernels(pr.sp)}) > 1 or P == 2 or m * D > 40:
        mode = 'on-the-fly' if mode == 'precompute' else mode
    Ts = [choice(rng, [T, T[:0]]) if d else T for d, T in
          enumerate(gen.gen_queries(rng, pr.Xs, P, D, 5, empties=False, far=False))]
    lo, hi = X.min(0), X.max(0)
    Ts = [np.clip(T.reshape(-1, P), lo, hi) for T in Ts]
    y = pr.y()
    K = O.exact_cov(pr.sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(pr.sp, pr.Xs))
    c = la.cho_factor(K)
    Kx = O.exact_cov(pr.sp, Ts, pr.Xs)
    to = np.repeat(np.arange(D), [len(T) for T in Ts])
    mu0, sd = pr.scales()
    native = O.prior_var(pr.sp)[to]
    ref = {'K': K, 'q': y.dot(la.cho_solve(c, y)),
           'mu': Kx.dot(la.cho_solve(c, y)) * sd[to] + mu0[to],
           'var': (native - (Kx * la.cho_solve(c, Kx.T).T).sum(1)) * sd[to] ** 2,
           'native': native * sd[to] ** 2,
           'sd': sd[to] * np.sqrt(native)}
    one = lambda m: m if P == 1 else np.array([m, m + 1])
    # of several coarse grids, since on one all points may lie near its nodes
    several = [errors(pr, one(m + i), mode, Ts, ref)[0] for i in (0, 1, 3)]
    coarse = {what: max(e[what] for e in several) for what in LIMIT}
    fine, res = errors(pr, one(4 * m), mode, Ts, ref)
    if os.environ.get('C12_LOG'):
        with open(os.environ['C12_LOG'], 'a') as f:
            f.write(repr((P, D, m, mode, coarse, fine)) + '\n')
    for what in LIMIT:
        if what != 'covariance' and res > 1e-5:      # the solver reported failure
            mon.event('solver failure reported')
            continue
        mon.check(fine[what] <= LIMIT[what] or what != 'covariance' and fine[what] <= coarse[what] / 10., 'small error on a fine grid: ' + what, coarse=coarse, fine=fine, m=m,
                  mode=mode)
        mon.event('error did not grow' if fine[what] <= coarse[what] else 'error grew (noise level)')
    for what, f in FACTOR.items():
        mon.check(fine[what] <= TINY[what] or fine[what] <= coarse[what] / f,
                  'error drops under refinement: ' + what, coarse=coarse, fine=fine, m=m, mode=mode)
    mon.sig(pr.sig(), m, mode)
    pr.describe(mon, mode=mode, coarse=coarse, fine=fine)


def one_d(rng, mon, idx):
    run(rng, mon, 1, int(choice(rng, [1, 2, 3, 4])))


def fine_one_d(rng, mon, idx):
    """Short length scales, which need grids of many points."""
    run(rng, mon, 1, int(choice(rng, [1, 2])), mode=choice(rng, ['on-the-fly', 'exact']), cap=int(choice(rng, [120, 260, 400])))


def two_d(rng, mon, idx):
    run(rng, mon, 2, int(choice(rng, [1, 2, 2, 3])), ads=choice(rng, [[None], [(0,), (1,)], [None, (0,)], [(1, 0)]]))


FAMILIES = [('fine_one_d', fine_one_d, 12, 200), ('one_d', one_d, 60, 1200), ('two_d', two_d, 16, 300)]
MIN_EVENTS = {'obs:error drops under refinement: covariance': 60}
