"""C23: models respect the symmetries of the data."""
import copy

import numpy as np

from vmon import gen, oracle as O
from vmon.core import Inconclusive, Solves
from vmon.gen import choice
from vmon.pred import Expected, affordable, modes_for
from checks.c11 import MIXES

RULE = ('twin models: original and transformed (outputs relabelled, observations reordered, kernels reordered, inputs '
        'translated, vectors/columns, integers/floats, memory layouts), answers joined through the transformation and '
        'compared, each also against the dense posterior; distinct = (configuration, mode, transformation)')
ASSUMPTIONS = ['slack for solver residuals that the code itself reported', 'translations up to 1e3 extents']


class Twin:
    """A transformed problem and how to map queries and answers to it."""

    def __init__(self, pr):
        self.pr = copy.copy(pr)
        self.pr.sp = copy.deepcopy(pr.sp)
        self.pr.Xs = [X.copy() for X in pr.Xs]
        self.pr.Ys = [Y.copy() for Y in pr.Ys]
        self.out = list(range(pr.D))                  # twin output -> original output
        self.obs = [np.arange(len(Y)) for Y in pr.Ys]  # per twin output: original observation
        self.shift = np.zeros(pr.P)
        self.form = lambda T: T

    def query(self, Ts):
        return [self.form(np.asarray(Ts[d], dtype=float).reshape(-1, self.pr.P) + self.shift) for d in self.out]

    def rows(self, pr):
        starts = np.concatenate([[0], np.cumsum([len(Y) for Y in pr.Ys])])
        return np.hstack([starts[d] + self.obs[i] for i, d in enumerate(self.out)])


def t_outputs(rng, tw):
    p = tw.pr
    perm = [int(i) for i in rng.permutation(p.D)]
    if p.D > 1 and perm == list(range(p.D)):
        perm = perm[1:] + perm[:1]
    sp = p.sp
    idx = [int(np.argmax(k)) for k in sp['kappa'][len(sp['lmc']) + len(sp['slfm']):]]
    sp['A'] = [np.asarray(A)[:, perm] for A in sp['A']]
    sp['kappa'] = [np.asarray(k)[perm] for k in sp['kappa']]
    sp['noise'] = sp['noise'][perm]
    if sp['indep']:
        sp['indep_index'] = [perm.index(i) for i in idx]
    p.Xs, p.Ys = [p.Xs[i] for i in perm], [p.Ys[i] for i in perm]
    tw.out, tw.obs = [tw.out[i] for i in perm], [tw.obs[i] for i in perm]


def t_observations(rng, tw):
    p = tw.pr
    for d in range(p.D):
        n = len(p.Ys[d])
        o = rng.permutation(n)
        st = rng.randint(5)
        if st == 1:
            o = np.arange(n)[::-1]
        elif st in (2, 3):
            key = p.Ys[d] if rng.rand() < .3 else np.asarray(p.Xs[d]).reshape(n, -1)[:, 0]
            o = np.argsort(key, kind='stable')[::1 if st == 2 else -1]
        elif st == 4:
            o = np.roll(np.arange(n), 1)
        p.Xs[d], p.Ys[d], tw.obs[d] = p.Xs[d][o], p.Ys[d][o], tw.obs[d][o]


def t_kernels(rng, tw):
    sp = tw.pr.sp
    L, S, I = len(sp['lmc']), len(sp['slfm']), len(sp['indep'])
    a, b, c = rng.permutation(L), rng.permutation(S), rng.permutation(I)
    order = list(a) + [L + i for i in b] + [L + S + i for i in c]
    if sp['indep']:
        idx = [int(np.argmax(k)) for k in sp['kappa'][L + S:]]
        sp['indep_index'] = [idx[i] for i in c]
    sp['lmc'] = [sp['lmc'][i] for i in a]
    sp['slfm'] = [sp['slfm'][i] for i in b]
    sp['indep'] = [sp['indep'][i] for i in c]
    sp['A'], sp['kappa'] = [sp['A'][i] for i in order], [sp['kappa'][i] for i in order]


def t_translate(rng, tw):
    p = tw.pr
    t = p.span * rng.uniform(-1, 1, p.P) * choice(rng, [1., 7., 1000.])
    for v in (p.lo, p.hi):      # a bound that becomes zero
        if v is not None and rng.rand() < .35:
            t = -np.broadcast_to(np.asarray(v, dtype=float), (p.P,)).copy()
    tw.shift = tw.shift + t
    p.Xs = [X + (t if X.ndim == 2 else t[0]) for X in p.Xs]
    for k in ('lo', 'hi'):
        v = getattr(p, k)
        if v is not None:
            setattr(p, k, v + t if np.ndim(v) else float(v + t[0]))


def t_shape(rng, tw):
    p = tw.pr
    if p.P != 1:
        return
    p.Xs = [X.reshape(-1) if X.ndim == 2 else X.reshape(-1, 1) for X in p.Xs]
    tw.form = lambda T: T.reshape(-1) if rng.rand() < 0.5 else T.reshape(-1, 1)


def t_layout(rng, tw):
    p = tw.pr
    p.Xs = [np.asfortranarray(np.repeat(X, 2, axis=0))[::2] for X in p.Xs]
    p.Ys = [np.repeat(Y, 3)[::-3][::-1] if rng.rand() < 0.5 else np.ascontiguousarray(Y[::-1])[::-1] for Y in p.Ys]


TRANSFORMS = {'outputs': t_outputs, 'observations': t_observations, 'kernels': t_kernels, 'translate': t_translate,
              'shape': t_shape, 'layout': t_layout}


def tol_scale(pr, Ts, res, y):
    amp, kinv = pr.oracle(pr.current()).amplification(Ts)
    if not np.isfinite(res):
        raise Inconclusive('solver report unreadable')
    return 4 * res * amp, 3 * res * kinv * np.linalg.norm(y)


def compare(rng, mon, pr, tw, mode, tag):
    n = len(pr.y())
    p2 = tw.pr
    with Solves(n) as s:
        pr.build(trace_iterations=1, prediction=mode)
        p2.build(trace_iterations=1, prediction=mode)
        Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 5)
        T2 = tw.query(Ts)
        if rng.rand() < 0.5:
            g1 = pr.model.predict([T.copy() for T in Ts])
            g2 = p2.model.predict([T.copy() for T in T2])
        else:
            g2 = p2.model.predict([T.copy() for T in T2])
            g1 = pr.model.predict([T.copy() for T in Ts])
    y = pr.y()
    slack, qslack = tol_scale(pr, Ts, s.res, y)
    Expected(pr, Ts, mode, s.res).compare(mon, g1, ' [%s]' % mode)
    Expected(p2, T2, mode, s.res).compare(mon, g2, ' after %s [%s]' % (tag, mode))
    rows = tw.rows(pr)
    K1, K2 = np.asarray(pr.model.K()), np.asarray(p2.model.K())
    # distances lose digits when inputs are far from the origin
    eps = 1e-7
    mon.close(K2, K1[np.ix_(rows, rows)], 'covariance relabelled: ' + tag, eps, 0)
    mon.close(np.hstack(p2.model.Ys), np.hstack(pr.model.Ys)[rows], 'data relabelled: ' + tag, 1e-9, 1e-9)
    mon.close(p2.model.log_likelihood(), pr.model.log_likelihood(), 'likelihood unchanged: ' + tag, 1e-5,
              2e-5 * n + qslack)
    mon.close(p2.model.log_det_K(), pr.model.log_det_K(), 'log determinant unchanged: ' + tag, 1e-6, 1e-6 * n)
    _, sd = pr.scales()
    nat = O.prior_var(pr.current())
    for i, d in enumerate(tw.out):
        mon.close(np.asarray(g2[0][i]), np.asarray(g1[0][d]), 'means relabelled: ' + tag, 1e-9,
                  (2e-5 * max(1., np.abs(y).max()) + slack) * sd[d], output=d)
        mon.close(np.asarray(g2[1][i]), np.asarray(g1[1][d]), 'variances relabelled: ' + tag, 0,
                  (2e-5 * nat[d] + slack) * sd[d] ** 2, output=d)
    mon.event('twin: ' + tag)
    mon.event('points joined', sum(map(len, Ts)))
    mon.sig(pr.sig(), mode, tag)
    pr.describe(mon, mode=mode, transformation=tag)


def problem(rng, idx, **kw):
    P = int(choice(rng, [1, 1, 2]))
    a = dict(nmax=9, max_q=4, P=P, mix=MIXES[idx % 7], ads=None if idx % 2 else [None],
             D=int(choice(rng, [2, 3] if P == 2 else [1, 2, 3, 3, 4])))
    a.update(kw)
    return gen.Problem(rng, **a)


def single(rng, mon, idx):
    pr = problem(rng, idx // 6, nmax=int(choice(rng, [9, 9, 16, 24])), nmin=int(choice(rng, [2, 2, 8])))
    names = sorted(TRANSFORMS)
    name = names[idx % len(names)]
    tw = Twin(pr)
    TRANSFORMS[name](rng, tw)
    ms = modes_for(pr)
    mode = affordable(pr, choice(rng, ms))
    tw.pr.m = pr.m if pr.m is None else copy.copy(pr.m)
    compare(rng, mon, pr, tw, mode, name)


def combined(rng, mon, idx):
    pr = problem(rng, idx)
    tw = Twin(pr)
    names = [k for k in ('outputs', 'observations', 'kernels', 'translate', 'shape', 'layout') if rng.rand() < 0.6]
    for k in names:
        TRANSFORMS[k](rng, tw)
    mode = affordable(pr, choice(rng, modes_for(pr)))
    tw.pr.m = pr.m if pr.m is None else copy.copy(pr.m)
    compare(rng, mon, pr, tw, mode, 'combined')


def ints(rng, mon, idx):
    """Integers instead of equal floats."""
    pr = problem(rng, idx, span=300., off=0., normalize=idx % 3 == 0)
    # some outputs whole, others fractional
    wx, wy = rng.rand(pr.D) < .7, rng.rand(pr.D) < .7
    w = int(choice(rng, [0, 0, pr.D - 1]))
    if pr.D > 1 and rng.rand() < .7:
        wx[:], wy[:] = rng.rand(pr.D) < .4, rng.rand(pr.D) < .4
        wx[w - 1] = wy[w - 1] = False
    wx[w] = wy[w] = True
    pr.Xs = [np.round(X) if w else X for X, w in zip(pr.Xs, wx)]
    pr.Ys = [np.round(Y * 7) if w else Y * 7 for Y, w in zip(pr.Ys, wy)]
    for Y in pr.Ys:
        if np.ptp(Y) == 0:
            Y[0] += 3
    for k in ('lo', 'hi'):
        if getattr(pr, k) is not None:
            setattr(pr, k, np.round(getattr(pr, k)))
    tw = Twin(pr)
    what = choice(rng, ['X', 'Y', 'XY', 'XY', 'bounds', 'query'])
    dt = choice(rng, [np.int64, np.int32])
    if 'X' in what:
        tw.pr.Xs = [X.astype(dt) if w else X for X, w in zip(pr.Xs, wx)]
    if 'Y' in what:
        tw.pr.Ys = [Y.astype(dt) if w else Y for Y, w in zip(pr.Ys, wy)]
    if what == 'bounds':
        for k in ('lo', 'hi'):
            if getattr(pr, k) is not None:
                setattr(tw.pr, k, np.asarray(getattr(pr, k)).astype(int))
    mode = affordable(pr, choice(rng, modes_for(pr)))
    tw.pr.m = pr.m if pr.m is None else copy.copy(pr.m)
    if what == 'query':
        # only integer queries: build the query list directly
        with Solves(len(pr.y())) as s:
            pr.build(trace_iterations=1, prediction=mode)
            Ts = [np.round(T) for T in gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 5)]
            g1 = pr.model.predict([T.copy() for T in Ts])
            g2 = pr.model.predict([T.astype(dt) for T in Ts])
        for d in range(pr.D):
            for a, b in zip(g1, g2):
                mon.close(np.asarray(b[d]), np.asarray(a[d]), 'integer queries', 1e-9, 1e-9 + 10 * s.res, output=d)
        Expected(pr, Ts, mode, s.res).compare(mon, g2, ' integer queries')
        mon.event('points joined', sum(map(len, Ts)))
        mon.sig(pr.sig(), mode, 'int query')
        return
    compare(rng, mon, pr, tw, mode, 'integers ' + what)


def ordered(rng, mon, idx):
    """Ascending, descending, rotated observations at every size class."""
    n = int(choice(rng, [3, 12, 25, 40, 60, 90]))
    P = 1
    if idx % 4 == 0:
        n, P = int(choice(rng, [42, 55])), int(choice(rng, [1, 2]))
    pr = problem(rng, idx, nmax=n + 4, nmin=n, P=P, D=int(choice(rng, [4, 5] if idx % 4 == 0 else [1, 2, 3])), max_q=2,
                 style='unif')
    pr.m = int(choice(rng, [10, 25])) if P == 1 else [6] * P
    kinds = [rng.randint(4) for _ in range(pr.D)]
    if rng.rand() < .6:
        kinds = [kinds[0]] * pr.D
    for d, k in enumerate(kinds):
        o = np.argsort(np.asarray(pr.Xs[d]).reshape(len(pr.Ys[d]), -1)[:, 0], kind='stable')
        o = [o, o[::-1], np.roll(o, 1), np.roll(o[::-1], len(o) // 2)][k]
        pr.Xs[d], pr.Ys[d] = pr.Xs[d][o], pr.Ys[d][o]
    tw = Twin(pr)
    t_observations(rng, tw)
    mode = choice(rng, ['on-the-fly', 'exact'])
    compare(rng, mon, pr, tw, mode, 'ordered observations')
    mon.event('ordered %s' % sorted(set(kinds)))


def outputs_many(rng, mon, idx):
    """Six to nine outputs of uneven sizes."""
    pr = problem(rng, idx, P=1, D=int(choice(rng, [6, 7, 9])), nmax=9, nmin=2 + idx % 2, max_q=2)
    tw = Twin(pr)
    name = choice(rng, ['outputs', 'outputs', 'observations', 'shape'])
    TRANSFORMS[name](rng, tw)
    tw.pr.m = pr.m if pr.m is None else copy.copy(pr.m)
    compare(rng, mon, pr, tw, choice(rng, ['on-the-fly', 'exact']), 'many outputs: ' + name)


def ints_large(rng, mon, idx):
    """Whole numbers beyond two bytes."""
    pr = problem(rng, idx, span=300., off=0., P=1, normalize=True)
    t = float(choice(rng, [40000, 100000, -70000, 3000000]))
    pr.Xs = [np.round(X) + t for X in pr.Xs]
    pr.lo = pr.hi = None
    tw = Twin(pr)
    tw.pr.Xs = [X.astype(choice(rng, [np.int64, np.int32])) for X in pr.Xs]
    mode = affordable(pr, choice(rng, modes_for(pr)))
    tw.pr.m = pr.m if pr.m is None else copy.copy(pr.m)
    compare(rng, mon, pr, tw, mode, 'large integers')


FAMILIES = [('outputs_many', outputs_many, 8, 120), ('ints_large', ints_large, 8, 120), ('ordered', ordered, 20, 300), ('single', single, 60, 1500), ('combined', combined, 14, 300), ("ints", ints, 24, 400)]
MIN_EVENTS = {'twin: outputs': 5, 'twin: observations': 5, 'twin: kernels': 5, 'twin: translate': 5,
              'points joined': 200}
