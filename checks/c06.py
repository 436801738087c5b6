"""C06: the inducing grid covers the data and honours the request."""
import numpy as np

from runlmc.approx.interpolation import autogrid
from vmon import gen, oracle as O
from vmon.gen import choice

RULE = ('random datasets (1-3 dims, 1-6 outputs, ragged, int/float, offsets and scales), user bounds inside, '
        'outside, partly overlapping or absent, sizes as int/float arrays, lists or absent; distinct = '
        '(dims, outputs, which of lo/hi/m given, relation to data, dtype)')
ASSUMPTIONS = ['every dimension has positive extent after taking the hull']


def observe(mon, axes, Xs, P, lo, hi, m, ad=None):
    dims = range(P) if ad is None else ad
    X, _ = O.stack(Xs, P)
    mon.check(len(axes) == len(list(dims)), 'one axis per dimension')
    want = O.grid_axes(Xs, P, dims, lo, hi, m)
    for p, g, w in zip(dims, axes, want):
        g = np.asarray(g)
        mon.check(g.ndim == 1 and len(g) == len(w), 'requested size plus four', got=g.shape, want=len(w))
        h = (w[-1] - w[0]) / (len(w) - 1)
        mon.close(g, w, 'grid points', 0, 1e-9 * h + 1e-12 * np.abs(w).max(), dim=p)
        d = np.diff(g)
        slack = 1e-12 * np.abs(w).max()
        mon.check((d > 0).all(), 'increasing', dim=p)
        mon.check(np.abs(d - h).max() <= 1e-8 * h + slack, 'equispaced', dim=p)
        mon.check(X[:, p].min() >= g[1] - 1e-9 * h - slack and X[:, p].max() <= g[-2] + 1e-9 * h + slack,
                  'data one cell inside the grid', dim=p)
        if lo is not None:
            mon.check(float(np.atleast_1d(lo)[p]) >= g[1] - 1e-9 * h - slack, 'covers requested lo', dim=p)
        if hi is not None:
            mon.check(float(np.atleast_1d(hi)[p]) <= g[-2] + 1e-9 * h + slack, 'covers requested hi', dim=p)


def direct(rng, mon, idx):
    P = int(choice(rng, [1, 1, 2, 2, 3]))
    D = int(rng.randint(1, 7))
    scale = 10. ** choice(rng, [rng.randint(-3, 4, P), rng.randint(-12, 13, P)])
    off = scale * choice(rng, [0, 0, 1, -50, 1000])
    integer = rng.rand() < 0.2
    Xs = []
    for _ in range(D):
        n = int(choice(rng, [1, 1, 2, 5, 20]))
        X = off + scale * rng.rand(n, P) * rng.rand() + rng.rand() * scale
        if integer:
            X = rng.randint(-10, 10, (n, P))
        Xs.append(X)
    Xs[rng.randint(D)] = np.vstack([Xs[0], Xs[0] + (3 if integer else scale * 0.5)])
    X = np.vstack(Xs)
    mn, mx = X.min(0), X.max(0)
    span = mx - mn
    rel = [choice(rng, ['none', 'none', 'out', 'in', 'mixed', 'equal', 'beyond', 'hair']) for _ in range(2)]
    def bound(r, edge, s):
        if r == 'none':
            return None
        if r == 'out':
            return edge + s * span * rng.uniform(0, 2, P)
        if r == 'in':
            return edge - s * span * rng.uniform(0, 1, P)
        if r == 'beyond':        # on the wrong side of all the data
            return edge - s * span * rng.uniform(1, 2, P)
        if r == 'hair':          # all but touching the data
            return edge + s * span * 10. ** rng.uniform(-8, -2, P)
        if r == 'equal':
            return edge.astype(float)
        return edge + s * span * rng.uniform(-1, 1, P)
    lo, hi = bound(rel[0], mn, -1), bound(rel[1], mx, 1)
    if lo is not None and rng.rand() < 0.3:
        lo = list(lo)
    ms = rng.randint(1, choice(rng, [60, 60, 300]), P)
    m = choice(rng, [None, ms, ms.astype(float), list(int(x) for x in ms), tuple(int(x) for x in ms)])
    if m is None and sum(len(X) for X in Xs) // D < 1:
        m = ms
    keep = None if m is None else np.array(m)
    keepX = [X.copy() for X in Xs]
    axes = autogrid(Xs, lo, hi, m)
    observe(mon, axes, keepX, P, lo, hi, keep)
    if m is not None:
        mon.same(np.array(m), keep, 'request unchanged')
    for a, b in zip(Xs, keepX):
        mon.same(a, b, 'data unchanged')
    # asking again gives the same grid
    for a, b in zip(axes, autogrid(Xs, lo, hi, m)):
        mon.same(a, b, 'repeatable')
    mon.sig(P, D, rel, type(m).__name__, integer)
    mon.describe(P=P, D=D, rel=rel, m=m, lo=lo, hi=hi)


def in_model(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3)
    model = pr.build(trace_iterations=1)
    for ad, axes in model.grid_axes.items():
        observe(mon, axes, pr.Xs, pr.P, pr.lo, pr.hi, pr.m, ad)
        mon.event('model grids')
    want = {O.ad_of(k, pr.P) for k in O.all_kernels(pr.sp)}
    mon.check({tuple(a) for a in model.grid_axes} == want, 'one grid per group of active dimensions')
    mon.sig('model', pr.sig())
    pr.describe(mon)


def many(rng, mon, idx):
    """Many outputs, any one of which holds the extreme of any dimension; large requests."""
    P = int(choice(rng, [1, 2, 3]))
    D = int(choice(rng, [7, 9, 12, 20, 40]))
    Xs = [rng.rand(int(choice(rng, [1, 2, 3])), P) for _ in range(D)]
    for p in range(P):
        a, b = rng.permutation(D)[:2]
        Xs[a][rng.randint(len(Xs[a])), p] = -rng.uniform(.5, 5)
        Xs[b][rng.randint(len(Xs[b])), p] = rng.uniform(1.5, 6)
    m = choice(rng, [None, np.array(choice(rng, [(1000, 1025, 2), (2049, 3, 1500), (5, 4096, 10), (12000, 1, 900)])[:P])])
    lo = choice(rng, [None, rng.uniform(-3, .5, P)])
    hi = choice(rng, [None, rng.uniform(.5, 3, P)])
    if m is None and sum(map(len, Xs)) // D < 1:
        m = np.full(P, 3)
    observe(mon, autogrid(Xs, lo, hi, m if m is None else m.copy()), Xs, P, lo, hi, m)
    mon.sig('many', P, D, lo is None, hi is None, None if m is None else m.tolist())


def long_data(rng, mon, idx):
    """Many points, with the extremes anywhere among them."""
    P = int(choice(rng, [1, 2]))
    D = int(rng.randint(1, 4))
    Xs = [rng.rand(int(choice(rng, [130, 520, 1100, 4200])), P) for _ in range(D)]
    for p in range(P):
        for v in (-2., 3.):
            X = Xs[rng.randint(D)]
            X[int(choice(rng, [rng.randint(100), rng.randint(len(X)), len(X) - 1])), p] = v
    m = choice(rng, [None, np.full(P, 11), np.full(P, 700)])
    observe(mon, autogrid(Xs, None, None, None if m is None else m.copy()), Xs, P, None, None, m)
    mon.sig('long', P, [len(X) for X in Xs])


FAMILIES = [('many', many, 120, 2000), ('long_data', long_data, 24, 300), ('direct', direct, 1500, 40000), ('in_model', in_model, 60, 1500)]
MIN_EVENTS = {'obs:grid points': 1500, 'model grids': 60}
