"""Comparison of predictions with the dense posterior."""
import numpy as np

from . import oracle as O
from .core import Inconclusive
from .gen import split

MODES = ('on-the-fly', 'exact', 'precompute')


def modes_for(pr):
    groups = {O.ad_of(k, pr.P) for k in O.all_kernels(pr.sp)}
    return MODES if len(groups) == 1 else MODES[:2]


class Expected:
    def __init__(self, pr, Ts, mode, res=0., sp=None):
        sp = sp or pr.current()
        orc = pr.oracle(sp)
        self.Ts, self.D = Ts, pr.D
        y = pr.y()
        mean, var, native, expl = orc.posterior(y, Ts, mode)
        mu, sd = pr.scales()
        to = np.repeat(np.arange(pr.D), [len(T) for T in Ts])
        self.mean = mean * sd[to] + mu[to]
        self.var = var * sd[to] ** 2
        self.native = native * sd[to] ** 2
        slack = 0.
        if res:
            slack = 2 * res * orc.amplification(Ts)[0]
            if not np.isfinite(slack):
                raise Inconclusive('solver report unreadable')
        top = max(1., np.abs(y).max())
        self.tol_mean = (2e-5 * top + slack) * sd[to] + 1e-9 * np.abs(mu[to])
        self.tol_var = (2e-5 * native + slack) * sd[to] ** 2
        # where the formula is negative beyond doubt, the floor is zero
        self.floored = (native - expl) * sd[to] ** 2 < -2 * self.tol_var

    def compare(self, mon, got, tag='', what='predictive'):
        mon.check(isinstance(got, (tuple, list)) and len(got) == 2, what + ' pair of lists' + tag)
        gm, gv = got
        mon.check(len(gm) == self.D and len(gv) == self.D, what + ' one array per output' + tag)
        for d in range(self.D):
            n = len(self.Ts[d])
            for nm, g, w, t in (('mean', gm, self.mean, self.tol_mean), ('variance', gv, self.var, self.tol_var)):
                w, t = split(w, self.Ts)[d], split(t, self.Ts)[d]
                g = np.asarray(g[d])
                mon.check(g.shape == (n,), what + ' array has the length of the query' + tag, output=d, got=g.shape,
                          want=n)
                if not n:
                    continue
                mon.check(np.isfinite(g).all(), what + ' finite' + tag, output=d, got=g)
                bad = np.abs(g - w) > t
                mon.check(not bad.any(), what + ' ' + nm + tag, output=d, got=g[bad], want=w[bad], tol=t[bad])
            mon.check((np.asarray(gv[d]) >= 0).all(), what + ' variance not negative' + tag, output=d)
            low = split(self.floored, self.Ts)[d]
            if n and low.any():
                mon.check((np.asarray(gv[d])[low] == 0).all(), what + ' variance floored at zero' + tag, output=d,
                          got=np.asarray(gv[d])[low])
                mon.event('floored variances', int(low.sum()))


def affordable(pr, mode):
    """Precomputing solves once per grid point and output: keep grids small."""
    if mode == 'precompute':
        if pr.P > 1:
            pr.m = [1 if pr.D > 2 else 2] * pr.P
        else:
            cap = max(2, 60 // pr.D - 4)
            m = sum(map(len, pr.Xs)) // pr.D if pr.m is None else int(np.atleast_1d(pr.m)[0])
            if m > cap:
                pr.m = cap
    return mode
