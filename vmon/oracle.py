"""Independent reference models.

Nothing here imports the code under test; every formula is restated from the
documentation (dense, slow, simple).
"""
import numpy as np
import scipy.linalg as la

LOG2PI = np.log(2 * np.pi)


# ---------------------------------------------------------------- kernels
def kval(spec, r):
    """k(r) for a kernel spec (see gen.py)."""
    r = np.asarray(r, dtype=float)
    kind = spec['kind']
    if kind == 'rbf':
        return np.exp(-0.5 * spec['g'] * r ** 2)
    if kind == 'matern':
        s = np.sqrt(3.) * spec['g'] * r
        return (1 + s) * np.exp(-s)
    if kind == 'periodic':
        return np.exp(-0.5 * spec['g'] * np.sin(np.pi * r / spec['T']) ** 2)
    if kind == 'id':
        return np.where(r == 0, 1., 0.)
    if kind == 'scaled':
        return spec['scale'] * kval(spec['inner'], r)
    raise AssertionError(kind)


def kgrads(spec, r):
    """List of dk/dtheta in parameter order."""
    r = np.asarray(r, dtype=float)
    kind = spec['kind']
    if kind == 'rbf':
        return [-0.5 * r ** 2 * np.exp(-0.5 * spec['g'] * r ** 2)]
    if kind == 'matern':
        return [-3. * spec['g'] * r ** 2 * np.exp(-np.sqrt(3.) * spec['g'] * r)]
    if kind == 'periodic':
        u = np.pi * r / spec['T']
        k = np.exp(-0.5 * spec['g'] * np.sin(u) ** 2)
        return [-0.5 * np.sin(u) ** 2 * k,
                spec['g'] * np.sin(u) * np.cos(u) * u / spec['T'] * k]
    if kind == 'id':
        return []
    if kind == 'scaled':
        return [spec['scale'] * g for g in kgrads(spec['inner'], r)] + [kval(spec['inner'], r)]
    raise AssertionError(kind)


def kparams(spec):
    """Parameter values in parameter order."""
    kind = spec['kind']
    if kind in ('rbf', 'matern'):
        return [spec['g']]
    if kind == 'periodic':
        return [spec['g'], spec['T']]
    if kind == 'id':
        return []
    return kparams(spec['inner']) + [spec['scale']]


def ad_of(spec, P):
    s = spec
    while s['kind'] == 'scaled':
        s = s['inner']
    return tuple(range(P)) if s['ad'] is None else tuple(sorted(s['ad']))


# ------------------------------------------------------------ LMC algebra
def all_kernels(sp):
    return [k for k, _ in sp['lmc']] + list(sp['slfm']) + list(sp['indep'])


def coreg(sp):
    """B_q for every kernel, in order LMC, SLFM, independent."""
    out = []
    for A, kap in zip(sp['A'], sp['kappa']):
        out.append(np.asarray(A).T.dot(A) + np.diag(kap))
    return out


def stack(Xs, P):
    X = np.vstack([np.asarray(X, dtype=float).reshape(-1, P) for X in Xs])
    out = np.repeat(np.arange(len(Xs)), [len(x) for x in Xs])
    return X, out


def pdist(X, Z):
    d = X[:, None, :] - Z[None, :, :]
    return np.sqrt((d ** 2).sum(-1))


def exact_cov(sp, Xs, Zs):
    P = sp['P']
    X, xo = stack(Xs, P)
    Z, zo = stack(Zs, P)
    K = np.zeros((len(X), len(Z)))
    for k, B in zip(all_kernels(sp), coreg(sp)):
        ad = list(ad_of(k, P))
        K += B[np.ix_(xo, zo)] * kval(k, pdist(X[:, ad], Z[:, ad]))
    return K


def noise_diag(sp, Xs):
    return np.repeat(sp['noise'], [len(x) for x in Xs])


def prior_var(sp):
    """Variance of one noisy observation of each output."""
    v = np.array(sp['noise'], dtype=float)
    for k, B in zip(all_kernels(sp), coreg(sp)):
        v = v + np.diag(B) * float(kval(k, np.zeros(1))[0])
    return v


# ----------------------------------------------------------- interpolation
def keys(t):
    t = abs(t)
    if t <= 1:
        return 1.5 * t ** 3 - 2.5 * t ** 2 + 1
    if t <= 2:
        return -0.5 * t ** 3 + 2.5 * t ** 2 - 4 * t + 2
    return 0.


def interp1(grid, xs):
    """Dense 1-D cubic-convolution weights with border clamping."""
    grid = np.asarray(grid, dtype=float)
    xs = np.asarray(xs, dtype=float)
    m = len(grid)
    W = np.zeros((len(xs), m))
    h = grid[1] - grid[0]
    for i, x in enumerate(xs):
        f = (x - grid[0]) / h
        b = np.floor(f)
        for o in (-1, 0, 1, 2):
            j = int(min(max(b + o, 0), m - 1))
            W[i, j] += keys(f - (b + o))
    return W


def interp(axes, X):
    """Row-major product weights."""
    W = interp1(axes[0], X[:, 0])
    for p in range(1, len(axes)):
        V = interp1(axes[p], X[:, p])
        W = (W[:, :, None] * V[:, None, :]).reshape(len(X), W.shape[1] * V.shape[1])
    return W


def grid_axes(Xs, P, ad, lo, hi, m):
    """The documented inducing grid for one group of active dimensions."""
    X, _ = stack(Xs, P)
    axes = []
    for p in ad:
        l, h = X[:, p].min(), X[:, p].max()
        if lo is not None:
            l = min(l, float(np.atleast_1d(lo)[p]))
        if hi is not None:
            h = max(h, float(np.atleast_1d(hi)[p]))
        mm = len(X) // len(Xs) if m is None else int(np.atleast_1d(m)[p])
        d = (h - l) / mm
        axes.append(np.linspace(l - 2 * d, h + 2 * d, mm + 4))
    return axes


def grid_points(axes):
    g = np.meshgrid(*axes, indexing='ij')
    return np.column_stack([x.ravel() for x in g])


class SkiOracle:
    """Dense model of the scalable GP for a spec, data and grid request."""

    def __init__(self, sp, Xs, lo=None, hi=None, m=None):
        self.sp, self.Xs = sp, Xs
        P = sp['P']
        self.P = P
        self.X, self.xo = stack(Xs, P)
        self.groups = {}
        for k in all_kernels(sp):
            ad = ad_of(k, P)
            if ad not in self.groups:
                axes = grid_axes(Xs, P, ad, lo, hi, m)
                self.groups[ad] = {'axes': axes, 'W': interp(axes, self.X[:, list(ad)]),
                                   'D': self._gdist(axes)}

    @staticmethod
    def _gdist(axes):
        # distances from index differences, so equal points are at distance 0
        sq = 0.
        idx = np.meshgrid(*[np.arange(len(a)) for a in axes], indexing='ij')
        for a, i in zip(axes, idx):
            i = i.ravel()
            h = (a[-1] - a[0]) / (len(a) - 1)
            sq = sq + (h * (i[:, None] - i[None, :])) ** 2
        return np.sqrt(sq)

    def cross(self, W1, o1, W2, o2, kmap):
        """sum_q B_q[o1,o2] * W1 kmap_q(U) W2^T; W1/W2 dicts per group."""
        sp = self.sp
        K = np.zeros((len(o1), len(o2)))
        for q, (k, B) in enumerate(zip(all_kernels(sp), coreg(sp))):
            ad = ad_of(k, self.P)
            K += B[np.ix_(o1, o2)] * W1[ad].dot(kmap(q, k, self.groups[ad]['D'])).dot(W2[ad].T)
        return K

    def Ws(self):
        return {ad: g['W'] for ad, g in self.groups.items()}

    def K(self, noise=True):
        W = self.Ws()
        K = self.cross(W, self.xo, W, self.xo, lambda q, k, D: kval(k, D))
        if noise:
            K = K + np.diag(noise_diag(self.sp, self.Xs))
        return K

    def K_test(self, Ts):
        T, to = stack(Ts, self.P)
        Wt = {ad: interp(g['axes'], T[:, list(ad)]) for ad, g in self.groups.items()}
        return self.cross(Wt, to, self.Ws(), self.xo, lambda q, k, D: kval(k, D))

    # -- posterior -------------------------------------------------------
    def amplification(self, Ts=None):
        """Largest factor by which a solver residual can appear in a mean or
        explained variance (Ts) ; and ||K^-1||."""
        Ki = la.inv(self.K())
        amp = 0.
        if Ts is not None and any(len(T) for T in Ts):
            for Kx in (self.K_test(Ts), exact_cov(self.sp, Ts, self.Xs)):
                amp = max(amp, np.sqrt((Kx.dot(Ki) ** 2).sum(1)).max())
            if len(self.groups) == 1:
                (ad, g), = self.groups.items()
                mU = g['D'].shape[0]
                I = {ad: np.identity(mU)}
                for d in range(self.sp['D']):
                    KUX = self.cross(I, np.full(mU, d), self.Ws(), self.xo, lambda q, k, D: kval(k, D))
                    amp = max(amp, 2.5 * np.sqrt((KUX.dot(Ki) ** 2).sum(1)).max())
        return amp, np.linalg.norm(Ki, 2)

    def posterior(self, y, Ts, mode):
        K = self.K()
        c = la.cho_factor(K)
        alpha = la.cho_solve(c, y)
        mean = self.K_test(Ts).dot(alpha)
        T, to = stack(Ts, self.P)
        native = prior_var(self.sp)[to]
        if mode == 'exact':
            Kx = exact_cov(self.sp, Ts, self.Xs)
            Ke = exact_cov(self.sp, self.Xs, self.Xs) + np.diag(noise_diag(self.sp, self.Xs))
            expl = (Kx * la.cho_solve(la.cho_factor(Ke), Kx.T).T).sum(1)
        elif mode == 'on-the-fly':
            Kx = exact_cov(self.sp, Ts, self.Xs)
            expl = (Kx * la.cho_solve(c, Kx.T).T).sum(1)
        else:
            (ad, g), = self.groups.items()
            mU = g['D'].shape[0]
            Wt = interp(g['axes'], T[:, list(ad)])
            expl = np.zeros(len(T))
            I = {ad: np.identity(mU)}
            for d in np.unique(to):
                KUX = self.cross(I, np.full(mU, d), self.Ws(), self.xo, lambda q, k, D: kval(k, D))
                nu = (KUX * la.cho_solve(c, KUX.T).T).sum(1)
                sel = to == d
                expl[sel] = Wt[sel].dot(nu)
        var = native - expl
        return mean, np.maximum(var, 0), native, expl


def dB_terms(sp):
    """(key, q, dB) for coregionalization entries."""
    D = sp['D']
    for q, A in enumerate(sp['A']):
        A = np.asarray(A)
        for i in range(A.shape[0]):
            for j in range(D):
                dB = np.zeros((D, D))
                dB[j] += A[i]
                dB[:, j] += A[i]
                yield ('a', q, i, j), q, dB
    for q in range(len(sp['kappa'])):
        for j in range(D):
            dB = np.zeros((D, D))
            dB[j, j] = 1
            yield ('kappa', q, j), q, dB


def dK_all(sp, basis, out, lens):
    """Every dK/dtheta given basis(q, f): dense n x n of f(k_q) ; out: output
    index of every row."""
    Bs = coreg(sp)
    ks = all_kernels(sp)
    Kq = [basis(q, lambda k, r: kval(k, r)) for q in range(len(ks))]
    oo = np.ix_(out, out)
    for key, q, dB in dB_terms(sp):
        yield key, dB[oo] * Kq[q]
    for q, k in enumerate(ks):
        n = len(kparams(k))
        for t in range(n):
            yield ('kern', q, t), Bs[q][oo] * basis(q, lambda k, r, t=t: kgrads(k, r)[t])
    for j in range(sp['D']):
        yield ('noise', j), np.diag((out == j).astype(float))


def exact_basis(sp, Xs):
    P = sp['P']
    X, _ = stack(Xs, P)
    ks = all_kernels(sp)

    def basis(q, f):
        ad = list(ad_of(ks[q], P))
        return f(ks[q], pdist(X[:, ad], X[:, ad]))
    return basis


def ski_basis(orc):
    ks = all_kernels(orc.sp)

    def basis(q, f):
        g = orc.groups[ad_of(ks[q], orc.P)]
        return g['W'].dot(f(ks[q], g['D'])).dot(g['W'].T)
    return basis


def gauss_ll(K, y):
    L = la.cholesky(K, lower=True)
    z = la.solve_triangular(L, y, lower=True)
    return -0.5 * (z.dot(z) + 2 * np.log(np.diag(L)).sum() + len(y) * LOG2PI)


def normalise(Ys):
    return [(np.asarray(Y, dtype=float) - np.mean(Y)) / np.std(Y) for Y in Ys]
