"""C09: GPy exports and the GPy-backed model describe the same process."""
import numpy as np
import scipy.linalg as la
import scipy.stats

from runlmc.models.gpy_lmc import GPyLMC
from vmon import gen, oracle as O
from vmon.gen import choice

RULE = ('exports: kernels with random parameters (also re-assigned after construction) against the documented '
        'formula on random point pairs; models: 1-4 kernels with mixed ranks, ragged outputs, randomised '
        'coregionalization and noise, ragged/empty query batches and quantile lists against a dense Gaussian '
        'oracle; distinct = (kernels, ranks, outputs, query pattern)')
ASSUMPTIONS = ['periodic kernels are active on one dimension', 'GPy adds 1e-8 jitter, absorbed by the tolerance', 'exact (non-sparse) GPy model for the values']
KINDS = ('rbf', 'matern', 'periodic')
ADS = {2: [(0,), (1,), (0, 1), (1, 0)], 3: [(0,), (2,), (0, 2), (0, 1, 2), (2, 1)]}


def warmup():
    import GPy  # noqa: F401


def export(rng, mon, idx):
    span = float(10. ** rng.randint(-2, 3))
    P = int(choice(rng, [1, 1, 2, 3]))
    # a kernel that does not name its dimensions is exported for a single one
    sp = gen.gen_kernel(rng, P, span, KINDS, ads=[None, (0,)] if P == 1 else ADS[P])
    k = gen.build_kernel(sp)
    if rng.rand() < 0.5:
        new = [v * float(np.exp(rng.uniform(-1, 1))) for v in O.kparams(sp)]
        for p, v in zip(gen.kernel_param_objs(k, sp), new):
            p[:] = v
        gen.set_kparams(sp, new)
    g = k.to_gpy()
    X = rng.rand(rng.randint(1, 9), P) * span * 2
    Z = rng.rand(rng.randint(1, 9), P) * span * 2
    if rng.rand() < 0.5:
        Z[0] = X[0]
    ad = list(O.ad_of(sp, P))
    DX, DZ = O.pdist(X[:, ad], X[:, ad]), O.pdist(X[:, ad], Z[:, ad])
    want = O.kval(sp, DZ)
    mon.close(g.K(X, Z), want, 'exported cross covariance', 0, 1e-9, kernel=sp)
    mon.close(g.K(X), O.kval(sp, DX), 'exported covariance', 0, 1e-7, kernel=sp)
    mon.close(g.Kdiag(X), np.ones(len(X)), 'exported variance', 1e-12)
    mon.close(k.from_dist(DZ), g.K(X, Z), 'kernel agrees with its export', 0, 1e-9)
    mon.close([float(np.asarray(p).ravel()[0]) for p in gen.kernel_param_objs(k, sp)], O.kparams(sp),
              'export leaves the kernel alone', 1e-12)
    mon.sig('export', sp['kind'], span, P, sp['ad'])
    mon.describe(kernel=sp)


def wide_export(rng, mon, idx):
    """Parameters over many orders of magnitude."""
    sp = {'kind': KINDS[idx % 3], 'ad': None, 'name': 'k', 'g': float(np.exp(rng.uniform(-13, 13)))}
    s = 1. / sp['g'] if sp['kind'] == 'matern' else sp['g'] ** -.5
    if sp['kind'] == 'periodic':
        s = sp['T'] = float(np.exp(rng.uniform(-9, 9)))
    k = gen.build_kernel(sp)
    g = k.to_gpy()
    X, Z = rng.rand(6, 1) * 3 * s, rng.rand(5, 1) * 3 * s
    if sp['kind'] == 'periodic':
        Z[:3] = X[:3] + s * sp['g'] ** -.5 * rng.rand(3, 1)
    want = O.kval(sp, O.pdist(X, Z))
    tol = 1e-9 + (1e-12 * sp['g'] ** .5 if sp['kind'] == 'periodic' else 0)
    mon.close(g.K(X, Z), want, 'exported cross covariance, wide', 0, tol, kernel=sp)
    mon.close(k.from_dist(O.pdist(X, Z)), want, 'kernel, wide', 0, tol, kernel=sp)
    mon.sig('wide', sp['kind'], int(np.log10(sp['g'])))


def nodes(p, cls, out):
    for c in getattr(p, 'parameters', []):
        if type(c).__name__ in ((cls,) if isinstance(cls, str) else cls):
            out.append(c)
        else:
            nodes(c, cls, out)
    return out


def model(rng, mon, idx, P=None, sparse=False):
    P = P or int(choice(rng, [1, 1, 1, 2, 2, 3]))
    D = int(rng.randint(1, 5))
    Q = int(rng.randint(1, 4))
    span = float(choice(rng, [1., 1., 50.]))
    ks = [gen.gen_kernel(rng, P, span, KINDS, ads=[None, (0,)] if P == 1 else [None, None] + ADS[P], tag=str(i)) for i in range(Q)]
    for i, k in enumerate(ks):
        k['name'] = 'k%d' % i
    ranks = [int(rng.randint(1, 4)) for _ in range(Q)]
    Xs, Ys = gen.gen_data(rng, P, D, 9, 2, span, **({'style': 'unif'} if sparse else {}))
    nz = int(rng.randint(1, 12)) if sparse else 0
    Xf = Xs
    if idx % 5 == 1 and not sparse:     # whole numbers, queried in between
        Xs = [np.round(X if span == 50. else X * 7).astype(choice(rng, [np.int64, np.int32])) for X in Xs]
        Xf = [X.astype(float) for X in Xs]
        mon.event('whole-number inputs')
    kern = [gen.build_kernel(k) for k in ks]
    # a single query set is asked twice, before and after changing parameters
    m = GPyLMC([X.copy() for X in Xs], [Y.copy() for Y in Ys], kern, list(ranks),
               **({'sparse': nz} if sparse or rng.rand() < 0.3 else {}))
    g = m.gpy_model
    if sparse:
        mon.check(hasattr(g, 'Z'), 'a sparse model has inducing points')
        Z = np.array(g.Z)
        zo = Z[:, -1].astype(int)
        Zs = [Z[zo == d, :-1] for d in range(D)]
        for d in range(D):
            mon.check(len(Zs[d]) == min(nz, len(Xs[d])), 'number of inducing points', output=d,
                      got=len(Zs[d]), want=min(nz, len(Xs[d])))
            near = [np.abs(Xs[d].reshape(-1, P) - z).max(1).min() for z in Zs[d]]
            mon.check(max(near) == 0, "inducing points are the output's own inputs", output=d)
        mon.check(len(Z) == sum(map(len, Zs)), 'inducing points belong to outputs', got=len(Z))
    cs = nodes(g.kern, 'Coregionalize', [])
    mon.check(len(cs) == Q, 'one coregionalization per kernel', got=len(cs), want=Q)
    noise = nodes(g.likelihood, 'Gaussian', [])
    mon.check(len(noise) == D, 'one noise per output', got=len(noise), want=D)
    for q, c in enumerate(cs):
        mon.check(tuple(c.W.shape) == (D, ranks[q]), 'ranks matched to kernels', got=c.W.shape,
                  want=(D, ranks[q]), kernel=q)
    qs = [choice(rng, [2.5, 97.5, 50, 10, 33.3, 90]) for _ in range(rng.randint(1, 5))]
    opt = not sparse and idx % 4 == 0
    for rep in range(3 if opt else 2):
        if rep == 2:
            # the free parameters move; the exported kernels keep unit variance
            before = m.log_likelihood()
            m.optimize(max_iters=3)
            mon.check(m.log_likelihood() >= before - 1e-6 * abs(before) - 1e-6, 'optimising does not lose likelihood',
                      before=before, after=m.log_likelihood())
            gks = nodes(g.kern, ('RBF', 'Matern32', 'StdPeriodic'), [])
            for k, gk in zip(ks, gks):
                mon.close(float(gk.variance[0]), 1., 'unit variance', 1e-12)
                l = float(gk.lengthscale[0])
                gen.set_kparams(k, {'rbf': lambda: [l ** -2.], 'matern': lambda: [1 / l],
                                    'periodic': lambda: [l ** -2., float(gk.period[0])]}[k['kind']]())
        elif rep:
            for c in cs:
                c.W[:] = rng.randn(*c.W.shape)
                c.kappa[:] = np.exp(rng.uniform(-2, 1, D))
            for t in noise:
                t.variance[:] = np.exp(rng.uniform(-2, 0.5))
        sp = {'P': P, 'D': D, 'lmc': [(k, r) for k, r in zip(ks, ranks)], 'slfm': [], 'indep': [],
              'A': [np.array(c.W).T for c in cs], 'kappa': [np.array(c.kappa) for c in cs],
              'noise': np.array([float(t.variance[0]) for t in noise])}
        N = O.noise_diag(sp, Xs)
        y = np.hstack(Ys)
        proj = None
        if sparse:
            # variational inducing points (Titsias 2009): K is replaced by its
            # projection on the inducing points, the bound pays for the rest
            Kzz = O.exact_cov(sp, Zs, Zs)
            if np.linalg.cond(Kzz) > 1e5:
                mon.sig('ill-conditioned inducing points')
                continue
            Kxz = O.exact_cov(sp, Xs, Zs)
            proj = la.cho_factor(Kzz)
            Qxx = Kxz.dot(la.cho_solve(proj, Kxz.T))
            K = Qxx + np.diag(N)
            bound = O.gauss_ll(K, y) - 0.5 * ((np.diag(O.exact_cov(sp, Xs, Xs)) - np.diag(Qxx)) / N).sum()
            mon.close(m.log_likelihood(), bound, 'sparse bound', 1e-4, 1e-4)
        else:
            K = O.exact_cov(sp, Xs, Xs) + np.diag(N)
            if rep == 2 and np.linalg.cond(K) > 1e6:
                mon.sig('optimised into ill-conditioning')
                continue
            mon.close(m.log_likelihood(), O.gauss_ll(K, y), 'likelihood', 1e-5, 1e-5)
        Ts = gen.gen_queries(rng, Xf, P, D, 5)
        if not any(len(T) for T in Ts):
            Ts[0] = np.full((1, P), 0.3 * span)
        c = la.cho_factor(K)
        Kx = O.exact_cov(sp, Ts, Xs)
        if sparse:
            Kx = O.exact_cov(sp, Ts, Zs).dot(la.cho_solve(proj, Kxz.T))
        mu = Kx.dot(la.cho_solve(c, y))
        to = np.repeat(np.arange(D), [len(T) for T in Ts])
        var = O.prior_var(sp)[to] - (Kx * la.cho_solve(c, Kx.T).T).sum(1)
        gm, gv = m.predict([T.copy() for T in Ts])
        mon.check(len(gm) == D and len(gv) == D, 'one array per output')
        sc = max(1., np.abs(y).max())
        tol = 1e-4 if sparse else 1e-5
        for d, (a, b) in enumerate(zip(gen.split(mu, Ts), gen.split(var, Ts))):
            mon.close(gm[d], a, 'mean', 0, tol * sc, output=d, rep=rep)
            mon.close(gv[d], b, 'variance', 0, tol * O.prior_var(sp).max(), output=d, rep=rep)
        kind = choice(rng, [tuple, list])
        gq = m.predict_quantiles([T.copy() for T in Ts], quantiles=kind(qs))
        mon.check(len(gq) == D, 'one quantile array per output')
        z = scipy.stats.norm.ppf(np.array(qs) / 100.)
        for d, (a, b) in enumerate(zip(gen.split(mu, Ts), gen.split(var, Ts))):
            mon.close(gq[d], a[:, None] + np.sqrt(b)[:, None] * z, 'quantiles', 0, 3 * tol * sc * np.sqrt(
                max(1, O.prior_var(sp).max())) + tol, output=d, rep=rep)
        mon.sig(P, D, nz, [k['kind'] for k in ks], ranks, [len(T) for T in Ts], len(qs))
    mon.describe(P=P, D=D, kernels=[k['kind'] for k in ks], ranks=ranks, lens=[len(X) for X in Xs], quantiles=qs)


def many_queries(rng, mon, idx):
    """More than a thousand points at once answer like a few."""
    D = 1 + idx % 3
    Xs, Ys = gen.gen_data(rng, 1, D, 9, 3, 1., style='unif')
    m = GPyLMC([X.copy() for X in Xs], [Y.copy() for Y in Ys], [gen.build_kernel(gen.gen_kernel(rng, 1, 1., ('rbf', 'matern')))], [1])
    for t in nodes(m.gpy_model.likelihood, 'Gaussian', []):
        t.variance[:] = 10. ** rng.uniform(-6, -1)
    n = int(choice(rng, [300, 700, 1300])) // D
    Ts = [np.concatenate([np.resize(X.ravel(), n // 2), rng.uniform(-1, 3, n)])[:, None] for X in Xs]
    Ts = [T[rng.permutation(len(T))] for T in Ts]
    gm, gv = m.predict([T.copy() for T in Ts])
    qs = m.predict_quantiles([T.copy() for T in Ts], quantiles=(10, 90))
    for _ in range(4):
        d = int(rng.randint(D))
        i = rng.randint(0, len(Ts[d]), 7)
        a, b = m.predict([Ts[e][i] if e == d else Ts[e][:1] for e in range(D)])
        mon.close(gm[d][i], a[d], 'mean, many queries', 1e-7, 1e-7, output=d)
        mon.close(gv[d][i], b[d], 'variance, many queries', 1e-6, 1e-9, output=d)
        z = scipy.stats.norm.ppf([.1, .9])
        mon.close(np.asarray(qs[d])[i], a[d][:, None] + np.sqrt(b[d])[:, None] * z, 'quantiles, many queries', 1e-5, 1e-5, output=d)
    mon.sig('many', D, n)


def sparse(rng, mon, idx):
    model(rng, mon, idx, sparse=True)


FAMILIES = [('many_queries', many_queries, 6, 60), ('wide_export', wide_export, 150, 3000), ('export', export, 300, 6000), ('model', model, 140, 1800), ('sparse', sparse, 90, 1200)]
MIN_EVENTS = {'obs:exported cross covariance': 200, 'obs:mean': 100, 'obs:quantiles': 100, 'obs:sparse bound': 30}
