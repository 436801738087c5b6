"""C29: data handed in by the caller are never modified."""
import copy

import numpy as np
import scipy.sparse as sps

from runlmc.approx.interpolation import autogrid, cubic_kernel, interp_bicubic, interp_cubic, multi_interpolant
from runlmc.approx.iterative import Iterative
from runlmc.kern.rbf import RBF
from runlmc.linalg.diag import Diag
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import Gamma, Gaussian, HalfLaplace, InverseGamma
from runlmc.util.normalizer import Norm
from vmon import gen, matgen
from vmon.core import Solves
from vmon.gen import choice
from vmon.pred import affordable, modes_for

RULE = ('every array and list given to the code is recorded (bytes, shape, dtype, strides, flags, list identity and '
        'members) before the call and compared after each step of a history (construct, set parameters, optimise, '
        'predict, likelihood); about half are read-only; distinct = (configuration, dtypes, layouts, steps)')
ASSUMPTIONS = ['kernel objects are adopted by the functional kernel and are its parameters, so only the lists that '
               'carry them are guarded']


class Guard:
    """Remembers arguments and checks that they did not change."""

    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.kept = []

    def arr(self, a, tag, readonly=None):
        """A variant of `a` (layout, writability) under guard."""
        a = np.array(a)
        st = self.rng.randint(4)
        if st == 1:
            a = np.asfortranarray(a)
        elif st == 2 and a.ndim and len(a):
            a = np.repeat(a, 2, axis=0)[::2]
        elif st == 3 and a.ndim:
            a = np.ascontiguousarray(a[::-1])[::-1]
        if self.rng.rand() < .5 if readonly is None else readonly:
            a.flags.writeable = False
        self.hold(a, tag)
        self.mon.sig('arr', tag, a.dtype.name, st, bool(a.flags.writeable), a.ndim)
        return a

    def hold(self, x, tag):
        self.kept.append((tag, x, self.snap(x)))
        return x

    def snap(self, x):
        if isinstance(x, np.ndarray):
            base = x.base if isinstance(x.base, np.ndarray) else x
            return ('a', x.dtype.str, x.shape, x.strides, x.tobytes(), base.tobytes(), x.flags.writeable)
        if sps.issparse(x):
            return ('s', x.shape, x.data.tobytes(), x.indices.tobytes(), x.indptr.tobytes())
        if isinstance(x, (list, tuple)):
            return ('l', type(x).__name__, [id(e) for e in x], [self.snap(e) for e in x])
        if isinstance(x, dict):
            return ('d', [(repr(k), id(v), self.snap(v)) for k, v in x.items()])
        if isinstance(x, (int, float, str, bool, type(None), np.number)):
            return ('v', repr(x))
        return ('o', id(x))

    def verify(self, when):
        for tag, x, s in self.kept:
            now = self.snap(x)
            self.mon.check(now == s, tag + ' unmodified', when=when, kind=s[0],
                           now=np.asarray(x) if isinstance(x, np.ndarray) else repr(x)[:200],
                           was=np.frombuffer(s[4], s[1])[:10] if s[0] == 'a' and s[1][1] != 'O' else str(s)[:300])
            self.mon.event('arguments compared')


def narrow(rng, a):
    """Input arrays of other types."""
    st = rng.randint(8)
    if st == 0 and a.size and np.ptp(a) > 20:
        return np.round(a).astype(int)
    if st == 1:
        return np.asarray(a, np.float32)
    if st in (2, 3) and a.size and a.dtype.kind == 'f':     # negative zeros have bytes of their own
        a = a.copy()
        a[rng.randint(len(a))] = -0.
    return a


def model(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3, P=choice(rng, [1, 2]), D=choice(rng, [1, 2, 3]), noise=(.1, 1.))
    mode = affordable(pr, choice(rng, modes_for(pr)))
    pr.describe(mon, mode=mode)
    g = Guard(mon, rng)
    sp = pr.sp
    # kernel specification
    kw = {'D': sp['D']}
    if sp['lmc']:
        kw['lmc_kernels'] = [gen.build_kernel(k) for k, _ in sp['lmc']]
        kw['lmc_ranks'] = [r for _, r in sp['lmc']]
    if sp['slfm']:
        kw['slfm_kernels'] = [gen.build_kernel(k) for k in sp['slfm']]
    if sp['indep']:
        kw['indep_gp'] = [gen.build_kernel(k) for k in sp['indep']]
        if sp['indep_index'] is not None:
            kw['indep_gp_index'] = list(sp['indep_index'])
    for k, v in kw.items():
        g.hold(v, k)
    fk = FunctionalKernel(**kw)
    g.verify('kernel construction')
    nco = len(sp['lmc']) + len(sp['slfm'])
    vecs = g.hold([g.arr(a, 'coregionalization vectors') for a in sp['A'][:nco]], 'vector list')
    diags = g.hold([g.arr(a, 'coregionalization diagonals') for a in sp['kappa'][:len(sp['lmc'])]], 'diagonal list')
    noise = g.arr(sp['noise'], 'noise')
    if rng.rand() < .5 and sp['indep']:     # the lists as they are read back, independent kernels included
        full = g.hold([np.array(a) for a in fk.coreg_vecs], 'full vector list')
        fk.coreg_vecs = full
        full = g.hold([np.array(a) for a in fk.coreg_diags], 'full diagonal list')
        if len(full) == len(sp['lmc']):
            fk.coreg_diags = full
    fk.coreg_vecs = vecs
    fk.coreg_diags = diags
    fk.noise = noise
    g.verify('parameter assignment')
    # the data
    Xs = [narrow(rng, X) for X in pr.Xs]
    Ys = [Y if rng.rand() < .8 else np.asarray(Y, np.float32) for Y in pr.Ys]
    Xs = g.hold([g.arr(X, 'inputs') for X in Xs], 'input list')
    Ys = g.hold([g.arr(Y, 'outputs') for Y in Ys], 'output list')
    grid = {}
    for nm in ('lo', 'hi', 'm'):
        v = getattr(pr, nm)
        if isinstance(v, (np.ndarray, list, tuple)) and rng.rand() < .6:
            v = g.arr(v, 'grid ' + nm)
        elif v is not None:
            v = g.hold(copy.copy(v), 'grid ' + nm)
        grid[nm] = v
    m = InterpolatedLLGP(Xs, Ys, functional_kernel=fk, normalize=pr.normalize, max_procs=1, trace_iterations=1,
                         prediction=mode, **grid)
    g.verify('model construction')
    steps = []
    for _ in range(4):
        st = choice(rng, ['predict', 'predict', 'quantiles', 'likelihood', 'optimise', 'change'])
        steps.append(st)
        if st in ('predict', 'quantiles'):
            Ts = [narrow(rng, np.asarray(T)) for T in gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 4)]
            Ts = g.hold([g.arr(T, 'queries') for T in Ts], 'query list')
            if st == 'predict':
                out = m.predict(Ts)
                for arrs in out:
                    for a in arrs:
                        np.asarray(a)[...] = np.nan     # the caller may reuse what it was given
            else:
                qs = choice(rng, [g.arr(np.array([5., 50., 90.]), 'quantiles'), g.hold([10, 20.5], 'quantiles'),
                                  g.hold([float(x) for x in rng.uniform(1, 99, rng.randint(3, 12))], 'quantiles'),
                                  g.arr(rng.uniform(1, 99, rng.randint(3, 12)), 'quantiles'),
                                  (2.5, 97.5)])
                for a in m.predict_quantiles(Ts, qs):
                    np.asarray(a)[...] = np.nan
        elif st == 'likelihood':
            m.log_likelihood()
            m.normal_quadratic()
            m.log_det_K()
        elif st == 'optimise':
            if rng.rand() < .3:
                g.hold({'max_it': 2, 'verbosity': 0}, 'optimiser options')
                m.optimize(optimizer=AdaDelta(**g.kept[-1][1]))
            else:
                # line searches of these may leave the range of representable kernels
                kw = {'optimizer': 'lbfgsb'}
                if rng.rand() < .5:
                    kw = {'optimizer': 'scg', 'start': g.arr(np.array(m.optimizer_array) + .01, 'start')}
                try:
                    m.optimize(max_iters=2, **kw)
                except (ValueError, ArithmeticError, AttributeError, IndexError, np.linalg.LinAlgError):
                    ok = np.array(m.param_array)
                    if np.isfinite(ok).all() and 1e-4 < np.abs(ok[ok != 0]).min() and np.abs(ok).max() < 1e4:
                        raise
                    mon.event('line search left the range')
                    g.verify('after a failed line search')
                    break
        else:
            v = g.arr(np.exp(rng.uniform(-2, 0, pr.D)), 'noise')
            fk.noise = v
            if sp['lmc']:
                v = g.arr(rng.randn(*sp['A'][0].shape), 'coregionalization vectors')
                fk.coreg_vecs = g.hold([v], 'vector list')
        g.verify('after ' + ','.join(steps))
        mon.event('history steps')
    mon.sig('model', pr.sig(), mode, steps)


def pieces(rng, mon, idx):
    for _ in range(4):
        g = Guard(mon, rng)
        P = choice(rng, [1, 2])
        D = int(rng.randint(1, 4))
        span = choice(rng, [1., 50.])
        nx = 9 if rng.rand() < .8 else 160
        Xs = [narrow(rng, rng.rand(rng.randint(1, nx), P) * span) for _ in range(D)]
        Xs = g.hold([g.arr(X, 'inputs') for X in Xs], 'input list')
        allx = np.vstack(Xs)
        m = choice(rng, [None, g.arr(rng.randint(1, 9, P), 'grid sizes'), g.hold([int(x) for x in rng.randint(2, 9, P)], 'grid sizes'),
                         g.arr(rng.randint(1, 9, P).astype(float), 'grid sizes')])
        lo = choice(rng, [None, g.arr(allx.min(0) - rng.rand(P), 'low end'), g.hold([-span] * P, 'low end')])
        hi = choice(rng, [None, g.arr(allx.max(0) + rng.rand(P), 'high end'), g.arr(np.array([int(3 * span)] * P), 'high end'),
                          g.hold([3 * span] * P, 'high end')])
        if m is None and hi is None:
            hi = g.arr(allx.max(0) + 1., 'high end')
        if np.any(np.ptp(allx, 0) == 0) and hi is None:
            hi = g.arr(allx.max(0) + 1., 'high end')
        if m is None and sum(map(len, Xs)) // D == 0:
            m = g.hold([3] * P, 'grid sizes')
        axes = autogrid(Xs, lo, hi, m)
        g.verify('grid')
        axes = [g.arr(a, 'grid axes') for a in axes]
        multi_interpolant(Xs, *axes)
        g.verify('interpolant')
        if P == 1:
            interp_cubic(axes[0], g.arr(rng.rand(rng.randint(0, nx)) * span, 'samples'))
        else:
            interp_bicubic(axes[0], axes[1], g.arr(rng.rand(rng.randint(0, nx), 2) * span, 'samples'))
        cubic_kernel(g.arr(rng.uniform(-2, 2, 7), 'distances'))
        g.verify('interpolation')
        # kernels
        k = gen.gen_kernel(rng, 1, 1., ads=[None])
        kern = gen.build_kernel(k)
        d = g.arr(np.abs(rng.randn(5)) * choice(rng, [0, 1]), 'distances')
        kern.from_dist(d)
        grads = kern.kernel_gradient(d)
        kern.update_gradient(g.arr(rng.randn(len(grads)), 'gradients')) if len(grads) else None
        # normaliser
        Y = g.arr(rng.randn(5) * 3 + 1, 'outputs')
        nm = Norm()
        nm.scale_by(Y)
        z = g.arr(nm.normalize(Y), 'normalised outputs')
        nm.inverse_mean(z)
        nm.inverse_variance(g.arr(np.abs(z), 'variances'))
        # priors
        x = g.arr(np.exp(rng.randn(4)), 'parameter values')
        for p in (Gaussian(.5, 2.), Gamma(2., 1.), InverseGamma(2., 1.), HalfLaplace(1.)):
            p.lnpdf(x)
            p.lnpdf_grad(x)
        g.verify('pieces')
        mon.event('pieces')
        mon.sig('pieces', P, D, type(m).__name__, type(lo).__name__, type(hi).__name__)


def matrices(rng, mon, idx):
    for _ in range(4):
        n = matgen.gen_size(rng)
        M = matgen.gen(rng, n, n, int(rng.randint(0, 3)))
        g = Guard(mon, rng)
        inputs = M.all_inputs()
        for a in inputs:
            if a.ndim and rng.rand() < .5 and a.flags.owndata:
                a.flags.writeable = False
        for a in inputs:
            g.hold(a, 'matrix components')
        x = g.arr(choice(rng, [rng.randn(n), rng.randint(-5, 6, n), rng.randn(n).astype('float32')]), 'vector')
        M.obj.matvec(x)
        X = g.arr(rng.randn(n, int(rng.randint(1, 4))), 'matrix')
        M.obj.matmat(X)
        op = M.obj.as_linear_operator()
        op.matvec(x)
        op.matmat(X)
        M.obj.as_numpy()
        g.verify('product with ' + M.name)
        mon.event('products')
        # solver
        S = matgen.psd(rng, n, 1)
        S.obj = SumMatrix([S.obj, Diag(np.ones(n) * (.1 + np.abs(S.dense).max()))])
        for nm, minres in (('minres', True), ('cg', False)):
            y = g.arr(rng.randn(n), 'right-hand side')
            with Solves():
                out = Iterative.solve(S.obj, y, minres=minres, verbose=bool(rng.rand() < .5))
            sol = out[0] if isinstance(out, tuple) else out
            np.asarray(sol)[...] = np.nan       # the solution must not be the right-hand side itself
            g.verify('solve ' + nm)
            mon.event('solves')
        y = g.arr(np.zeros(n), 'right-hand side')
        with Solves():
            np.asarray(Iterative.solve(S.obj, y))[...] = np.nan
        g.verify('solve of zero')
        mon.sig('matrix', M.name, S.name, n)


def dense(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3)
    pr.describe(mon)
    g = Guard(mon, rng)
    fk, _ = gen.build_fk(pr.sp)
    fk.set_input_dim(pr.P)
    Xs = g.hold([g.arr(X.reshape(len(X), pr.P), 'inputs') for X in pr.Xs], 'input list')
    Ys = g.hold([g.arr(Y, 'outputs') for Y in pr.Ys], 'output list')
    lik = ExactLMCLikelihood(fk, Xs, Ys)
    lik.coreg_vec_gradients(), lik.coreg_diags_gradients(), lik.kernel_gradients(), lik.noise_gradient(), lik.alpha()
    Ts = g.hold([g.arr(X[:2], 'queries') for X in Xs], 'query list')
    ExactLMCLikelihood.kernel_from_indices(Ts, Xs, fk)
    g.verify('dense likelihood')
    mon.event('dense likelihoods')
    mon.sig('dense', pr.sig())


def dims(rng, mon, idx):
    """Active dimensions given as lists, in any order."""
    P = int(choice(rng, [2, 3]))
    g = Guard(mon, rng)
    ads = [list(rng.permutation(P)[:int(rng.randint(1, 3))]) for _ in range(2)]
    ads = [[int(i) for i in ad] for ad in ads]
    for ad in ads:
        g.hold(ad, 'active dimensions')
    ks = [RBF(inv_lengthscale=2., name='k%d' % i, active_dims=ad) for i, ad in enumerate(ads)]
    g.verify('kernels on listed dimensions')
    D = int(choice(rng, [1, 2]))
    fk = FunctionalKernel(D=D, lmc_kernels=ks, lmc_ranks=[1, 1])
    Xs = [rng.rand(4, P) for _ in range(D)]
    m = InterpolatedLLGP(Xs, [rng.randn(4) for _ in range(D)], functional_kernel=fk, m=[3] * P, trace_iterations=1)
    g.verify('a model on listed dimensions')
    m.predict(Xs)
    g.verify('prediction on listed dimensions')
    mon.event('listed dimensions')
    mon.sig('dims', P, str(ads))


FAMILIES = [('dims', dims, 24, 400), ('model', model, 80, 1500), ('pieces', pieces, 60, 2000), ('matrices', matrices, 60, 2000),
            ('dense', dense, 30, 800)]
MIN_EVENTS = {'arguments compared': 3000, 'history steps': 150, 'pieces': 150, 'solves': 300, 'dense likelihoods': 20}
