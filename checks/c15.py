"""C15: reported likelihood terms are those of the Gaussian model."""
import numpy as np
import scipy.linalg as la

from runlmc.lmc.likelihood import ExactLMCLikelihood
from vmon import gen, oracle as O
from vmon.core import Inconclusive, Solves
from vmon.gen import choice
from checks.c11 import reassign

RULE = ('models of every kernel mix and data scale, observed after construction and after parameter changes: '
        'normal quadratic, log determinant and log likelihood against dense Cholesky oracles; distinct = '
        '(configuration, number of points class)')
ASSUMPTIONS = ['noise at least 0.05 except in the large family, so that the solver tolerance translates to the compared precision']


def observe(mon, pr, sv, tag=''):
    sp = pr.current()
    y = pr.y()
    m = pr.model
    n = len(y)
    Ks = pr.oracle(sp).K()
    Ke = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
    q = y.dot(la.solve(Ks, y, assume_a='pos'))
    ld = 2 * np.log(np.diag(la.cholesky(Ke))).sum()
    mon.close(np.hstack([np.asarray(v) for v in m.Ys]), y, 'data in use' + tag, 1e-9, 1e-9)
    gq, gl, gll = m.normal_quadratic(), m.log_det_K(), m.log_likelihood()
    slack = sv.res * la.norm(la.solve(Ks, y, assume_a='pos')) * 1.5 if sv.res else 0.
    if not np.isfinite(slack):
        raise Inconclusive('solver report unreadable')
    mon.close(gq, q, 'normal quadratic' + tag, 1e-5, 1e-6 * min(1., q) + slack)
    mon.event('solver failure reported' if sv.tap.critical() else 'all solves converged')
    mon.close(gl, ld, 'log determinant' + tag, 1e-8, 1e-7 * n)
    mon.close(gll, -0.5 * (q + ld + n * O.LOG2PI), 'log likelihood' + tag, 1e-5, 1e-5 * q + 1e-6 * n + slack)
    mon.close(gll, -0.5 * (gq + gl + n * O.LOG2PI), 'log likelihood is the sum of its terms' + tag, 1e-10, 1e-9)
    mon.close(m.objective_function(), -gll, 'objective without priors' + tag, 1e-10, 1e-9)
    mon.close(m.log_likelihood_with_prior(), gll, 'likelihood without priors' + tag, 1e-10, 1e-9)


def run(rng, mon, pr, **kw):
    with Solves(sum(map(len, pr.Ys))) as sv:
        pr.build(trace_iterations=1, **kw)
    order = rng.rand()
    if order < 0.3:
        pr.model.predict([X[:1] for X in pr.Xs])
    observe(mon, pr, sv)
    for _ in range(rng.randint(0, 3)):
        reassign(rng, pr)
        with Solves(sum(map(len, pr.Ys))) as sv:
            pr.fk.noise = np.exp(rng.uniform(-2.5, 0, pr.D))
        observe(mon, pr, sv, ' after a change')
    mon.sig(pr.sig(), sum(map(len, pr.Ys)) // 10)
    pr.describe(mon)


def models(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=12, max_q=3))


def scaled_outputs(rng, mon, idx):
    pr = gen.Problem(rng, nmax=12, max_q=3, P=1, normalize=bool(idx % 2))
    for d in range(pr.D):
        pr.Ys[d] = pr.Ys[d] * 10. ** rng.uniform(-2, 1 if not pr.normalize else 6) + (
            10. ** rng.uniform(-2, 1.5 if not pr.normalize else 4))
    run(rng, mon, pr)


def bigger(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=70, nmin=40, P=1, D=int(choice(rng, [1, 2, 3])), max_q=3, big=True))


def exact(rng, mon, idx):
    """The dense likelihood on its own."""
    span = 1.
    noise = (0.05, 1.) if idx % 2 else (1e-7, 1e-2)
    sp = gen.gen_spec(rng, span=span, noise=noise)
    fk, kernels = gen.build_fk(sp)
    fk.set_input_dim(sp['P'])
    Xs, Ys = gen.gen_data(rng, sp['P'], sp['D'], 12, 1, span)
    Xs = [X.reshape(-1, sp['P']) for X in Xs]
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    K = O.exact_cov(sp, Xs, Xs) + np.diag(O.noise_diag(sp, Xs))
    y = np.hstack(Ys)
    w = la.eigvalsh(K)
    cond = w.max() / max(w.min(), noise[0] / 2)
    mon.close(ex.alpha(), la.solve(K, y, assume_a='pos'), 'exact K^-1 y', 1e-8 + 1e-13 * cond,
              1e-9 + 1e-13 * cond * la.norm(y) / w.max())
    mon.event('tiny noise' if cond > 1e4 else 'ordinary noise')
    ld = 2 * np.log(np.abs(np.diag(ex.L[0]))).sum()
    mon.close(-0.5 * (y.dot(ex.alpha()) + ld + len(y) * O.LOG2PI), O.gauss_ll(K, y), 'exact density', 1e-9 + 1e-13 * cond, 1e-8 + 1e-13 * cond * len(y))
    mon.sig('exact', gen.spec_sig(sp))


def tiny_noise(rng, mon, idx):
    """Almost noiseless data: no floor anywhere."""
    pr = gen.Problem(rng, nmax=10, max_q=3, P=1, D=int(choice(rng, [1, 2, 3])), noise=(1e-7, 1e-3))
    m = pr.build(trace_iterations=1)
    for rep in range(2):
        sp = pr.current()
        Ke = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
        w = la.eigvalsh(Ke)
        n = len(w)
        cond = w.max() / max(w.min(), min(sp['noise']) / 2)
        mon.close(m.log_det_K(), 2 * np.log(np.diag(la.cholesky(Ke))).sum(), 'log determinant, tiny noise', 1e-8,
                  n * (1e-7 + 1e-13 * cond))
        mon.close(m.log_likelihood(), -0.5 * (m.normal_quadratic() + m.log_det_K() + n * O.LOG2PI),
                  'log likelihood is the sum of its terms, tiny noise', 1e-9, 1e-9)
        Ks = pr.oracle(sp).K()
        v = np.cos(np.arange(n))
        mon.close(np.asarray(m.kernel.K.matvec(v)), Ks.dot(v), 'operator, tiny noise', 0, 1e-8 * np.abs(Ks).sum(1).max())
        pr.fk.noise = np.exp(rng.uniform(np.log(1e-7), np.log(1e-3), pr.D))
    mon.sig('tiny', pr.sig())
    pr.describe(mon)


def faint(rng, mon, idx):
    """Covariances many orders below one, well conditioned."""
    D = int(choice(rng, [1, 2, 3]))
    many = idx % 2
    pr = gen.Problem(rng, nmax=58 // D if many else 12, nmin=46 // D if many else 2, max_q=3, P=1, D=D, noise=(.05, 1.),
                     kinds=('rbf', 'matern', 'periodic'), mix=choice(rng, ['lmc', 'slfm', 'lmc']))
    s = 10. ** (rng.uniform(-8, -7) if many else rng.uniform(-7, -3))
    sp = pr.sp
    sp['A'] = [a * s for a in sp['A']]
    sp['kappa'] = [k * s * s for k in sp['kappa']]
    sp['noise'] = sp['noise'] * s * s
    m = pr.build(trace_iterations=1)
    sp = pr.current()
    Ke = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
    n = len(Ke)
    ld = 2 * np.log(np.diag(la.cholesky(Ke / s ** 2))).sum() + 2 * n * np.log(s)
    mon.close(m.log_det_K(), ld, 'log determinant, faint', 1e-8, 1e-6 * n)
    mon.close(m.log_likelihood(), -0.5 * (m.normal_quadratic() + ld + n * O.LOG2PI), 'log likelihood is the sum of its terms, faint',
              1e-8, 1e-6 * n)
    mon.sig('faint', pr.sig())
    pr.describe(mon, scale=s)


def faint_data(rng, mon, idx):
    """Data of any magnitude, not normalised."""
    pr = gen.Problem(rng, nmax=12, max_q=3, P=1, normalize=False)
    s = 10. ** rng.uniform(-6, -2)
    for d in range(pr.D):
        pr.Ys[d] = (pr.Ys[d] + choice(rng, [0., 1., 3.])) * s
    run(rng, mon, pr)


def large(rng, mon, idx):
    """Determinants far outside the range of floating point numbers."""
    D = int(choice(rng, [1, 2]))
    pr = gen.Problem(rng, nmax=440 // D, nmin=380 // D, P=1, D=D, kinds=('rbf', 'matern', 'scaled'), max_q=2, big=True,
                     noise=(1e-3, 3e-3) if idx % 2 else (40., 90.))
    run(rng, mon, pr)


def medium(rng, mon, idx):
    """100 to 340 observations, ordinary noise."""
    D = int(choice(rng, [1, 2, 3, 6]))
    n = int(rng.randint(100, 340)) // D
    run(rng, mon, gen.Problem(rng, nmax=n + 8, nmin=n, D=D, P=1, max_q=2, big=True))


def large_tiny_noise(rng, mon, idx):
    """Several hundred almost noiseless observations: the determinant."""
    D = int(choice(rng, [1, 2, 4]))
    pr = gen.Problem(rng, nmax=460 // D, nmin=420 // D, P=1, D=D, kinds=('rbf', 'matern', 'scaled'), max_q=2, big=True,
                     noise=(1e-6, 1e-4))
    m = pr.build(trace_iterations=1)
    sp = pr.current()
    Ke = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
    n = len(Ke)
    ld = 2 * np.log(np.diag(la.cholesky(Ke))).sum()
    cond = np.abs(Ke).sum(1).max() / min(sp['noise'])
    mon.close(m.log_det_K(), ld, 'log determinant, large and tiny noise', 1e-8, n * (1e-7 + 1e-14 * cond))
    mon.close(m.log_likelihood(), -0.5 * (m.normal_quadratic() + ld + n * O.LOG2PI),
              'log likelihood is the sum of its terms, large and tiny noise', 1e-8, n * (1e-7 + 1e-14 * cond))
    mon.sig('large tiny', D, n)


def many_kernels(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=8, D=int(choice(rng, [1, 2])), P=1, rank=1, q=int(choice(rng, [5, 7, 9, 13]))))


FAMILIES = [('many_kernels', many_kernels, 14, 200), ('faint', faint, 16, 300), ('faint_data', faint_data, 16, 300), ('large_tiny_noise', large_tiny_noise, 4, 40), ('medium', medium, 8, 100), ('models', models, 70, 1800), ('scaled_outputs', scaled_outputs, 30, 600), ('bigger', bigger, 16, 200), ('large', large, 4, 40), ('tiny_noise', tiny_noise, 24, 500),
            ('exact', exact, 150, 3000)]
MIN_EVENTS = {'all solves converged': 60, 'obs:normal quadratic': 90, 'obs:log determinant after a change': 50, 'obs:exact density': 100, 'obs:log determinant, tiny noise': 30}
