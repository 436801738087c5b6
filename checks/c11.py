"""C11: the scalable covariance operator is W (sum B_q x k_q(U)) W^T + noise."""
import numpy as np

from vmon import gen, oracle as O
from vmon.gen import choice

RULE = ('random kernel mixes x ranks x outputs 1..7 x active-dimension groupings x grid shapes, on both sides of '
        'every internal representation choice; model operator (product, matrix product, materialised, '
        'linear-operator view) vs dense W K_UU W^T oracle; distinct = full configuration signature')
ASSUMPTIONS = ['at most two active dimensions per kernel (documented limit of interpolation)']


def observe(mon, rng, pr, tag=''):
    sp = pr.current()
    want = pr.oracle(sp).K()
    K = pr.model.kernel.K
    n = len(want)
    sc = np.abs(want).max()
    mon.check(tuple(K.shape) == (n, n), 'operator shape')
    V = np.column_stack([np.eye(n)[:, rng.randint(n)], rng.randn(n), rng.randint(-3, 4, n)])
    for v in V.T:
        mon.close(K.matvec(v), want.dot(v), 'operator product' + tag, 0, 1e-9 * sc * max(1, np.abs(v).sum()))
    mon.close(K.matmat(V), want.dot(V), 'operator matrix product' + tag, 0, 1e-9 * sc * n * 4)
    op = K.as_linear_operator()
    mon.close(op.matvec(V[:, 1]), want.dot(V[:, 1]), 'linear-operator product' + tag, 0, 1e-9 * sc * n * 4)
    if n <= 60:
        mon.close(K.as_numpy(), want, 'materialised operator' + tag, 0, 1e-9 * sc)
    u, v = rng.randn(n), rng.randn(n)
    mon.close(u.dot(K.matvec(v)), v.dot(K.matvec(u)), 'symmetric' + tag, 0, 1e-9 * sc * n * n)
    mon.check(v.dot(K.matvec(v)) > 0, 'positive definite along a random direction' + tag)


def reassign(rng, pr):
    sp = pr.current()
    nco = len(sp['lmc']) + len(sp['slfm'])
    if nco:
        pr.fk.coreg_vecs = [rng.randn(*a.shape) for a in sp['A'][:nco]]
    if sp['lmc']:
        pr.fk.coreg_diags = [np.exp(rng.uniform(-2, 0.7, pr.D)) for _ in sp['lmc']]
    for k, kern in zip(O.all_kernels(sp), pr.kernels):
        for p, v in zip(gen.kernel_param_objs(kern, k), O.kparams(k)):
            p[:] = v * float(np.exp(rng.uniform(-.5, .5)))


def run(rng, mon, pr):
    pr.build(trace_iterations=1)
    observe(mon, rng, pr)
    if rng.rand() < 0.4:
        reassign(rng, pr)
        observe(mon, rng, pr, ' after a parameter change')
    mon.sig(pr.sig())
    ranks = sum(r for _, r in pr.sp['lmc']) + len(pr.sp['slfm'])
    mon.event('low total rank' if ranks + pr.D < pr.D ** 2 else 'high total rank')
    mon.event('mix ' + pr.sp['mix'])
    mon.event('groups %d' % len({O.ad_of(k, pr.P) for k in O.all_kernels(pr.sp)}))
    pr.describe(mon)


def mixes(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=10))


def many_outputs(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=7, D=int(choice(rng, [4, 5, 6, 7])), P=int(choice(rng, [1, 1, 2])), max_q=3))


MIXES = ['lmc', 'slfm', 'indep', 'all', 'lmc+slfm', 'lmc+indep', 'slfm+indep']


def sweep(rng, mon, idx):
    """Every mix x D x number of kernels, one input dimension."""
    mix = MIXES[idx % 7]
    D = 1 + (idx // 7) % 4
    run(rng, mon, gen.Problem(rng, nmax=6, D=D, P=1, mix=mix, max_q=4))


def split_dims(rng, mon, idx):
    P = int(choice(rng, [2, 3, 4]))
    ads = [(0,), (1,), (P - 1,), (0, 1), (P - 1, 0)]
    if P == 2:
        ads.append(None)
    run(rng, mon, gen.Problem(rng, nmax=8, P=P, ads=ads, D=int(choice(rng, [1, 2, 3, 4])), max_q=4))


def bigger(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=60, nmin=20, D=int(choice(rng, [2, 3])), P=1, big=True, max_q=3))


def fine(rng, mon, idx):
    """Few points on a large grid."""
    P = 1 + idx % 2
    pr = gen.Problem(rng, nmax=6, D=int(choice(rng, [1, 2, 3])), P=P, ads=[None] if P == 2 else None, max_q=3)
    pr.m = int(choice(rng, [600, 1000, 1021, 1500, 2100])) if P == 1 else choice(rng, [[40, 25], [14, 70], [33, 30]])
    run(rng, mon, pr)


def equal_ranks(rng, mon, idx):
    """Several LMC kernels of the same rank, in both representations."""
    D = int(choice(rng, [2, 3, 4, 5, 6, 8]))
    pr = gen.Problem(rng, nmax=6, D=D, P=int(choice(rng, [1, 1, 1, 2])), mix=choice(rng, ['lmc', 'lmc', 'all', 'lmc+slfm']),
                     rank=int(choice(rng, [1, 2, 2, 3])), q=int(choice(rng, [2, 3, 4, 6])))
    run(rng, mon, pr)


def many_points(rng, mon, idx):
    """Sizes up to several hundred observations."""
    D = int(choice(rng, [1, 2, 3, 8]))
    n = int(rng.randint(100, 340)) // D
    run(rng, mon, gen.Problem(rng, nmax=n + 8, nmin=n, D=D, P=int(choice(rng, [1, 1, 2])), big=bool(rng.rand() < .5),
                              max_q=int(choice(rng, [2, 3]))))


def tiny_noise(rng, mon, idx):
    """Almost noiseless: no floor on any output."""
    lo = 10. ** rng.uniform(-14, -7)
    pr = gen.Problem(rng, nmax=8, D=int(choice(rng, [1, 2, 3])), P=int(choice(rng, [1, 1, 2])), max_q=3, noise=(lo, 10 * lo))
    pr.build(trace_iterations=1)
    for rep in range(2):
        sp = pr.current()
        want = pr.oracle(sp).K()
        n = len(want)
        # the noise on its own, and below the rounding of nothing else
        sc = np.abs(want).max()
        zero = pr.oracle(dict(sp, noise=np.zeros(pr.D))).K()
        K = np.asarray(pr.model.kernel.K.matmat(np.eye(n)))
        mon.close(K, want, 'operator, tiny noise', 0, 1e-9 * sc)
        mon.close(np.diag(K) - np.diag(zero), O.noise_diag(sp, pr.Xs), 'noise, tiny', 1e-6, 1e-11 * sc)
        pr.fk.noise = np.exp(rng.uniform(np.log(1e-12), np.log(1e-3), pr.D))
    mon.sig('tiny', pr.sig())


def alike(rng, mon, idx):
    """Kernels of different kinds with the same name and parameters."""
    pr = gen.Problem(rng, nmax=8, P=1, D=int(choice(rng, [1, 2, 3])), mix=choice(rng, ['lmc', 'lmc+slfm', 'all', 'slfm']),
                     kinds=('rbf', 'matern'), q=int(choice(rng, [2, 3])), span=1.)
    for k in O.all_kernels(pr.sp):
        k['g'], k['name'] = 3., 'k'
    run(rng, mon, pr)
    mon.event('alike')


def faint(rng, mon, idx):
    """Covariances many orders of magnitude below one, in every representation."""
    D = int(choice(rng, [1, 2, 2, 3]))
    pr = gen.Problem(rng, nmax=8, mix=MIXES[(0, 1, 4)[idx % 3]], D=D, P=int(choice(rng, [1, 1, 2])), max_q=4,
                     rank=int(choice(rng, [1, D, D + 1])), normalize=False)
    s = 10. ** rng.uniform(-7, -3)
    sp = pr.sp
    sp['A'] = [a * s for a in sp['A']]
    sp['kappa'] = [k * s * s for k in sp['kappa']]
    sp['noise'] = sp['noise'] * s * s
    pr.build(trace_iterations=1)
    want = pr.oracle(pr.current()).K() / s ** 2
    n = len(want)
    mon.close(pr.model.kernel.K.matmat(np.eye(n)) / s ** 2, want, 'operator, faint', 0, 1e-9 * np.abs(want).max() * 4, scale=s)
    mon.sig('faint', pr.sig())


def units(rng, mon, idx):
    """Outputs whose units differ by many orders of magnitude."""
    pr = gen.Problem(rng, nmax=8, mix=MIXES[(0, 1, 4)[idx % 3]], D=int(choice(rng, [1, 2, 3, 5])), P=int(choice(rng, [1, 1, 2])),
                     max_q=3, normalize=False)
    s = gen.in_units(rng, pr.sp, 3.)
    pr.Ys = [Y * f for Y, f in zip(pr.Ys, s)]
    pr.build(trace_iterations=1)
    want = pr.oracle(pr.current()).K()
    sx = np.repeat(s, [len(x) for x in pr.Xs])
    n = len(sx)
    w = want / sx[:, None] / sx
    K = pr.model.kernel.K
    mon.close(K.matmat(np.diag(1 / sx)) / sx[:, None], w, 'operator, each output in its units', 1e-9, units=s)
    v = rng.randn(n)
    mon.close(K.matvec(v / sx) / sx, w.dot(v), 'operator product, each output in its units', 0, 1e-9 * np.abs(w).max() * n * 4, units=s)
    mon.sig('units', pr.sig())


def many_kernels(rng, mon, idx):
    """Many more kernels than outputs."""
    run(rng, mon, gen.Problem(rng, nmax=6, D=int(choice(rng, [1, 1, 2, 3])), P=int(choice(rng, [1, 1, 2])), rank=1,
                              mix=MIXES[idx % 7], q=int(choice(rng, [5, 7, 9, 13]))))


FAMILIES = [('many_kernels', many_kernels, 21, 300), ('faint', faint, 30, 600), ('units', units, 30, 600), ('alike', alike, 16, 200), ('tiny_noise', tiny_noise, 24, 500), ('equal_ranks', equal_ranks, 24, 500), ('many_points', many_points, 10, 150), ('mixes', mixes, 60, 1500), ('many_outputs', many_outputs, 16, 400), ('sweep', sweep, 56, 1000),
            ('split_dims', split_dims, 30, 800), ('bigger', bigger, 8, 150), ('fine', fine, 8, 120)]
MIN_EVENTS = {'obs:operator product': 300, 'low total rank': 10, 'high total rank': 10,
              'mix slfm': 5, 'mix indep': 5, 'mix slfm+indep': 5, 'groups 2': 10}
