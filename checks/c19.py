"""C19: predictive mean and variance are those of the Gaussian process."""
import numpy as np

from vmon import gen, oracle as O
from vmon.core import Solves
from vmon.gen import choice
from vmon.pred import Expected, affordable, modes_for
from checks.c11 import MIXES

RULE = ('models of every kernel mix in every prediction mode; queries at training points, between, at the borders, '
        'far outside, empty outputs; every mean and variance against the dense posterior; also after parameter '
        'changes and mode switches; distinct = (configuration, mode, query pattern)')
ASSUMPTIONS = ['noise at least 0.05; slack for solver residuals that the code itself reported']


def ask(rng, mon, pr, mode, build_sv, tag='', nmax=5):
    model = pr.model
    Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, nmax)
    n = len(pr.y())
    with Solves(n) as sv:
        got = model.predict([T.copy() for T in Ts])
    res = max(sv.res, build_sv.res)
    Expected(pr, Ts, mode, res).compare(mon, got, tag + ' [' + mode + ']')
    mon.event('predictions [%s]' % mode, sum(map(len, Ts)))
    mon.event('solver failure reported' if sv.tap.critical() or build_sv.tap.critical() else 'all solves converged')
    return Ts


def run(rng, mon, pr, mode=None, nmax=5):
    mode = mode or choice(rng, modes_for(pr))
    n = len(pr.y())
    with Solves(n) as b:
        pr.build(trace_iterations=1, prediction=mode)
    ask(rng, mon, pr, mode, b, nmax=nmax)
    if rng.rand() < 0.5:
        with Solves(n) as b:
            pr.fk.noise = np.exp(rng.uniform(-2.5, 0, pr.D))
        if rng.rand() < 0.5:
            mode = choice(rng, modes_for(pr))
            pr.model.prediction = mode
        ask(rng, mon, pr, mode, b, ' after a change', nmax=nmax)
    mon.sig(pr.sig(), mode)
    mon.event('mix ' + pr.sp['mix'])
    pr.describe(mon, mode=mode)


def modes(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=10, mix=MIXES[idx % 7], max_q=3, P=1,
                              ads=[None]), ('on-the-fly', 'exact', 'precompute')[idx % 3])


def mixes(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=9, max_q=3))


def subset(rng, mon, idx):
    """All kernels share a strict subset of the input dimensions."""
    P = int(choice(rng, [2, 3]))
    ad = choice(rng, [(0,), (1,), (P - 1,)] + ([(0, 2), (2, 1)] if P == 3 else []))
    run(rng, mon, gen.Problem(rng, nmax=7, P=P, ads=[ad], max_q=3, D=int(choice(rng, [1, 2, 3]))))


def bigger(rng, mon, idx):
    run(rng, mon, gen.Problem(rng, nmax=40, nmin=20, P=1, D=int(choice(rng, [2, 3])), max_q=3, big=True), nmax=12,
        mode=choice(rng, ['on-the-fly', 'exact']))


def refuse(rng, mon, idx):
    """Precompute mode refuses kernels on different active dimensions."""
    P = int(choice(rng, [2, 3]))
    while True:
        pr = gen.Problem(rng, nmax=5, P=P, ads=[(0,), (1,)] if idx % 2 else [(0,), (1,), (0, 1)],
                         D=int(choice(rng, [1, 2, 3])), max_q=4)
        if idx % 2:         # equal grid sizes
            pr.m, pr.lo, pr.hi = [3] * P, None, None
        if len({O.ad_of(k, P) for k in O.all_kernels(pr.sp)}) > 1:
            break
    pr.build(trace_iterations=1, prediction='on-the-fly')
    Ts = gen.gen_queries(rng, pr.Xs, P, pr.D, 3, empties=False)
    pr.model.predict(Ts)
    pr.model.prediction = 'precompute'
    mon.raises(ValueError, 'precompute refuses split kernels', pr.model.predict, Ts)
    with Solves() as b:
        pr.fk.noise = np.exp(rng.uniform(-2, 0, pr.D))
    pr.model.prediction = 'exact'
    ask(rng, mon, pr, 'exact', b, ' after a refusal')
    mon.sig('refuse', pr.sig())


def many_queries(rng, mon, idx):
    """Batches of up to 300 points."""
    P = int(choice(rng, [1, 1, 2]))
    pr = gen.Problem(rng, nmax=12, max_q=2, P=P, D=int(choice(rng, [1, 2, 3])), ads=[None])
    mode = affordable(pr, ('on-the-fly', 'exact', 'precompute')[idx % 3])
    run(rng, mon, pr, mode, nmax=int(choice(rng, [30, 80, 150])))


def magnitudes(rng, mon, idx):
    """Exact variances of nearly noiseless or faint processes."""
    pr = gen.Problem(rng, nmax=8, max_q=3, P=int(choice(rng, [1, 1, 2])), D=int(choice(rng, [1, 2, 3])),
                     mix=MIXES[(0, 1, 4)[idx // 2 % 3]], kinds=('rbf', 'matern', 'periodic'), normalize=bool(idx % 4 < 2))
    sp = pr.sp
    if idx % 2:
        s = 10. ** rng.uniform(-6, -3)
        sp['A'] = [a * s for a in sp['A']]
        sp['kappa'] = [k * s * s for k in sp['kappa']]
        sp['noise'] = sp['noise'] * s * s
    else:
        s = 1.
        sp['noise'] = np.exp(rng.uniform(np.log(1e-8), np.log(1e-5), pr.D))
    pr.build(trace_iterations=1, prediction='exact')
    sp = pr.current()
    Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 4)
    _, var = pr.model.predict([T.copy() for T in Ts])
    K = (O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))) / s ** 2
    C = O.exact_cov(sp, [np.asarray(T, float).reshape(-1, pr.P) for T in Ts], pr.Xs) / s ** 2
    ew, ev = np.linalg.eigh(K)
    if ew[0] < 1e-9 * ew[-1]:
        return
    P = C.dot(ev)
    explained = (P * P / ew).sum(1)
    prior = np.repeat(O.prior_var(sp), [len(T) for T in Ts]) / s ** 2
    want = np.maximum(prior - explained, 0)
    _, sd = pr.scales()
    got = np.concatenate([np.asarray(v) / sd[d] ** 2 for d, v in enumerate(var)] + [np.zeros(0)]) / s ** 2
    mon.close(got, want, 'exact predictive variance, any magnitude', 1e-7, 1e-13 * ew[-1] / ew[0] * (prior.max() if len(prior) else 1),
              scale=s, noise=sp['noise'])
    mon.event('magnitudes', len(got))
    mon.sig('magnitudes', pr.sig())


def large(rng, mon, idx):
    """100 to 340 observations; up to eight outputs, six kernels."""
    D = int(choice(rng, [1, 2, 3, 8]))
    n = int(rng.randint(100, 340)) // D
    pr = gen.Problem(rng, nmax=n + 8, nmin=n, P=1, D=D, q=int(choice(rng, [1, 2, 6])), big=D < 4)
    mode = choice(rng, ['on-the-fly', 'exact', 'exact', 'precompute'])
    if mode == 'precompute':
        pr.m = 8 if D < 4 else 4
    run(rng, mon, pr, mode, nmax=4)


def many_kernels(rng, mon, idx):
    """Many more kernels than outputs."""
    run(rng, mon, gen.Problem(rng, nmax=7, D=int(choice(rng, [1, 2])), P=1, ads=[None], rank=1, mix=MIXES[idx % 7], q=int(choice(rng, [5, 7, 9, 13]))),
        ('on-the-fly', 'exact', 'precompute')[idx % 3])


FAMILIES = [('many_kernels', many_kernels, 14, 200), ('magnitudes', magnitudes, 36, 800), ('many_queries', many_queries, 9, 150), ('large', large, 8, 120), ('modes', modes, 63, 1300), ('mixes', mixes, 36, 900), ('subset', subset, 16, 300),
            ('bigger', bigger, 8, 120), ('refuse', refuse, 8, 100)]
MIN_EVENTS = {'predictions [precompute]': 60, 'predictions [exact]': 60, 'predictions [on-the-fly]': 60,
              'all solves converged': 50, 'magnitudes': 60}
