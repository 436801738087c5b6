"""C10: the exact covariance is the documented LMC formula."""
import numpy as np

from runlmc.lmc.likelihood import ExactLMCLikelihood
from vmon import gen, oracle as O
from vmon.gen import choice

RULE = ('random kernel mixes (LMC any rank / SLFM / independent on chosen outputs, shared or split active '
        'dimensions), ragged outputs, rectangular and empty point sets, vs entrywise evaluation of the formula; '
        'distinct = (dims, outputs, ranks, mix, kernel kinds with active dims, point counts)')
ASSUMPTIONS = ['identity kernel compared at exactly coinciding points only as generated']


def fk_of(rng, **kw):
    span = choice(rng, [1., 1., 0.01, 300.])
    kw.setdefault('noise', choice(rng, [(0.05, 1.), (1e-6, 1e-2), (1., 1e3)]))
    alike = kw.pop('look_alike', False)
    sp = gen.gen_spec(rng, span=span, **kw)
    if alike:
        for k in O.all_kernels(sp):
            k['g'], k['name'] = 3. / span, 'k'
    fk, kernels = gen.build_fk(sp)
    fk.set_input_dim(sp['P'])
    return sp, fk, kernels, span


def direct(rng, mon, idx, nmax=9, **kw):
    sp, fk, kernels, span = fk_of(rng, **kw)
    Xs, Ys = gen.gen_data(rng, sp['P'], sp['D'], nmax, 1, span)
    Xs = [X.reshape(-1, sp['P']) for X in Xs]
    want = O.exact_cov(sp, Xs, Xs)
    noisy = want + np.diag(O.noise_diag(sp, Xs))
    ex = ExactLMCLikelihood(fk, [X.copy() for X in Xs], Ys)
    sc = np.abs(want).max() + 1
    mon.close(ex.K, noisy, 'training covariance', 0, 1e-9 * sc)
    mon.close(np.asarray(ex.K).T, noisy, 'symmetric', 0, 1e-9 * sc)
    Zs = gen.gen_queries(rng, Xs, sp['P'], sp['D'], 6)
    Zs = [Z.reshape(-1, sp['P']) for Z in Zs]
    if idx % 4 == 0:            # as many points as Xs, elsewhere
        Zs = [X + span * rng.uniform(-.3, .3, X.shape) for X in Xs]
    elif idx % 4 == 1:          # as many points altogether
        Zs = [X + span * .1 for X in Xs[::-1]]
    Kxz = ExactLMCLikelihood.kernel_from_indices(Xs, Zs, fk)
    mon.close(Kxz, O.exact_cov(sp, Xs, Zs), 'cross covariance', 0, 1e-9 * sc)
    Kzx = ExactLMCLikelihood.kernel_from_indices(Zs, Xs, fk)
    mon.close(np.asarray(Kzx).T, np.asarray(Kxz), 'transpose is the reversed cross covariance', 0, 1e-11 * sc)
    Kxx = ExactLMCLikelihood.kernel_from_indices(Xs, Xs, fk)
    mon.close(Kxx, want, 'no noise in cross covariance', 0, 1e-9 * sc)
    Bs = O.coreg(sp)
    got = fk.coreg_mats()
    mon.check(len(got) == len(Bs), 'one coregionalization matrix per kernel')
    for q, (a, b) in enumerate(zip(got, Bs)):
        mon.close(a, b, 'coregionalization matrix', 1e-11, 1e-13, kernel=q)
    for ad in {O.ad_of(k, sp['P']) for k in O.all_kernels(sp)}:
        mine = [B for k, B in zip(O.all_kernels(sp), Bs) if O.ad_of(k, sp['P']) == ad]
        theirs = fk.coreg_mats(ad)
        mon.check(len(mine) == len(theirs), 'coregionalization matrices of a group')
        for a, b in zip(theirs, mine):
            mon.close(a, b, 'coregionalization matrix of a group', 1e-11, 1e-13)
    # re-assignment of every parameter is followed
    new = gen.gen_spec(rng, P=sp['P'], D=sp['D'])
    fk.noise = new['noise']
    sp['noise'] = new['noise']
    for q in range(len(sp['lmc']) + len(sp['slfm'])):
        sp['A'][q] = rng.randn(*sp['A'][q].shape)
    fk.coreg_vecs = [a.copy() for a in sp['A'][:len(sp['lmc']) + len(sp['slfm'])]]
    for k, kern in zip(O.all_kernels(sp), kernels):
        vals = [v * float(np.exp(rng.uniform(-.5, .5))) for v in O.kparams(k)]
        for p, v in zip(gen.kernel_param_objs(kern, k), vals):
            p[:] = v
        gen.set_kparams(k, vals)
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    noisy = O.exact_cov(sp, Xs, Xs) + np.diag(O.noise_diag(sp, Xs))
    mon.close(ex.K, noisy, 'training covariance after re-assignment', 0, 1e-9 * np.abs(noisy).max())
    mon.sig(gen.spec_sig(sp), [len(X) for X in Xs], [len(Z) for Z in Zs])
    mon.describe(P=sp['P'], D=sp['D'], mix=sp['mix'], kernels=[gen.kind_name(k) for k in O.all_kernels(sp)],
                 indep_index=sp['indep_index'], lens=[len(X) for X in Xs], zlens=[len(Z) for Z in Zs])


def large(rng, mon, idx):
    direct(rng, mon, idx, nmax=40, D=int(choice(rng, [2, 6, 9])))


def wide_p(rng, mon, idx):
    direct(rng, mon, idx, P=int(choice(rng, [4, 5])), ads=[None, (0, 3), (3, 1), (2,), (1, 2, 3), (3, 2, 1, 0)])


def in_model(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3)
    m = pr.build(trace_iterations=1)
    want = O.exact_cov(pr.sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(pr.sp, pr.Xs))
    mon.close(m.K(), want, 'covariance reported by the model', 0, 1e-9 * np.abs(want).max())
    if rng.rand() < 0.5:
        m.predict([X[:2] for X in pr.Xs])
    v = np.exp(rng.uniform(-2, 0, pr.D))
    pr.fk.noise = v
    sp = pr.current()
    mon.close(sp['noise'], v, 'noise assigned', 1e-9)
    want = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
    mon.close(m.K(), want, 'covariance reported by the model after a change', 0, 1e-9 * np.abs(want).max())
    mon.sig('model', pr.sig())
    pr.describe(mon)


def alike(rng, mon, idx):
    direct(rng, mon, idx, kinds=('rbf', 'matern'), q=int(choice(rng, [2, 3])), look_alike=True)


def units(rng, mon, idx):
    """Outputs whose units differ by many orders of magnitude."""
    span = choice(rng, [1., 1., 0.01, 300.])
    sp = gen.gen_spec(rng, span=span, mix=choice(rng, ['lmc', 'slfm', 'lmc+slfm']), D=int(choice(rng, [1, 2, 3, 5])))
    s = gen.in_units(rng, sp)
    fk, _ = gen.build_fk(sp)
    fk.set_input_dim(sp['P'])
    Xs, Ys = gen.gen_data(rng, sp['P'], sp['D'], 8, 1, span)
    Xs = [X.reshape(-1, sp['P']) for X in Xs]
    Zs = [Z.reshape(-1, sp['P']) for Z in gen.gen_queries(rng, Xs, sp['P'], sp['D'], 5, empties=False)]
    sx, sz = (np.repeat(s, [len(x) for x in Q]) for Q in (Xs, Zs))
    want = O.exact_cov(sp, Xs, Xs) + np.diag(O.noise_diag(sp, Xs))
    mon.close(np.asarray(ExactLMCLikelihood(fk, Xs, Ys).K) / sx[:, None] / sx, want / sx[:, None] / sx,
              'training covariance, each in its units', 1e-9, units=s)
    mon.close(np.asarray(ExactLMCLikelihood.kernel_from_indices(Xs, Zs, fk)) / sx[:, None] / sz,
              O.exact_cov(sp, Xs, Zs) / sx[:, None] / sz, 'cross covariance, each in its units', 1e-9, units=s)
    for a, b in zip(fk.coreg_mats(), O.coreg(sp)):
        mon.close(a / s[:, None] / s, b / s[:, None] / s, 'coregionalization matrix, each in its units', 1e-11)
    mon.sig('units', gen.spec_sig(sp))


def many_kernels(rng, mon, idx):
    direct(rng, mon, idx, nmax=6, D=int(choice(rng, [1, 2, 3])), q=int(choice(rng, [5, 7, 9, 13])))


FAMILIES = [('many_kernels', many_kernels, 30, 500), ('units', units, 60, 1000), ('alike', alike, 60, 1000), ('direct', direct, 500, 12000), ('large', large, 30, 600), ('wide_p', wide_p, 60, 1500),
            ('in_model', in_model, 50, 1000)]
MIN_EVENTS = {'obs:training covariance': 500, 'obs:cross covariance': 500,
              'obs:covariance reported by the model': 40}
