"""C16: exact gradients are the derivatives of the exact log likelihood."""
import numpy as np
import scipy.linalg as la

from runlmc.lmc.likelihood import ExactLMCLikelihood
from vmon import gen, oracle as O
from vmon.gen import choice

RULE = ('random kernel mixes, ranks, active dimensions and ragged data; every component of every exact gradient '
        'against 1/2 (a^T dK a - tr K^-1 dK) from the dense oracle, plus central differences of the density through '
        'the code\'s own parameters; distinct = (configuration, point counts)')
ASSUMPTIONS = ['parameter order within a kernel is the order of its parameter list (C08)']


def exact_grads(sp, Xs, y, s=1.):
    out = np.repeat(np.arange(sp['D']), [len(x) for x in Xs])
    K = O.exact_cov(sp, Xs, Xs) + np.diag(O.noise_diag(sp, Xs))
    sx = np.ones(sp['D']) * s
    sx = np.repeat(sx, [len(x) for x in Xs])
    Ki = la.inv(K / sx[:, None] / sx) / sx[:, None] / sx
    Ki = (Ki + Ki.T) / 2
    a = Ki.dot(y)
    g, sc = {}, {}
    for key, dK in O.dK_all(sp, O.exact_basis(sp, Xs), out, None):
        t1, t2 = a.dot(dK).dot(a), (Ki * dK).sum()
        g[key] = 0.5 * (t1 - t2)
        sc[key] = abs(t1) + np.abs(Ki * dK).sum()
    return g, sc


def collect(sp, ll):
    g = {}
    for q, a in enumerate(ll.coreg_vec_gradients()):
        a = np.asarray(a)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                g['a', q, i, j] = a[i, j]
    for q, a in enumerate(ll.coreg_diags_gradients()):
        for j, v in enumerate(a):
            g['kappa', q, j] = v
    for q, a in enumerate(ll.kernel_gradients()):
        for j, v in enumerate(a):
            g['kern', q, j] = float(np.asarray(v))
    for j, v in enumerate(ll.noise_gradient()):
        g['noise', j] = v
    return g


def compare(mon, got, want, sc, tol, what):
    mon.check(set(got) == set(want), 'one component per parameter', missing=sorted(map(str, set(want) - set(got))),
              extra=sorted(map(str, set(got) - set(want))))
    for k in want:
        mon.close(got[k], want[k], what, 0, tol * (sc[k] + 1e-6), component=str(k))


def run(rng, mon, idx, nmax=8, units=False, **kw):
    span = choice(rng, [1., 1., 0.01, 300.])
    sp = gen.gen_spec(rng, span=span, **kw)
    alike = rng.rand() < .3 and not units
    s = gen.in_units(rng, sp) if units else np.ones(sp['D'])
    if alike:           # coincidences between parameters
        D, st = sp['D'], rng.randint(3)
        if st == 0 or rng.rand() < .3:
            sp['noise'] = np.full(D, .1)
            sp['kappa'][:len(sp['lmc'])] = [np.ones(D) for _ in sp['lmc']]
        if st == 1:
            for a in sp['A'][:len(sp['lmc'])]:
                a[1:] = a[0]
        if st == 2 and D > 1:
            i, j = rng.permutation(D)[:2]
            sp['noise'][j] = sp['noise'][i]
            for a in sp['A'][:len(sp['lmc']) + len(sp['slfm'])]:
                a[:, j] = a[:, i]
        mon.event('coinciding parameters')
    fk, kernels = gen.build_fk(sp)
    fk.set_input_dim(sp['P'])
    Xs, Ys = gen.gen_data(rng, sp['P'], sp['D'], nmax, 1, span)
    Xs = [X.reshape(-1, sp['P']) for X in Xs]
    if alike:
        n = min(map(len, Xs))
        Xs, Ys = [X[:n] for X in Xs], [Y[:n] for Y in Ys]
        if rng.rand() < .3:
            Xs = [Xs[0]] * sp['D']
    Ys = [Y * f for Y, f in zip(Ys, s)]
    y = np.hstack(Ys)
    ll = ExactLMCLikelihood(fk, Xs, Ys)
    want, sc = exact_grads(sp, Xs, y, s)
    compare(mon, collect(sp, ll), want, sc, 1e-7, 'exact gradient component')
    sx = np.repeat(s, [len(X) for X in Xs])
    mon.close(ll.alpha() * sx, la.solve(ll.K / sx[:, None] / sx, y / sx, assume_a='pos'), 'alpha', 1e-7, 1e-9)
    # asking in another order or again does not matter
    again = {('noise', j): v for j, v in enumerate(ll.noise_gradient())}
    for k, v in again.items():
        mon.close(v, want[k], 'gradient asked again', 0, 1e-7 * (sc[k] + 1e-6))
    # derivative of the density with respect to the parameters the user holds
    def ll_now():
        e = ExactLMCLikelihood(fk, Xs, Ys)
        d = np.diag(e.L[0])
        return -0.5 * (y.dot(e.alpha()) + 2 * np.log(np.abs(d)).sum())
    pick = []
    for q, (k, kern) in enumerate(zip(O.all_kernels(sp), kernels)):
        pick += [(('kern', q, t), p, 0) for t, p in enumerate(gen.kernel_param_objs(kern, k))]
    byname = {p.name: p for p in fk.parameters}
    if 'noise' in byname:
        pick += [(('noise', j), byname['noise'], j) for j in range(sp['D'])]
    for _ in range(2):
        key, p, j = choice(rng, pick)
        v = float(np.asarray(p).ravel()[j])
        h = 1e-4 * v
        p[j] = v + h
        up = ll_now()
        p[j] = v - h
        dn = ll_now()
        p[j] = v
        fd = (up - dn) / (2 * h)
        mon.close(want[key], fd, 'gradient is the slope of the exact likelihood', 1e-3,
                  1e-3 * sc[key] + 1e-9 * abs(up) / h + 1e-6, component=str(key))
    mon.sig(gen.spec_sig(sp), [len(X) for X in Xs])
    mon.describe(P=sp['P'], D=sp['D'], mix=sp['mix'], kernels=[gen.kind_name(k) for k in O.all_kernels(sp)],
                 ranks=[r for _, r in sp['lmc']], lens=[len(X) for X in Xs])


def small(rng, mon, idx):
    run(rng, mon, idx)


def large(rng, mon, idx):
    run(rng, mon, idx, nmax=30, D=int(choice(rng, [2, 3, 6])), max_q=3)


def many_points(rng, mon, idx):
    """Up to 260 observations."""
    D = int(choice(rng, [1, 2, 4, 8]))
    run(rng, mon, idx, nmax=int(choice(rng, [120, 260])) // D, D=D, P=int(choice(rng, [1, 1, 2])), q=int(choice(rng, [1, 2])))


def equal_ranks(rng, mon, idx):
    run(rng, mon, idx, nmax=5, D=int(choice(rng, [2, 3, 5])), mix=choice(rng, ['lmc', 'all']), P=1,
        rank=int(choice(rng, [1, 2, 3])), q=int(choice(rng, [2, 3, 5])))


def units(rng, mon, idx):
    """Outputs whose units differ by many orders of magnitude."""
    run(rng, mon, idx, units=True, mix=choice(rng, ['lmc', 'slfm', 'lmc+slfm']), D=int(choice(rng, [1, 2, 3])))


def many_kernels(rng, mon, idx):
    run(rng, mon, idx, nmax=5, D=int(choice(rng, [1, 2])), P=int(choice(rng, [1, 1, 2])), rank=int(choice(rng, [1, 2])), q=int(choice(rng, [5, 7, 9, 13])))


FAMILIES = [('many_kernels', many_kernels, 20, 300), ('units', units, 60, 800), ('many_points', many_points, 12, 200), ('equal_ranks', equal_ranks, 40, 600), ('small', small, 250, 5000), ('large', large, 20, 400)]
MIN_EVENTS = {'obs:exact gradient component': 3000}
