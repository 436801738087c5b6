"""C22: normalisation makes the model equivariant to output units."""
import copy

import numpy as np
import scipy.special

from runlmc.util.normalizer import Norm
from vmon import gen, oracle as O
from vmon.core import Inconclusive, Solves
from vmon.gen import choice, split
from vmon.pred import Expected, affordable, modes_for

RULE = ('pairs of models on the same data in different units per output (factors 1e-8..1e8, offsets up to 1e6 standard '
        'deviations), joined by (output, point); normalised data, likelihood, predictions and quantiles related '
        'by the units; models without normalisation against the raw data; distinct = (configuration, mode, units)')
ASSUMPTIONS = ['positive factors; slack for solver residuals that the code itself reported']


def build(pr, mode, **kw):
    with Solves(sum(map(len, pr.Ys))) as sv:
        pr.build(trace_iterations=1, prediction=mode, **kw)
    return sv


def flat(x):
    return np.hstack([np.asarray(v, dtype=float).ravel() for v in x])


def units(rng, D):
    c = np.array([10. ** rng.uniform(-8, 8) if rng.rand() < 0.7 else 1. for _ in range(D)])
    o = np.array([choice(rng, [0., 1., -3., 1e3, -1e6]) * rng.rand() for _ in range(D)])
    if rng.rand() < 0.3:       # only one output changes
        keep = rng.randint(D)
        for d in range(D):
            if d != keep:
                c[d], o[d] = 1., 0.
    return c, o


def pair(rng, mon, pr, mode):
    pr.normalize = True
    n = len(pr.y())
    b1 = build(pr, mode)
    m1 = pr.model
    # offsets relative to the spread of the rescaled output
    c, o = units(rng, pr.D)
    sd0 = np.array([np.std(Y) for Y in pr.Ys])
    off = o * c * sd0
    p2 = copy.copy(pr)
    p2.Ys = [Y * c[d] + off[d] for d, Y in enumerate(pr.Ys)]
    b2 = build(p2, mode)
    m2 = p2.model
    Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 5)
    qs = sorted(float(q) for q in rng.uniform(0.5, 99.5, rng.randint(1, 4)))
    with Solves(n) as s1:
        g1, q1 = m1.predict([T.copy() for T in Ts]), m1.predict_quantiles([T.copy() for T in Ts], qs)
    with Solves(n) as s2:
        g2, q2 = m2.predict([T.copy() for T in Ts]), m2.predict_quantiles([T.copy() for T in Ts], qs)
    res = max(b1.res, b2.res, s1.res, s2.res)
    if not np.isfinite(res):
        raise Inconclusive('solver report unreadable')
    for p, m, g in ((pr, m1, g1), (p2, m2, g2)):
        w = p.y()
        mon.close(flat(m.Ys), w, 'normalised data', 1e-9, 1e-9)
        for d, Y in enumerate(m.Ys):
            mon.check(abs(np.mean(Y)) < 1e-8 and abs(np.std(Y) - 1) < 1e-8, 'zero mean and unit deviation', output=d,
                      mean=np.mean(Y), std=np.std(Y))
        Expected(p, Ts, mode, res).compare(mon, g, ' in its own units [%s]' % mode)
    sp = pr.current()
    amp, kinv = pr.oracle(sp).amplification(Ts)
    y = pr.y()
    # rounding of the shifted data, amplified by the solve
    data_eps = 1e-13 * (1 + np.abs(o).max()) * np.sqrt(n)
    mon.close(flat(m2.Ys), flat(m1.Ys), 'normalised data do not depend on units', 0, 1e-9 + data_eps * 10)
    qslack = 2 * res * kinv * np.linalg.norm(y) + 4 * data_eps * kinv * np.linalg.norm(y)
    ll = m1.log_likelihood()
    mon.close(m2.log_likelihood(), ll, 'likelihood does not depend on units', 1e-7, 1e-6 + qslack)
    mon.close(m2.normal_quadratic(), m1.normal_quadratic(), 'quadratic does not depend on units', 1e-6, 1e-6 + qslack)
    native = O.prior_var(sp)
    tol = 1e-6 * max(1., np.abs(y).max()) + (2 * res + data_eps) * amp * 2
    for d in range(pr.D):
        s = sd0[d] * c[d]
        a1, a2 = np.asarray(g1[0][d]), np.asarray(g2[0][d])
        v1, v2 = np.asarray(g1[1][d]), np.asarray(g2[1][d])
        mon.close(a2, a1 * c[d] + off[d], 'mean transforms with its output', 0, tol * s + 1e-9 * abs(off[d]) + 1e-9 * np.abs(a1).max(initial=0) * c[d],
                  output=d)
        mon.close(v2, v1 * c[d] ** 2, 'variance transforms with its output', 0, (1e-6 * native[d] + 4 * res * amp) * s ** 2,
                  output=d)
        u1, u2 = np.asarray(q1[d]), np.asarray(q2[d])
        z = scipy.special.ndtri(np.array(qs) / 100)
        sdt = np.sqrt(1e-6 * native[d] + 4 * res * amp)      # |sqrt a - sqrt b| <= sqrt|a-b|
        mon.close(u2, u1 * c[d] + off[d], 'quantiles transform with their output', 0,
                  (tol + sdt * np.abs(z).max()) * s + 1e-9 * abs(off[d]) + 1e-9 * np.abs(u1).max(initial=0) * c[d], output=d)
        mon.close(u2, a2[:, None] + np.sqrt(v2)[:, None] * z, 'quantiles in the units of the output', 0,
                  1e-7 * (np.abs(a2).max(initial=0) + s + np.sqrt(v2).max(initial=0) * np.abs(z).max()), output=d)
    mon.event('outputs in other units', int((c != 1).sum()))
    mon.event('points', sum(map(len, Ts)))
    mon.sig(pr.sig(), mode, np.round(np.log10(c)).tolist())
    pr.describe(mon, mode=mode, factors=c, offsets=off)


def pairs(rng, mon, idx):
    P = int(choice(rng, [1, 1, 2]))
    pr = gen.Problem(rng, nmax=9, max_q=3, P=P, ads=None if idx % 2 else [None],
                     D=int(choice(rng, [1, 2, 3] if P == 2 else [1, 2, 3, 4, 5])))
    ms = modes_for(pr)
    pair(rng, mon, pr, affordable(pr, ms[idx % len(ms)]))


def raw(rng, mon, idx):
    """No normalisation: the data are used as given."""
    pr = gen.Problem(rng, nmax=9, max_q=3, P=1, normalize=False)
    for d in range(pr.D):
        pr.Ys[d] = pr.Ys[d] * float(choice(rng, [1., 30., 0.05])) + float(choice(rng, [0., 4., -20.]))
    mode = choice(rng, modes_for(pr))
    b = build(pr, mode)
    m = pr.model
    for d, Y in enumerate(pr.Ys):
        mon.same(np.asarray(m.Ys[d]), Y, 'data as given', output=d)
    mon.same(m.y, np.hstack(pr.Ys), 'stacked data as given')
    Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 5)
    with Solves(len(pr.y())) as sv:
        g = m.predict([T.copy() for T in Ts])
    Expected(pr, Ts, mode, max(b.res, sv.res)).compare(mon, g, ' without normalisation')
    mon.event('raw points', sum(map(len, Ts)))
    mon.sig('raw', pr.sig(), mode)
    pr.describe(mon, mode=mode)


def norm(rng, mon, idx):
    """The normaliser alone."""
    for _ in range(20):
        shape = (rng.randint(2, 40),) if rng.rand() < 0.7 else (rng.randint(2, 30), rng.randint(1, 5))
        Y = rng.randn(*shape)
        if rng.rand() < 0.4:       # heavy tails
            shape = (int(rng.randint(30, 200)),) + shape[1:]
            Y = rng.standard_t(1.2, shape)
        if rng.rand() < 0.15:      # many
            shape = (int(rng.randint(400, 5000)),) + shape[1:]
            Y = rng.randn(*shape) * (1 + np.arange(shape[0]) / shape[0]).reshape((-1,) + (1,) * (len(shape) - 1))
        Y = Y * 10. ** rng.uniform(-8, 8)
        Y = Y + np.std(Y) * choice(rng, [0, 1, -50, 1e4])
        if rng.rand() < 0.2:
            Y = np.round(Y / np.std(Y) * 100).astype(int)
            if np.ptp(Y, axis=0).min() == 0:
                continue
        keep = Y.copy()
        nm = Norm()
        mon.check(not nm.scaled(), 'a new normaliser is not scaled')
        mon.raises(AttributeError, 'not usable before scaling', nm.normalize, Y)
        nm.scale_by(Y)
        mon.check(nm.scaled(), 'scaled after scale_by')
        Z = np.asarray(nm.normalize(Y))
        mu, sd = Y.mean(0), Y.std(0)
        rel = 1e-12 * (1 + np.max(np.abs(mu) / sd))
        mon.close(Z, (Y - mu) / sd, 'standardised', 0, 10 * rel + 1e-9)
        mon.close(np.asarray(nm.inverse_mean(Z)), Y.astype(float), 'inverse returns the data', 1e-10)
        mon.close(np.asarray(nm.inverse_variance(np.ones_like(sd))), sd ** 2, 'variance scale', 1e-9)
        v = rng.rand(*np.shape(Y))
        mon.close(np.asarray(nm.inverse_variance(v)), v * sd ** 2, 'variance', 1e-9)
        W = rng.randn(5, *np.shape(Y)[1:])
        mon.close(np.asarray(nm.inverse_mean(W)), W * sd + mu, 'inverse of other values', 1e-9)
        mon.close(np.asarray(nm.normalize(W * sd + mu)), W, 'normalise other values', 0, 1e-9 + 100 * rel)
        mon.same(Y, keep, 'data untouched')
        mon.event('normaliser round trips')
        mon.sig('norm', shape, int(np.log10(np.max(sd))), str(Y.dtype))


def outliers(rng, mon, idx):
    """Many observations, some far from the rest."""
    pr = gen.Problem(rng, nmax=60, nmin=40, max_q=2, P=1, D=int(choice(rng, [1, 2])))
    for Y in pr.Ys:
        Y[rng.randint(len(Y))] += 1e3 * float(choice(rng, [-1, 1])) * np.std(Y)
    pair(rng, mon, pr, choice(rng, ['on-the-fly', 'exact']))


def many_outputs(rng, mon, idx):
    """Six to twelve outputs; or one output with many observations; or units that are almost standard already."""
    st = idx % 3
    if st == 0:
        pr = gen.Problem(rng, nmax=5, max_q=2, P=1, D=int(rng.randint(6, 13)))
    elif st == 1:
        n = int(rng.randint(520, 700))
        pr = gen.Problem(rng, nmax=n + 5, nmin=n, q=1, P=1, D=1, mix='slfm', kinds=('rbf',))
        pr.m = 20
        Y = pr.Ys[0]
        Y *= np.where(np.arange(len(Y)) < len(Y) // 2, 1., 3.)
    else:
        pr = gen.Problem(rng, nmax=9, max_q=2, P=1, D=int(rng.randint(1, 4)))
        for d, Y in enumerate(pr.Ys):
            Y[:] = (Y - Y.mean()) / Y.std()
            Y *= 1 + float(choice(rng, [0, 5e-4, -5e-4, 1e-5, 1e-7]))
            Y += float(choice(rng, [0, 5e-7, -3e-7, 1e-4]))
    pair(rng, mon, pr, choice(rng, ['on-the-fly', 'exact']))


FAMILIES = [('many_outputs', many_outputs, 9, 90), ('pairs', pairs, 48, 1200), ('outliers', outliers, 6, 60), ('raw', raw, 24, 500), ('norm', norm, 30, 300)]
MIN_EVENTS = {'outputs in other units': 40, 'points': 100, 'raw points': 40, 'normaliser round trips': 200}
