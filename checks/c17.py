"""C17: stochastic gradients are unbiased and land on the right parameters."""
import numpy as np
import scipy.linalg as la

from vmon import gen, oracle as O
from vmon.core import SolverHook, Solves
from vmon.gen import choice
from checks.c11 import MIXES

RULE = ('every evaluation of the real model is recorded at the library solver (right-hand sides = data and sign '
        'probes); the gradient stored on every parameter is compared with the trace estimate for exactly those '
        'probes, and pooled estimates over many probes with the true derivative (6 standard errors); probes are '
        'tested for values, balance, independence and freshness; distinct = (configuration, probe count)')
ASSUMPTIONS = ['noise at least 0.05; solver tolerance translates to 1e-4 relative in a component',
               'statistical families: false-alarm probability below 1e-8 per component']


class Tap:
    """Right-hand sides given to the Krylov solvers, and what these returned."""

    def __enter__(self):
        self.log = []

        def wrap(_name, f):
            def g(A, b, *a, **kw):
                rec = [np.array(b, dtype=float).ravel(), None]
                self.log.append(rec)
                r = f(A, b, *a, **kw)
                rec[1] = np.array(r[0], dtype=float).ravel()
                return r
            return g
        self.hook = SolverHook(wrap)
        return self

    def __exit__(self, *a):
        self.hook.remove()

    def count(self, mon, y, nit):
        """One evaluation: as many probes as requested."""
        data = [r for r in self.log if np.allclose(r[0], y, rtol=1e-9, atol=1e-9)]
        probes = [r for r in self.log if r[0].shape == y.shape and np.all(np.abs(r[0]) == 1)]
        if len(data) == 1 and len(probes) + 1 >= len(self.log) and probes:
            mon.check(len(probes) == nit, 'as many probes as requested', got=len(probes), want=nit)

    def last(self, y, nit):
        """(alpha, probes, solved probes) of the last evaluation, or None."""
        log = self.log[-(nit + 1):]
        data = [r for r in log if np.allclose(r[0], y, rtol=1e-9, atol=1e-9)]
        probes = [r for r in log if not any(r is d for d in data) and np.all(np.abs(r[0]) == 1)]
        if len(data) != 1 or len(probes) != nit:
            return None
        return data[0][1], [r[0] for r in probes], [r[1] for r in probes]


def stored(pr):
    """Gradient per parameter, read where the optimiser reads it."""
    g = {}
    byname = {p.name: p for p in pr.fk.parameters}
    L, S = len(pr.sp['lmc']), len(pr.sp['slfm'])
    for q in range(L + S):
        a = np.asarray(byname['a%d' % q].gradient)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                g['a', q, i, j] = a[i, j]
    for q in range(L):
        for j, v in enumerate(np.asarray(byname['kappa%d' % q].gradient)):
            g['kappa', q, j] = v
    for j, v in enumerate(np.asarray(byname['noise'].gradient)):
        g['noise', j] = v
    for q, (k, kern) in enumerate(zip(O.all_kernels(pr.sp), pr.kernels)):
        for t, p in enumerate(gen.kernel_param_objs(kern, k)):
            g['kern', q, t] = float(np.asarray(p.gradient).ravel()[0])
    return g


def terms(pr):
    """key -> (dK, K^-1 dK), for linked parameters; K^-1; alpha."""
    sp = pr.current()
    orc = pr.oracle(sp)
    K = orc.K()
    Ki = la.inv(K)
    Ki = (Ki + Ki.T) / 2
    out = {}
    L, S = len(sp['lmc']), len(sp['slfm'])
    for key, dK in O.dK_all(sp, O.ski_basis(orc), orc.xo, None):
        if key[0] == 'a' and key[1] >= L + S or key[0] == 'kappa' and key[1] >= L:
            continue
        out[key] = (dK, Ki.dot(dK))
    return out, Ki, Ki.dot(pr.y())


def given_probes(mon, pr, seen, T, tag=''):
    (T, Ki, a), (al, R, RI) = T, seen
    got = stored(pr)
    mon.check(set(got) == set(T), 'one stored gradient per parameter', missing=[str(k) for k in set(T) - set(got)])
    exact = al is not None and all(x is not None for x in RI)
    slack = 1e-8
    if not exact:            # a solve stopped early: allow for its tolerance
        al, RI, slack = a, [Ki.dot(r) for r in R], 1e-2
    for k, (dK, _) in T.items():
        t = [ri.dot(dK).dot(r) for r, ri in zip(R, RI)]
        q = al.dot(dK).dot(al)
        sc = abs(q) + np.mean([np.abs(ri).dot(np.abs(dK).dot(np.abs(r))) for r, ri in zip(R, RI)])
        mon.close(got[k], 0.5 * (q - np.mean(t)), 'gradient given its probes' + tag, 0, slack * sc + 1e-9,
                  component=str(k), probes=len(R))
    mon.close(np.sort(np.asarray(pr.model.gradient).ravel()), np.sort(np.array(list(got.values()))),
              'gradient vector of the model holds exactly these' + tag, 1e-12, 1e-14)
    mon.event('probes observed', len(R))


def probe_tests(mon, R):
    R = np.asarray(R)
    n = R.shape[1]
    mon.check(np.all(np.abs(R) == 1), 'sign probes')
    N = R.size
    mon.check(abs(R.sum()) <= 6.5 * np.sqrt(N) + 1, 'balanced probes', sum=float(R.sum()), N=N)
    if n > 3:
        c = (R[:, :-1] * R[:, 1:]).sum()
        mon.check(abs(c) <= 6.5 * np.sqrt(R.shape[0] * (n - 1)) + 1, 'coordinates of probes independent', sum=float(c))
        if len(R) > 3:
            c = (R[:-1] * R[1:]).sum()
            mon.check(abs(c) <= 6.5 * np.sqrt((len(R) - 1) * n) + 1, 'probes independent', sum=float(c))
    if n >= 60:     # by chance with probability 2^-59 per pair
        rows = {tuple((r * r[0]).astype(int)) for r in R}
        mon.check(len(rows) == len(R), 'no probe repeats another up to its sign', probes=len(R), distinct=len(rows))


def conditional(rng, mon, idx, **kw):
    nit = int(choice(rng, [1, 2, 3, 5, 8]))
    kw.setdefault('D', int(choice(rng, [1, 2, 3, 4])))
    pr = gen.Problem(rng, nmax=9, mix=MIXES[idx % 7], max_q=3, **kw)
    pr.build(trace_iterations=nit)
    every = []
    for rep in range(2):
        with Tap() as tap:
            if rep:
                pr.fk.noise = np.exp(rng.uniform(-2, 0, pr.D))
            else:
                pr.model.parameters_changed()
        seen = tap.last(pr.y(), nit)
        if seen is None:
            mon.event('solves not attributable')
            return
        given_probes(mon, pr, seen, terms(pr), ' after a change' if rep else '')
        every.append(np.array(seen[1]))
    n = every[0].shape[1]
    if n * nit > 60:
        mon.check(not np.array_equal(every[0], every[1]), 'fresh probes at every evaluation')
    probe_tests(mon, np.vstack(every))
    mon.sig(pr.sig(), nit)
    pr.describe(mon, probes=nit)


def after_assignments(rng, mon, idx):
    """Gradients are refreshed by any parameter assignment."""
    nit = int(choice(rng, [2, 4]))
    pr = gen.Problem(rng, nmax=8, max_q=2, D=int(choice(rng, [1, 2, 3])))
    pr.build(trace_iterations=nit)
    for _ in range(3):
        with Tap() as tap:
            if rng.rand() < 0.5:
                pr.fk.noise = np.exp(rng.uniform(-2, 0, pr.D))
            else:
                sp = pr.current()
                ks = [i for i, k in enumerate(O.all_kernels(sp)) if O.kparams(k)]
                if not ks:
                    return
                i = choice(rng, ks)
                objs = gen.kernel_param_objs(pr.kernels[i], O.all_kernels(sp)[i])
                j = rng.randint(len(objs))
                objs[j][:] = O.kparams(O.all_kernels(sp)[i])[j] * np.exp(rng.uniform(-.4, .4))
        seen = tap.last(pr.y(), nit)
        if seen is None:
            mon.event('solves not attributable')
            return
        given_probes(mon, pr, seen, terms(pr), ' of the last assignment')
    mon.sig('assign', pr.sig(), nit)


def pooled(rng, mon, idx):
    nit = 80
    reps = 2
    pr = gen.Problem(rng, nmax=6, nmin=2, mix=MIXES[idx % 7], max_q=2, P=1, D=int(choice(rng, [2, 3])))
    with Solves() as sv:
        pr.build(trace_iterations=nit)
        T, Ki, a = terms(pr)
        tot = {k: 0. for k in T}
        for rep in range(reps):
            if rep:
                pr.model.parameters_changed()
            for k, v in stored(pr).items():
                tot[k] += v / reps
    if sv.res > 1e-4:
        mon.event('solver failure reported')
        return
    N = nit * reps
    for k, (dK, M) in T.items():
        S = (M + M.T) / 2
        var = 0.25 * 2 * max((S ** 2).sum() - (np.diag(S) ** 2).sum(), 0) / N
        q = a.dot(dK).dot(a)
        true = 0.5 * (q - np.trace(M))
        mon.close(tot[k], true, 'average over probes is the derivative', 0,
                  6.5 * np.sqrt(var) + 2e-4 * (abs(q) + np.abs(M).sum()) + 1e-7, component=str(k), probes=N)
    mon.sig('pooled', pr.sig())
    pr.describe(mon, probes=N)


def bigger(rng, mon, idx):
    nit = 2
    pr = gen.Problem(rng, nmax=48, nmin=30, P=1, D=2, max_q=3, big=True)
    pr.build(trace_iterations=nit)
    with Tap() as tap:
        pr.model.parameters_changed()
    seen = tap.last(pr.y(), nit)
    if seen is None:
        mon.event('solves not attributable')
        return
    given_probes(mon, pr, seen, terms(pr), ', larger')
    probe_tests(mon, np.array(seen[1]))
    mon.sig('bigger', pr.sig())


def many(rng, mon, idx):
    """Many probes: their second moment is the identity."""
    nit = 500
    pr = gen.Problem(rng, nmax=90, nmin=60, P=1, D=1, mix='slfm', kinds=('rbf',), max_q=2, noise=(30., 60.))
    with Tap() as tap:
        pr.build(trace_iterations=nit)
        pr.model.parameters_changed()
    R = np.array([b for b, _ in tap.log if np.all(np.abs(b) == 1)])
    if len(R) < nit:
        mon.event('solves not attributable')
        return
    probe_tests(mon, R)
    n = R.shape[1]
    s = np.mean(R.sum(1) ** 2) / n
    mon.check(abs(s - 1) <= 6.5 * np.sqrt(2. / len(R)), 'second moment of probes', got=float(s), probes=len(R))
    mon.event('probes observed', len(R))
    mon.sig('many', n)


def requested(rng, mon, idx):
    """Any number of probes that is asked for."""
    nit = int(choice(rng, [1, 7, 15, 16, 17, 24, 33, 50, 64, 100, 129, None]) or 0)
    pr = gen.Problem(rng, nmax=6, nmin=2, P=1, max_q=2, D=int(choice(rng, [1, 2, 3])))
    if nit:
        pr.build(trace_iterations=nit)
    else:                      # the documented default
        nit = 15
        pr.build()
    with Tap() as tap:
        pr.model.parameters_changed()
    tap.count(mon, pr.y(), nit)
    seen = tap.last(pr.y(), nit)
    if seen is None:
        mon.event('solves not attributable')
        return
    given_probes(mon, pr, seen, terms(pr), ', as many as requested')
    mon.sig('requested', nit, pr.sig())


def larger(rng, mon, idx):
    """100 to 340 observations; up to eight outputs."""
    D = int(choice(rng, [1, 2, 4, 8]))
    n = int(rng.randint(100, 340)) // D
    pr = gen.Problem(rng, nmax=n + 4, nmin=n, P=1, D=D, max_q=2, big=D < 4)
    pr.build(trace_iterations=2)
    with Tap() as tap:
        pr.model.parameters_changed()
    seen = tap.last(pr.y(), 2)
    if seen is None:
        mon.event('solves not attributable')
        return
    given_probes(mon, pr, seen, terms(pr), ', large')
    with Tap() as tap:
        pr.model.parameters_changed()
    again = tap.last(pr.y(), 2)
    probe_tests(mon, np.array(seen[1] + (again[1] if again else [])))
    mon.sig('larger', D, n // 30)


def many_kernels(rng, mon, idx):
    """Many more kernels than outputs."""
    conditional(rng, mon, idx, D=int(choice(rng, [1, 2])), P=1, rank=1, q=int(choice(rng, [5, 7, 9, 13])))


FAMILIES = [('many_kernels', many_kernels, 14, 200), ('requested', requested, 22, 300), ('larger', larger, 4, 60), ('many', many, 3, 30), ('conditional', conditional, 70, 1400), ('after_assignments', after_assignments, 24, 400),
            ('pooled', pooled, 28, 420), ('bigger', bigger, 8, 100)]
MIN_EVENTS = {'obs:average over probes is the derivative': 100}
