"""C27: recorded metrics describe the run they belong to."""
import contextlib
import io

import numpy as np
import scipy.linalg as la

from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import Gamma
from vmon import gen, oracle as O
from vmon.core import Inconclusive, SolverHook, Solves
from vmon.gen import choice
from checks.c11 import MIXES, reassign

RULE = ('GP models of every mix with metrics on; every evaluation is hooked, the solver calls in it are recorded '
        '(iterations, residuals, solutions), and each metric entry is recomputed from that record and dense oracles; '
        'same run with metrics off; repeated optimisations; distinct = (configuration, evaluations)')
ASSUMPTIONS = ['entries that depend on a solve whose solution could not be observed (early termination) are not compared']
NAMES = ('iterations', 'grad_norms', 'grad_error', 'solv_error', 'log_likely')


class Tap:
    """Every solve: right-hand side, solution, iterations, residual."""

    def __enter__(self):
        self.log = []
        self.hook = SolverHook(lambda _name, f: self.wrap(f))
        return self

    def wrap(self, f):
        def g(A, b, *a, **kw):
            rec = {'b': np.array(b, dtype=float).ravel(), 'n': 0, 'x': None}
            self.log.append(rec)
            cb = kw.get('callback')

            def counted(x):
                rec['n'] += 1
                if cb is not None:
                    cb(x)
            kw['callback'] = counted
            r = f(A, b, *a, **kw)
            rec['x'] = np.array(r[0], dtype=float).ravel()
            rec['res'] = la.norm(rec['b'] - A.matvec(rec['x']))
            return r
        return g

    def __exit__(self, *a):
        self.hook.remove()


def exact_and_approx(pr, sp, log, nit):
    """All gradient components: exact ones, and the estimates for the recorded
    solves (None if these cannot be identified)."""
    y = pr.y()
    X, out = O.stack(pr.Xs, pr.P)
    Ke = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
    Ki = la.inv(Ke)
    a = Ki.dot(y)
    ex = {k: .5 * (a.dot(dK).dot(a) - (Ki * dK).sum()) for k, dK in O.dK_all(sp, O.exact_basis(sp, pr.Xs), out, None)}
    data = [r for r in log if np.allclose(r['b'], y, rtol=1e-9, atol=1e-9)]
    probes = [r for r in log if not any(r is d for d in data) and np.all(np.abs(r['b']) == 1)]
    if len(data) != 1 or len(probes) != nit or any(r['x'] is None for r in log):
        return ex, None
    orc = pr.oracle(sp)
    al = data[0]['x']
    ap = {}
    for k, dK in O.dK_all(sp, O.ski_basis(orc), orc.xo, None):
        ap[k] = .5 * (al.dot(dK).dot(al) - np.mean([r['x'].dot(dK).dot(r['b']) for r in probes]))
    return ex, ap


def watch(rng, mon, pr, model, nit, tap, what):
    """Hook every evaluation of the model."""
    real = type(model).parameters_changed
    state = {'n': 0}

    def changed():
        if model.metrics is None:
            return real(model)
        met = model.metrics
        before = {k: len(getattr(met, k)) for k in NAMES}
        mark = len(tap.log)
        with Solves(len(pr.y())) as sv:
            real(model)
        state['n'] += 1
        mon.check(model.metrics is met, 'same record during an evaluation')
        for k in NAMES:
            mon.check(len(getattr(met, k)) == before[k] + 1, 'one entry per evaluation', metric=k,
                      before=before[k], after=len(getattr(met, k)))
        log = tap.log[mark:]
        sp = pr.current()
        ll = met.log_likely[-1]
        if np.isfinite(sv.res):
            y = pr.y()
            Ks = pr.oracle(sp).K()
            alpha = la.solve(Ks, y, assume_a='pos')
            Ke = O.exact_cov(sp, pr.Xs, pr.Xs) + np.diag(O.noise_diag(sp, pr.Xs))
            want = -.5 * (y.dot(alpha) + 2 * np.log(np.diag(la.cholesky(Ke))).sum() + len(y) * O.LOG2PI)
            mon.close(ll, want, 'recorded likelihood', 1e-5, 1e-5 * y.dot(alpha) + 1e-6 * len(y) + 1.5 * sv.res * la.norm(alpha))
        solves = [r for r in log if 'res' in r]
        if len(log) == nit + 1:
            mon.close(met.iterations[-1], np.mean([r['n'] for r in log]), 'recorded iterations', 1e-9)
            if len(solves) == len(log):
                w = np.mean([r['res'] for r in solves])
                mon.close(met.solv_error[-1], w, 'recorded residual', 1e-3, 1e-9 * np.sqrt(len(pr.y())))
                mon.event('solver records joined')
        ex, ap = exact_and_approx(pr, sp, log, nit)
        top = max(abs(v) for v in ex.values())
        g = np.abs(np.asarray(model.gradient)).max() if np.size(model.gradient) else 0.
        lmc_only = not pr.sp['slfm'] and not pr.sp['indep']
        if lmc_only:
            mon.close(met.grad_norms[-1], g, 'recorded gradient norm is that of the gradient', 1e-8, 1e-10)
        else:
            mon.check(met.grad_norms[-1] >= g * (1 - 1e-8), 'recorded gradient norm covers the gradient')
        if ap is not None:
            sc = max(abs(v) for v in ap.values())
            mon.close(met.grad_norms[-1], sc, 'recorded gradient norm', 1e-6, 1e-8)
            diff = max(abs(ap[k] - ex[k]) for k in ex)
            mon.close(met.grad_error[-1], diff / top, 'recorded gradient error', 1e-5, 1e-6 * (1 + sc / top))
            mon.event('gradient records joined')
        what.append(state['n'])
        mon.event('evaluations')
        return None
    model.parameters_changed = changed
    return state


def run(rng, mon, pr, nit, runs):
    seed = int(rng.randint(2 ** 31))
    its = [int(rng.randint(1, 4)) for _ in range(runs)]
    step = float(choice(rng, [.05, .2]))
    priors = bool(rng.rand() < .4)
    for metrics in (True, False) if rng.rand() < .3 else (True,):
        np.random.seed(seed)
        with Tap() as tap:
            model = pr.build(trace_iterations=nit, metrics=metrics)
            mon.check((model.metrics is not None) == metrics, 'metrics kept only on request')
            if priors:
                for p in pr.fk.flattened_parameters:
                    if np.all(np.asarray(p) > 0):
                        p.set_prior(Gamma(2., 1.))
                mon.event('models with priors')
            seen = []
            state = watch(rng, mon, pr, model, nit, tap, seen)
            last = None
            for r in range(runs):
                n0 = state['n']
                with contextlib.redirect_stdout(io.StringIO()):
                    kw = {}
                    if rng.rand() < .3:
                        kw['start'] = np.array(model.optimizer_array) + .01
                    if rng.rand() < .3:
                        kw['messages'] = False
                    model.optimize(optimizer=AdaDelta(max_it=its[r], step_rate=step, min_grad_ratio=0.), **kw)
                if metrics:
                    met = model.metrics
                    done = state['n'] - n0
                    for k in NAMES:
                        mon.check(len(getattr(met, k)) == done, 'lists of one optimisation hold its evaluations only', metric=k,
                                  got=len(getattr(met, k)), evaluations=done, run=r)
                    if last is not None:
                        mon.check(met is last[0] or all(list(getattr(last[0], k)) == last[1][k] for k in NAMES),
                                  'earlier records stay')
                    last = (met, {k: list(getattr(met, k)) for k in NAMES})
                    if rng.rand() < .3 and not priors:    # (priors constrain signs)
                        reassign(np.random.RandomState(3), pr)
                        last = (met, {k: list(getattr(met, k)) for k in NAMES})
                    mon.event('optimisations')
            del model.parameters_changed
    mon.sig(pr.sig(), nit, its)
    pr.describe(mon, iterations=its, probes=nit)


def mixes(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3, P=int(choice(rng, [1, 1, 2])), D=int(choice(rng, [1, 2, 3])), mix=MIXES[idx % 7],
                     noise=(.1, 1.))
    if pr.P == 2:
        pr.m = [3, 3]
    run(rng, mon, pr, int(choice(rng, [1, 2, 5])), int(rng.randint(1, 4)))


def lmc(rng, mon, idx):
    pr = gen.Problem(rng, nmax=14, max_q=3, P=1, D=int(choice(rng, [1, 2, 3])), mix='lmc', noise=(.1, 1.))
    run(rng, mon, pr, int(choice(rng, [1, 3, 15, 24])), 2)


def path(rng, mon, idx):
    """Turning metrics on does not change the path."""
    pr = gen.Problem(rng, nmax=9, max_q=3, P=1, D=int(choice(rng, [1, 2, 3])), mix=MIXES[idx % 7], noise=(.1, 1.))
    seed, it = int(rng.randint(2 ** 31)), int(rng.randint(1, 5))
    out = []
    for metrics in (False, True):
        np.random.seed(seed)
        trail = []
        model = pr.build(trace_iterations=2, metrics=metrics)
        for _ in range(2):
            with contextlib.redirect_stdout(io.StringIO()):
                model.optimize(optimizer=AdaDelta(max_it=it, step_rate=.1, callback=lambda: trail.append(np.array(model.param_array))))
        out.append(np.hstack(trail + [np.array(model.param_array), np.array(model.gradient)]))
    mon.close(out[1], out[0], 'same path with metrics', 1e-9, 1e-10)
    mon.event('paths compared')
    mon.sig('path', pr.sig(), it)


def long_run(rng, mon, idx):
    """Dozens of entries, with likelihoods that jump."""
    pr = gen.Problem(rng, nmax=5, max_q=2, P=1, D=1 + idx % 2, mix='lmc', noise=(.1, 1.))
    with Tap() as tap:
        model = pr.build(trace_iterations=1, metrics=True)
        seen = []
        state = watch(rng, mon, pr, model, 1, tap, seen)
        with contextlib.redirect_stdout(io.StringIO()):
            model.optimize(optimizer=AdaDelta(max_it=int(choice(rng, [14, 40])), step_rate=.05, min_grad_ratio=0.))
        for s in (1., 1e-4, 3., 1e-5, 1e-2, 1e-4):
            pr.fk.noise = np.full(pr.D, s)
        n = state['n']
        met = model.metrics
        for k in NAMES:
            mon.check(len(getattr(met, k)) == n, 'one entry per evaluation of a long run', metric=k, got=len(getattr(met, k)), want=n)
        del model.parameters_changed
    mon.event('long runs')
    mon.sig('long', pr.sig(), n)


def failing(rng, mon, idx):
    """Solves that stop far from their tolerance are recorded as truthfully."""
    nit = int(choice(rng, [1, 2, 5]))
    pr = gen.Problem(rng, nmax=40, nmin=12, max_q=3, P=1, D=int(choice(rng, [1, 2])), mix='lmc', kinds=('rbf',), normalize=False)
    pr.Ys = [np.asarray(Y, dtype=float) * 10. ** rng.uniform(3, 9) for Y in pr.Ys]
    with Tap() as tap:
        model = pr.build(trace_iterations=nit, metrics=True)
        if model.metrics.iterations == []:
            model.parameters_changed()
        for s in (None, 1e-4, 1e-6, 1e-8, .1):
            mark = len(tap.log)
            if s is not None:
                pr.fk.noise = np.full(pr.D, s)
                log = tap.log[mark:]
                if len(log) == nit + 1 and all('res' in r for r in log):
                    w = np.mean([r['res'] for r in log])
                    mon.close(model.metrics.iterations[-1], np.mean([r['n'] for r in log]), 'recorded iterations (failing)', 1e-9)
                    mon.close(model.metrics.solv_error[-1], w, 'recorded residual (failing)', 1e-3, 1e-12 * la.norm(pr.y()) * len(pr.y()))
                    mon.event('solver records joined, residual above one' if w > 1 else 'solver records joined')
    mon.sig('failing', nit, pr.sig())


FAMILIES = [('failing', failing, 16, 200), ('long_run', long_run, 8, 100), ('mixes', mixes, 42, 800), ('lmc', lmc, 12, 250), ('path', path, 21, 400)]
MIN_EVENTS = {'evaluations': 150, 'optimisations': 50, 'paths compared': 10}
