"""C14: iterative solves meet their tolerance or say so."""
import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as sla

from runlmc.approx.iterative import Iterative
from runlmc.linalg.matrix import Matrix
from vmon import gen
from vmon.core import LogTap, SolverHook
from vmon.gen import choice

RULE = ('SPD operators of size 1..400 with spectra from flat to condition 1e14 (clustered, geometric, outliers, '
        'Toeplitz kernels with tiny noise, real model covariances), right-hand sides of all scales/dtypes, '
        'tolerances 1e-12..10, MINRES and CG, verbose or not, with and without preconditioner; every solve '
        'watched through a counting operator, the library solver and the log; distinct = (spectrum, size class, '
        'tolerance, method, outcome)')
ASSUMPTIONS = ['residuals within 0.1% of the tolerance (or of rounding) are left undecided']


class Counting(Matrix):
    def __init__(self, A):
        super().__init__(*A.shape)
        self.A = A
        self.count = 0

    def matvec(self, x):
        self.count += 1
        return self.A.dot(x)


def spectrum(rng, n, kind):
    if kind == 'flat':
        return np.exp(rng.uniform(0, np.log(30.), n)) if n > 1 else np.ones(1)
    if kind == 'geometric':
        return np.logspace(0, -rng.uniform(1, 14), n)
    if kind == 'cluster':
        e = np.ones(n) + 1e-3 * rng.rand(n)
        e[: max(1, n // 10)] = 10. ** rng.uniform(-8, 6)
        return e
    if kind == 'outliers':
        e = rng.uniform(1, 2, n)
        e[rng.randint(n)] = 10. ** rng.uniform(2, 10)
        e[rng.randint(n)] = 10. ** rng.uniform(-8, -1)
        return e
    return np.linspace(1, 10. ** rng.uniform(2, 7), n)


def gen_spd(rng, n, kind):
    if kind == 'kernel':
        x = np.linspace(0, 1, n)
        K = np.exp(-0.5 * (x[:, None] - x) ** 2 * 10 ** rng.uniform(0, 4))
        return K + np.eye(n) * 10. ** rng.uniform(-10, 0)
    e = spectrum(rng, n, kind)
    Q, _ = la.qr(rng.randn(n, n))
    A = (Q * e).dot(Q.T)
    return (A + A.T) / 2 * 10. ** choice(rng, [0, 0, 0, -3, 3])


def rhs(rng, n):
    st = rng.randint(6)
    if st == 0:
        return rng.randint(0, 2, n) * 2 - 1
    if st == 1:
        return np.eye(n)[rng.randint(n)]
    if st == 2:
        return np.zeros(n)
    if st == 3:
        return rng.randn(2 * n)[::2]
    y = rng.randn(n) * 10. ** choice(rng, [0, 0, -5, 4])
    if st == 4:
        y.setflags(write=False)
    return y


def solve_and_watch(mon, rng, op, A, y, tol, minres, verbose, must=False, tag=''):
    info, steps = [], [0]

    def wrap(name, orig):
        def f(*a, **k):
            cb = k.get('callback')
            if cb is not None:
                def counted(*b, **kb):
                    steps[0] += 1
                    return cb(*b, **kb)
                steps.append(name)
                k['callback'] = counted
            r = orig(*a, **k)
            info.append((name, int(r[1])))
            return r
        return f
    y0 = np.array(y)
    n = len(y)
    c0 = op.count if isinstance(op, Counting) else 0
    hook = SolverHook(wrap)
    try:
        with LogTap() as tap:
            kw = {} if tol is None else {'tol': tol}
            if not (minres and rng.rand() < 0.3):
                kw['minres'] = minres
            if verbose or rng.rand() < 0.5:
                kw['verbose'] = verbose
            r = Iterative.solve(op, y, **kw)
    finally:
        hook.remove()
    used = op.count - c0 if isinstance(op, Counting) else None
    tol = 1e-4 if tol is None else tol
    if verbose:
        mon.check(isinstance(r, tuple) and len(r) == 3, 'verbose returns solution, count, error', got=repr(type(r)))
        x, ctr, err = r
    else:
        x = r
    x = np.asarray(x)
    mon.check(x.shape == (n,), 'solution shape', got=x.shape)
    mon.same(y, y0, 'right-hand side unchanged')
    if not np.isfinite(x).all():
        mon.check(bool(tap.critical()), 'non-finite solution is reported', n=n, tol=tol)
        return x
    res = la.norm(y0 - A.dot(x))
    blur = 1e-3 * tol + 1e-13 * (abs(A).sum(1).max() * la.norm(x) + la.norm(y0))
    crit = bool(tap.critical())
    if res > tol + blur:
        mon.check(crit, 'failure to meet the tolerance is reported' + tag, residual=res, tol=tol, n=n, minres=minres)
        mon.event('outcome: reported failure')
    elif res < tol - blur:
        if len(info) == 1 and info[0][1] == 0 or (not info and must):
            mon.check(not crit, 'no failure reported for a converged solve' + tag, residual=res, tol=tol, n=n,
                      log=tap.critical())
        mon.event('outcome: reported failure within tolerance' if crit else 'outcome: converged')
    else:
        mon.event('outcome: undecided')
    if must:
        mon.check(res <= tol + blur and not (crit and n >= 120), 'well-conditioned systems are solved' + tag, residual=res, tol=tol,
                  n=n, minres=minres, log=tap.critical())
    if len(info) == 1:
        mon.check(info[0][0] == ('minres' if minres else 'cg'), 'requested method is used', got=info, minres=minres)
    if verbose:
        mon.close(err, res, 'reported error is the residual', 1e-6, blur - 1e-3 * tol, n=n)
        mon.check(float(ctr) == int(ctr) and ctr >= 0, 'count is a number of iterations', got=repr(ctr))
        if used is not None:
            mon.check(ctr <= used <= ctr + ctr // 8 + 8, 'reported count matches the products performed',
                      count=int(ctr), products=used)
        if len(steps) == 2:
            mon.check(ctr == steps[0], 'reported count is the number of iterations', count=int(ctr), want=steps[0])
        if ctr > 300:
            mon.event('more than 300 iterations')
        if ctr > 100:
            mon.event('more than 100 iterations')
        if not info:
            mon.event('early termination')
    return x


def case(rng, mon, n, kind, must=False, tag=''):
    A = gen_spd(rng, n, kind)
    op = Counting(A)
    minres = rng.rand() < 0.65
    tol = choice(rng, [None, 1e-4, 1e-4, 1e-6, 1e-2, 1e-8, 1e-12, 10.])
    if must:
        tol = choice(rng, [None, 1e-4, 1e-3, 1e-2, 1.])
    y = rhs(rng, n)
    if must:
        s = np.abs(A).max()
        y = np.asarray(y)
        y = y / max(1., la.norm(y))
        A /= s
    if rng.rand() < 0.1:
        d = 1 / np.diag(A)
        op.preconditioner = sla.LinearOperator((n, n), matvec=lambda v: d * np.ravel(v), dtype=float)
    A0 = A.copy()
    verbose = bool(rng.rand() < 0.7)
    solve_and_watch(mon, rng, op, A, y, tol, minres, verbose, must, tag)
    if rng.rand() < 0.3:   # the same operator again, another method / right-hand side
        solve_and_watch(mon, rng, op, A, rhs(rng, n) if not must else y, tol, not minres, True, must, tag)
    mon.same(A, A0, 'operator unchanged')
    mon.sig(kind, n if n < 12 else n // 50, str(tol), minres, verbose, hasattr(op, 'preconditioner'))
    mon.describe(n=n, kind=kind, tol=tol, minres=minres)


KINDS = ['flat', 'geometric', 'cluster', 'outliers', 'linear', 'kernel']


def small(rng, mon, idx):
    case(rng, mon, int(choice(rng, [1, 2, 3, 4, 5, 8, 13, 30])), choice(rng, KINDS))


def large(rng, mon, idx):
    case(rng, mon, int(choice(rng, [60, 101, 150, 220, 300, 400])), choice(rng, KINDS))


def easy(rng, mon, idx):
    case(rng, mon, int(choice(rng, [20, 40, 64, 120, 200, 350])), 'flat', must=True)


def early(rng, mon, idx):
    """Badly scaled but solvable: many iterations, loose tolerance."""
    n = int(rng.randint(150, 400))
    e = np.linspace(1, 10. ** rng.uniform(3, 5), n)
    Q, _ = la.qr(rng.randn(n, n))
    A = (Q * e).dot(Q.T)
    A = (A + A.T) / 2
    op = Counting(A)
    y = rng.randn(n)
    tol = float(10. ** rng.uniform(-4, 0.5))
    solve_and_watch(mon, rng, op, A, y, tol, bool(rng.rand() < .6), True)
    mon.sig('early', n // 50, int(np.log10(tol)))


class Diagonal:
    """As much of a diagonal matrix as the watcher needs."""
    def __init__(self, v):
        self.v, self.shape = v, (len(v), len(v))

    def dot(self, x):
        return self.v * x

    def __abs__(self):
        return np.abs(self.v)[:, None]


def slow(rng, mon, idx):
    """Hundreds of iterations, each gaining little, to a tolerance met on the way."""
    n = int(choice(rng, [600, 900, 1300, 2200]))
    A = np.logspace(0, rng.uniform(2.5, 5.5), n)
    y = rng.randn(n)
    tol = float(la.norm(y) * 10. ** rng.uniform(-7, -1.5))
    d = Diagonal(A)
    solve_and_watch(mon, rng, Counting(d), d, y, tol, bool(rng.rand() < .6), bool(rng.rand() < .7), tag=' (slow)')
    mon.sig('slow', n, int(np.log10(tol)))


def vast(rng, mon, idx):
    """Right-hand sides far larger than the tolerance."""
    n = int(choice(rng, [2, 5, 20, 60, 150, 260]))
    A = gen_spd(rng, n, choice(rng, ['flat', 'flat', 'linear', 'kernel', 'outliers']))
    y = rng.randn(n) * 10. ** rng.uniform(5, 12)
    tol = choice(rng, [None, 1e-4, 1e-2, 1., 1e-6])
    solve_and_watch(mon, rng, Counting(A), A, y, tol, bool(rng.rand() < .65), bool(rng.rand() < .6), tag=' (vast)')
    mon.sig('vast', n, str(tol))


def model_ops(rng, mon, idx):
    pr = gen.Problem(rng, nmax=20, noise=choice(rng, [(0.05, 1.), (1e-6, 1e-3)]), max_q=3)
    m = pr.build(trace_iterations=1)
    K = m.kernel.K
    A = pr.oracle().K()
    must = min(pr.sp['noise']) > 0.04
    y = rng.randn(len(A))
    x = solve_and_watch(mon, rng, K, A, y / la.norm(y), choice(rng, [None, 1e-4, 1e-6]), bool(rng.rand() < .7), True)
    if must and len(A) > 2:
        mon.close(x, la.solve(A, y / la.norm(y), assume_a='pos'), 'solution of a model system', 0, 1e-2)
    mon.sig('model', pr.sig())
    pr.describe(mon)


def model_tolerance(rng, mon, idx):
    """The tolerance given to a model is the one its solves keep."""
    D = int(choice(rng, [1, 2, 3]))
    n = int(rng.randint(130, 330)) // D
    pr = gen.Problem(rng, nmax=n + 5, nmin=n, P=1, D=D, max_q=3, kinds=('rbf', 'matern', 'scaled'),
                     noise=choice(rng, [(1e-3, 1e-2), (1e-2, 1e-1), (5e-2, .3), (3e-2, .1)]), style='unif', span=1., off=0.)
    pr.m = int(choice(rng, [30, 60, 120]))
    tol = float(choice(rng, [1e-6, 1e-7, 1e-8, 1e-5, 1e-3, None], p=[.3, .2, .2, .1, .1, .1]) or 0) or None
    kw = {} if tol is None else {'tolerance': tol}
    for rep in range(2):
        with LogTap() as tap:
            if rep:
                pr.fk.noise = np.array(pr.fk.noise) * .8
            else:
                m = pr.build(trace_iterations=2, **kw)
                if not tap.records:
                    m.parameters_changed()
        y, x = np.hstack([np.asarray(Y) for Y in m.Ys]), np.asarray(m.kernel.alpha())
        t = 1e-4 if tol is None else tol
        res = la.norm(y - m.kernel.K.matvec(x))
        blur = 1e-3 * t + 1e-12 * (la.norm(m.kernel.K.matvec(np.abs(x))) + la.norm(y))
        if res > t + blur:
            mon.check(bool(tap.critical()), 'a model reports solves that miss its tolerance', residual=res, tol=t, n=len(y))
        mon.event('model tolerance kept' if res <= t + blur else 'model reported a failure')
        if res > 1e-12 * la.norm(y):
            mon.event('model solve stopped above rounding')
    mon.sig('model tolerance', str(tol), pr.sig())
    pr.describe(mon, tolerance=tol)


FAMILIES = [('model_tolerance', model_tolerance, 24, 300), ('slow', slow, 40, 600), ('vast', vast, 120, 2500), ('small', small, 500, 12000), ('large', large, 120, 3000), ('easy', easy, 120, 2000),
            ('early', early, 60, 1200), ('model_ops', model_ops, 30, 600)]
MIN_EVENTS = {'outcome: converged': 200, 'outcome: reported failure': 30, 'more than 100 iterations': 8,
              'obs:reported count matches the products performed': 300}
