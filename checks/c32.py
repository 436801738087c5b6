"""C32: the Toeplitz Cholesky factor reproduces its matrix."""
import contextlib
import io

import numpy as np

from runlmc.linalg.shur import shur
from vmon.gen import choice
from vmon.matgen import dense_toep

RULE = ('first rows of positive definite Toeplitz matrices from spectral densities, autoregressive processes, decaying '
        'and random reflection coefficients, bandlimited and diagonally dominant rows, sizes 1 to 650; factor compared '
        'with the triangular contract and the matrix; distinct = (kind, size)')
ASSUMPTIONS = ['condition number at most 1e8']


def from_reflections(rho, scale):
    """Autocovariance with the given reflection coefficients (Levinson, backwards)."""
    r = [scale]
    a = np.zeros(0)
    e = scale
    for k in rho:
        r.append(k * e + np.dot(a, r[::-1][:len(a)]) if len(a) else k * e)
        a = np.concatenate([a - k * a[::-1], [k]])
        e *= 1 - k * k
    return np.array(r)


def row(rng, n):
    i = np.arange(n)
    k = choice(rng, ['spectral', 'ar1', 'ar1neg', 'reflect', 'reflect', 'dominant', 'rbf', 'matern', 'cosine', 'white', 'integer', 'banded', 'edge', 'edge'])
    if k == 'spectral':
        w, f = np.exp(rng.randn(6)), rng.uniform(0, np.pi, 6)
        t = (w * np.cos(np.outer(i, f))).sum(1)
        t[0] += np.exp(rng.uniform(-6, 1)) * t[0]
    elif k == 'ar1':
        t = choice(rng, [rng.uniform(0, .99), 1 - 10. ** rng.uniform(-4, -1)]) ** i
    elif k == 'ar1neg':
        t = (-choice(rng, [rng.uniform(0, .99), 1 - 10. ** rng.uniform(-4, -1)])) ** i
    elif k == 'reflect':
        t = from_reflections(rng.uniform(-.9, .9, n - 1) * choice(rng, [1., .5, .1]) / np.sqrt(1 + i[1:] / 4.), 1.)
    elif k == 'dominant':
        t = rng.randn(n)
        t[0] = 2.1 * np.abs(t[1:]).sum() + .5
    elif k == 'rbf':
        t = np.exp(-.5 * (i * np.exp(rng.uniform(-2, 1))) ** 2)
        t[0] += 1e-4
    elif k == 'matern':
        d = i * np.exp(rng.uniform(-3, 1))
        t = (1 + d) * np.exp(-d)
        t[0] += 1e-6
    elif k == 'cosine':
        t = np.cos(i * rng.uniform(0, np.pi))
        t[0] += np.exp(rng.uniform(-7, 0))
    elif k == 'edge':       # nearly singular at one place
        rho = rng.uniform(-.3, .3, n - 1)
        if n > 1:
            rho[choice(rng, [-1, -1, 0, rng.randint(n - 1)])] = float(choice(rng, [-1, 1])) * (1 - 10. ** rng.uniform(-7.6, -1))
        t = from_reflections(rho, 1.)
    elif k == 'white':
        t = np.zeros(n)
        t[0] = 1
    elif k == 'banded':
        b = min(n, int(rng.randint(1, 6)))
        t = np.zeros(n)
        t[:b] = 1 - np.arange(b) / b
        t[0] += .01
    else:
        t = rng.randint(-3, 4, n)
        t[0] = int(2 * np.abs(t[1:]).sum()) + 1
        return k, t
    return k, t * 10. ** rng.uniform(-4, 4)


def faint(rng, mon, idx):
    """Correlations far below one still count, to the last digits."""
    n = int(choice(rng, [2, 3, 4, 6, 10, 25]))
    t = np.zeros(n)
    t[1:] = rng.choice([-1., 1.], n - 1) * 10. ** rng.uniform(-13, -3, n - 1)
    if rng.rand() < .5:
        t[1:] *= rng.rand(n - 1) < .5
    t[0] = 1.
    c = 10. ** rng.uniform(-3, 3)
    with contextlib.redirect_stdout(io.StringIO()):
        C = np.asarray(shur(t * c))
    off = np.triu(C.T.dot(C), 1) / c
    want = np.triu(dense_toep(t), 1)
    mon.close(off, want, 'faint correlations are reproduced', 0, 4e-16 * n)
    mon.event('faint rows')
    mon.sig('faint', n, int(np.log10(np.abs(t[1:]).max() + 1e-30)))


def factor(rng, mon, idx):
    for _ in range(4):
        n = int(choice(rng, [1, 2, 3, 4, 5, 8, 13, 30, 64, 100]))
        if idx % 40 == 0:
            n = int(choice(rng, [300, 520, 650]))
        k, t = row(rng, n)
        T = dense_toep(t)
        w = np.linalg.eigvalsh(T)
        if not w[0] > 1e-8 * w[-1]:
            mon.event('rows skipped as ill-conditioned')
            continue
        cond = w[-1] / w[0]
        if rng.rand() < .3:
            t = np.repeat(t, 2)[::2]
        if rng.rand() < .3:
            t.flags.writeable = False
        keep = t.copy()
        mon.describe(kind=k, n=n, cond=cond, top=t)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            C = np.asarray(shur(t))
        mon.check(C.shape == (n, n), 'factor shape', got=C.shape)
        mon.check(np.isfinite(C).all(), 'factor finite')
        mon.check(bool((np.tril(C, -1) == 0).all()), 'factor upper triangular')
        mon.check(bool((np.diag(C) > 0).all()), 'factor has a positive diagonal', diag=np.diag(C))
        mon.close(C.T.dot(C), T, 'factor reproduces the matrix', 1e-11 * n + 1e-15 * cond * n, kind=k)
        mon.same(t, keep, 'row left')
        L = np.linalg.cholesky(T).T
        mon.close(C, L, 'factor is the Cholesky factor', 1e-10 + 1e-14 * cond * n, kind=k)
        c = 10. ** rng.uniform(-3, 3)
        with contextlib.redirect_stdout(out):
            C2 = np.asarray(shur(t * c))
        mon.close(C2, C * np.sqrt(c), 'scaling', 1e-10 + 1e-14 * cond * n, c=c)
        mon.event('factors')
        mon.event('factor rows', n)
        mon.sig(k, n)


FAMILIES = [('faint', faint, 200, 4000), ('factor', factor, 200, 6000)]
MIN_EVENTS = {'factors': 400}
