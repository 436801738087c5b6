"""C28: malformed input is rejected with ValueError before any result."""
import copy

import numpy as np

from runlmc.models.multigp import MultiGP
from runlmc.approx.interpolation import interp_bicubic, interp_cubic
from runlmc.kern.rbf import RBF
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.diag import Diag
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.parameterization.priors import Gaussian
from runlmc.util.numpy_convenience import search_descending, tesselate
from vmon import gen
from vmon.gen import choice

RULE = ('fault injection at the interface: a well-formed construction or query is generated, shown to be accepted, and '
        'one mistake is planted at a random position (output, kernel, argument); anything but ValueError is a '
        'violation; distinct = (mistake, position, outputs, dimension)')
ASSUMPTIONS = ['arguments have the right Python types (arrays, lists, numbers)']


def other_len(rng, x):
    n = len(x)
    return x[:n - 1] if n > 2 and rng.rand() < .5 else np.concatenate([x, x[-1:]])


def data_faults(rng, P, D):
    """name -> function(Xs, Ys, d) -> (Xs, Ys); None if it does not apply."""
    def sub(L, d, v):
        L = list(L)
        L[d] = v
        return L
    const = lambda Y: np.full(len(Y), float(choice(rng, [0., 1., -2.5, 0.1, 1e6, 1 / 3., 1e-7, 123.456])))
    def exchanged(X, Y, d):
        """One output too long and the next too short, same total."""
        e = (d + 1) % D
        if e == d or len(X[e]) < 3:
            return None
        return sub(sub(X, d, np.concatenate([X[d], X[e][:1]])), e, X[e][1:]), Y
    F = {
        'no outputs': lambda X, Y, d: ([], []),
        'fewer inputs': lambda X, Y, d: (X[:d] + X[d + 1:], Y) if D > 1 else None,
        'fewer outputs': lambda X, Y, d: (X, Y[:d] + Y[d + 1:]),
        'more inputs': lambda X, Y, d: (X + [X[d].copy()], Y),
        'more outputs': lambda X, Y, d: (X, Y + [Y[d].copy()]),
        'short or long input': lambda X, Y, d: (sub(X, d, other_len(rng, X[d])), Y),
        'short or long output': lambda X, Y, d: (X, sub(Y, d, other_len(rng, Y[d]))),
        'input of three dimensions': lambda X, Y, d: (sub(X, d, X[d].reshape(len(X[d]), -1, 1)), Y),
        'output as column': lambda X, Y, d: (X, sub(Y, d, Y[d].reshape(-1, 1))),
        'output as matrix': lambda X, Y, d: (X, sub(Y, d, np.column_stack([Y[d], Y[d]]))),
        'another input dimension': lambda X, Y, d: (sub(X, d, rng.rand(len(X[d]), P + 1)), Y) if D > 1 else None,
        'vector among matrices': lambda X, Y, d: (sub(X, d, X[d][:, 0]), Y) if P > 1 and D > 1 else None,
        'constant output': lambda X, Y, d: (X, sub(Y, d, const(Y[d]))),
        'lengths exchanged between outputs': lambda X, Y, d: exchanged(X, Y, d),
        'lengths of all outputs rotated': lambda X, Y, d: (
            X, Y[1:] + Y[:1]) if D > 1 and any(len(a) != len(b) for a, b in zip(X, Y[1:] + Y[:1])) else None,
        'constant integer output': lambda X, Y, d: (X, sub(Y, d, np.full(len(Y[d]), 7))),
        'single observation': lambda X, Y, d: (sub(X, d, X[d][:1]), sub(Y, d, Y[d][:1])),
    }
    return F


class Bare(MultiGP):
    """The checks every model makes, and nothing else."""

    def parameters_changed(self):
        pass


def construct(pr, Xs, Ys, fk='build', **kw):
    if fk == 'build':
        fk, _ = gen.build_fk(pr.sp)
    return InterpolatedLLGP(Xs, Ys, functional_kernel=fk, **pr.kwargs(trace_iterations=1, **kw))


def problem(rng):
    P = int(choice(rng, [1, 1, 2]))
    pr = gen.Problem(rng, nmax=6, nmin=3, max_q=2, P=P, D=int(choice(rng, [1, 2, 3, 4])))
    if P == 2:
        pr.m = [2, 2]
    return pr


def data(rng, mon, idx):
    pr = problem(rng)
    F = data_faults(rng, pr.P, pr.D)
    names = sorted(F)
    for j in range(4):
        name = names[(idx * 4 + j) % len(names)]
        d = int(rng.randint(pr.D))
        r = F[name]([X.copy() for X in pr.Xs], [Y.copy() for Y in pr.Ys], d)
        if r is None:
            continue
        mon.raises(ValueError, 'refused: ' + name, construct, pr, *r)
        mon.raises(ValueError, 'refused by any model: ' + name, Bare, *r, normalize=pr.normalize)
        mon.event('mistakes')
        mon.sig(name, d, pr.D, pr.P, pr.normalize)
    if idx % 4 == 0:
        construct(pr, [X.copy() for X in pr.Xs], [Y.copy() for Y in pr.Ys])
        Bare([X.copy() for X in pr.Xs], [Y.copy() for Y in pr.Ys], normalize=pr.normalize)
        mon.event('accepted')
    pr.describe(mon)


def model_args(rng, mon, idx):
    pr = problem(rng)
    mon.raises(ValueError, 'refused: no kernel', construct, pr, pr.Xs, pr.Ys, None)
    for mode in ('sample', 'matrix-free', 'EXACT', 'on_the_fly', ''):
        if rng.rand() < .5:
            mon.raises(ValueError, 'refused: unknown prediction mode', construct, pr, pr.Xs, pr.Ys, prediction=mode)
            mon.event('mistakes')
    D2 = int(choice(rng, [d for d in (1, 2, 3, 4, 5) if d != pr.D]))
    fk = FunctionalKernel(D=D2, lmc_kernels=[RBF(name='r')], lmc_ranks=[1])
    mon.raises(ValueError, 'refused: output count of the kernel disagrees', construct, pr, pr.Xs, pr.Ys, fk)
    mon.event('mistakes', 2)
    fk, _ = gen.build_fk(pr.sp)
    fk.set_input_dim(pr.P)
    fk.set_input_dim(pr.P)          # the same dimension again is fine
    mon.raises(ValueError, 'refused: another input dimension for the same kernel', fk.set_input_dim, pr.P + 1)
    if pr.P > 1:
        mon.raises(ValueError, 'refused: a smaller input dimension for the same kernel', fk.set_input_dim, pr.P - 1)
    # a refused construction leaves no damage: the same data are accepted afterwards
    m = pr.build(trace_iterations=1)
    for _ in range(3):
        d = int(rng.randint(pr.D))
        Q = [np.asarray(X)[:2] for X in pr.Xs]
        kind = rng.randint(3)
        if kind == 0:
            Q[d] = rng.rand(2, pr.P + 1)
        elif kind == 1:
            Q[d] = rng.rand(0, pr.P + 1)
        elif pr.P > 1:
            Q[d] = rng.rand(pr.P)
        else:
            Q[d] = rng.rand(1, 2)
        fn = m.predict if rng.rand() < .5 else m.predict_quantiles
        mon.raises(ValueError, 'refused: query of the wrong dimension', fn, Q)
        mon.event('mistakes')
        mon.sig('query', d, pr.D, pr.P, int(kind))
    m.predict([np.asarray(X)[:1] for X in pr.Xs])
    mon.event('accepted')


def kerns(rng, k):
    return [RBF(name='r%d' % i) for i in range(k)]


def kernel_args(rng, mon, idx):
    D = int(rng.randint(1, 5))
    L, S, I = int(rng.randint(1, 4)), int(rng.randint(0, 3)), int(rng.randint(0, D + 1))

    def base():
        kw = dict(D=D, lmc_kernels=kerns(rng, L), lmc_ranks=[int(rng.randint(1, 4)) for _ in range(L)])
        if S:
            kw['slfm_kernels'] = kerns(rng, S)
        if I:
            kw['indep_gp'] = kerns(rng, I)
            if rng.rand() < .5:
                kw['indep_gp_index'] = [int(rng.randint(D)) for _ in range(I)]
        return kw
    FunctionalKernel(**base())
    mon.event('accepted')

    def bad(name, **kw):
        b = base()
        for k, v in kw.items():
            if v == 'drop':
                b.pop(k, None)
            else:
                b[k] = v
        mon.raises(ValueError, 'refused: ' + name, FunctionalKernel, **b)
        mon.event('mistakes')
        mon.sig(name, D, L, S, I)
    bad('no output count', D=None)
    bad('zero outputs', D=0)
    bad('no kernels', lmc_kernels=None, lmc_ranks=None, slfm_kernels=None, indep_gp=None, indep_gp_index=None)
    bad('empty kernels', lmc_kernels=[], lmc_ranks=[], slfm_kernels=[], indep_gp=[], indep_gp_index=None)
    bad('too few ranks', lmc_ranks=[1] * (L - 1))
    bad('too many ranks', lmc_ranks=[1] * (L + 1))
    bad('ranks missing', lmc_ranks='drop')
    bad('kernels missing for ranks', lmc_kernels='drop', slfm_kernels=kerns(rng, 1))
    r = [int(rng.randint(1, 4)) for _ in range(L)]
    r[rng.randint(L)] = int(choice(rng, [0, -1, -3]))
    bad('rank not positive', lmc_ranks=r)
    k = int(rng.randint(1, D + 1))
    ix = [int(rng.randint(D)) for _ in range(k)]
    bad('too few indices', indep_gp=kerns(rng, k + 1), indep_gp_index=ix)
    bad('too many indices', indep_gp=kerns(rng, k), indep_gp_index=ix + [0])
    jx = list(ix)
    jx[rng.randint(k)] = int(choice(rng, [D, D + 3, -1 - D, -1]))
    bad('index out of range', indep_gp=kerns(rng, k), indep_gp_index=jx)
    bad('more independent kernels than outputs', indep_gp=kerns(rng, D + 1), indep_gp_index='drop')
    # well-formed ones of every mix
    for kw in (dict(slfm_kernels=kerns(rng, 2)), dict(indep_gp=kerns(rng, D)), dict(indep_gp=kerns(rng, k), indep_gp_index=ix),
               dict(slfm_kernels=kerns(rng, 1), indep_gp=kerns(rng, D)), dict(lmc_kernels=kerns(rng, 1), lmc_ranks=[D + 2]),
               dict(lmc_kernels=kerns(rng, 2), lmc_ranks=(1, 2))):
        FunctionalKernel(D=D, **kw)
        mon.event('accepted')


def matrices(rng, mon, idx):
    n = int(rng.randint(1, 6))

    def bad(name, fn, *a):
        mon.raises(ValueError, 'refused: ' + name, fn, *a)
        mon.event('mistakes')
        mon.sig(name, n)
    bad('matrix of no rows', Matrix, 0, n)
    bad('matrix of no columns', Matrix, n, 0)
    bad('matrix of negative size', Matrix, n, -int(rng.randint(1, 4)))
    bad('dense vector', NumpyMatrix, rng.rand(n))
    bad('dense cube', NumpyMatrix, rng.rand(n, n, 2))
    bad('diagonal from a matrix', Diag, rng.rand(n, n + 1))
    bad('empty diagonal', Diag, np.array([]))
    bad('Toeplitz from a matrix', Toeplitz, rng.rand(n, n))
    bad('empty Toeplitz', Toeplitz, np.array([]))
    a, b = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    bad('BTTB from a matrix', BTTB, rng.rand(a, b), np.array([a, b]))
    bad('empty BTTB', BTTB, np.array([]), np.array([0]))
    bad('BTTB sizes disagree', BTTB, rng.rand(a * b), np.array([a, b + 1]))
    bad('BTTB sizes not a vector', BTTB, rng.rand(a * b), np.array([[a], [b]]))
    bad('empty sum', SumMatrix, [])
    sq = [NumpyMatrix(rng.rand(n, n)) for _ in range(3)]
    odd = list(sq)
    odd[rng.randint(3)] = NumpyMatrix(rng.rand(n + 1, n + 1))
    bad('sum of different shapes', SumMatrix, odd)
    row = [[sq[0], sq[1]], [sq[1], sq[2]]]
    SymmSquareBlockMatrix(row)
    i = rng.randint(2)
    row[i] = row[i][:1] if rng.rand() < .5 else row[i] + [sq[0]]
    bad('ragged blocks', SymmSquareBlockMatrix, row)
    SumMatrix(sq)
    BTTB(rng.rand(a * b), np.array([a, b]))
    mon.event('accepted', 3)


def others(rng, mon, idx):
    def bad(name, fn, *a, **kw):
        mon.raises(ValueError, 'refused: ' + name, fn, *a, **kw)
        mon.event('mistakes')
        mon.sig(name, idx % 8)
    bad('variance not positive', Gaussian, float(rng.randn()), float(choice(rng, [0., -1., -1e-9])))
    n = int(rng.randint(1, 9))
    x = rng.rand(n)
    lens = [int(v) for v in rng.multinomial(n, [.25] * 4)]
    tesselate(x, lens)
    bad('no lengths', tesselate, x, [])
    w = list(lens)
    w[rng.randint(4)] += int(choice(rng, [1, 2]))
    bad('lengths too long', tesselate, x, w)
    if n > 1:
        bad('lengths too short', tesselate, x, [n - 1])
    y = np.sort(rng.rand(n + 2))
    bad('array not descending', search_descending, .5, y, bool(rng.rand() < .5))
    z = np.sort(rng.rand(n + 3))[::-1].copy()
    i = rng.randint(n + 2)
    z[[i, i + 1]] = z[[i + 1, i]]
    bad('array not descending somewhere', search_descending, .5, z, bool(rng.rand() < .5))
    g = np.linspace(0, 1, rng.randint(4, 12))
    s = rng.rand(5)
    interp_cubic(g, s)
    bad('grid of two dimensions', interp_cubic, np.vstack([g, g, g, g]), s)
    bad('samples of two dimensions', interp_cubic, g, s.reshape(-1, 1))
    bad('grid too small', interp_cubic, g[:3], s)
    h = g.copy()
    h[rng.randint(1, len(g) - 1)] += (g[1] - g[0]) * float(choice(rng, [.2, -.4]))
    bad('grid not equispaced', interp_cubic, h, s)
    bad('grid descending', interp_cubic, g[::-1], s)
    T = rng.rand(4, 2)
    g2 = np.linspace(-1, 1, rng.randint(4, 9))
    interp_bicubic(g, g2, T)
    for q in range(2):
        def two(v, q=q):
            return (v, g2) if q == 0 else (g, v)
        bad('grid too small (two inputs)', interp_bicubic, *two(g[:3]), T)
        bad('grid not equispaced (two inputs)', interp_bicubic, *two(h), T)
        bad('grid of two dimensions (two inputs)', interp_bicubic, *two(np.vstack([g, g, g, g])), T)
    bad('samples of three coordinates', interp_bicubic, g, g2, rng.rand(4, 3))
    bad('samples as a vector', interp_bicubic, g, g2, rng.rand(4))
    mon.event('accepted', 3)


FAMILIES = [('data', data, 120, 2500), ('model_args', model_args, 30, 600), ('kernel_args', kernel_args, 120, 3000),
            ('matrices', matrices, 60, 1500), ('others', others, 60, 1500)]
MIN_EVENTS = {'mistakes': 1500, 'accepted': 200}
