"""Random nestings of structured matrices with their dense definitions."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sps

from runlmc.approx.ski import SKI
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz

from .gen import choice


class M:
    """obj: structured matrix; dense: its definition; bound: entrywise bound on
    intermediate magnitudes (for rounding tolerances); name: its structure."""

    def __init__(self, obj, dense, bound, name, inputs=(), kids=()):
        self.obj, self.dense, self.bound, self.name = obj, dense, bound, name
        self.inputs = list(inputs)      # arrays handed to the constructor
        self.kids = list(kids)

    def all_inputs(self):
        out = list(self.inputs)
        for k in self.kids:
            out += k.all_inputs()
        return out

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def raw(rng, shape):
    """An array of varying dtype and memory layout."""
    st = rng.randint(8)
    if st == 0:
        a = rng.randint(-5, 6, shape)
    elif st == 1:
        a = rng.randn(*shape).astype('float32')
    elif st == 2:
        a = rng.randint(-5, 6, shape).astype('int32')
    else:
        a = rng.randn(*shape) * np.exp(rng.uniform(-2, 2))
    lay = rng.randint(5)
    if lay == 1:
        a = np.asfortranarray(a)
    elif lay == 2:
        big = np.zeros(tuple(2 * s for s in shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in shape)]
        v[...] = a
        a = v
    elif lay == 3:
        a = a[tuple(slice(None, None, -1) for _ in shape)]
    if rng.rand() < 0.15:
        a = a.copy()
        a[tuple(rng.randint(0, s) for s in shape)] = 0
    return a


def dense_toep(top):
    n = len(top)
    i = np.arange(n)
    return np.asarray(top, float)[np.abs(i[:, None] - i[None, :])]


def dense_bttb(top, sizes):
    idx = np.indices(sizes).reshape(len(sizes), -1)
    d = np.abs(idx[:, :, None] - idx[:, None, :])
    flat = np.ravel_multi_index(tuple(d), sizes)
    return np.asarray(top, float)[flat]


def block_diag(mats):
    r = sum(m.shape[0] for m in mats)
    c = sum(m.shape[1] for m in mats)
    out = np.zeros((r, c))
    i = j = 0
    for m in mats:
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return out


def factorisations(n, k):
    if k == 1:
        return [(n,)]
    out = []
    for d in range(1, n + 1):
        if n % d == 0:
            out += [(d,) + f for f in factorisations(n // d, k - 1)]
    return out


def parts(rng, n, k):
    cuts = np.sort(rng.choice(n - 1, k - 1, replace=False) + 1) if k > 1 else []
    e = np.concatenate([[0], cuts, [n]]).astype(int)
    return np.diff(e).tolist()


LEAVES = ['toeplitz', 'bttb1', 'bttb2', 'bttb3', 'numpy', 'diag', 'identity', 'wrap']
NODES = ['kron', 'kron', 'blockdiag', 'symmblock', 'sum', 'comp', 'ski']


def leaky(d):
    """Products by Fourier transform round relative to the largest entry."""
    return np.abs(d) + 1e-3 * np.abs(d).max(initial=0)


def leaf(rng, r, c, kind=None):
    sq = r == c
    if kind is None:
        kind = choice(rng, LEAVES if sq else ['numpy', 'wrap'])
    if kind == 'toeplitz':
        top = raw(rng, (r,))
        d = dense_toep(top)
        return M(Toeplitz(top), d, leaky(d), 'T%d' % r, [top])
    if kind.startswith('bttb'):
        k = int(kind[-1])
        fs = factorisations(r, k)
        sizes = choice(rng, fs)
        top = raw(rng, (r,))
        d = dense_bttb(top, sizes)
        sz = choice(rng, [sizes, list(sizes), np.array(sizes)])
        return M(BTTB(top, sz), d, leaky(d), 'BTTB%s' % (sizes,), [top])
    if kind == 'diag':
        v = raw(rng, (r,))
        if v.dtype == np.float32:   # stored as given: float32 rounding would apply
            v = v.astype(float)
        d = np.diag(np.asarray(v, float))
        return M(Diag(v), d, np.abs(d), 'Diag%d' % r, [v])
    if kind == 'identity':
        return M(Identity(r), np.identity(r), np.identity(r), 'I%d' % r)
    if kind == 'wrap':
        a = rng.randn(r, c)
        return M(Matrix.wrap((r, c), a.dot), a, np.abs(a), 'wrap', [a])
    a = raw(rng, (r, c))
    d = np.asarray(a, float)
    return M(NumpyMatrix(a), d, np.abs(d), 'N', [a])


def gen(rng, r, c, depth):
    if depth <= 0 or rng.rand() < 0.15:
        return leaf(rng, r, c)
    kinds = [k for k in NODES if r == c or k not in ('symmblock', 'ski')]
    return node(rng, r, c, depth, choice(rng, kinds))


def node(rng, r, c, depth, kind):
    if kind == 'kron':
        fr, fc = choice(rng, factorisations(r, 2)), choice(rng, factorisations(c, 2))
        if r == c and rng.rand() < 0.6:
            fc = fr
        A, B = gen(rng, fr[0], fc[0], depth - 1), gen(rng, fr[1], fc[1], depth - 1)
        return M(Kronecker(A.obj, B.obj), np.kron(A.dense, B.dense), np.kron(A.bound, B.bound),
                 'Kron(%s,%s)' % (A.name, B.name), kids=[A, B])
    if kind == 'blockdiag':
        k = rng.randint(1, min(r, c, 4) + 1)
        rp = parts(rng, r, k)
        cp = rp if r == c and rng.rand() < 0.6 else parts(rng, c, k)
        ms = [gen(rng, a, b, depth - 1) for a, b in zip(rp, cp)]
        return M(BlockDiag([m.obj for m in ms]), block_diag([m.dense for m in ms]),
                 block_diag([m.bound for m in ms]), 'BD(%s)' % ','.join(m.name for m in ms), kids=ms)
    if kind == 'symmblock':
        ds = [d for d in range(1, min(r, 5) + 1) if r % d == 0]
        D = choice(rng, ds)
        b = r // D
        blocks = np.empty((D, D), dtype=object)
        dense, bound = np.zeros((r, r)), np.zeros((r, r))
        kids = []
        for i in range(D):
            for j in range(i, D):
                m = gen(rng, b, b, depth - 1)
                kids.append(m)
                for x, y in ((i, j), (j, i)):
                    blocks[x, y] = m.obj
                    dense[x * b:(x + 1) * b, y * b:(y + 1) * b] = m.dense
                    bound[x * b:(x + 1) * b, y * b:(y + 1) * b] = m.bound
        return M(SymmSquareBlockMatrix(blocks), dense, bound, 'SB%d(%s)' % (D, kids[0].name), kids=kids)
    if kind == 'sum':
        ms = [gen(rng, r, c, depth - 1) for _ in range(rng.randint(1, 4))]
        if rng.rand() < 0.2:
            ms.append(ms[0])
        return M(SumMatrix([m.obj for m in ms]), sum(m.dense for m in ms), sum(m.bound for m in ms),
                 'Sum(%s)' % ','.join(m.name for m in ms), kids=ms)
    if kind == 'comp':
        k = rng.randint(1, 4)
        dims = [r] + [int(rng.randint(1, 13)) for _ in range(k - 1)] + [c]
        if r == c and rng.rand() < 0.5:
            dims = [r] * (k + 1)
        ms = [gen(rng, a, b, depth - 1) for a, b in zip(dims, dims[1:])]
        dense, bound = ms[0].dense, ms[0].bound
        for m in ms[1:]:
            dense, bound = dense.dot(m.dense), bound.dot(m.bound)
        return M(Composition([m.obj for m in ms]), dense, bound,
                 'Comp(%s)' % ','.join(m.name for m in ms), kids=ms)
    if kind == 'ski':
        k = int(rng.randint(1, 16))
        K = gen(rng, k, k, depth - 1)
        W = sps.random(r, k, density=0.4, random_state=rng, format='csr')
        if rng.rand() < 0.3:
            W = -W
        WT = W.transpose().tocsr()
        Wd = W.toarray()
        return M(SKI(K.obj, W, WT), Wd.dot(K.dense).dot(Wd.T), np.abs(Wd).dot(K.bound).dot(np.abs(Wd).T),
                 'SKI(%s)' % K.name, [W.data, WT.data], [K])
    raise AssertionError(kind)


def sibling(rng, m):
    """A leaf that shares class, size and summary statistics (first and last
    argument entry, sum, norm) with the leaf `m` but is another matrix."""
    a = m.inputs[0]
    v = np.array(a)
    flat = v.ravel()
    if flat.size > 3:
        inner = 1 + rng.permutation(flat.size - 2)
        flat[1:-1] = flat[inner]
    elif flat.size > 1:
        flat[:] = flat[::-1]
    v = flat.reshape(a.shape)
    if isinstance(m.obj, Toeplitz):
        d = dense_toep(v)
        return M(Toeplitz(v), d, leaky(d), m.name + "'", [v])
    if isinstance(m.obj, BTTB):
        sizes = tuple(int(t) for t in m.name[5:-1].split(',') if t.strip())
        d = dense_bttb(v, sizes)
        return M(BTTB(v, sizes), d, leaky(d), m.name + "'", [v])
    if isinstance(m.obj, Diag):
        d = np.diag(np.asarray(v, float))
        return M(Diag(v), d, np.abs(d), m.name + "'", [v])
    if isinstance(m.obj, NumpyMatrix):
        d = np.asarray(v, float)
        return M(NumpyMatrix(v), d, np.abs(d), m.name + "'", [v])
    return M(Matrix.wrap(v.shape, v.dot), v, np.abs(v), m.name + "'", [v])


SIBLINGS = ['toeplitz', 'bttb1', 'bttb2', 'bttb3', 'numpy', 'diag', 'wrap']


def gen_size(rng, big=False):
    if big:
        return int(choice(rng, [63, 64, 65, 100, 127, 128, 129, 144, 200, 255, 256, 257, 300]))
    return int(choice(rng, [1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 30, 31, 32, 33, 36]))


def tol(m, x):
    """Rounding allowance for m @ x."""
    s = m.bound.sum(axis=1).max() if m.bound.size else 0.
    # an identity factor hands a single-precision operand on as it is, and
    # whether such pieces are then added in single precision is not promised
    eps = 1e-11
    if getattr(x, 'dtype', None) == np.float32 and any(k.name.startswith('I') for k in m.walk()):
        eps = 1e-6
    return eps * (s * np.abs(np.asarray(x, float)).max() + 1e-300)


# ------------------------------------------------------- PSD with eig bounds
def psd_top(rng, n):
    """First row of a PSD Toeplitz matrix, possibly with negative entries."""
    i = np.arange(n)
    top = np.zeros(n)
    for _ in range(rng.randint(1, 4)):
        st = rng.randint(4)
        w = np.exp(rng.uniform(-2, 2))
        if st == 0:
            top += w * np.exp(-0.5 * (i * np.exp(rng.uniform(-3, 1))) ** 2)
        elif st == 1:
            top += w * np.exp(-i * np.exp(rng.uniform(-3, 1)))
        elif st == 2:
            top += w * np.cos(i * rng.uniform(0, np.pi))
        else:
            top[0] += w
    return top


def psd_leaf(rng, n):
    st = rng.randint(6)
    if st == 0:
        v = np.abs(rng.randn(n)) * np.exp(rng.uniform(-2, 2))
        if rng.rand() < .2:
            v[rng.randint(n)] = 0
        return M(Diag(v), np.diag(v), None, 'Diag%d' % n)
    if st == 1:
        return M(Identity(n), np.identity(n), None, 'I%d' % n)
    top = psd_top(rng, n)
    return M(Toeplitz(top), dense_toep(top), None, 'T%d' % n)


def psd(rng, n, depth, kind=None):
    if kind is None and (depth <= 0 or rng.rand() < 0.2):
        return psd_leaf(rng, n)
    kind = kind or choice(rng, ['kron', 'sum', 'symmblock', 'symmblock', 'ski'])
    if kind == 'kron':
        f = choice(rng, factorisations(n, 2))
        A, B = psd(rng, f[0], depth - 1), psd(rng, f[1], depth - 1)
        return M(Kronecker(A.obj, B.obj), np.kron(A.dense, B.dense), None,
                 'Kron(%s,%s)' % (A.name, B.name))
    if kind == 'sum':
        ms = [psd(rng, n, depth - 1) for _ in range(rng.randint(1, 4))]
        return M(SumMatrix([m.obj for m in ms]), sum(m.dense for m in ms), None,
                 'Sum(%s)' % ','.join(m.name for m in ms))
    if kind == 'symmblock':
        D = choice(rng, [d for d in range(1, min(n, 6) + 1) if n % d == 0])
        b = n // D
        Q = rng.randint(1, 3)
        tops = np.array([psd_top(rng, b) for _ in range(Q)])
        Bs = []
        for _ in range(Q):
            A = rng.randn(D, rng.randint(1, D + 1))
            Bs.append(A.dot(A.T))
        bt = np.tensordot(np.array(Bs), tops, axes=(0, 0))
        blocks = np.empty((D, D), dtype=object)
        dense = np.zeros((n, n))
        for i in range(D):
            for j in range(D):
                if j >= i:
                    blocks[i, j] = blocks[j, i] = Toeplitz(bt[i, j])
                dense[i * b:(i + 1) * b, j * b:(j + 1) * b] = dense_toep(bt[i, j])
        return M(SymmSquareBlockMatrix(blocks), dense, None, 'SB%d' % D)
    k = int(rng.randint(1, 20))
    K = psd(rng, k, depth - 1)
    W = sps.random(n, k, density=choice(rng, [0.1, 0.4, 1.0]), random_state=rng, format='csr')
    W.data -= 0.3
    Wd = W.toarray()
    return M(SKI(K.obj, W, W.transpose().tocsr()), Wd.dot(K.dense).dot(Wd.T), None, 'SKI(%s)' % K.name)
