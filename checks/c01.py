"""C01: structured matrices == the dense matrices they define."""
import numpy as np

from vmon import matgen as G
from vmon.gen import choice

RULE = ('random nestings (depth 0-3) of all matrix types over sizes 1..300, operands of varying dtype and '
        'layout; every product compared with the dense definition; distinct = structure string x operand style')
ASSUMPTIONS = ['dense reference built from constructor arguments with numpy indexing only',
               'tolerance 1e-11 x entrywise magnitude bound']


def operand(rng, n, k=None):
    shape = (n,) if k is None else (n, k)
    x = G.raw(rng, shape)
    st = rng.randint(14)
    if st == 4:
        x = np.full(shape, rng.randn())
    elif st == 5:               # cancels exactly
        x = np.zeros(shape)
        x[:n // 2] = rng.randint(1, 5, x[:n // 2].shape)
        x[n - n // 2:] = -x[:n // 2][::-1]
    elif st == 6 and k is not None:
        x = rng.randn(*shape)
        x[:, rng.randint(k)] = 0
    elif st == 7 and k is not None:
        x = np.repeat(rng.randn(n, 1), k, axis=1)
    elif st == 8 and k == n:
        x = rng.randn(n, n)
        x = x + x.T
    elif st == 9:
        x = np.zeros(shape)
    elif st == 0:
        x = (rng.rand(*shape) < 0.5)
    elif st == 1:
        x = np.asarray(x).copy()
        x.setflags(write=False)
    elif st == 2:
        x = np.zeros(shape)
        x[(rng.randint(n),) + (() if k is None else (rng.randint(k),))] = 1
    elif st == 3:
        x = rng.randn(*shape) * 10. ** rng.randint(-9, 10)
    return x


def observe(rng, mon, m, full=True):
    obj, d = m.obj, m.dense
    mon.check(tuple(obj.shape) == d.shape, 'shape', got=obj.shape, want=d.shape)
    x = operand(rng, d.shape[1])
    xf = np.asarray(x, float)
    mon.sig(m.name, str(x.dtype), x.flags.c_contiguous)
    mon.close(obj.matvec(x), d.dot(xf), 'matvec', 0, G.tol(m, x), matrix=m.name, dtype=str(x.dtype))
    k = int(choice(rng, [1, 2, 3, 5, d.shape[1]]))
    X = operand(rng, d.shape[1], k)
    Xf = np.asarray(X, float)
    mon.close(obj.matmat(X), d.dot(Xf), 'matmat', 0, G.tol(m, X), matrix=m.name, dtype=str(X.dtype), k=k)
    mon.close(obj.as_numpy(), d, 'as_numpy', 0, G.tol(m, 1.), matrix=m.name)
    if full:
        op = obj.as_linear_operator()
        mon.check(tuple(op.shape) == d.shape, 'op shape')
        mon.close(op.matvec(xf), d.dot(xf), 'op.matvec', 0, G.tol(m, x), matrix=m.name)
        mon.close(op.matmat(Xf), d.dot(Xf), 'op.matmat', 0, G.tol(m, X), matrix=m.name)
        mon.close(op.dot(xf), d.dot(xf), 'op.dot', 0, G.tol(m, x), matrix=m.name)
        mon.check(obj.is_square() == (d.shape[0] == d.shape[1]), 'is_square')
    mon.describe(matrix=m.name, shape=d.shape)


def leaves(rng, mon, idx):
    n = int(choice(rng, list(range(1, 41)) + [63, 64, 65, 127, 128, 129]))
    for kind in G.LEAVES:
        observe(rng, mon, G.leaf(rng, n, n, kind))
    observe(rng, mon, G.leaf(rng, n, G.gen_size(rng)))


def nested(rng, mon, idx):
    r = G.gen_size(rng)
    c = r if rng.rand() < 0.65 else G.gen_size(rng)
    observe(rng, mon, G.gen(rng, r, c, int(rng.randint(1, 4))))


def each_node(rng, mon, idx):
    r = G.gen_size(rng)
    for kind in sorted(set(G.NODES)):
        c = r if kind in ('symmblock', 'ski') or rng.rand() < 0.5 else G.gen_size(rng)
        observe(rng, mon, G.node(rng, r, c, 1, kind))


def scaled(rng, mon, idx):
    """Homogeneity: operands and matrices many orders of magnitude from one."""
    r = G.gen_size(rng)
    kind = sorted(set(G.NODES))[idx % len(set(G.NODES))]
    m = G.node(rng, r, r, 1, kind) if idx % 2 else G.leaf(rng, r, r, choice(rng, G.LEAVES))
    d = m.dense
    for e in (-70, -45, 45):
        c = 2. ** e
        x = rng.randn(d.shape[1]) * c
        mon.close(m.obj.matvec(x) / c, d.dot(x / c), 'matvec of scaled operands', 0, G.tol(m, x / c), matrix=m.name, exponent=e)
        X = rng.randn(d.shape[1], 3) * c
        mon.close(m.obj.matmat(X) / c, d.dot(X / c), 'matmat of scaled operands', 0, G.tol(m, X / c), matrix=m.name, exponent=e)
    mon.sig('scaled', m.name)


def big(rng, mon, idx):
    r = G.gen_size(rng, True)
    kind = choice(rng, ['leaf', 'leaf', 'kron', 'blockdiag', 'symmblock', 'sum', 'comp', 'ski'])
    m = G.leaf(rng, r, r, choice(rng, ['toeplitz', 'bttb1', 'bttb2', 'bttb3', 'diag'])) \
        if kind == 'leaf' else G.node(rng, r, r, 1, kind)
    observe(rng, mon, m)


def grid_shapes(rng, mon, idx):
    """Block-Toeplitz of order 1-4 over every small grid shape."""
    k = 1 + idx % 4
    hi = {1: 40, 2: 14, 3: 7, 4: 4}[k]
    for _ in range(4):
        sizes = tuple(int(s) for s in rng.randint(1, hi + 1, k))
        if np.prod(sizes) > 700:
            continue
        top = G.raw(rng, (int(np.prod(sizes)),))
        d = G.dense_bttb(top, sizes)
        m = G.M(G.BTTB(top, choice(rng, [sizes, list(sizes), np.array(sizes)])), d, np.abs(d), 'BTTB%s' % (sizes,))
        observe(rng, mon, m)


def rows_of(top, sizes, rows):
    idx = np.indices(sizes).reshape(len(sizes), -1)
    return np.array([np.asarray(top, float)[np.ravel_multi_index(tuple(np.abs(idx - idx[:, [r]])), sizes)] for r in rows])


SHAPES = [(600,), (1000,), (1025,), (2048,), (3000,), (4097,), (6000,), (9000,), (40, 40), (64, 65), (33, 129), (100, 30),
          (150, 31), (12, 12, 12), (17, 9, 16), (8, 9, 10, 7)]


def large(rng, mon, idx):
    """Grids of realistic size: randomly chosen rows against their definition."""
    sizes = SHAPES[idx % len(SHAPES)]
    n = int(np.prod(sizes))
    top = rng.randn(n) if rng.rand() < .5 else np.exp(-np.arange(n) * 10. ** rng.uniform(-4, 0))
    obj = G.BTTB(top, sizes) if len(sizes) > 1 or rng.rand() < .5 else G.Toeplitz(top)
    rows = np.unique(np.concatenate([[0, n - 1, n // 2], rng.randint(0, n, 12)]))
    R = rows_of(top, sizes, rows)
    X = np.column_stack([rng.randn(n), np.ones(n), np.eye(1, n, rng.randint(n))[0]])
    tol = 1e-12 * np.abs(R).sum(1).max() * 4
    want = R.dot(X)
    for j in range(X.shape[1]):
        mon.close(obj.matvec(X[:, j])[rows], want[:, j], 'large product', 0, tol * np.abs(X[:, j]).max(), sizes=sizes)
    mon.close(obj.matmat(X)[rows], want, 'large matrix product', 0, tol * np.abs(X).max(), sizes=sizes)
    # Kronecker with a small factor, through the identity (A x T) vec = vec(A X T)
    A = rng.randn(2, 3)
    K = G.Kronecker(G.NumpyMatrix(A), obj)
    v = rng.randn(3 * n)
    want = A.dot(np.array([R.dot(v[i * n:(i + 1) * n]) for i in range(3)]))
    got = np.asarray(K.matvec(v)).reshape(2, n)[:, rows]
    mon.close(got, want, 'large Kronecker product', 0, tol * 12 * np.abs(v).max(), sizes=sizes)
    mon.event('large grids')
    mon.sig('large', sizes, type(obj).__name__)


def sizes(rng, mon, idx):
    """Every size in turn."""
    n = idx % 320 + 1
    ms = [G.leaf(rng, n, n, k) for k in ('toeplitz', 'bttb1', 'bttb2', 'bttb3')]
    if n <= 100:
        a, b = ms[rng.randint(4)], G.leaf(rng, int(rng.randint(1, 6)), int(rng.randint(1, 6)))
        ms.append(G.M(G.BlockDiag([a.obj, b.obj]), G.block_diag([a.dense, b.dense]),
                      G.block_diag([a.bound, b.bound]), 'BD(%s,%s)' % (a.name, b.name)))
        ms.append(G.M(G.Kronecker(b.obj, a.obj), np.kron(b.dense, a.dense), np.kron(b.bound, a.bound),
                      'Kron(%s,%s)' % (b.name, a.name)))
    for m in ms:
        c = m.dense.shape[1]
        X = np.column_stack([rng.randn(c), np.arange(c) == c - 1, np.ones(c)]).astype(float)
        for x in X.T:
            mon.close(m.obj.matvec(x), m.dense.dot(x), 'product, every size', 0, G.tol(m, x), matrix=m.name)
        mon.close(m.obj.matmat(X), m.dense.dot(X), 'matrix product, every size', 0, G.tol(m, X), matrix=m.name)
        mon.close(m.obj.as_numpy(), m.dense, 'as_numpy, every size', 0, G.tol(m, 1.), matrix=m.name)
        mon.sig(m.name)


def siblings(rng, mon, idx):
    """Matrices and operands that agree in everything but the order of their
    entries, used in turn."""
    n = int(choice(rng, [2, 3, 4, 5, 6, 8, 9, 12, 16, 24, 30]))
    kind = G.SIBLINGS[idx % len(G.SIBLINGS)]
    ms = [G.leaf(rng, n, n, kind)]
    ms += [G.sibling(rng, ms[0]) for _ in range(2)]
    o = G.leaf(rng, 2, 2, 'numpy')
    for m in list(ms):
        st = rng.randint(4)
        if st == 0:
            ms.append(G.M(G.Kronecker(o.obj, m.obj), np.kron(o.dense, m.dense), np.kron(o.bound, m.bound), 'Kron'))
        elif st == 1:
            ms.append(G.M(G.BlockDiag([o.obj, m.obj]), G.block_diag([o.dense, m.dense]),
                          G.block_diag([o.bound, m.bound]), 'BD'))
        elif st == 2:
            ms.append(G.M(G.SumMatrix([m.obj, ms[0].obj]), m.dense + ms[0].dense, m.bound + ms[0].bound, 'Sum'))
    base = {}
    for rep in range(2):
        for m in ms:
            c = m.dense.shape[1]
            x = base.setdefault(c, rng.randn(c))
            for j in range(3):
                mon.close(m.obj.matvec(x), m.dense.dot(x), 'product among look-alikes', 0, G.tol(m, x), matrix=m.name)
                x = np.concatenate([x[:1], x[1:-1][::-1], x[-1:]]) if j else np.roll(x, 1)
            mon.close(m.obj.as_numpy(), m.dense, 'as_numpy among look-alikes', 0, G.tol(m, 1.), matrix=m.name)
    mon.sig('siblings', kind, n)


def many_parts(rng, mon, idx):
    """Many factors, terms or blocks, and operands wider than they are tall."""
    k = int(choice(rng, [4, 5, 6, 7, 9, 12, 17, 33]))
    st = idx % 4
    n = int(rng.randint(1, 7))
    if st == 0:
        dims = rng.randint(1, 7, k + 1)
        parts = [G.leaf(rng, int(a), int(b)) for a, b in zip(dims[:-1], dims[1:])]
        d, bd = parts[0].dense, parts[0].bound
        for q in parts[1:]:
            d, bd = d.dot(q.dense), bd.dot(q.bound)
        m = G.M(G.Composition([q.obj for q in parts]), d, bd, 'Comp*%d' % k, kids=parts)
    elif st == 1:
        c = int(rng.randint(1, 7))
        parts = [G.leaf(rng, n, c) for _ in range(k)]
        m = G.M(G.SumMatrix([q.obj for q in parts]), sum(q.dense for q in parts), sum(q.bound for q in parts),
                'Sum*%d' % k, kids=parts)
    elif st == 2:
        parts = [G.leaf(rng, int(rng.randint(1, 6)), int(rng.randint(1, 6))) for _ in range(k)]
        m = G.M(G.BlockDiag([q.obj for q in parts]), G.block_diag([q.dense for q in parts]),
                G.block_diag([q.bound for q in parts]), 'BD*%d' % k, kids=parts)
    else:
        k = min(k, 12)
        blocks = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(i, k):
                blocks[i, j] = blocks[j, i] = G.leaf(rng, n, n, choice(rng, ['toeplitz', 'bttb1', 'diag', 'identity']))
        parts = list(blocks.ravel())
        objs = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                objs[i, j] = blocks[i, j].obj
        m = G.M(G.SymmSquareBlockMatrix(objs), np.block([[q.dense for q in r] for r in blocks]),
                np.block([[q.bound for q in r] for r in blocks]), 'SB*%d' % k, kids=parts)
    observe(rng, mon, m)
    for w in (m.dense.shape[0] + 1, m.dense.shape[1] + 3, 40):
        X = rng.randn(m.dense.shape[1], int(w))
        mon.close(m.obj.matmat(X), m.dense.dot(X), 'matmat, wide operand', 0, G.tol(m, X), matrix=m.name, k=w)


FAMILIES = [('many_parts', many_parts, 160, 4000), ('sizes', sizes, 320, 3200), ('siblings', siblings, 140, 4000),
            ('leaves', leaves, 160, 4000), ('nested', nested, 1200, 60000), ('each_node', each_node, 200, 6000),
            ('scaled', scaled, 120, 4000), ('big', big, 160, 4000), ('grid_shapes', grid_shapes, 120, 4000), ('large', large, 32, 640)]
MIN_EVENTS = {'obs:matvec': 2000, 'obs:op.matmat': 1000, 'large grids': 16}
