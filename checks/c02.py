"""C02: matrices are immutable under use; operands and inputs untouched."""
import copy
import pickle

import numpy as np

from vmon import matgen as G
from vmon.gen import choice

RULE = ('random operation histories (10-30 steps) over pools of matrices sharing sub-matrices; after every step '
        'all operands/constructor arrays are compared bytewise and results with the dense definition; '
        'distinct = (structures, operation sequence)')
ASSUMPTIONS = ['single-threaded histories; wrapped closures are not pickled (only picklable matrices are)']


def snap(arrs):
    return [a.tobytes() if isinstance(a, np.ndarray) else None for a in arrs]


def picklable(m):
    return all(not k.name.startswith('wrap') for k in m.walk())


def history(rng, mon, idx):
    n = int(choice(rng, [1, 2, 3, 4, 6, 8, 9, 12, 16, 20]))
    pool = [G.gen(rng, n, n, int(rng.randint(0, 3))) for _ in range(2)]
    # sharers: sums / compositions / blocks re-using the same objects
    a, b = pool
    pool.append(G.M(G.SumMatrix([a.obj, b.obj, a.obj]), 2 * a.dense + b.dense, 2 * a.bound + b.bound,
                    'Sum(%s,%s,again)' % (a.name, b.name), kids=[a, b]))
    pool.append(G.M(G.Composition([a.obj, b.obj, a.obj]), a.dense.dot(b.dense).dot(a.dense),
                    a.bound.dot(b.bound).dot(a.bound), 'Comp(again)', kids=[a, b]))
    pool.append(G.M(G.BlockDiag([b.obj, b.obj]), G.block_diag([b.dense, b.dense]),
                    G.block_diag([b.bound, b.bound]), 'BD(again)', kids=[b]))
    blocks = np.empty((2, 2), dtype=object)
    blocks[0, 0] = blocks[1, 1] = a.obj
    blocks[0, 1] = blocks[1, 0] = b.obj
    pool.append(G.M(G.SymmSquareBlockMatrix(blocks), np.block([[a.dense, b.dense], [b.dense, a.dense]]),
                    np.block([[a.bound, b.bound], [b.bound, a.bound]]), 'SB(again)', kids=[a, b]))
    pool.append(G.M(G.Kronecker(a.obj, a.obj) if n <= 8 else a.obj,
                    np.kron(a.dense, a.dense) if n <= 8 else a.dense,
                    np.kron(a.bound, a.bound) if n <= 8 else a.bound, 'Kron(again)', kids=[a]))
    lk = G.leaf(rng, n, n, choice(rng, G.SIBLINGS))
    pool += [lk, G.sibling(rng, lk)]
    pool += [G.M(G.BlockDiag([m.obj, a.obj]), G.block_diag([m.dense, a.dense]), G.block_diag([m.bound, a.bound]),
                 'BD(%s,again)' % m.name, kids=[m, a]) for m in pool[-2:]]
    inputs = [x for m in pool for x in m.all_inputs()]
    before = snap(inputs)
    ops = []
    x0 = rng.randn(2 * n * n + 2 * n)
    # remembered operands and results: an earlier result must not change later
    kept = []
    for step in range(int(rng.randint(10, 30))):
        m = choice(rng, pool)
        op = choice(rng, ['matvec', 'matvec', 'matmat', 'as_numpy', 'op', 'opmat', 'str', 'eig', 'pickle', 'copy', 'op_then_pickle'])
        ops.append(op)
        c = m.dense.shape[1]
        x = rng.randn(c)
        if rng.rand() < 0.4:        # operands that differ in the order of their entries only
            x = x0[:c].copy()
            if c > 3:
                x[1:-1] = rng.permutation(x[1:-1])
        if op in ('matmat', 'opmat'):
            x = rng.randn(c, int(rng.randint(1, 4)))
            if rng.rand() < 0.5:
                x = np.asfortranarray(x)
        keep = x.copy()
        if rng.rand() < 0.3:
            x.setflags(write=False)
        obj = m.obj
        if op in ('pickle', 'op_then_pickle', 'copy'):
            if op == 'op_then_pickle':
                obj.as_linear_operator()
            if op == 'copy':
                obj = copy.copy(obj)
            elif picklable(m):
                obj = pickle.loads(pickle.dumps(obj))
                mon.event('pickled')
            r = obj.matvec(x)
            mon.close(r, m.dense.dot(keep), 'product after ' + op, 0, G.tol(m, keep), matrix=m.name, ops=ops)
            mon.close(obj.as_linear_operator().matvec(x), m.dense.dot(keep), 'op after ' + op, 0,
                      G.tol(m, keep), matrix=m.name, ops=ops)
            if picklable(m) and rng.rand() < 0.3:
                pool.append(G.M(obj, m.dense, m.bound, m.name, kids=m.kids))
        elif op == 'matvec':
            r = obj.matvec(x)
            mon.close(r, m.dense.dot(keep), 'matvec in history', 0, G.tol(m, keep), matrix=m.name, ops=ops)
            kept.append((m, r, x, keep))
        elif op == 'op':
            r = obj.as_linear_operator().matvec(x)
            mon.close(r, m.dense.dot(keep), 'op in history', 0, G.tol(m, keep), matrix=m.name, ops=ops)
        elif op in ('matmat', 'opmat'):
            r = obj.matmat(x) if op == 'matmat' else obj.as_linear_operator().matmat(x)
            mon.close(r, m.dense.dot(keep), op + ' in history', 0, G.tol(m, keep), matrix=m.name, ops=ops)
            kept.append((m, r, x, keep))
        elif op == 'as_numpy':
            r = obj.as_numpy()
            mon.close(r, m.dense, 'as_numpy in history', 0, G.tol(m, 1.), matrix=m.name, ops=ops)
        elif op == 'str':
            str(obj)
        else:
            try:
                obj.upper_eig_bound()
            except (AttributeError, NotImplementedError):
                pass    # not every type offers a bound
        mon.same(x, keep, 'operand unchanged', ops=ops, matrix=m.name)
        mon.check(snap(inputs) == before, 'constructor arrays unchanged', ops=ops, matrix=m.name)
    for m, r, x, keep in kept:
        mon.close(r, m.dense.dot(keep), 'earlier result unchanged', 0, G.tol(m, keep), matrix=m.name, ops=ops)
    for m in pool:
        mon.close(m.obj.as_numpy(), m.dense, 'final map', 0, G.tol(m, 1.), matrix=m.name, ops=ops)
    mon.sig([m.name for m in pool[:2]], ops)
    mon.describe(n=n, structures=[m.name for m in pool], ops=ops)


def large_shared(rng, mon, idx):
    """Repeated use of large transforms through alternating sizes of operands."""
    n = int(choice(rng, [64, 65, 128, 200]))
    T, B = G.leaf(rng, n, n, 'toeplitz'), G.leaf(rng, n, n, 'bttb2')
    for rep in range(6):
        for m in (T, B):
            x = rng.randn(n)
            keep = x.copy()
            r1 = m.obj.matvec(x)
            r2 = m.obj.matvec(x)
            mon.close(r1, m.dense.dot(keep), 'repeat product', 0, G.tol(m, x), matrix=m.name)
            mon.close(r2, r1, 'repeat equals first', 0, G.tol(m, x), matrix=m.name)
            mon.same(x, keep, 'operand unchanged')
    mon.sig(n, T.name, B.name)


def restored(rng, mon, idx):
    """Containers of several parts of one size, pickled and restored."""
    n = int(choice(rng, [2, 5, 11, 12, 30, 51, 60]))
    kind = choice(rng, ['toeplitz', 'bttb1', 'bttb2', 'diag', 'numpy'])
    k = int(rng.randint(2, 6))
    parts = [G.leaf(rng, n, n, kind) for _ in range(k)]
    ms = [G.M(G.BlockDiag([p.obj for p in parts]), G.block_diag([p.dense for p in parts]),
              G.block_diag([p.bound for p in parts]), 'BD', kids=parts),
          G.M(G.SumMatrix([p.obj for p in parts]), sum(p.dense for p in parts), sum(p.bound for p in parts), 'Sum', kids=parts)]
    d, bd = parts[0].dense, parts[0].bound
    for q in parts[1:]:
        d, bd = d.dot(q.dense), bd.dot(q.bound)
    ms.append(G.M(G.Composition([p.obj for p in parts]), d, bd, 'Comp', kids=parts))
    if n <= 12:
        a, b = parts[:2]
        ms.append(G.M(G.Kronecker(a.obj, b.obj), np.kron(a.dense, b.dense), np.kron(a.bound, b.bound), 'Kron', kids=[a, b]))
    if kind in ('toeplitz', 'bttb1', 'bttb2', 'diag'):
        a, b = parts[:2]
        blocks = np.empty((2, 2), dtype=object)
        blocks[0, 0] = blocks[1, 1] = a.obj
        blocks[0, 1] = blocks[1, 0] = b.obj
        ms.append(G.M(G.SymmSquareBlockMatrix(blocks), np.block([[a.dense, b.dense], [b.dense, a.dense]]),
                      np.block([[a.bound, b.bound], [b.bound, a.bound]]), 'SB', kids=[a, b]))
    together = pickle.loads(pickle.dumps([m.obj for m in ms]))
    for m, t in zip(ms, together):
        x = rng.randn(m.dense.shape[1])
        for how, obj in (('alone', pickle.loads(pickle.dumps(m.obj, int(rng.randint(2, 5))))), ('together', t),
                         ('deep copy', copy.deepcopy(m.obj)), ('twice', pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m.obj)))))):
            mon.close(obj.matvec(x), m.dense.dot(x), 'product after restoring', 0, G.tol(m, x), matrix=m.name, how=how)
            mon.close(obj.as_numpy(), m.dense, 'as_numpy after restoring', 0, G.tol(m, 1.), matrix=m.name, how=how)
            mon.event('pickled')
    mon.sig('restored', n, kind, k)


def reused(rng, mon, idx):
    """One buffer for all operands: its contents change between the products."""
    n = int(choice(rng, [1, 2, 4, 6, 9, 16, 40]))
    m = G.gen(rng, n, n, int(rng.randint(0, 3)))
    buf, mat = np.empty(m.dense.shape[1]), np.empty((m.dense.shape[1], 3), order=choice(rng, 'CF'))
    lin = m.obj.as_linear_operator()
    calls = [([m.obj.matvec], []), ([], [m.obj.matmat]), ([lin.matvec], [lin.matmat]),
             ([m.obj.matvec, lin.matvec], [m.obj.matmat, lin.matmat])][idx % 4]
    for step in range(5):
        buf[:] = rng.randn(len(buf)) if step % 3 < 2 else -buf
        mat[:] = rng.randn(*mat.shape)
        keep, keepm = buf.copy(), mat.copy()
        r = [f(buf) for f in calls[0]]
        R = [f(mat) for f in calls[1]]
        for q in r:
            mon.close(q, m.dense.dot(keep), 'product with a reused operand', 0, G.tol(m, keep), matrix=m.name, step=step)
        for q in R:
            mon.close(q, m.dense.dot(keepm), 'products with a reused operand', 0, G.tol(m, keepm), matrix=m.name, step=step)
        mon.same(buf, keep, 'operand unchanged')
        mon.same(mat, keepm, 'operand unchanged')
    mon.sig('reused', m.name)


FAMILIES = [('reused', reused, 300, 8000), ('restored', restored, 120, 3000), ('history', history, 900, 30000), ('large_shared', large_shared, 40, 800)]
MIN_EVENTS = {'obs:operand unchanged': 5000, 'pickled': 300}
