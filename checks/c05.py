"""C05: multi-output interpolant == block diagonal of per-output ones."""
import numpy as np

from runlmc.approx.interpolation import multi_interpolant
from vmon import oracle as O
from vmon.gen import choice
from vmon.matgen import block_diag
from checks.c04 import gen_axis, gen_samples, atol

RULE = ('random numbers of outputs (1..7) and ragged point counts incl. zero at every position, 1-D (vector or '
        'column) and 2-D inputs; compared with the dense block diagonal; distinct = (dimension, lengths pattern, grid sizes)')
ASSUMPTIONS = ['reference weights as in C04']


def observe(mon, Xs, axes, P, t):
    W = multi_interpolant(Xs, *axes)
    pts = [np.asarray(X, float).reshape(-1, P) for X in Xs]
    want = block_diag([O.interp(axes, x) if len(x) else np.zeros((0, int(np.prod([len(a) for a in axes]))))
                       for x in pts])
    mon.check(tuple(W.shape) == want.shape, 'shape', got=W.shape, want=want.shape)
    mon.close(W.toarray(), want, 'block diagonal', 0, t, lens=[len(x) for x in pts])
    if W.shape[0]:
        v = np.cos(np.arange(W.shape[1]))
        mon.close(W.dot(v), want.dot(v), 'product', 0, 100 * t)
        u = np.sin(np.arange(W.shape[0]))
        mon.close(W.transpose().tocsr().dot(u), want.T.dot(u), 'transposed product', 0, 100 * t)


def ragged(rng, mon, idx):
    P = 1 + (rng.rand() < 0.4)
    D = int(rng.randint(1, 8))
    axes = [gen_axis(rng) for _ in range(P)]
    lens = [int(choice(rng, [0, 0, 1, 2, 3, 7, 12])) for _ in range(D)]
    if idx % 7 == 0:
        lens = [0] * D
    elif idx % 7 == 1:
        lens[0] = 0
    elif idx % 7 == 2:
        lens[-1] = 0
    Xs = []
    col = rng.rand() < 0.5
    for n in lens:
        X = np.column_stack([gen_samples(rng, a, n)[0] for a in axes]).reshape(n, P)
        Xs.append(X[:, 0] if P == 1 and not col else X)
    if idx % 5 == 0:            # whole numbers, on axes that hold some
        axes = [np.linspace(a, a + d * (k - 1), k) for a, d, k in
                ((float(rng.randint(-9, 9)), choice(rng, [1., 1.7, 2.25]), int(rng.randint(5, 12))) for _ in range(P))]
        Xs = [np.column_stack([np.round(rng.uniform(a[0], a[-1], n)) for a in axes]).reshape(n, P).astype(
            choice(rng, [np.int64, np.int32])) for n in lens]
        if P == 1 and not col:
            Xs = [X[:, 0] for X in Xs]
    observe(mon, Xs, axes, P, atol(*axes))
    mon.sig(P, [n and 1 for n in lens], [len(a) for a in axes], col)
    mon.event('empty outputs', sum(n == 0 for n in lens))
    mon.describe(P=P, lens=lens, axes=[len(a) for a in axes])


def long(rng, mon, idx):
    """Many points: index arithmetic beyond small sizes."""
    P = 1 + idx % 2
    axes = [np.linspace(-1, 2, int(rng.randint(20, 80 if P == 1 else 25))) for _ in range(P)]
    lens = [int(rng.randint(0, 130)) for _ in range(4)]
    Xs = [np.column_stack([gen_samples(rng, a, n)[0] for a in axes]).reshape(n, P) for n in lens]
    observe(mon, Xs, axes, P, atol(*axes))
    mon.sig('long', P, lens)


def huge(rng, mon, idx):
    """Few points on grids whose column numbers need more than two bytes."""
    P = 1 + idx % 2
    D = int(rng.randint(1, 6))
    total = int(choice(rng, [34000, 40000, 66000, 70000, 140000]))
    m = total // D + 1
    k = int(rng.randint(20, 120))
    shape = [m] if P == 1 else [k, m // k + 1] if rng.rand() < .5 else [m // k + 1, k]
    axes = [np.linspace(-1, 2, n) for n in shape]
    lens = [int(rng.randint(0, 4)) for _ in range(D)]
    lens[-1] = 3
    Xs = [np.column_stack([gen_samples(rng, a, n)[0] for a in axes]).reshape(n, P) for n in lens]
    W = multi_interpolant(Xs, *axes).tocsr()
    m = int(np.prod(shape))
    mon.check(tuple(W.shape) == (sum(lens), D * m), 'shape, huge grid', got=W.shape, want=(sum(lens), D * m))
    r = 0
    for d, X in enumerate(Xs):
        for i in range(len(X)):
            row = np.asarray(W[r].todense()).ravel()
            want = np.zeros(D * m)
            want[d * m:(d + 1) * m] = O.interp(axes, X[i:i + 1]).ravel()
            mon.close(row, want, 'row of the block diagonal, huge grid', 0, atol(*axes) * 10, output=d, shape=shape)
            r += 1
    mon.sig('huge', P, D, total)


def many(rng, mon, idx):
    """Many outputs."""
    P = 1 + idx % 2
    D = int(choice(rng, [9, 13, 20, 33]))
    axes = [np.linspace(0, 1, int(rng.randint(5, 9))) for _ in range(P)]
    lens = [int(choice(rng, [0, 1, 2, 5])) for _ in range(D)]
    Xs = [np.column_stack([gen_samples(rng, a, n)[0] for a in axes]).reshape(n, P) for n in lens]
    observe(mon, Xs, axes, P, atol(*axes))
    mon.sig('many', P, D)


def heavy(rng, mon, idx):
    """Many rows over many outputs: entry numbers need more than two bytes."""
    P = 1 + (idx % 3 > 0)
    D = int(choice(rng, [3, 13, 30]))
    axes = [np.linspace(-1, 2, int(rng.randint(5, 9))) for _ in range(P)]
    if P == 2 and rng.rand() < .5:
        axes = [axes[0], axes[0]]
    per = 150000 // (D * 4 ** P)
    lens = [int(rng.randint(per, per + 300)) for _ in range(D)]
    lens[int(rng.randint(D))] = 1
    base = np.column_stack([gen_samples(rng, a, 50)[0] for a in axes]).reshape(50, P)
    ref = O.interp(axes, base)
    pick = [rng.randint(0, 50, n) for n in lens]
    W = multi_interpolant([base[i] for i in pick], *axes)
    m = ref.shape[1]
    mon.check(tuple(W.shape) == (sum(lens), D * m), 'shape, many rows', got=W.shape)
    v = rng.randn(D, m)
    mon.close(W.dot(v.ravel()), np.hstack([ref[i].dot(v[d]) for d, i in enumerate(pick)]), 'product, many rows', 0,
              100 * atol(*axes), D=D)
    u = rng.randn(sum(lens))
    parts = np.split(u, np.cumsum(lens)[:-1])
    mon.close(W.transpose().tocsr().dot(u), np.hstack([np.asarray(ref[i].T.dot(p)) for i, p in zip(pick, parts)]),
              'transposed product, many rows', 0, 1e-7 * sum(lens) * atol(*axes) / 1e-9)
    mon.sig('heavy', P, D)


def same_axis(rng, mon, idx):
    """One array serves as both axes; outputs of a single point."""
    a = gen_axis(rng)
    lens = [int(choice(rng, [0, 1, 1, 1, 2, 4])) for _ in range(rng.randint(1, 6))]
    Xs = [np.column_stack([gen_samples(rng, a, n)[0] for _ in range(2)]).reshape(n, 2) for n in lens]
    if rng.rand() < .3 and len(Xs) > 1:
        Xs[-1] = Xs[0]
    observe(mon, Xs, [a, a], 2, atol(a, a))
    mon.sig('same axis', lens, len(a))


FAMILIES = [('heavy', heavy, 12, 60), ('same_axis', same_axis, 60, 1000), ('huge', huge, 16, 200), ('many', many, 40, 800), ('ragged', ragged, 600, 15000), ('long', long, 24, 400)]
MIN_EVENTS = {'obs:block diagonal': 500, 'empty outputs': 300}
