"""C03: reported eigenvalue bounds are upper bounds."""
import numpy as np
import scipy.linalg as la

from vmon import matgen as G
from vmon.gen import choice

RULE = ('random PSD Toeplitz/diagonal/identity leaves and sums, Kronecker products, symmetric block and '
        'interpolated matrices of them; bound compared with the dense largest eigenvalue; distinct = structure')
ASSUMPTIONS = ['PSD-ness by construction, re-verified densely; eigenvalues by LAPACK']


def observe(mon, m):
    w = la.eigvalsh((m.dense + m.dense.T) / 2)
    if w.min() < -1e-8 * max(1e-300, abs(w).max()):
        return
    b = float(m.obj.upper_eig_bound())
    mon.event('bounds')
    if w.max() > 0:
        mon.event('tight' if b <= 1.0001 * w.max() else 'loose')
    mon.check(np.isfinite(b), 'bound finite', matrix=m.name, bound=b)
    mon.check(b >= w.max() * (1 - 1e-9) - 1e-12 * abs(w).max(), 'bound >= largest eigenvalue',
              matrix=m.name, bound=b, largest=w.max())
    mon.sig(m.name)
    mon.describe(matrix=m.name, bound=b, largest=w.max())


def random(rng, mon, idx):
    n = G.gen_size(rng)
    observe(mon, G.psd(rng, n, int(rng.randint(0, 3))))


def each(rng, mon, idx):
    n = G.gen_size(rng)
    for kind in ('kron', 'sum', 'symmblock', 'ski'):
        observe(mon, G.psd(rng, n, 1, kind))
    for _ in range(3):
        top = G.psd_top(rng, n)
        observe(mon, G.M(G.Toeplitz(top), G.dense_toep(top), None, 'T%d' % n))


def extremal(rng, mon, idx):
    """Matrices on which the bound is (nearly) attained."""
    n = int(choice(rng, [1, 2, 3, 5, 8, 13, 64, 129]))
    s = np.exp(rng.uniform(-5, 5))
    for top in (np.full(n, s), s * np.cos(np.pi * np.arange(n)), np.r_[s, np.zeros(n - 1)],
                s * np.cos(2 * np.pi * np.arange(n) * rng.randint(0, n) / n)):
        t = G.M(G.Toeplitz(top), G.dense_toep(top), None, 'Text%d' % n)
        observe(mon, t)
        if n <= 13:
            i = G.psd_leaf(rng, int(rng.randint(1, 6)))
            observe(mon, G.M(G.Kronecker(i.obj, t.obj), np.kron(i.dense, t.dense), None, 'Kron(%s,Text%d)' % (i.name, n)))
            d = G.psd_leaf(rng, n)
            observe(mon, G.M(G.SumMatrix([t.obj, d.obj]), t.dense + d.dense, None, 'Sum(Text%d,%s)' % (n, d.name)))
    v = np.zeros(n)
    v[rng.randint(n)] = s
    observe(mon, G.M(G.Diag(v), np.diag(v), None, 'Dext%d' % n))
    # rank-one block matrices: every block equally heavy
    D = int(rng.randint(1, 6))
    b = int(rng.randint(1, 6))
    blocks = np.empty((D, D), dtype=object)
    sg = rng.choice([-1., 1.], D)
    for i in range(D):
        for j in range(D):
            blocks[i, j] = G.Toeplitz(np.full(b, s * sg[i] * sg[j]))
    observe(mon, G.M(G.SymmSquareBlockMatrix(blocks), s * np.kron(np.outer(sg, sg), np.ones((b, b))), None, 'SBext%d,%d' % (D, b)))


def single_row(rng, mon, idx):
    """Toeplitz whose heaviest row is in the middle or at an end."""
    n = int(rng.randint(1, 80))
    top = G.psd_top(rng, n)
    k = rng.randint(0, n)
    top[k] += choice(rng, [-1, 1]) * np.exp(rng.uniform(-2, 3))
    top[0] = np.abs(top[1:]).sum() * 2 + abs(top[0]) if rng.rand() < 0.5 else top[0]
    observe(mon, G.M(G.Toeplitz(top), G.dense_toep(top), None, 'Trow%d' % n))


def shared(rng, mon, idx):
    """The same part used several times, and many parts."""
    n = int(rng.randint(1, 9))
    a, b = G.psd_leaf(rng, n), G.psd_leaf(rng, n)
    k = int(choice(rng, [2, 3, 5, 9, 17]))
    pick = [choice(rng, [a, a, b]) for _ in range(k)]
    observe(mon, G.M(G.SumMatrix([p.obj for p in pick]), sum(p.dense for p in pick), None, 'Sum*%d(%s)' % (k, a.name)))
    if n <= 6:
        observe(mon, G.M(G.Kronecker(a.obj, a.obj), np.kron(a.dense, a.dense), None, 'Kron(%s,itself)' % a.name))
        kk = G.Kronecker(a.obj, b.obj)
        dd = np.kron(a.dense, b.dense)
        observe(mon, G.M(G.SumMatrix([kk, kk, G.Kronecker(b.obj, a.obj)]), 2 * dd + np.kron(b.dense, a.dense), None, 'Sum(Kron*2,Kron)'))
    D = int(choice(rng, [2, 3, 6, 9, 12]))
    blocks = np.empty((D, D), dtype=object)
    B = rng.randn(D, D)
    B = B.dot(B.T)
    if rng.rand() < .5:
        B = np.outer(B[0], B[0])
    top = G.psd_top(rng, n)
    for i in range(D):
        for j in range(D):
            blocks[i, j] = G.Toeplitz(B[i, j] * top)
    observe(mon, G.M(G.SymmSquareBlockMatrix(blocks), np.kron(B, G.dense_toep(top)), None, 'SB*%d,%d' % (D, n)))
    same = np.empty((D, D), dtype=object)
    same[...] = a.obj
    observe(mon, G.M(G.SymmSquareBlockMatrix(same), np.kron(np.ones((D, D)), a.dense), None, 'SBsame%d,%s' % (D, a.name)))


def long(rng, mon, idx):
    """Many grid points: the bound against the Rayleigh quotients of a few vectors."""
    n = int(choice(rng, [600, 1025, 3000, 5000]))
    i = np.arange(n)
    top = choice(rng, [np.exp(-.5 * (i / 10. ** rng.uniform(0, 4)) ** 2), np.exp(-i / 10. ** rng.uniform(0, 4)),
                       np.cos(i * rng.uniform(0, 3.1)), np.where(i == 0, 1., 0.)]) * np.exp(rng.uniform(-4, 4))
    obj = G.Toeplitz(top)
    b = float(obj.upper_eig_bound())
    w = 0.
    for x in (np.ones(n), np.sin(np.pi * (i + 1) / (n + 1)), rng.randn(n), np.cos(i * 1.1)):
        for _ in range(4):
            x = x / la.norm(x)
            y = obj.matvec(x)
            w = max(w, x.dot(y))
            x = y
            if not la.norm(x) > 0:
                break
    mon.check(np.isfinite(b) and b >= w * (1 - 1e-9), 'bound >= Rayleigh quotient, long', n=n, bound=b, quotient=w)
    mon.event('bounds')
    mon.sig('long', n)


def sizeable(rng, mon, idx):
    """Large matrices with known eigenvalues, where the bound is (nearly) attained."""
    def diag(n):
        v = np.exp(rng.uniform(-3, 0, n))
        v[rng.randint(n)] = 2.
        s = np.exp(rng.uniform(-6, 6))
        if rng.rand() < .2:
            return G.Identity(n), 1.
        if rng.rand() < .2 and n <= 80:
            return G.Toeplitz(np.full(n, s)), n * s
        return G.Diag(v * s), 2 * s
    st = idx % 3
    n = int(choice(rng, [400, 420, 900, 1600, 2500]))
    a = int(choice(rng, [1, 2, 7, 20, 60, n]))
    if st == 0:
        parts = [diag(a), diag(n // a + 1)]
        parts = parts[::int(choice(rng, [-1, 1]))]
        obj, top = G.Kronecker(parts[0][0], parts[1][0]), parts[0][1] * parts[1][1]
    elif st == 1:
        v, w = np.zeros(n), np.zeros(n)
        i = rng.randint(n)
        v[i], w[i] = np.exp(rng.uniform(-6, 6, 2))
        obj, top = G.SumMatrix([G.Diag(v), G.Diag(w)] + [G.Diag(np.zeros(n))] * rng.randint(3)), v[i] + w[i]
    else:
        D, b = int(choice(rng, [3, 10, 25])), int(choice(rng, [40, 120]))
        s = np.exp(rng.uniform(-6, 6))
        blocks = np.empty((D, D), dtype=object)
        for i in range(D):
            for j in range(D):
                blocks[i, j] = G.Diag(np.full(b, s))
        obj, top = G.SymmSquareBlockMatrix(blocks), D * s
    got = float(obj.upper_eig_bound())
    mon.check(np.isfinite(got) and got >= top * (1 - 1e-9), 'bound >= largest eigenvalue, sizeable', kind=st, n=obj.shape[0],
              bound=got, largest=top)
    mon.event('bounds')
    mon.sig('sizeable', st, obj.shape[0])


FAMILIES = [('sizeable', sizeable, 90, 1500), ('shared', shared, 200, 6000), ('long', long, 40, 400), ('random', random, 800, 30000), ('each', each, 200, 6000), ('extremal', extremal, 100, 2000),
            ('single_row', single_row, 200, 6000)]
MIN_EVENTS = {'bounds': 2000, 'tight': 50}
