"""C04: cubic-convolution interpolation weights."""
import numpy as np

from runlmc.approx.interpolation import cubic_kernel, interp_bicubic, interp_cubic
from vmon import oracle as O
from vmon.gen import choice

RULE = ('random equispaced grids (size 4..200, offsets, spacings 1e-4..1e4, int/strided dtypes) and samples on '
        'nodes, borders, interior, outside; dense reference weights plus direct oracles (row sum, sparsity, node '
        'exactness, quadratic reproduction); distinct = (dimension, sizes, sample classes)')
ASSUMPTIONS = ['weights are continuous in the sample, so rounding of the cell index is harmless',
               'non-equispaced grids tried deviate by >= 3% of the spacing']


def gen_axis(rng, big=False):
    m = int(choice(rng, [4, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31] + ([64, 100, 200] if big else [])))
    st = rng.randint(5)
    if st == 0:
        a = int(rng.randint(-20, 20))
        return np.arange(a, a + m)               # integer dtype
    h = np.exp(rng.uniform(-9, 9))
    off = choice(rng, [0, 1, -5, 100, -1000]) * h * rng.rand()
    g = off + h * np.arange(m)
    if st == 1:
        g = np.linspace(off, off + h * (m - 1), m)
    elif st == 2:
        b = np.zeros(2 * m)
        b[::2] = g
        g = b[::2]
    return g


def gen_samples(rng, g, n):
    h = float(g[1] - g[0])
    out, cls = np.zeros(n), set()
    for i in range(n):
        c = choice(rng, ['in', 'in', 'in', 'node', 'first', 'last', 'edge', 'out', 'mid', 'near'])
        cls.add(c)
        if c == 'in':
            out[i] = g[0] + h * rng.uniform(0, len(g) - 1)
        elif c == 'node':
            out[i] = g[rng.randint(len(g))]
        elif c == 'first':
            out[i] = g[0]
        elif c == 'last':
            out[i] = g[-1]
        elif c == 'edge':
            out[i] = choice(rng, [g[0] + h * rng.rand(), g[-1] - h * rng.rand()])
        elif c == 'out':
            out[i] = choice(rng, [g[0] - h * rng.uniform(0, 6), g[-1] + h * rng.uniform(0, 6)])
        elif c == 'mid':
            out[i] = g[rng.randint(len(g) - 1)] + 0.5 * h
        else:
            out[i] = np.nextafter(float(g[rng.randint(len(g))]), choice(rng, [-np.inf, np.inf]))
    return out, cls


def atol(*axes):
    t = 0
    for g in axes:
        h = float(g[1] - g[0])
        t += 1e-13 * (np.abs(np.asarray(g, float)).max() / h + len(g))
    return 1e-9 + 50 * t


def variants(rng, x):
    st = rng.randint(4)
    if st == 0:
        x = x.copy()
        x.setflags(write=False)
    elif st == 1:
        b = np.zeros((2,) + x.shape)
        b[0] = x
        x = b.T[..., 0].T if x.ndim == 1 else np.asfortranarray(x)
    return x


def one_d(rng, mon, idx):
    g = gen_axis(rng, True)
    n = int(choice(rng, [1, 2, 5, 20, 40]))
    x, cls = gen_samples(rng, g, n)
    x = variants(rng, x)
    keep_g, keep_x = np.array(g), np.array(x)
    Wm = interp_cubic(g, x)
    mon.check(tuple(Wm.shape) == (n, len(g)), 'shape', got=Wm.shape)
    W = Wm.toarray()
    t = atol(g)
    mon.close(W, O.interp1(g, keep_x), 'weights 1-D', 0, t, m=len(g), classes=cls)
    mon.check(((np.abs(W) > t).sum(1) <= 4).all(), 'at most 4 weights per row')
    mon.close(W.sum(1), np.ones(n), 'rows sum to one', 0, t)
    h = float(g[1] - g[0])
    f = (keep_x - g[0]) / h
    inner = (f >= 1) & (f <= len(g) - 2)
    if inner.any():
        c = rng.randn(3)
        u = np.arange(len(g), dtype=float) - len(g) / 2
        fu = f - len(g) / 2
        q = c[0] + c[1] * u + c[2] * u * u
        mon.close(Wm.dot(q)[inner], (c[0] + c[1] * fu + c[2] * fu * fu)[inner], 'quadratics reproduced',
                  0, t * 10 * (1 + np.abs(q).max()))
    on = (np.abs(f - np.round(f)) == 0) & (f >= 0) & (f <= len(g) - 1)
    v = rng.randn(len(g))
    if on.any():
        mon.close(Wm.dot(v)[on], v[np.round(f[on]).astype(int)], 'exact at nodes', 0, t * 10)
    mon.same(g, keep_g, 'grid unchanged')
    mon.same(x, keep_x, 'samples unchanged')
    mon.sig(1, len(g), str(g.dtype), sorted(cls))
    mon.describe(m=len(g), n=n, classes=cls, grid=g[:3])


def two_d(rng, mon, idx):
    gx, gy = gen_axis(rng), gen_axis(rng)
    n = int(choice(rng, [1, 2, 5, 15]))
    x, c1 = gen_samples(rng, gx, n)
    y, c2 = gen_samples(rng, gy, n)
    S = variants(rng, np.column_stack([x, y]))
    Wm = interp_bicubic(gx, gy, S)
    mon.check(tuple(Wm.shape) == (n, len(gx) * len(gy)), 'shape', got=Wm.shape)
    W = Wm.toarray()
    t = atol(gx, gy)
    mon.close(W, O.interp([gx, gy], np.column_stack([x, y])), 'weights 2-D', 0, t, mx=len(gx), my=len(gy))
    mon.check(((np.abs(W) > t).sum(1) <= 16).all(), 'at most 16 weights per row')
    mon.close(W.sum(1), np.ones(n), 'rows sum to one', 0, t)
    u = rng.randn(len(gx))
    v = rng.randn(len(gy))
    # separable functions interpolate separably, in row-major order
    mon.close(Wm.dot(np.outer(u, v).ravel()), O.interp1(gx, x).dot(u) * O.interp1(gy, y).dot(v),
              'separable functions', 0, 100 * t)
    mon.sig(2, len(gx), len(gy), sorted(c1), sorted(c2))
    mon.describe(mx=len(gx), my=len(gy), n=n)


def integer_samples(rng, mon, idx):
    m = int(rng.randint(4, 12))
    g = np.arange(m) * choice(rng, [1, 2, 0.5]) - 1
    x = rng.randint(-2, m + 2, 6)
    mon.close(interp_cubic(g, x).toarray(), O.interp1(g, x), 'integer samples 1-D', 0, 1e-9)
    gy = np.linspace(-3, 7, int(rng.randint(4, 9)))
    S = rng.randint(-2, 6, (5, 2))
    mon.close(interp_bicubic(g, gy, S).toarray(), O.interp([g, gy], S.astype(float)), 'integer samples 2-D', 0, 1e-9)
    mon.sig('int', m, len(gy))


def kernel_fn(rng, mon, idx):
    x = rng.uniform(-2, 2, int(rng.randint(1, 60)))
    x[rng.rand(len(x)) < 0.3] = choice(rng, [0., 1., -1., 2., -2.])
    mon.close(cubic_kernel(x), [O.keys(t) for t in x], 'cubic kernel', 0, 1e-12)
    bad = x.copy()
    bad[rng.randint(len(x))] = choice(rng, [-1, 1]) * rng.uniform(2.01, 50)
    mon.raises(ValueError, 'kernel rejects |x|>2', cubic_kernel, bad)
    mon.sig('kern', len(x))


def malformed(rng, mon, idx):
    g = np.asarray(gen_axis(rng), float)
    x, _ = gen_samples(rng, g, 3)
    S = np.column_stack([x, x])
    h = g[1] - g[0]
    jit = g.copy()
    k = rng.randint(len(g))
    jit[k] += h * choice(rng, [-1, 1]) * rng.uniform(0.1, 0.45)
    geo = np.geomspace(1, choice(rng, [3., 50.]), len(g))
    mon.raises(ValueError, 'rejects 2-D grid', interp_cubic, g.reshape(1, -1) if rng.rand() < .5 else np.tile(g, (5, 1)), x)
    mon.raises(ValueError, 'rejects 2-D samples', interp_cubic, g, S)
    mon.raises(ValueError, 'rejects short grid', interp_cubic, g[:rng.randint(1, 4)], x)
    bads = [jit, geo, g[::-1], np.full(len(g), g[0])]
    b = bads[idx % 4]
    mon.raises(ValueError, 'rejects non-equispaced grid', interp_cubic, b, x)
    mon.raises(ValueError, 'rejects non-equispaced x axis', interp_bicubic, b, g, S)
    mon.raises(ValueError, 'rejects non-equispaced y axis', interp_bicubic, g, b, S)
    mon.raises(ValueError, 'rejects short x axis', interp_bicubic, g[:3], g, S)
    mon.raises(ValueError, 'rejects short y axis', interp_bicubic, g, g[:3], S)
    mon.raises(ValueError, 'rejects 2-D axis', interp_bicubic, np.tile(g, (5, 1)), g, S)
    mon.raises(ValueError, 'rejects 1-D samples in 2-D', interp_bicubic, g, g, x)
    mon.raises(ValueError, 'rejects 3-column samples', interp_bicubic, g, g, np.column_stack([x, x, x]))
    mon.check(interp_cubic(g, np.zeros(0)).shape == (0, len(g)), 'empty samples 1-D')
    mon.check(interp_bicubic(g, g, np.zeros((0, 2))).shape == (0, len(g) ** 2), 'empty samples 2-D')
    mon.sig('bad', idx % 4, len(g))


def many_samples(rng, mon, idx):
    """Thousands of samples: every row, whatever its position."""
    n = int(choice(rng, [520, 1100, 2100, 4200, 5000, 9000]))
    if idx % 2:
        axes = [gen_axis(rng, True)]
        x = [np.resize(gen_samples(rng, axes[0], 60)[0], n)[rng.permutation(n)]]
        W = interp_cubic(axes[0], x[0])
        want = O.interp1(axes[0], np.unique(x[0]))
        P, inv = 1, np.searchsorted(np.unique(x[0]), x[0])
        want = want[inv]
    else:
        axes = [gen_axis(rng), gen_axis(rng)]
        x = [gen_samples(rng, a, 40)[0] for a in axes]
        inv = np.resize(np.arange(40), n)[rng.permutation(n)]
        want = O.interp(axes, np.column_stack(x))[inv]
        W = interp_bicubic(axes[0], axes[1], np.column_stack(x)[inv])
        P = 2
    t = atol(*axes)
    mon.check(tuple(W.shape) == want.shape, 'shape, many samples', got=W.shape, want=want.shape)
    v = rng.randn(want.shape[1])
    mon.close(W.dot(v), want.dot(v), 'interpolated values, many samples', 0, 100 * t, n=n)
    mon.close(np.asarray(W.sum(1)).ravel(), np.ones(n), 'rows sum to one, many samples', 0, t)
    rows = np.r_[0, n - 1, rng.randint(0, n, 20)]
    mon.close(W.tocsr()[rows].toarray(), want[rows], 'weights, many samples', 0, t)
    mon.sig('many', P, n)


def wide_grid(rng, mon, idx):
    """Grids of tens of thousands of points, few samples."""
    n = int(choice(rng, [1, 2, 5, 9, 12]))
    if idx % 2:
        m = int(choice(rng, [33000, 66000, 70001, 140000]))
        h, off = np.exp(rng.uniform(-3, 3)), rng.randn()
        axes = [off + h * np.arange(m)]
        x, _ = gen_samples(rng, axes[0], n)
        x[0] = axes[0][-1] - h * rng.uniform(0, 100)
        W, want = interp_cubic(axes[0], x), O.interp1(axes[0], x)
    else:
        sizes = choice(rng, [(260, 255), (4, 17000), (17000, 4), (300, 240), (190, 180)])
        axes = [rng.randn() + np.exp(rng.uniform(-3, 3)) * np.arange(s) for s in sizes]
        x = np.column_stack([gen_samples(rng, a, n)[0] for a in axes])
        x[0] = [a[-1] - (a[1] - a[0]) * rng.uniform(0, 3) for a in axes]
        W, want = interp_bicubic(axes[0], axes[1], x), O.interp(axes, x)
    t = atol(*axes)
    mon.check(tuple(W.shape) == want.shape, 'shape, wide grid', got=W.shape, want=want.shape)
    mon.close(W.toarray(), want, 'weights, wide grid', 0, t, sizes=[len(a) for a in axes])
    mon.sig('wide', [len(a) for a in axes], n)


FAMILIES = [('wide_grid', wide_grid, 24, 200), ('many_samples', many_samples, 24, 200), ('one_d', one_d, 700, 20000), ('two_d', two_d, 260, 8000), ('integer', integer_samples, 80, 1000),
            ('kernel_fn', kernel_fn, 100, 2000), ('malformed', malformed, 120, 2000)]
MIN_EVENTS = {'obs:weights 1-D': 500, 'obs:weights 2-D': 150, 'obs:exact at nodes': 300, 'obs:quadratics reproduced': 300}
