"""C07: kernels evaluate their documented formula and are PSD."""
import numpy as np
import scipy.linalg as la

from vmon import gen, oracle as O
from vmon.gen import choice

RULE = ('all kernels incl. nested scaled wrappers over parameters 1e-6..1e6 (and re-assignment after '
        'construction), distance arrays of all shapes/dtypes/layouts incl. 0 and huge; distinct = (kernel, shape, dtype)')
ASSUMPTIONS = ['periodic kernel: period above e^-200 and r/T below 1e6 (phase representable)']


def wide_kernel(rng, depth=0):
    kind = choice(rng, ['rbf', 'matern', 'periodic', 'id', 'scaled'] if depth < 3 else ['rbf', 'matern', 'periodic'])
    if kind == 'scaled':
        return {'kind': 'scaled', 'inner': wide_kernel(rng, depth + 1), 'scale': float(np.exp(rng.uniform(-8, 8)))}
    sp = {'kind': kind, 'ad': choice(rng, [None, (0,), (1, 0)]), 'name': choice(rng, ['k', 'abc', kind]),
          'g': float(np.exp(rng.uniform(-12, 12)))}
    if rng.rand() < 0.3:
        sp['g'] = float(rng.randint(1, 6))
    if kind == 'periodic':
        sp['T'] = float(np.exp(rng.uniform(-6, 6)))
        if rng.rand() < 0.3:
            sp['T'] = float(rng.randint(1, 6))
    return sp


def period(sp):
    while sp['kind'] == 'scaled':
        sp = sp['inner']
    return sp.get('T')


def reach(sp):
    """The distance at which the kernel has decayed noticeably."""
    while sp['kind'] == 'scaled':
        sp = sp['inner']
    return {'rbf': lambda: sp['g'] ** -.5, 'matern': lambda: 1. / sp['g']}.get(sp['kind'], lambda: 1.)()


def dists(rng, sp):
    shape = choice(rng, [(1,), (5,), (17,), (3, 4), (1, 1), (2, 3, 4), (0,), (50,), (6, 1), (2, 2, 2, 2)])
    s = period(sp)
    s = s * choice(rng, [1, 1, 10, 1000, 1e5]) if s else choice(rng, [1e-3, 1, 1, 30, 1e4, reach(sp), reach(sp), 30 * reach(sp)])
    st = rng.randint(5)
    if st == 0:
        r = rng.randint(0, 12, shape)
    elif st == 1:
        r = np.asfortranarray(rng.rand(*shape) * s)
    elif st == 2:
        r = (rng.rand(*(tuple(2 * x for x in shape))) * s)[tuple(slice(None, None, 2) for _ in shape)]
    else:
        r = rng.rand(*shape) * s
    if r.dtype.kind == 'f' and rng.rand() < 0.3:     # down to the smallest distances that are not zero
        r = r * np.where(rng.rand(*shape) < 0.5, np.exp(-rng.rand(*shape) * choice(rng, [25., 60., 700.])), 1)
    if r.dtype.kind == 'f' and period(sp) and rng.rand() < .4:      # next to whole and half periods
        near = rng.randint(0, 5, shape) * .5 * period(sp) + period(sp) * 10. ** rng.uniform(-9, -1.5, shape) * rng.choice([-1, 1], shape)
        r = np.where(rng.rand(*shape) < .6, np.abs(near), np.asarray(r))
    if r.dtype.kind == 'i':         # integers of every width
        dt = choice(rng, [np.int64, np.int64, np.int32, np.int16, np.int8, np.uint8])
        top = {np.int8: 120, np.uint8: 250}.get(dt, 30000)
        if rng.rand() < .5 and not period(sp):
            r = rng.randint(0, top, shape)
            if dt in (np.int32, np.int64) and rng.rand() < .5:
                r = r * 60000
        r = r.astype(dt)
    if r.size and rng.rand() < 0.6:
        r = r.copy()
        r[tuple(rng.randint(0, x) for x in shape)] = 0
    if rng.rand() < 0.2:
        r = r.copy()
        r.setflags(write=False)
    return r


def value_tol(sp, r):
    T = period(sp)
    t = 1e-10
    if T and np.size(r):
        t += 1e-13 * float(np.max(r)) / T
    scale = 1.
    s = sp
    while s['kind'] == 'scaled':
        scale *= s['scale']
        s = s['inner']
    if 'g' in s and T:
        t *= 1 + s['g']
    return t * scale


def amp(sp):
    a = 1.
    while sp['kind'] == 'scaled':
        a *= sp['scale']
        sp = sp['inner']
    return a


def values(rng, mon, idx):
    sp = wide_kernel(rng)
    k = gen.build_kernel(sp)
    for rep in range(2):
        r = dists(rng, sp)
        keep = np.array(r)
        got = k.from_dist(r)
        want = O.kval(sp, keep)
        mon.close(got, want, 'kernel value', 0, value_tol(sp, keep), kernel=sp)
        if not period(sp):
            # also relative to the value itself, far out in the tail
            with np.errstate(divide='ignore', invalid='ignore'):
                decay = np.where(want > 0, -np.log(np.maximum(want, 1e-300) / amp(sp)), 0)
            den = (1 + np.abs(decay)) * want + 1e-280
            mon.close(np.asarray(got) / den, want / den, 'kernel value, relative', 0, 1e-11, kernel=sp)
        mon.same(r, keep, 'distances unchanged')
        mon.close(k.from_dist(np.zeros(3)), np.full(3, amp(sp)), 'value at zero is the variance', 1e-12)
        mon.sig(gen.kind_name(sp), r.shape, str(r.dtype))
        # elementwise: any subset gives the same values
        if keep.ndim == 1 and keep.size > 1:
            j = rng.randint(keep.size)
            mon.close(k.from_dist(keep[j:j + 1]), want[j:j + 1], 'elementwise', 0, value_tol(sp, keep), kernel=sp)
        # re-assign parameters in place and evaluate again
        new = [float(v * np.exp(rng.uniform(-1, 1))) for v in O.kparams(sp)]
        for p, v in zip(gen.kernel_param_objs(k, sp), new):
            p[:] = v
        gen.set_kparams(sp, new)
    mon.describe(kernel=sp)


def psd(rng, mon, idx):
    P = int(choice(rng, [1, 1, 2, 3]))
    n = int(choice(rng, [1, 2, 5, 12, 25]))
    sp = wide_kernel(rng)
    base = sp
    while base['kind'] == 'scaled':
        base = base['inner']
    if base['kind'] == 'periodic':
        P = 1
    s = period(sp) or (base['g'] ** -0.5 if base['kind'] == 'rbf' else 1. / base.get('g', 1.))
    X = rng.rand(n, P) * s * np.exp(rng.uniform(-1, 2))
    if rng.rand() < 0.3:
        X[n // 2:] = X[:n - n // 2]
    K = np.asarray(gen.build_kernel(sp).from_dist(O.pdist(X, X)))
    mon.check(K.shape == (n, n), 'kernel matrix shape', got=K.shape)
    mon.close(K, K.T, 'symmetric', 1e-12)
    w = la.eigvalsh(K).min()
    mon.check(w >= -1e-9 * n * amp(sp) * (1 + (base.get('g', 0) if base['kind'] == 'periodic' else 0)),
              'positive semi-definite', smallest=w, kernel=sp)
    mon.sig('psd', gen.kind_name(sp), P, n)


FAMILIES = [('values', values, 1500, 40000), ('psd', psd, 500, 10000)]
MIN_EVENTS = {'obs:kernel value': 2500, 'obs:positive semi-definite': 400}
