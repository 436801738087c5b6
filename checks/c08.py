"""C08: kernel gradients are derivatives; gradients are stored in order."""
import numpy as np

from vmon import gen, oracle as O
from vmon.gen import choice
from checks.c07 import wide_kernel, dists, period, amp, reach

RULE = ('kernels incl. nested scaled wrappers at random parameter values and distances; analytic reference '
        'derivative and central differences of the real kernel; distinct = (kernel, shape, dtype)')
ASSUMPTIONS = ['finite differences only where they are well conditioned']


def tame(rng):
    sp = wide_kernel(rng)
    s = sp
    while s['kind'] == 'scaled':
        s = s['inner']
    if 'g' in s:
        s['g'] = float(np.exp(rng.uniform(-3, 3)))
    if 'T' in s:
        s['T'] = float(np.exp(rng.uniform(-2, 2)))
    return sp


def gradients(rng, mon, idx):
    sp = tame(rng)
    k = gen.build_kernel(sp)
    r = np.array(dists(rng, sp))
    if r.size:
        top = 5 * period(sp) if period(sp) else 40
        r = np.minimum(r, top) if r.dtype.kind == 'f' else np.minimum(r, np.array(max(1, min(top, 120)), r.dtype))
    keep = r.copy()
    got = list(k.kernel_gradient(r))
    want = O.kgrads(sp, r)
    mon.check(len(got) == len(want), 'one gradient per parameter', got=len(got), want=len(want), kernel=sp)
    mon.check(k.size == len(want), 'parameters are optimisable parameters of the kernel', got=k.size,
              want=len(want), kernel=sp)
    for t, (a, b) in enumerate(zip(got, want)):
        mon.close(a, b, 'gradient value', 1e-9, 1e-11 * amp(sp), kernel=sp, parameter=t)
    mon.same(r, keep, 'distances unchanged')
    objs = gen.kernel_param_objs(k, sp)
    vals = O.kparams(sp)
    g = max([1.] + [x for x in vals])
    for t, (p, v) in enumerate(zip(objs, vals)):
        # central differences of the code's own kernel, through its parameter
        h = 1e-5 * v
        p[:] = v + h
        up = np.array(k.from_dist(r))
        p[:] = v - h
        dn = np.array(k.from_dist(r))
        p[:] = v
        if r.size:
            fd = (up - dn) / (2 * h)
            sc = np.abs(fd).max()
            curv = (np.abs(r).max() / (period(sp) or 1.) + 1) ** 3
            mon.close(got[t], fd, 'gradient is the derivative of the kernel', 1e-5,
                      3e-8 * amp(sp) / v * (1 + curv) * (1 + g) ** 1.5 + 1e-6 * sc, kernel=sp, parameter=t)
    mon.sig(gen.kind_name(sp), r.shape, str(r.dtype))
    mon.describe(kernel=sp, shape=r.shape)


def wide(rng, mon, idx):
    """Parameters over many orders of magnitude, distances on the scale of the kernel."""
    sp = wide_kernel(rng)
    s = sp
    while s['kind'] == 'scaled':
        s = s['inner']
    r = np.concatenate([[0.], rng.rand(6) * choice(rng, [1, 1, 8, 25])]) * (period(sp) or reach(sp))
    if period(sp):
        r = r * choice(rng, [1, 30, 1000])
    got = list(gen.build_kernel(sp).kernel_gradient(r))
    want = O.kgrads(sp, r)
    mon.check(len(got) == len(want), 'one gradient per parameter, wide', got=len(got), want=len(want), kernel=sp)
    for t, (a, b) in enumerate(zip(got, want)):
        tol = 1e-9 * np.abs(b).max() + 1e-280
        if period(sp):          # phase error
            T, g = period(sp), s['g']
            mag = amp(sp) * (1 + g * np.pi * r.max() / T ** 2 + 1)
            tol += (1e-12 + 1e-14 * r.max() / T) * (1 + g) * mag
        mon.close(a, b, 'gradient value, wide', 1e-9, tol, kernel=sp, parameter=t)
    mon.sig('wide', gen.kind_name(sp))
    mon.describe(kernel=sp)


def storing(rng, mon, idx):
    sp = tame(rng)
    if idx % 3 == 0:            # nested wrappers, some of unit scale
        for _ in range(rng.randint(1, 4)):
            sp = {'kind': 'scaled', 'inner': sp, 'scale': float(choice(rng, [1., 1., 2., .5]))}
    k = gen.build_kernel(sp)
    n = len(O.kparams(sp))
    for rep in range(3):
        g = rng.randn(n)
        k.update_gradient(choice(rng, [g, list(g)]))
        objs = gen.kernel_param_objs(k, sp)
        mon.close([float(np.asarray(p.gradient).ravel()[0]) for p in objs], g, 'stored on matching parameter', 1e-12)
        mon.close(np.sort(np.asarray(k.gradient).ravel()) if n else np.zeros(0), np.sort(g),
                  'all components reach the optimiser', 1e-12)
    # the flat parameter vector moves exactly with the parameters
    mon.close(np.sort(np.asarray(k.param_array).ravel()) if n else np.zeros(0), np.sort(O.kparams(sp)),
              'parameter vector holds every parameter', 1e-12)
    mon.sig('store', gen.kind_name(sp))


def twins(rng, mon, idx):
    """Several kernels alive at once do not share state."""
    sps = [tame(rng) for _ in range(3)]
    ks = [gen.build_kernel(s) for s in sps]
    r = rng.rand(7) * 3
    for _ in range(4):
        i = rng.randint(3)
        new = [float(np.exp(rng.uniform(-1, 1))) for _ in O.kparams(sps[i])]
        for p, v in zip(gen.kernel_param_objs(ks[i], sps[i]), new):
            p[:] = v
        gen.set_kparams(sps[i], new)
        for s, k in zip(sps, ks):
            mon.close(k.from_dist(r), O.kval(s, r), 'value with other kernels alive', 1e-9)
            for a, b in zip(k.kernel_gradient(r), O.kgrads(s, r)):
                mon.close(a, b, 'gradient with other kernels alive', 1e-8, 1e-10 * amp(s))
    mon.sig('twins', sorted(gen.kind_name(s) for s in sps))


FAMILIES = [('wide', wide, 300, 8000), ('gradients', gradients, 1200, 30000), ('storing', storing, 300, 4000), ('twins', twins, 150, 2000)]
MIN_EVENTS = {'obs:gradient value': 1000, 'obs:gradient is the derivative of the kernel': 1000}
