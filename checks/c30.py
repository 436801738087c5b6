"""C30: array helpers meet their contracts on every array."""
import numpy as np
import scipy.linalg as la

from runlmc.util.numpy_convenience import (begin_end_indices, cartesian_product, chunks, map_entries, search_descending,
                                           smallest_eig, symm_2d_list_map, tesselate)
from vmon.gen import choice

RULE = ('random arrays of every rank, dtype and memory layout (C, Fortran, transposed, strided, reversed, read-only, '
        'broadcast), results compared entry by entry with naive loops; distinct = (helper, shape, dtype, layout)')
ASSUMPTIONS = ['Cartesian products of numeric (not boolean) arrays']


def layout(rng, a):
    k = choice(rng, ['C', 'F', 'T', 'strided', 'reversed', 'readonly', 'swapped', 'broadcast'])
    if k == 'F':
        a = np.asfortranarray(a)
    elif k == 'T':
        a = np.ascontiguousarray(a.T).T
    elif k == 'strided' and a.ndim:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif k == 'reversed' and a.ndim:
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif k == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    elif k == 'swapped' and a.ndim > 1:
        a = np.ascontiguousarray(np.swapaxes(a, 0, -1)).swapaxes(0, -1)
    elif k == 'broadcast' and a.ndim > 1:
        a = np.broadcast_to(a[:1], a.shape)
    return k, a


def entries(rng, mon, idx):
    for _ in range(8):
        nd = int(rng.randint(0, 5))
        shape = tuple(int(rng.randint(0 if rng.rand() < .2 else 1, 5)) for _ in range(nd))
        dt = choice(rng, [float, np.float32, int, np.int32, complex])
        a = np.asarray(rng.randn(*shape) * 50).astype(dt)
        k, a = layout(rng, a)
        if rng.rand() < .3 and a.ndim:
            ix = tuple(slice(None, None, choice(rng, [1, -1, 2])) for _ in range(a.ndim))
            a = a[ix]
        keep = a.copy()
        f = choice(rng, [lambda x: x * 2 + 1, lambda x: -x, lambda x: x * x, lambda x: x])
        got = map_entries(f, a)
        mon.check(np.shape(got) == a.shape, 'map keeps the shape', got=np.shape(got), want=a.shape)
        want = np.empty(a.shape, dtype=a.dtype)
        for i in np.ndindex(*a.shape):
            want[i] = f(a[i])
        mon.check(np.allclose(got, want, rtol=1e-6, atol=0, equal_nan=True), 'map applies at each position', layout=k,
                  shape=a.shape, dtype=str(np.dtype(dt)), got=got, want=want)
        mon.check(np.asarray(got).dtype == a.dtype, 'map keeps the type', got=str(np.asarray(got).dtype))
        mon.same(a, keep, 'map leaves its argument')
        mon.event('arrays mapped')
        mon.sig('map', a.shape, str(a.dtype), k)


def split(rng, mon, idx):
    for _ in range(8):
        k = int(rng.randint(1, 7)) if rng.rand() < .7 else int(rng.randint(7, 30))
        lens = [int(rng.randint(0, 5)) for _ in range(k)]
        n = sum(lens)
        tail = choice(rng, [(), (), (2,), (1, 3)])
        a = np.arange(n * int(np.prod(tail))).reshape((n,) + tail).astype(choice(rng, [float, int]))
        kind, a = layout(rng, a)
        keep = a.copy()
        form = choice(rng, ['list', 'tuple', 'array', 'iter', 'gen'])
        it = {'list': lambda: list(lens), 'tuple': lambda: tuple(lens), 'array': lambda: np.array(lens),
              'iter': lambda: iter(lens), 'gen': lambda: (x for x in lens)}[form]
        got = tesselate(a, it())
        mon.check(len(got) == k, 'one segment per length', got=len(got), want=k)
        p = 0
        for g, ln in zip(got, lens):
            mon.same(g, a[p:p + ln], 'segments in order', lens=lens, form=form)
            p += ln
        mon.same(a, keep, 'splitting leaves its argument')
        j = int(rng.randint(k))
        wrong = list(lens)
        wrong[j] += int(choice(rng, [1, 3]))
        mon.raises(ValueError, 'wrong total rejected', tesselate, a, wrong)
        if lens[j]:
            wrong = list(lens)
            wrong[j] -= 1
            mon.raises(ValueError, 'wrong total rejected', tesselate, a, wrong)
        mon.raises(ValueError, 'no lengths rejected', tesselate, a, [])
        mon.event('splits')
        mon.sig('split', lens, form, kind)
        # begin and end offsets
        b, e = begin_end_indices(it() if form in ('list', 'tuple', 'array') else list(lens))
        mon.check(len(b) == k and len(e) == k, 'one offset per length')
        p = 0
        for i, ln in enumerate(lens):
            mon.check(b[i] == p and e[i] == p + ln, 'offsets delimit the segments', lens=lens, begin=list(b), end=list(e))
            p += ln
        mon.event('offsets')


def offsets(rng, mon, idx):
    """Many segments and large totals."""
    k = int(choice(rng, [60, 120, 300, 1100]))
    lens = rng.randint(0, int(choice(rng, [5, 400, 70000])), k)
    want = np.concatenate([[0], np.cumsum(lens.astype(object))]).tolist()
    if idx % 4 == 3:               # totals beyond single precision and 32 bits
        lens = rng.randint(0, int(choice(rng, [2 ** 22, 2 ** 31])), k)
        want = np.concatenate([[0], np.cumsum(lens.astype(object))]).tolist()
    b, e = begin_end_indices(choice(rng, [lens, lens.tolist(), tuple(lens.tolist())] + [lens.astype(np.int32)] * (idx % 4 != 3)))
    mon.check([int(x) for x in b] == want[:-1] and [int(x) for x in e] == want[1:], 'offsets of many segments', k=k)
    n = want[-1]
    if n < 200000:
        a = np.arange(n)
        got = tesselate(a, lens)
        mon.check(len(got) == k and all(len(g) == ln and (not ln or (g[0] == s and g[-1] == s + ln - 1))
                                        for g, ln, s in zip(got, lens, want)), 'many segments in order', k=k)
    else:
        got = tesselate(np.broadcast_to(np.int8(1), (n,)), lens.tolist())
        mon.check([len(g) for g in got] == lens.tolist(), 'many long segments', k=k, n=n)
    mon.event('offsets')
    mon.sig('offsets', k, n > 32767)


def search(rng, mon, idx):
    for _ in range(10):
        n = int(choice(rng, [0, 1, 2, 3, 5, 9, 20, 150]))
        xs = np.sort(rng.randint(-4, 5, n) if rng.rand() < .6 else rng.randn(n))[::-1]
        form = choice(rng, ['array', 'list', 'copy'])
        arg = list(xs) if form == 'list' else (xs if form == 'array' else xs.copy())
        cand = [rng.randn(), -10, 10, 0, int(rng.randint(-2, 3)), np.int32(rng.randint(-2, 3)), np.float32(.5)] + ([xs[rng.randint(n)]] * 3 if n else [])
        for x in cand:
            for inc in (True, False):
                got = search_descending(x, arg, inc)
                want = 0
                while want < n and (xs[want] >= x if inc else xs[want] > x):
                    want += 1
                mon.check(int(got) == want, 'descending search', x=x, xs=xs, inclusive=inc, got=int(got), want=want)
                mon.event('searches')
        if n > 1 and xs[0] > xs[-1]:
            i = rng.randint(n - 1)
            bad = xs.copy().astype(float)
            bad[i + 1] = bad[i] + abs(rng.randn()) + 1e-9 if rng.rand() < .5 else np.nextafter(bad[i], np.inf)
            mon.raises(ValueError, 'unsorted rejected', search_descending, 0., bad, bool(rng.rand() < .5))
        mon.sig('search', n, len(set(xs.tolist())))


def products(rng, mon, idx):
    for _ in range(6):
        k = int(rng.randint(1, 5))
        arrs = []
        for _ in range(k):
            a = rng.randn(rng.randint(0 if rng.rand() < .05 else 1, 6 if k > 2 or rng.rand() < .8 else 25))
            if rng.rand() < .4:
                a = np.round(a * 5).astype(choice(rng, [int, np.int32]))
            if rng.rand() < .2:
                a = np.repeat(a, 2)[::2]
            arrs.append(a)
        keep = [a.copy() for a in arrs]
        got = np.asarray(cartesian_product(*arrs))
        n = int(np.prod([len(a) for a in arrs]))
        mon.check(got.shape == (n, k), 'product shape', got=got.shape, want=(n, k))
        r = 0
        for ix in np.ndindex(*[len(a) for a in arrs]):
            want = [float(a[i]) for a, i in zip(arrs, ix)]
            mon.check(got[r].tolist() == want, 'product row, last axis fastest', row=r, got=got[r], want=want)
            r += 1
        for a, b in zip(arrs, keep):
            mon.same(a, b, 'product leaves its arguments')
        mon.event('products')
        mon.sig('product', [len(a) for a in arrs])
        # chunks
        m = int(rng.randint(0, 12 if rng.rand() < .8 else 200))
        seq = list(range(m)) if rng.rand() < .5 else np.arange(m)
        c = int(rng.randint(1, 6))
        got = [list(x) for x in chunks(seq, c)]
        want = [list(range(i, min(i + c, m))) for i in range(0, m, c)]
        mon.check(got == want, 'chunks', length=m, size=c, got=got)
        mon.event('chunkings')


def symmetric(rng, mon, idx):
    for _ in range(6):
        D = int(rng.randint(1, 6)) if rng.rand() < .7 else int(rng.randint(6, 13))
        A = rng.randint(-9, 9, (D, D)).astype(float)
        A = A + A.T
        obj = np.empty((D, D), dtype=object)
        for i in range(D):
            for j in range(D):
                obj[i, j] = (min(i, j), max(i, j))
        out = symm_2d_list_map(lambda x, c, d: x * c + d, A, D, 3., -1., dtype=float)
        mon.same(np.asarray(out, dtype=float), A * 3 - 1, 'symmetric map with arguments')
        B = rng.randn(D, D)
        out = np.asarray(symm_2d_list_map(lambda x: x * 2, B, D, dtype=float), dtype=float)
        mon.same(out, out.T, 'symmetric map is symmetric')
        mon.same(np.triu(out), np.triu(B * 2), 'symmetric map reads the upper half')
        seen = []
        out = symm_2d_list_map(lambda x: seen.append(x) or x[0] * 100 + x[1], obj, D)
        want = [[min(i, j) * 100 + max(i, j) for j in range(D)] for i in range(D)]
        mon.check(np.asarray(out).shape == (D, D) and np.asarray(out).tolist() == want, 'symmetric map', got=np.asarray(out).tolist())
        mon.event('symmetric maps')
        n = int(choice(rng, [1, 1, 2, 3, 5, 12, 30, 50, 80]))
        top = rng.randn(n) * 10. ** rng.uniform(-3, 3)
        if rng.rand() < .4:
            top = np.exp(-np.arange(n) * rng.rand())
        keep = top.copy()
        T = np.array([[top[abs(i - j)] for j in range(n)] for i in range(n)])
        mon.close(smallest_eig(top), np.linalg.eigvalsh(T)[0], 'smallest Toeplitz eigenvalue', 0, 1e-10 * np.abs(top).sum() + 1e-300)
        mon.same(top, keep, 'eigenvalue leaves its argument')
        mon.event('eigenvalues')
        mon.sig('symm', D, n)


FAMILIES = [('offsets', offsets, 40, 500), ('entries', entries, 120, 4000), ('split', split, 120, 4000), ('search', search, 100, 3000),
            ('products', products, 100, 3000), ('symmetric', symmetric, 80, 3000)]
MIN_EVENTS = {'arrays mapped': 500, 'splits': 500, 'searches': 2000, 'products': 300, 'eigenvalues': 200, 'offsets': 500}
