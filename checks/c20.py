"""C20: prediction is pointwise."""
import numpy as np

from vmon import gen, oracle as O
from vmon.core import Solves
from vmon.gen import choice, split
from vmon.pred import affordable, modes_for

RULE = ('per model and mode: one batch asked whole, permuted, split into single points, with duplicates, with other '
        'outputs emptied, as vectors or columns, repeatedly and interleaved; every answer joined by (output, point) '
        'and compared; distinct = (configuration, mode, regroupings used)')
ASSUMPTIONS = ['variance bounded by the prior variance is claimed for exact and on-the-fly modes only',
               'single-process models here (C25 covers worker pools)']


def answers(Ts, got):
    out = []
    for d, T in enumerate(Ts):
        T = np.asarray(T)
        for i in range(len(T)):
            out.append((d, tuple(np.atleast_1d(T[i]).tolist()), float(got[0][d][i]), float(got[1][d][i])))
    return out


def regroup(rng, Ts, kind, P):
    D = len(Ts)
    if kind == 'perm':
        return [[T[rng.permutation(len(T))] for T in Ts]]
    if kind == 'single':
        out = []
        for d in range(D):
            for i in range(len(Ts[d])):
                out.append([Ts[e][i:i + 1] if e == d else Ts[e][:0] for e in range(D)])
        rng.shuffle(out)
        return out[:6]
    if kind == 'one output':
        return [[Ts[e] if e == d else Ts[e][:0] for e in range(D)] for d in range(D)]
    if kind == 'duplicates':
        return [[np.concatenate([T, T[::-1], T[:1]]) for T in Ts]]
    if kind == 'halves':
        k = [rng.randint(0, len(T) + 1) for T in Ts]
        return [[T[:j] for T, j in zip(Ts, k)], [T[j:] for T, j in zip(Ts, k)]]
    if kind == 'swap':   # same points asked of other outputs as well
        allp = np.concatenate([T for T in Ts])
        return [[allp for _ in Ts]]
    if kind == 'columns':
        return [[T.reshape(len(T), P) for T in Ts]]
    if kind == 'strided':
        return [[np.asfortranarray(np.repeat(T, 2, axis=0))[::2] for T in Ts]]
    return [[T.copy() for T in Ts]]


KINDS = ['perm', 'single', 'one output', 'duplicates', 'halves', 'swap', 'columns', 'strided', 'again']


def check_bounds(mon, Ts, got, native, cap, slack):
    for d, T in enumerate(Ts):
        m, v = np.asarray(got[0][d]), np.asarray(got[1][d])
        mon.check(m.shape == (len(T),) and v.shape == (len(T),), 'arrays have the length of the query', output=d,
                  got=(m.shape, v.shape), want=len(T))
        mon.check(np.isfinite(m).all() and np.isfinite(v).all(), 'finite', output=d)
        mon.check((v >= 0).all(), 'variance not negative', output=d, got=v)
        if cap and len(T):
            mon.check((v <= native[d] * (1 + 1e-7) + slack).all(), 'variance at most the prior variance', output=d,
                      got=v.max(), prior=native[d])


def run(rng, mon, pr, mode, nreg=5, nq=5):
    with Solves() as sv:
        model = pr.build(trace_iterations=1, prediction=mode)
        Ts = [np.asarray(T) for T in gen.gen_queries(rng, pr.Xs, pr.P, pr.D, nq, empties=rng.rand() < 0.6)]
        Ts = [T.reshape(len(T), pr.P) if pr.P > 1 else T.ravel() for T in Ts]
        base = model.predict([T.copy() for T in Ts])
    _, sd = pr.scales()
    native = O.prior_var(pr.current()) * sd ** 2
    slack = 1e-6 * native.max()
    check_bounds(mon, Ts, base, native, mode != 'precompute', slack)
    ref = {}
    # solves are deterministic per right-hand side, so regrouping changes rounding only; leave
    # room for Krylov sensitivity where the solver did not converge
    rel = 1e-6 if sv.res < 1e-6 else 1e-6 + 100 * sv.res
    used = []
    order = [KINDS[i] for i in rng.permutation(len(KINDS))[:nreg]]
    for d, x, m, v in answers(Ts, base):
        ref[d, x] = (m, v)
    top = np.array([np.abs(Y).max() for Y in pr.Ys])
    for kind in order:
        for Q in regroup(rng, Ts, kind, pr.P):
            got = model.predict(Q)
            mon.check(len(got[0]) == pr.D and len(got[1]) == pr.D, 'one array per output')
            check_bounds(mon, Q, got, native, mode != 'precompute', slack)
            for d, x, m, v in answers(Q, got):
                if (d, x) in ref:
                    m0, v0 = ref[d, x]
                    mon.check(abs(m - m0) <= 1e-8 * (top[d] + abs(m0)), 'same mean when asked ' + kind, output=d, x=x,
                              got=m, want=m0)
                    mon.check(abs(v - v0) <= rel * native[d], 'same variance when asked ' + kind, output=d, x=x,
                              got=v, want=v0, mode=mode)
                else:
                    ref[d, x] = (m, v)
            if rng.rand() < 0.2:
                qs = model.predict_quantiles(Q, quantiles=(50,))
                for d in range(pr.D):
                    mon.close(np.asarray(qs[d]).ravel(), np.asarray(got[0][d]), 'quantile call agrees', 1e-8, 1e-8 * top[d])
        used.append(kind)
    mon.event('regroupings', len(used))
    mon.event('points joined', len(ref))
    mon.sig(pr.sig(), mode, sorted(used))
    pr.describe(mon, mode=mode, regroupings=used)


def modes(rng, mon, idx):
    pr = gen.Problem(rng, nmax=9, max_q=3, P=int(choice(rng, [1, 1, 2])), ads=None if idx % 2 else [None],
                     D=int(choice(rng, [1, 2, 3, 4])))
    ms = modes_for(pr)
    run(rng, mon, pr, affordable(pr, ms[idx % len(ms)]))


def bigger(rng, mon, idx):
    pr = gen.Problem(rng, nmax=40, nmin=20, P=1, D=2, max_q=2, big=True)
    run(rng, mon, pr, choice(rng, ['on-the-fly', 'exact']), 4)


def nothing(rng, mon, idx):
    """Empty queries in every position, in every mode."""
    pr = gen.Problem(rng, nmax=7, max_q=2, P=int(choice(rng, [1, 2])), ads=[None], D=int(choice(rng, [1, 2, 3])))
    for mode in modes_for(pr):
        model = pr.build(trace_iterations=1, prediction=affordable(pr, mode))
        for rep in range(3):
            emp = [True] * pr.D if rep == 0 else [bool(rng.rand() < 0.6) for _ in range(pr.D)]
            Q = [np.zeros((0, pr.P)) if e else pr.Xs[d][:2] for d, e in enumerate(emp)]
            if pr.P == 1 and rng.rand() < 0.5:
                Q = [q.reshape(-1) for q in Q]
            m, v = model.predict(Q)
            qs = model.predict_quantiles(Q)
            for d in range(pr.D):
                mon.check(np.shape(m[d]) == (len(Q[d]),) and np.shape(v[d]) == (len(Q[d]),), 'empty outputs in place',
                          got=(np.shape(m[d]), np.shape(v[d])), output=d)
                mon.check(np.shape(qs[d]) == (len(Q[d]), 2), 'empty quantiles in place', got=np.shape(qs[d]), output=d)
    mon.sig('nothing', pr.sig())


def buffers(rng, mon, idx):
    """Query arrays and lists that the caller fills anew between calls."""
    pr = gen.Problem(rng, nmax=8, max_q=2, P=int(choice(rng, [1, 1, 2])), ads=[None], D=int(choice(rng, [1, 2, 3])))
    mode = ('on-the-fly', 'exact', 'precompute')[idx % 3]
    model = pr.build(trace_iterations=1, prediction=affordable(pr, mode))
    k = int(rng.randint(1, 4))
    X = np.concatenate([np.asarray(x, float).reshape(-1, pr.P) for x in pr.Xs])
    lo, hi = X.min(0), X.max(0)
    buf = [np.zeros((k, pr.P)) for _ in range(pr.D)]
    if pr.P == 1 and rng.rand() < .4:
        buf = [b.reshape(-1) for b in buf]
    asked = []
    for rep in range(3):
        for d, b in enumerate(buf):
            b[...] = (lo + (hi - lo) * rng.rand(k, pr.P)).reshape(b.shape)
        if rep == 2 and pr.D > 1:
            buf[0], buf[1] = buf[1], buf[0]
        asked.append(([b.copy() for b in buf], model.predict(buf), model.predict_quantiles(buf, (30., 80.)) if idx % 2 else None))
    for buf, got, q in asked:
        want = model.predict([b.copy() for b in buf])
        wq = model.predict_quantiles([b.copy() for b in buf], (30., 80.))
        for d in range(pr.D):
            sc = float(np.max(np.abs(pr.Ys[d])) + 1)
            mon.close(np.asarray(got[0][d]), np.asarray(want[0][d]), 'mean for the present contents of a buffer', 1e-7, 1e-7 * sc, mode=mode)
            mon.close(np.asarray(got[1][d]), np.asarray(want[1][d]), 'variance for the present contents of a buffer', 1e-7,
                      1e-7 * sc ** 2, mode=mode)
            if q is not None:
                mon.close(np.asarray(q[d]), np.asarray(wq[d]), 'quantiles for the present contents of a buffer', 1e-6, 1e-4 * sc, mode=mode)
    mon.event('buffers refilled')
    mon.sig('buffers', pr.sig(), mode)


def many_queries(rng, mon, idx):
    """Batches of up to several hundred points, taken apart."""
    P = int(choice(rng, [1, 1, 2]))
    pr = gen.Problem(rng, nmax=10, max_q=2, P=P, D=int(choice(rng, [1, 2, 3])), ads=[None])
    run(rng, mon, pr, affordable(pr, ('on-the-fly', 'exact', 'precompute')[idx % 3]), 4,
        nq=int(choice(rng, [20, 70, 130])))


def large(rng, mon, idx):
    D = int(choice(rng, [1, 2, 3, 8]))
    n = int(rng.randint(100, 240)) // D
    pr = gen.Problem(rng, nmax=n + 8, nmin=n, P=1, D=D, q=int(choice(rng, [1, 2, 5])), big=D < 4)
    mode = choice(rng, ['on-the-fly', 'exact', 'precompute'])
    if mode == 'precompute':
        pr.m = 8 if D < 4 else 4
    run(rng, mon, pr, mode, 2, nq=3 if D < 4 else 1)


def batches(rng, mon, idx):
    """More than a thousand points at once, certain ones first or last."""
    pr = gen.Problem(rng, nmax=10, max_q=2, P=1, D=int(choice(rng, [1, 2])), ads=[None])
    mode = affordable(pr, choice(rng, ['exact', 'precompute']))
    model = pr.build(trace_iterations=1, prediction=mode)
    Ts = []
    for d in range(pr.D):
        X = np.asarray(pr.Xs[d]).ravel()
        lo, hi = X.min(), X.max()
        T = np.concatenate([np.repeat(X, 3), rng.uniform(lo, hi, int(rng.randint(300, 1200)))])
        T = T[rng.permutation(len(T))]
        near = np.abs(T[:, None] - X[None, :]).min(1)
        Ts.append(T[np.argsort(near)[::1 if rng.rand() < .7 else -1]])
    base = model.predict([T.copy() for T in Ts])
    native = O.prior_var(pr.current()) * pr.scales()[1] ** 2
    check_bounds(mon, Ts, base, native, mode != 'precompute', 1e-6 * native.max())
    for step in (97, 400):
        for d in range(pr.D):
            s = int(rng.randint(0, len(Ts[d])))
            Q = [T[s:s + step] if e == d else T[:0] for e, T in enumerate(Ts)]
            m, v = model.predict(Q)
            top = np.abs(pr.Ys[d]).max()
            mon.close(np.asarray(m[d]), np.asarray(base[0][d])[s:s + step], 'same mean in a part of a large batch', 1e-8, 1e-8 * top)
            mon.close(np.asarray(v[d]), np.asarray(base[1][d])[s:s + step], 'same variance in a part of a large batch', 0, (1e-9 if mode == 'exact' else 1e-6) * native[d])
    mon.event('points joined', 500)
    mon.sig('batches', pr.sig(), mode)


FAMILIES = [('buffers', buffers, 18, 400), ('batches', batches, 8, 100), ('many_queries', many_queries, 9, 150), ('large', large, 6, 80), ('modes', modes, 45, 1200), ('bigger', bigger, 4, 100), ('nothing', nothing, 9, 200)]
MIN_EVENTS = {'regroupings': 120, 'points joined': 300}
