"""C21: quantile predictions are the Gaussian quantiles of predict."""
import numpy as np
import scipy.special

from vmon import gen
from vmon.gen import choice
from vmon.pred import affordable, modes_for

RULE = ('models in every mode x quantile lists (any order, duplicates, extreme values, tuple/list/array/generator/'
        'range) x ragged query batches; distinct = (configuration, mode, list type, number of quantiles)')
ASSUMPTIONS = ['quantiles strictly between 0 and 100']


def qlist(rng):
    k = int(rng.randint(1, 7)) if rng.rand() < .7 else int(rng.randint(7, 40))
    qs = [float(choice(rng, [2.5, 97.5, 50, 50, 1e-3, 99.999, 25, 75, 10, 1e-7, 100 - 1e-9, 0.05, 99.95, 1e-12])) if rng.rand() < 0.6
          else float(rng.uniform(0.01, 99.99)) for _ in range(k)]
    kind = choice(rng, ['tuple', 'list', 'array', 'gen', 'range', 'int', 'iter', 'default'])
    if kind == 'range':
        r = range(10, 95, int(rng.randint(10, 40)))
        return kind, list(r), lambda: r
    if kind == 'int':
        qs = [int(rng.randint(1, 100)) for _ in range(k)]
        return kind, qs, lambda: list(qs)
    if kind == 'default':
        return kind, [2.5, 97.5], None
    mk = {'tuple': lambda: tuple(qs), 'list': lambda: list(qs), 'array': lambda: np.array(qs),
          'gen': lambda: (q for q in qs), 'iter': lambda: iter(qs)}[kind]
    return kind, qs, mk


def run(rng, mon, pr, mode, reps=4):
    if mode == 'precompute':
        reps = 2
    model = pr.build(trace_iterations=1, prediction=mode)
    kinds = []
    for _ in range(reps):
        Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 5)
        kind, qs, mk = qlist(rng)
        first = rng.rand() < 0.5
        ask = (lambda: model.predict_quantiles(Ts)) if mk is None else (
            lambda: model.predict_quantiles([T.copy() for T in Ts], quantiles=mk()))
        if first:
            got = ask()
        m, v = model.predict([T.copy() for T in Ts])
        if not first:
            got = ask()
        mon.check(len(got) == pr.D, 'one array per output')
        zs = scipy.special.ndtri(np.array(qs, dtype=float) / 100.)
        for d in range(pr.D):
            mm, sd = np.asarray(m[d]), np.sqrt(np.asarray(v[d]))
            g = np.asarray(got[d])
            mon.check(g.shape == (len(Ts[d]), len(qs)), 'one row per point and one column per quantile', got=g.shape,
                      want=(len(Ts[d]), len(qs)), output=d)
            if not g.size:
                continue
            want = mm[:, None] + sd[:, None] * zs[None, :]
            sc = np.abs(mm).max() + sd.max() * np.abs(zs).max() + np.abs(pr.Ys[d]).max()
            mon.close(g, want, 'Gaussian quantile', 0, 1e-7 * sc, output=d, quantiles=qs, mode=mode)
            o = np.argsort(qs, kind='stable')
            mon.check((np.diff(g[:, o], axis=1) >= -1e-9 * sc).all(), 'monotone in the quantile', output=d)
            for j, q in enumerate(qs):
                if q == 50:
                    mon.close(g[:, j], mm, 'the 50% quantile is the mean', 0, 1e-8 * sc, output=d)
            mon.event('quantiles compared', g.size)
        kinds.append(kind)
        mon.sig(pr.sig(), mode, kind, len(qs))
    pr.describe(mon, mode=mode, lists=kinds)


def modes(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3, ads=None if idx % 2 else [None], P=int(choice(rng, [1, 1, 2])))
    ms = modes_for(pr)
    run(rng, mon, pr, affordable(pr, ms[idx % len(ms)]))


def scaled(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=2, P=1, normalize=True)
    for d in range(pr.D):
        pr.Ys[d] = pr.Ys[d] * 10. ** rng.uniform(-4, 4) + rng.randn() * 10. ** rng.uniform(-2, 3)
    ms = modes_for(pr)
    run(rng, mon, pr, affordable(pr, ms[idx % len(ms)]), 3)


FAMILIES = [('modes', modes, 48, 1200), ('scaled', scaled, 24, 500)]
MIN_EVENTS = {'quantiles compared': 2000}
