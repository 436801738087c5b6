"""C24: a model depends only on its data and current parameters."""
import contextlib
import copy
import io
import logging

import numpy as np
import scipy.linalg as la

from runlmc.models.optimization import AdaDelta
from vmon import gen, oracle as O
from vmon.core import Inconclusive, Solves
from vmon.gen import choice
from vmon.pred import Expected, affordable, modes_for
from checks.c11 import reassign

RULE = ('random interleaved histories (assignment singly, blockwise and with updates off, optimisation, mode switches, '
        'prediction, likelihood and covariance queries, copies, new models, refused calls, log level changes) over 1-4 '
        'live models; every answer is compared with a state-free dense oracle at the current parameters, and at the '
        'end with a freshly built model; distinct = operation sequence')
ASSUMPTIONS = ['models are not asked while their updates are switched off',
               'slack for solver residuals that the code itself reported']


class Live:
    """One live model and the residual of its last update."""

    def __init__(self, pr, mode):
        self.pr, self.mode, self.res = pr, mode, 0.
        self.n = len(pr.y())
        self.kw = dict(trace_iterations=1, prediction=mode)
        self.update(lambda: pr.build(**self.kw))
        self.modes = modes_for(pr)

    def update(self, fn):
        with Solves(self.n) as s:
            fn()
        self.res = s.res

    @property
    def model(self):
        return self.pr.model


def close_kernel(pr, rng):
    """Keep parameters where the oracle is well conditioned."""
    pr.fk.noise = np.clip(pr.fk.noise, 0.05, 5.)


# ------------------------------------------------------------- operations
def op_noise(rng, mon, lv):
    lv.update(lambda: setattr(lv.pr.fk, 'noise', np.exp(rng.uniform(-2.5, 0, lv.pr.D))))


def op_all(rng, mon, lv):
    lv.update(lambda: reassign(rng, lv.pr))


def op_one(rng, mon, lv):
    """One scalar of one parameter, through the linked parameter objects."""
    ps = [p for p in lv.pr.fk.flattened_parameters]
    p = ps[rng.randint(len(ps))]
    i = tuple(int(rng.randint(k)) for k in p.shape)
    v = float(np.asarray(p)[i])
    new = v * float(np.exp(rng.uniform(-.4, .4)))
    lv.update(lambda: p.__setitem__(i, new))


def op_block(rng, mon, lv):
    v = np.array(lv.model.param_array)
    w = v * np.exp(rng.uniform(-.3, .3, v.shape))
    lv.update(lambda: lv.model.__setitem__(slice(None), w))


def op_optarray(rng, mon, lv):
    x = np.array(lv.model.optimizer_array)
    w = x + rng.uniform(-.1, .1, x.shape)
    lv.update(lambda: setattr(lv.model, 'optimizer_array', w))


def op_swap(rng, mon, lv):
    """The same values in other places."""
    v = np.array(lv.model.param_array)
    w = v.copy()
    pos = np.flatnonzero(v > 0)
    if rng.rand() < .5 and len(pos) > 1:
        i, j = rng.choice(pos, 2, replace=False)
        w[i], w[j] = v[j], v[i]
    else:
        w[pos] = v[rng.permutation(pos)]
    lv.update(lambda: lv.model.__setitem__(slice(None), w))


def op_swap_kernel(rng, mon, lv):
    """Two parameters of one kernel exchanged."""
    q = rng.randint(len(lv.pr.kernels))
    k = O.all_kernels(lv.pr.current())[q]
    objs, vals = gen.kernel_param_objs(lv.pr.kernels[q], k), O.kparams(k)
    if len(objs) > 1:
        vals = list(vals)[::-1]

        def fn():
            for o, v in zip(objs, vals):
                o[:] = v
        lv.update(fn)


def op_kernel(rng, mon, lv):
    q = rng.randint(len(lv.pr.kernels))
    k = O.all_kernels(lv.pr.current())[q]
    objs = gen.kernel_param_objs(lv.pr.kernels[q], k)
    if objs:
        t = rng.randint(len(objs))
        v = O.kparams(k)[t] * float(np.exp(rng.uniform(-.5, .5)))
        lv.update(lambda: objs[t].__setitem__(slice(None), v))


def op_deferred(rng, mon, lv):
    def fn():
        lv.model.update_model(False)
        reassign(rng, lv.pr)
        lv.pr.fk.noise = np.exp(rng.uniform(-2.5, 0, lv.pr.D))
        lv.model.update_model(True)
    lv.update(fn)


def op_deferred_with(rng, mon, lv, others):
    """Other models are used while this one has updates off."""
    def fn():
        lv.model.update_model(False)
        reassign(rng, lv.pr)
    fn()
    if others:
        ask(rng, mon, choice(rng, others), ' while another model is deferred')
    lv.update(lambda: lv.model.update_model(True))


def op_back(rng, mon, lv):
    """There and back again: the same parameter values as before."""
    v = np.array(lv.model.param_array)
    lv.model[:] = v * 1.25
    if rng.rand() < 0.5:
        lv.model.predict([X[:1] for X in lv.pr.Xs])
    lv.update(lambda: lv.model.__setitem__(slice(None), v))


def op_optimize(rng, mon, lv):
    it = int(rng.randint(1, 4))

    def fn():
        with contextlib.redirect_stdout(io.StringIO()):
            lv.model.optimize(optimizer=AdaDelta(max_it=it, step_rate=0.1))
    fn()
    lv.update(lambda: close_kernel(lv.pr, rng))


def op_mode(rng, mon, lv):
    lv.mode = choice(rng, lv.modes)
    lv.model.prediction = lv.mode


def op_refused(rng, mon, lv):
    """A refused call leaves the model as it was."""
    bad = [np.zeros((2, lv.pr.P + 1)) for _ in range(lv.pr.D)]
    mon.raises(ValueError, 'query of the wrong dimension refused', lv.model.predict, bad)


def op_fix(rng, mon, lv):
    """A parameter fixed or freed: its value, and what depends on it, stay as they are."""
    ps = list(lv.pr.fk.flattened_parameters)
    p = ps[rng.randint(len(ps))]
    with Solves(lv.n) as s:
        if p.is_fixed:
            p.unfix()
        else:
            p.fix()
    lv.res = max(lv.res, s.res)


def op_log(rng, mon, lv):
    logging.getLogger('runlmc').setLevel(int(choice(rng, [logging.DEBUG, logging.INFO, logging.WARNING, logging.DEBUG])))


# ----------------------------------------------------------- observations
def slack_of(lv, res, sp):
    if not np.isfinite(res):
        raise Inconclusive('solver report unreadable')
    return res


def ask_predict(rng, mon, lv, tag):
    Ts = gen.gen_queries(rng, lv.pr.Xs, lv.pr.P, lv.pr.D, 3)
    with Solves(lv.n) as s:
        if rng.rand() < 0.3:
            q = lv.model.predict_quantiles([T.copy() for T in Ts], quantiles=(50,))
            got = lv.model.predict([T.copy() for T in Ts])
            for d in range(lv.pr.D):
                mon.close(np.asarray(q[d]).ravel(), np.asarray(got[0][d]), 'quantile call' + tag, 1e-8,
                          1e-8 * np.abs(lv.pr.Ys[d]).max())
        else:
            got = lv.model.predict([T.copy() for T in Ts])
    Expected(lv.pr, Ts, lv.mode, max(s.res, lv.res)).compare(mon, got, tag)
    mon.event('predictions', sum(map(len, Ts)))


def ask_ll(rng, mon, lv, tag):
    sp, y = lv.pr.current(), lv.pr.y()
    Ks = lv.pr.oracle(sp).K()
    a = la.solve(Ks, y, assume_a='pos')
    Ke = O.exact_cov(sp, lv.pr.Xs, lv.pr.Xs) + np.diag(O.noise_diag(sp, lv.pr.Xs))
    ld = 2 * np.log(np.diag(la.cholesky(Ke))).sum()
    slack = 1.5 * slack_of(lv, lv.res, sp) * la.norm(a)
    what = rng.randint(3)
    if what == 0:
        mon.close(lv.model.normal_quadratic(), y.dot(a), 'quadratic' + tag, 1e-5, 1e-6 + slack)
    elif what == 1:
        mon.close(lv.model.log_det_K(), ld, 'log determinant' + tag, 1e-8, 1e-7 * len(y))
    else:
        mon.close(lv.model.log_likelihood(), -.5 * (y.dot(a) + ld + len(y) * O.LOG2PI), 'likelihood' + tag, 1e-5,
                  1e-5 * y.dot(a) + 1e-6 * len(y) + slack)
    mon.event('likelihood queries')


def ask_K(rng, mon, lv, tag):
    sp = lv.pr.current()
    Ke = O.exact_cov(sp, lv.pr.Xs, lv.pr.Xs) + np.diag(O.noise_diag(sp, lv.pr.Xs))
    mon.close(np.asarray(lv.model.K()), Ke, 'covariance' + tag, 1e-8)
    v = rng.randn(len(Ke))
    Ks = lv.pr.oracle(sp).K()
    mon.close(lv.model.kernel.K.matvec(v), Ks.dot(v), 'scalable covariance' + tag, 0, 1e-8 * np.abs(Ks).max() * len(v) * 4)
    mon.event('covariance queries')


def ask_lookalikes(rng, mon, lv, tag):
    """Successive queries that resemble each other: equal sums, equal sets, other order or other outputs."""
    P, D = lv.pr.P, lv.pr.D
    X = np.concatenate([np.asarray(X, dtype=float).reshape(-1, P) for X in lv.pr.Xs])
    lo, step = X.min(0), 2. ** np.floor(np.log2(np.maximum(np.ptp(X, axis=0), 1e-6) / 16))
    lo = np.ceil(lo / step) * step
    k = int(rng.randint(2, 5))
    T = lo + step * rng.randint(0, 16, (k, P))
    U = T.copy()
    U[0], U[1] = T[0] + step, T[1] - step          # same sum
    batches = [[T] * D, [T[::-1]] * D, [U] * D, [T[rng.permutation(k)] for _ in range(D)], [T] * D]
    if D > 1:
        V = [T if d == 0 else U for d in range(D)]
        batches += [V, V[::-1]]
    for Ts in [batches[i] for i in rng.permutation(len(batches))[:4]]:
        with Solves(lv.n) as s:
            got = lv.model.predict([Q.copy() for Q in Ts])
        Expected(lv.pr, Ts, lv.mode, max(s.res, lv.res)).compare(mon, got, tag + ', look-alike queries')
    mon.event('look-alike queries')


def ask_modes(rng, mon, lv, tag):
    """The same query in several modes, one after the other."""
    Ts = gen.gen_queries(rng, lv.pr.Xs, lv.pr.P, lv.pr.D, 3)
    for mode in [lv.modes[i] for i in rng.permutation(len(lv.modes))]:
        lv.mode = lv.model.prediction = mode
        with Solves(lv.n) as s:
            got = lv.model.predict(Ts)
        Expected(lv.pr, Ts, mode, max(s.res, lv.res)).compare(mon, got, tag + ', the same query in another mode')
    mon.event('queries in every mode')


def ask_refilled(rng, mon, lv, tag):
    """Query arrays that are overwritten between two calls."""
    P, D = lv.pr.P, lv.pr.D
    k = int(rng.randint(1, 4))
    X = np.concatenate([np.asarray(X, dtype=float).reshape(-1, P) for X in lv.pr.Xs])
    lo, hi = X.min(0), X.max(0)
    buf = [np.zeros((k, P)) for _ in range(D)]
    for _ in range(2):
        for b in buf:
            b[...] = lo + (hi - lo) * rng.rand(k, P)
        with Solves(lv.n) as s:
            got = lv.model.predict(buf)
        Expected(lv.pr, buf, lv.mode, max(s.res, lv.res)).compare(mon, got, tag + ', refilled query arrays')
    mon.event('refilled queries')


ASKS = [ask_predict, ask_predict, ask_ll, ask_K, ask_lookalikes, ask_modes, ask_refilled]


def ask(rng, mon, lv, tag):
    choice(rng, ASKS)(rng, mon, lv, tag)


def against_fresh(rng, mon, lv, model=None, tag=' against a fresh model'):
    """A freshly built model with the same data and parameter values."""
    model = model if model is not None else lv.model
    Ts = gen.gen_queries(rng, lv.pr.Xs, lv.pr.P, lv.pr.D, 3)
    with Solves(lv.n) as s:
        got = model.predict([T.copy() for T in Ts])
        ll, K, nq = model.log_likelihood(), np.array(model.K()), model.normal_quadratic()
        pars = np.array(model.param_array)
        fresh = copy.copy(lv.pr)
        fresh.build(trace_iterations=1, prediction=model.prediction)
        fresh.model[:] = pars
        want = fresh.model.predict([T.copy() for T in Ts])
    mon.same(np.array(model.param_array), pars, 'asking does not change parameters')
    mon.close(K, fresh.model.K(), 'covariance' + tag, 1e-10)
    res = max(s.res, lv.res)
    sp = fresh.current()
    amp, kinv = fresh.oracle(sp).amplification(Ts)
    y = lv.pr.y()
    if not np.isfinite(res):
        raise Inconclusive('solver report unreadable')
    sl = 3 * res * kinv * la.norm(y)
    mon.close(ll, fresh.model.log_likelihood(), 'likelihood' + tag, 1e-7, 1e-6 + sl)
    mon.close(nq, fresh.model.normal_quadratic(), 'quadratic' + tag, 1e-6, 1e-6 + sl)
    nat = O.prior_var(sp)
    _, sd = lv.pr.scales()
    for d in range(lv.pr.D):
        mon.close(np.asarray(got[0][d]), np.asarray(want[0][d]), 'mean' + tag, 1e-9,
                  (1e-6 * max(1, np.abs(y).max()) + 4 * res * amp) * sd[d])
        mon.close(np.asarray(got[1][d]), np.asarray(want[1][d]), 'variance' + tag, 0,
                  (1e-6 * nat[d] + 4 * res * amp) * sd[d] ** 2)
    mon.event('fresh models compared')


OPS = [('noise', op_noise), ('all', op_all), ('one', op_one), ('block', op_block), ('optarray', op_optarray),
       ('kernel', op_kernel), ('swap', op_swap), ('swap kernel', op_swap_kernel), ('deferred', op_deferred), ('back', op_back), ('optimize', op_optimize),
       ('mode', op_mode), ('mode', op_mode), ('refused', op_refused), ('log', op_log),
       ('fix', op_fix), ('fix', op_fix)]


def new_live(rng, modes=None):
    P = int(choice(rng, [1, 1, 1, 2]))
    pr = gen.Problem(rng, nmax=7, max_q=3, P=P, D=int(choice(rng, [1, 2, 2, 3])), ads=[None] if rng.rand() < .6 else None)
    mode = choice(rng, modes_for(pr))
    affordable(pr, 'precompute')
    return Live(pr, mode)


@contextlib.contextmanager
def quiet_log():
    lg = logging.getLogger('runlmc')
    lev = lg.level
    try:
        yield
    finally:
        lg.setLevel(lev)


def history(rng, mon, nmodels, steps):
    trace = []
    with quiet_log():
        live = [new_live(rng) for _ in range(nmodels)]
        for lv in live:
            if rng.rand() < 0.7:
                ask(rng, mon, lv, '')
        for _ in range(steps):
            i = rng.randint(len(live))
            lv = live[i]
            u = rng.rand()
            if u < 0.08 and nmodels > 1:
                name = 'replace'
                live[i] = new_live(rng)
            elif u < 0.14:
                name = 'deferred-with'
                op_deferred_with(rng, mon, lv, [x for x in live if x is not lv])
            else:
                name, op = OPS[rng.randint(len(OPS))]
                op(rng, mon, lv)
            trace.append('%d:%s' % (i, name))
            mon.event('op ' + name)
            # ask the same model, another, or several
            who = [live[i]] if rng.rand() < 0.6 else []
            if rng.rand() < 0.5:
                who.append(choice(rng, live))
            for x in who:
                mon.describe(history=trace)
                ask(rng, mon, x, ' after a history')
        for lv in live:
            ask_predict(rng, mon, lv, ' at the end')
            ask_ll(rng, mon, lv, ' at the end')
        lv = choice(rng, live)
        against_fresh(rng, mon, lv)
    mon.sig(trace)
    mon.describe(history=trace, models=[lv.pr.sig() for lv in live])


def alone(rng, mon, idx):
    history(rng, mon, 1, int(rng.randint(4, 9)))


def together(rng, mon, idx):
    history(rng, mon, int(rng.randint(2, 5)), int(rng.randint(5, 11)))


def twins(rng, mon, idx):
    """Two models with equal data and equal parameters, then diverging."""
    lv = new_live(rng)
    other = copy.copy(lv.pr)
    tw = Live(other, lv.mode)
    first, second = (lv, tw) if rng.rand() < 0.5 else (tw, lv)
    ask_predict(rng, mon, first, '')
    choice(rng, [op_noise, op_all, op_kernel, op_deferred])(rng, mon, second)
    ask_predict(rng, mon, first, ' after its twin changed')
    ask_K(rng, mon, first, ' after its twin changed')
    ask_predict(rng, mon, second, ' after it changed')
    op_mode(rng, mon, second)
    ask_predict(rng, mon, first, ' after its twin switched mode')
    ask_predict(rng, mon, second, ' after it switched mode')
    ask_ll(rng, mon, first, ' after its twin changed')
    mon.event('twins')
    mon.sig('twins', lv.pr.sig(), lv.mode)


def copies(rng, mon, idx):
    lv = new_live(rng)
    ask(rng, mon, lv, '')
    if rng.rand() < 0.5:
        choice(rng, [op_noise, op_all, op_kernel])(rng, mon, lv)
    c = copy.deepcopy(lv.model) if idx % 2 else lv.model.copy()
    mon.check(c is not lv.model, 'a copy is another model')
    against_fresh(rng, mon, lv, c, ' of a copy')
    # change the original: the copy stays; change the copy: the original stays
    kept = np.array(c.param_array)
    choice(rng, [op_noise, op_all, op_block, op_deferred])(rng, mon, lv)
    ask_predict(rng, mon, lv, ' after it was copied')
    mon.same(np.array(c.param_array), kept, 'parameters of the copy stay')
    against_fresh(rng, mon, lv, c, ' of a copy after its original changed')
    mine = np.array(lv.model.param_array)
    with Solves(lv.n) as s:
        c[:] = kept * np.exp(rng.uniform(-.3, .3, kept.shape))
    mon.same(np.array(lv.model.param_array), mine, 'parameters of the original stay')
    ask_predict(rng, mon, lv, ' after its copy changed')
    ask_K(rng, mon, lv, ' after its copy changed')
    lv.res = max(lv.res, s.res)
    against_fresh(rng, mon, lv, c, ' of a changed copy')
    mon.event('copies')
    mon.sig('copies', lv.pr.sig(), lv.mode)


def verbosity(rng, mon, idx):
    """The same run at every log level."""
    pr = gen.Problem(rng, nmax=7, max_q=3, P=1, D=int(choice(rng, [1, 2, 3])))
    mode = affordable(pr, choice(rng, modes_for(pr)))
    Ts = gen.gen_queries(rng, pr.Xs, pr.P, pr.D, 3)
    seed = rng.randint(2 ** 31)
    out = []
    lg = logging.getLogger('runlmc')
    v = np.exp(rng.uniform(-2, 0, pr.D))
    for level in (logging.WARNING, logging.INFO, logging.DEBUG, logging.CRITICAL + 1):
        with quiet_log(), contextlib.redirect_stdout(io.StringIO()):
            lg.setLevel(level)
            np.random.seed(seed)
            p = copy.copy(pr)
            p.build(trace_iterations=2, prediction=mode)
            p.fk.noise = v
            p.model.optimize(optimizer=AdaDelta(max_it=2, step_rate=.1))
            g = p.model.predict([T.copy() for T in Ts])
            out.append(np.hstack([p.model.param_array, p.model.gradient, p.model.log_likelihood()] + list(g[0]) + list(g[1])))
    for o in out[1:]:
        mon.close(o, out[0], 'same at every log level', 1e-9, 1e-9)
    mon.event('log levels', len(out))
    mon.sig('verbosity', pr.sig(), mode)


def roundabout(rng, mon, idx):
    """Away from a mode, a change, and back; many reads before a change."""
    while True:
        lv = new_live(rng)
        if len(lv.modes) > 2 or idx % 3:
            break

    def mode(x):
        lv.mode = lv.model.prediction = x
    with quiet_log():
        home = 'precompute' if idx % 3 == 0 else choice(rng, lv.modes)
        for rep in range(2):
            mode(home)
            ask_predict(rng, mon, lv, ' before a round trip')
            away = [x for x in lv.modes if x != home]
            mode(choice(rng, away))
            if rng.rand() < .5:
                ask(rng, mon, lv, ' away')
            if rng.rand() < .7 or rep:
                choice(rng, [op_noise, op_all, op_one, op_kernel, op_optimize])(rng, mon, lv)
            mode(home)
            ask_predict(rng, mon, lv, ' after a round trip')
        # reading any number of times changes nothing
        reads = int(choice(rng, [10, 70, 150]))
        X = [np.asarray(x)[:1] for x in lv.pr.Xs]
        for _ in range(reads):
            lv.model.log_det_K()
            lv.model.K()
            if reads < 100:
                lv.model.predict(X)
        op_all(rng, mon, lv)
        for f in (ask_K, ask_ll, ask_predict):
            f(rng, mon, lv, ' after many reads')
        mon.event('reads', reads)
    mon.sig('roundabout', home, reads, lv.pr.sig())


def nudged(rng, mon, idx):
    """Changes of a millionth count like any others."""
    lv = new_live(rng)
    fk = lv.pr.fk
    with quiet_log():
        for step in range(6):
            lv.model.K(), lv.model.log_det_K()
            lv.model.predict([np.asarray(x)[:2] for x in lv.pr.Xs])
            eps = float(choice(rng, [1e-6, 4e-6, 8e-6, 1e-4, -5e-6]))
            which = int(rng.randint(3))
            if which == 0:
                lv.update(lambda: setattr(fk, 'noise', np.array(fk.noise) * (1 + eps)))
            elif which == 1:
                lv.update(lambda: lv.model.__setitem__(slice(None), np.array(lv.model.param_array) * (1 + eps)))
            else:
                lv.update(lambda: setattr(fk, 'coreg_vecs', [np.array(a) * (1 + eps) for a in fk.coreg_vecs]))
            sp = lv.pr.current()
            Ke = O.exact_cov(sp, lv.pr.Xs, lv.pr.Xs) + np.diag(O.noise_diag(sp, lv.pr.Xs))
            mon.close(np.asarray(lv.model.K()), Ke, 'covariance after a nudge', 1e-11, 1e-12 * np.abs(Ke).max())
            ld = np.linalg.slogdet(Ke)[1]
            mon.close(lv.model.log_det_K(), ld, 'log determinant after a nudge', 1e-10, 1e-9 * len(Ke))
            ask_predict(rng, mon, lv, ' after a nudge')
            mon.event('nudges')
    mon.sig('nudged', lv.mode, lv.pr.sig())


def fixed(rng, mon, idx):
    """Some parameters are fixed; the others change."""
    lv = new_live(rng)
    with quiet_log():
        ps = list(lv.pr.fk.flattened_parameters)
        which = rng.rand(len(ps)) < .5
        which[idx % len(ps)] = True
        with Solves(lv.n) as s:
            for p, w in zip(ps, which):
                if w:
                    p.fix()
        lv.res = max(lv.res, s.res)
        for _ in range(3):
            ask_predict(rng, mon, lv, ' with fixed parameters')
            choice(rng, [op_all, op_kernel, op_one, op_block, op_noise, op_optimize])(rng, mon, lv)
            ask_predict(rng, mon, lv, ' with fixed parameters, after a change')
            choice(rng, [ask_ll, ask_K])(rng, mon, lv, ' with fixed parameters, after a change')
        mon.event('fixed')
    mon.sig('fixed', which.tolist(), lv.pr.sig())


def other_kinds(sp):
    for k in O.all_kernels(sp):
        while k['kind'] == 'scaled':
            k = k['inner']
        if k['kind'] in ('rbf', 'matern'):
            k['kind'] = 'matern' if k['kind'] == 'rbf' else 'rbf'


def siblings(rng, mon, idx):
    """Models of the same name and parameter values that differ in all but these."""
    P = int(choice(rng, [1, 1, 2]))
    pr = gen.Problem(rng, nmax=7, max_q=3, P=P, D=int(choice(rng, [2, 2, 3])), mix=choice(rng, ['all', 'lmc+indep', 'slfm+indep', 'indep']),
                     ads=[None] if P == 1 else [None, (0,), (1,)], normalize=bool(rng.rand() < .3))
    affordable(pr, 'precompute')
    family = [pr]
    for what in ('index', 'kinds', 'outputs', 'inputs', 'grid', 'dims'):
        o = copy.copy(pr)
        o.sp, o.Xs, o.Ys = copy.deepcopy(pr.sp), [np.array(X) for X in pr.Xs], [np.array(Y) for Y in pr.Ys]
        if what == 'index':
            nco = len(o.sp['lmc']) + len(o.sp['slfm'])
            old = [int(np.argmax(k)) for k in o.sp['kappa'][nco:]]
            new = [(d + 1) % pr.D for d in old]
            o.sp['indep_index'] = new
            for q, d in enumerate(new):
                o.sp['kappa'][nco + q] = np.eye(pr.D)[d]
        elif what == 'kinds':
            other_kinds(o.sp)
        elif what == 'outputs':
            o.Ys = [Y[::-1] * 1.5 + 1 for Y in o.Ys]
        elif what == 'inputs':
            o.Xs = [(X.min(0) + X.max(0)) - X for X in o.Xs]
            o.Ys = [Y * 1. for Y in o.Ys]
        elif what == 'grid':
            o.m = None if o.m is None else np.asarray(o.m) + 1
        elif P == 2:
            for k in O.all_kernels(o.sp):
                while k['kind'] == 'scaled':
                    k = k['inner']
                k['ad'] = {(0,): (1,), (1,): (0,)}.get(k['ad'] if k['ad'] is None else tuple(k['ad']), k['ad'])
        else:
            continue
        family.append(o)
    keep = [0] + list(1 + rng.permutation(len(family) - 1)[:2])
    if 1 not in keep and rng.rand() < .5:
        keep[1] = 1
    with quiet_log():
        live = [Live(family[i], 'on-the-fly') for i in keep]
        mode = choice(rng, [m for m in live[0].modes if all(m in x.modes for x in live)])
        for x in live:
            x.mode = x.model.prediction = mode
        for tag in (' next to its siblings', ' next to its siblings, again'):
            for i in rng.permutation(len(live)):
                ask_predict(rng, mon, live[i], tag)
                choice(rng, [ask_ll, ask_K])(rng, mon, live[i], tag)
            v = np.array(live[0].model.param_array) * np.exp(rng.uniform(-.2, .2, live[0].model.param_array.shape))
            for x in live:
                if x.model.param_array.shape == v.shape:
                    x.update(lambda x=x: x.model.__setitem__(slice(None), v))
        mon.event('siblings', len(live))
    mon.sig('siblings', keep, mode, pr.sig())


FAMILIES = [('fixed', fixed, 10, 200), ('siblings', siblings, 12, 250), ('nudged', nudged, 10, 200), ('roundabout', roundabout, 12, 200), ('alone', alone, 20, 500), ('together', together, 22, 500), ('twins', twins, 10, 300),
            ('copies', copies, 8, 160), ('verbosity', verbosity, 8, 120)]
MIN_EVENTS = {'predictions': 300, 'likelihood queries': 40, 'covariance queries': 20, 'fresh models compared': 30,
              'copies': 4}
