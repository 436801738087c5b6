"""C26: the optimiser stops when it must and leaves the model at its last iterate."""
import contextlib
import io

import numpy as np

from paramz.transformations import Logexp
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.param import Param
from vmon import gen
from vmon.core import Solves
from vmon.gen import choice
from checks.c18 import Toy

RULE = ('event traces (gradient requests with their points, callbacks, result) of the optimiser on scripted gradient '
        'sequences, on small models and on GP models, checked online against the AdaDelta recursion and the stopping '
        'automaton; faults raised from callbacks; distinct = (settings, stop reason, length)')
ASSUMPTIONS = ['permitted iterations and permitted drops at least one']


class Fault(Exception):
    pass


def settings(rng):
    return dict(step_rate=float(choice(rng, [1., 0.1, 0.5, 2.])), decay=float(choice(rng, [0.9, 0.5, 0.99, 0.])),
                momentum=float(choice(rng, [0.5, 0., 0.9])), offset=float(choice(rng, [1e-4, 1e-8, 1e-1])),
                max_it=int(choice(rng, [1, 2, 3, 5, 10, 30])), min_grad_ratio=float(choice(rng, [0.1, 0.5, 0.9, 0., 1e-3, 1.])),
                permitted_drops=int(choice(rng, [1, 2, 3, 5])), verbosity=int(choice(rng, [0, 0, 1, 3, 1000])))


FAULTS = (Fault, KeyboardInterrupt, ZeroDivisionError, StopIteration, ValueError, np.linalg.LinAlgError, RuntimeError,
          ArithmeticError, OSError, GeneratorExit, SystemExit)


class Reference:
    """The recursion, fed with the gradients that were observed."""

    def __init__(self, x, s):
        self.x, self.s = np.array(x, dtype=float), s
        self.gms = self.sms = self.step = 0.
        self.n, self.top, self.drops, self.stopped = 0, 0., s['permitted_drops'], None
        self.pend()

    def pend(self):
        self.step1 = np.asarray(self.step * self.s['momentum'])
        self.ask = self.x - self.step1

    def feed(self, g):
        s = self.s
        self.gms = s['decay'] * self.gms + (1 - s['decay']) * g ** 2
        step2 = np.sqrt(self.sms + s['offset']) / np.sqrt(self.gms + s['offset']) * g * s['step_rate']
        self.x = self.ask - step2
        self.step = self.step1 + step2
        self.sms = s['decay'] * self.sms + (1 - s['decay']) * self.step ** 2
        self.n += 1
        norm = np.abs(g).max()
        self.top = max(self.top, norm)
        if norm < s['min_grad_ratio'] * self.top:
            self.drops -= 1
        if self.n >= s['max_it']:
            self.stopped = 'iterations'
        elif self.drops <= 0:
            self.stopped = 'drops'
        self.pend()


def judge(mon, x0, s, trace, x_opt, tag='', rtol=1e-9):
    """trace: list of ('grad', x, g) and ('callback',)."""
    ref = Reference(x0, s)
    calls = 0
    for i, e in enumerate(trace):
        if e[0] == 'grad':
            mon.check(ref.stopped is None, 'no iteration after the stopping point' + tag, stop=ref.stopped, n=ref.n,
                      settings=s)
            mon.check(calls == ref.n, 'callback once per iteration' + tag, callbacks=calls, iterations=ref.n)
            mon.close(e[1], ref.ask, 'iterate follows the recursion' + tag, rtol, rtol, iteration=ref.n, settings=s)
            ref.feed(np.array(e[2], dtype=float))
        else:
            calls += 1
            mon.check(calls == ref.n, 'callback once per iteration' + tag, callbacks=calls, iterations=ref.n)
    mon.check(ref.stopped is not None, 'runs until it must stop' + tag, n=ref.n, settings=s)
    mon.check(calls == ref.n, 'callback once per iteration' + tag, callbacks=calls, iterations=ref.n)
    mon.check(ref.n <= s['max_it'], 'at most the permitted iterations' + tag)
    mon.close(x_opt, ref.x, 'reported optimum is the final iterate' + tag, rtol, rtol)
    mon.event('iterations', ref.n)
    mon.event('stopped by ' + ref.stopped)
    mon.sig(s, ref.stopped, ref.n)
    return ref


def grad_script(rng, dim):
    """Adversarial gradient sequences: every relation to the rolling maximum."""
    kind = choice(rng, ['decay', 'spikes', 'zero', 'edge', 'random', 'grow', 'sign'])
    base = rng.randn(dim)
    base[rng.randint(dim)] = choice(rng, [1., -1.]) * 1.5 * np.abs(base).max()

    def g(k, ratio):
        if kind == 'decay':
            return base * 0.8 ** k
        if kind == 'spikes':
            return base * (10. if k % 4 == 2 else 0.3)
        if kind == 'zero':
            return base * (0. if k % 2 or k > 4 else 1.)
        if kind == 'edge':       # exactly at, just under, just over the fraction
            f = [1., ratio if ratio == .5 else ratio * (1 + 1e-5), ratio * (1 - 1e-6), ratio * (1 + 1e-6)][k % 4]
            return base * f
        if kind == 'random':
            return np.random.RandomState(k * 7 + 1).randn(dim) * 10. ** ((k * 5) % 4 - 2)
        if kind == 'grow':
            return base * 1.5 ** k
        v = np.zeros(dim)
        v[k % dim] = (-1) ** k * (1. if k % 3 else 0.05)
        return v
    return kind, g


def scripted(rng, mon, idx):
    for _ in range(4):
        s = settings(rng)
        dim = int(choice(rng, [1, 2, 5]))
        kind, g = grad_script(rng, dim)
        if rng.rand() < .1:           # every iteration counts as a drop
            s.update(min_grad_ratio=float(choice(rng, [1.5, 3.])), permitted_drops=int(choice(rng, [0, 1, 2, 4])))
        if kind == 'edge' and s['min_grad_ratio'] in (0., 1.):
            s['min_grad_ratio'] = 0.5
        trace = []

        def fp(x):
            k = sum(e[0] == 'grad' for e in trace)
            if k > 200:
                mon.fail('does not stop', settings=s)
            v = g(k, s['min_grad_ratio'])
            trace.append(('grad', np.array(x), v.copy()))
            return v
        opt = AdaDelta(callback=lambda: trace.append(('callback',)), **s)
        for rep in range(2):           # an optimiser object can be used again
            del trace[:]
            x0 = rng.randn(dim)
            with contextlib.redirect_stdout(io.StringIO()):
                opt.run(x0.copy(), f_fp=lambda x: (0., fp(x)), f=lambda x: 0., fp=fp)
            judge(mon, x0, s, list(trace), opt.x_opt, ' (scripted)')
            mon.event('script ' + kind)
            if rng.rand() < 0.6:
                break
    mon.describe(settings=s, script=kind)


def record(model, trace):
    """Watch the gradient requests of the optimiser."""
    real = model._grads

    def grads(x):
        x = np.array(x)
        g = real(x)
        trace.append(('grad', x, np.array(g)))
        return g
    model._grads = grads
    realb = model._objective_grads

    def both(x):
        x = np.array(x)
        f, g = realb(x)
        trace.append(('grad', x, np.array(g)))
        return f, g
    model._objective_grads = both

    def undo():
        del model._grads
        del model._objective_grads
    return undo


def through_model(rng, mon, model, s, tag, fault_at=None, exc=Fault):
    trace = []
    stamp = []

    def cb():
        trace.append(('callback',))
        stamp.append(np.array(model.param_array))
        if fault_at is not None and len(stamp) == fault_at:
            raise exc('from callback %d' % fault_at)
    x0 = np.array(model.optimizer_array)
    kw = {}
    if rng.rand() < .25:
        x0 = x0 + .1 * rng.randn(len(x0))
        kw['start'] = x0.copy()
    if rng.rand() < .25:
        kw['max_iters'] = int(rng.randint(1, 50))      # for named optimisers only
    opt = AdaDelta(callback=cb, **s)
    undo = record(model, trace)
    raised = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            model.optimize(optimizer=opt, **kw)
    except FAULTS as e:  # pylint: disable=broad-except
        raised = e
    finally:
        undo()
    n = sum(e[0] == 'grad' for e in trace)
    if not n:
        return 'unobserved'
    if fault_at is not None and len(stamp) >= fault_at:
        mon.check(isinstance(raised, exc), 'an exception of the callback propagates' + tag, got=repr(raised), at=fault_at)
        mon.check(len(stamp) == fault_at, 'nothing runs after the failing callback' + tag)
        mon.event('callback faults')
        return 'fault'
    if raised is not None:
        raise raised
    ref = judge(mon, x0, s, trace, opt.x_opt, tag, 1e-7)
    mon.close(np.array(model.optimizer_array), ref.x, 'model left at the final iterate' + tag, 1e-7, 1e-7)
    return 'done'


def toy(rng, mon, idx):
    ps = []
    for i in range(rng.randint(1, 4)):
        shape = int(rng.randint(1, 4))
        con = rng.rand() < 0.4
        ps.append(Param('p%d' % i, np.exp(rng.randn(shape) * .3) + .2, Logexp()) if con else Param('p%d' % i, rng.randn(shape)))
    m = Toy(ps, [0] if rng.rand() < 0.3 else [])
    m.trigger_update()
    if len(ps) > 1 and rng.rand() < 0.3:
        ps[-1].fix()
        mon.event('with fixed parameters')
    kept = np.array(ps[-1])
    for rep in range(rng.randint(1, 3)):
        s = settings(rng)
        fa = int(rng.randint(1, 4)) if rng.rand() < 0.3 else None
        r = through_model(rng, mon, m, s, ' (toy model)', fa, choice(rng, FAULTS))
        mon.event('toy runs ' + r)
    if ps[-1].is_fixed:
        mon.same(np.array(ps[-1]), kept, 'fixed parameters stay')
    mon.close(m.log_likelihood(), sum(-.5 * ((np.asarray(p) - .3 * (i + 1)) ** 2).sum() for i, p in enumerate(ps)),
              'model evaluated at its parameters', 1e-9, 1e-12)


def gp(rng, mon, idx):
    pr = gen.Problem(rng, nmax=8, max_q=3, P=1, D=int(choice(rng, [1, 2, 3])))
    m = pr.build(trace_iterations=int(choice(rng, [1, 3])), metrics=bool(rng.rand() < .2))
    s = settings(rng)
    s['max_it'] = int(choice(rng, [1, 2, 4, 6]))
    s['step_rate'] = float(choice(rng, [.1, .5, 1.]))
    fa = int(rng.randint(1, 3)) if rng.rand() < 0.35 else None
    exc = choice(rng, FAULTS)
    r = through_model(rng, mon, m, s, ' (GP model)', fa, exc)
    mon.event('gp runs ' + r)
    g = m.predict([X[:1] for X in pr.Xs])
    mon.check(all(np.isfinite(np.hstack(x)).all() for x in g), 'predicts after optimising')
    pr.describe(mon, settings=s)


def partial(rng, mon, idx):
    """Only some settings given."""
    s = settings(rng)
    kw = {k: v for k, v in s.items() if k in ('max_it', 'min_grad_ratio', 'permitted_drops', 'decay', 'momentum')
          and (k == 'max_it' or rng.rand() < .5)}
    n, calls = [0], [0]

    def fp(x):
        n[0] += 1
        if n[0] > 200:
            mon.fail('does not stop', settings=kw)
        return np.ones(3)

    def cb():
        calls[0] += 1
    AdaDelta(callback=cb, **kw).run(np.zeros(3), f_fp=lambda x: (0., fp(x)), f=lambda x: 0., fp=fp)
    mon.check(n[0] == kw['max_it'], 'a constant gradient runs all permitted iterations', got=n[0], settings=kw)
    mon.check(calls[0] == n[0], 'callback once per iteration')
    o = AdaDelta(**{k: v for k, v in kw.items()})       # no callback given
    o.run(np.zeros(3), f_fp=lambda x: (0., np.ones(3)), f=lambda x: 0., fp=lambda x: np.ones(3))
    mon.check(np.isfinite(o.x_opt).all() and (o.x_opt < 0).all(), 'moves downhill')
    mon.event('partial settings')
    mon.sig('partial', kw)


def unset(rng, mon, idx):
    """Settings that are not given do not depend on other optimisers."""
    s = settings(rng)
    kw = {k: v for k, v in s.items() if rng.rand() < .4}
    kw.update(max_it=int(choice(rng, [3, 7, 12])), verbosity=0)
    kind, g = grad_script(rng, 3)
    x0 = rng.randn(3)

    def trace(**k):
        pts = []

        def fp(x):
            if len(pts) > 300:
                mon.fail('does not stop', settings=k)
            pts.append(np.array(x))
            return g(len(pts) - 1, .5)
        o = AdaDelta(**k)
        with contextlib.redirect_stdout(io.StringIO()):
            o.run(x0.copy(), f_fp=lambda x: (0., fp(x)), f=lambda x: 0., fp=fp)
        return np.array(pts + [o.x_opt])
    a = trace(**kw)
    other = {k: v for k, v in settings(rng).items() if k not in kw or rng.rand() < .7}
    called = []
    o = AdaDelta(callback=lambda: called.append(1), **other)
    if rng.rand() < .5:
        with contextlib.redirect_stdout(io.StringIO()):
            o.run(x0.copy(), f_fp=lambda x: (0., np.ones(3)), f=lambda x: 0., fp=lambda x: np.ones(3))
    n = len(called)
    b = trace(**kw)
    mon.same(b, a, 'a run does not depend on the settings of other optimisers', given=kw, others=other)
    mon.check(len(called) == n, 'callback of another optimiser is not called')
    mon.check(len(a) - 1 <= kw['max_it'], 'at most the permitted iterations, other settings unset', got=len(a) - 1, given=kw)
    mon.event('unset settings')
    mon.sig('unset', sorted(kw), sorted(other), kind)


def long_run(rng, mon, idx):
    """Hundreds of iterations."""
    s = settings(rng)
    s.update(max_it=int(choice(rng, [101, 150, 256, 400])), permitted_drops=int(choice(rng, [5, 20, 150])), verbosity=0,
             min_grad_ratio=float(choice(rng, [.1, .5, 0.])))
    dim = int(choice(rng, [1, 3, 40]))
    w = np.exp(rng.uniform(-2, 2, dim))
    trace = []

    def fp(x):
        if len(trace) > 3 * s['max_it']:
            mon.fail('does not stop', settings=s)
        # scripted by count, so that rounding in the iterates does not matter
        k = sum(e[0] == 'grad' for e in trace)
        v = w * np.cos(k * .37 + np.arange(dim)) * (1.02 ** -(k % 90))
        trace.append(('grad', np.array(x), v.copy()))
        return v
    opt = AdaDelta(callback=lambda: trace.append(('callback',)), **s)
    x0 = rng.randn(dim)
    opt.run(x0.copy(), f_fp=lambda x: (0., fp(x)), f=lambda x: 0., fp=fp)
    judge(mon, x0, s, trace, opt.x_opt, ' (long)', 1e-8)


FAMILIES = [('unset', unset, 80, 1500), ('long_run', long_run, 24, 400), ('scripted', scripted, 250, 6000), ('toy', toy, 120, 3000), ('gp', gp, 40, 700), ('partial', partial, 60, 1000)]
MIN_EVENTS = {'iterations': 2000, 'stopped by drops': 50, 'stopped by iterations': 50}
