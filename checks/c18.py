"""C18: priors enter objective and gradient consistently."""
import numpy as np
import scipy.integrate
import scipy.stats

from runlmc.parameterization.model import Model
from runlmc.parameterization.param import Param
from runlmc.parameterization.parameterized import Parameterized
from runlmc.parameterization.priors import Gamma, Gaussian, HalfLaplace, InverseGamma
from paramz.transformations import Exponent, Logexp
from vmon import gen
from vmon.gen import choice

RULE = ('histories of setting/replacing/removing priors, constraining and assigning parameters on small models and '
        'on the scalable model, objective and gradient re-derived after every step (densities from scipy.stats, '
        'softplus Jacobian, central differences); densities over hyperparameter ranges incl. quadrature; distinct = '
        '(operation history, prior kinds, parameter shapes)')
ASSUMPTIONS = ['real-domain priors are put on unconstrained parameters only (documented domain)']


def gen_prior(rng, domain):
    if domain == 'real':
        a = (float(rng.randn() * 2), float(np.exp(rng.uniform(-2, 2))))
        return Gaussian(*a), ('gaussian',) + a
    kind = choice(rng, ['gamma', 'ev', 'inv', 'half'])
    a, b = (float(x) for x in np.exp(rng.uniform(-1, 2, 2)))
    if rng.rand() < 0.2:
        a, b = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    if kind == 'gamma':
        return Gamma(a, b), ('gamma', a, b)
    if kind == 'ev':
        return Gamma.from_EV(a, b), ('gamma', a * a / b, a / b)
    if kind == 'inv':
        return InverseGamma(a, b), ('inv', a, b)
    return HalfLaplace(b), ('half', b)


def similar(rng, d):
    """A prior that differs from the given one in late digits only."""
    a = list(d[1:])
    i = rng.randint(len(a))
    a[i] = a[i] * (1 + float(choice(rng, [1e-3, 1e-4, 1e-5, -1e-4, -1e-5]))) + (1e-5 if a[i] == 0 else 0)
    cls = {'gaussian': Gaussian, 'gamma': Gamma, 'inv': InverseGamma, 'half': HalfLaplace}[d[0]]
    return cls(*a), (d[0],) + tuple(a)


def logpdf(d, x):
    x = np.asarray(x, dtype=float)
    if d[0] == 'gaussian':
        return scipy.stats.norm.logpdf(x, d[1], np.sqrt(d[2]))
    if d[0] == 'gamma':
        return scipy.stats.gamma.logpdf(x, d[1], scale=1. / d[2])
    if d[0] == 'inv':
        return scipy.stats.invgamma.logpdf(x, d[1], scale=d[2])
    return scipy.stats.expon.logpdf(x, scale=d[1])


def dlogpdf(d, x):
    x = np.asarray(x, dtype=float)
    if d[0] == 'gaussian':
        return -(x - d[1]) / d[2]
    if d[0] == 'gamma':
        return (d[1] - 1) / x - d[2]
    if d[0] == 'inv':
        return -(d[1] + 1) / x + d[2] / x ** 2
    return -np.ones_like(x) / d[1]


def densities(rng, mon, idx):
    dom = choice(rng, ['real', 'positive', 'positive', 'positive'])
    p, d = gen_prior(rng, dom)
    if idx % 3 == 0:        # hyperparameters of any magnitude
        cls = {'gaussian': Gaussian, 'gamma': Gamma, 'inv': InverseGamma, 'half': HalfLaplace}[d[0]]
        a = tuple(float(v) * 10. ** rng.uniform(-4, 4) if d[0] in ('gaussian', 'half') or i else float(v)
                  for i, v in enumerate(d[1:]))
        p, d = cls(*a), (d[0],) + a
    mon.check(p.domain == dom, 'domain of the prior', got=p.domain)
    shape = choice(rng, [(1,), (4,), (2, 3), (9,)])
    x = rng.randn(*shape) * 3 if dom == 'real' else np.exp(rng.uniform(-3, 2.5, shape))
    keep = x.copy()
    got = p.lnpdf(x)
    mon.close(np.broadcast_to(got, shape), logpdf(d, x), 'log density', 1e-9, 1e-9, prior=d)
    g = p.lnpdf_grad(x)
    mon.close(np.broadcast_to(g, shape), dlogpdf(d, x), 'log density gradient', 1e-9, 1e-9, prior=d)
    for i in np.ndindex(*shape):
        v = float(x[i])
        mon.close(float(p.lnpdf(v)), float(np.asarray(got)[i]), 'elementwise', 1e-10, 1e-12)
        h = 1e-5 * max(abs(v), 0.1)
        fd = (p.lnpdf(v + h) - p.lnpdf(v - h)) / (2 * h)
        mon.close(float(np.broadcast_to(g, shape)[i]), float(fd), 'gradient is the derivative of the density', 1e-4,
                  1e-4 * (1 + d[-1] / v ** 2 if d[0] == 'inv' else 1.), prior=d, at=v)
    mon.same(x, keep, 'argument unchanged')
    if idx % 4 == 0:
        f = lambda t: float(np.exp(p.lnpdf(t)))
        if dom == 'real':
            s = np.sqrt(d[2])
            tot = scipy.integrate.quad(f, d[1] - 12 * s, d[1] + 12 * s, limit=200)[0]
        else:
            # substitution t = e^u
            tot = scipy.integrate.quad(lambda u: f(np.exp(u)) * np.exp(u), -45, 25, limit=400, points=[-5, -2, 0, 2, 5])[0]
        heavy = d[0] in ('gamma', 'inv') and d[1] < 0.5
        if not heavy:
            mon.close(tot, 1., 'density integrates to one', 1e-3, prior=d)
    mon.sig('density', d[0], shape)
    mon.describe(prior=d, shape=shape)


class Toy(Model):
    """Quadratic log likelihood over several parameters."""

    def __init__(self, params, nested):
        super().__init__('toy')
        self.ps = params
        sub = Parameterized('sub')
        for i, p in enumerate(params):
            if i in nested:
                sub.link_parameter(p)
        for i, p in enumerate(params):
            if i not in nested:
                self.link_parameter(p)
        if nested:
            self.link_parameter(sub)

    def parameters_changed(self):
        self.ll = 0.
        for i, p in enumerate(self.ps):
            c = 0.3 * (i + 1)
            v = np.asarray(p)
            self.ll += -0.5 * ((v - c) ** 2).sum()
            p.gradient = -(v - c)

    def log_likelihood(self):
        return self.ll


def lj(x):
    """log |d theta / d phi| of theta = log(1+e^phi), as a function of theta"""
    return np.log1p(-np.exp(-x))


def dlj(x):
    return 1. / np.expm1(x)


def observe(mon, m, state, ll, grads, tag=''):
    """state: list of (param, prior description or None, constrained)."""
    want = 0.
    G = {}
    for i, (p, d, pos) in enumerate(state):
        v = np.asarray(p, dtype=float)
        g = np.zeros(v.shape)
        if d is not None:
            want += logpdf(d, v).sum()
            g = g + dlogpdf(d, v)
            if pos:
                want += lj(v).sum()
                g = g + dlj(v)
        G[i] = g
    sc = 1 + sum(np.abs(logpdf(d, np.asarray(p))).sum() + (np.abs(lj(np.asarray(p))).sum() if pos else 0.)
                 for p, d, pos in state if d is not None)
    mon.close(m.log_prior(), want, 'log prior' + tag, 0, 1e-8 * sc)
    mon.close(m.objective_function(), -(ll + want), 'objective' + tag, 1e-8, 1e-8 * (sc + abs(ll)))
    mon.close(m.log_likelihood_with_prior(), ll + want, 'likelihood with prior' + tag, 1e-8, 1e-8 * (sc + abs(ll)))
    full = np.asarray(m.objective_function_gradients(), dtype=float)
    mon.check(full.shape == np.asarray(m.gradient).shape, 'gradient shape' + tag, got=full.shape)
    # locate each parameter in the flat vector by its offset in the model
    for i, (p, d, pos) in enumerate(state):
        sl = slice(m._offset_for(p), m._offset_for(p) + p.size)
        w = -(np.asarray(grads[i]) + G[i]).ravel()
        mon.close(full[sl], w, 'objective gradient' + tag, 1e-7, 1e-8 * (1 + np.abs(G[i]).max()), param=i, prior=d,
                  constrained=pos)
    mon.event('prior-carrying parameters observed', sum(d is not None for _, d, _ in state))


def toy(rng, mon, idx):
    n = int(rng.randint(1, 5))
    ps, state = [], []
    for i in range(n):
        shape = choice(rng, [(1,), (3,), (2, 2), (5,)])
        con = choice(rng, ['none', 'pos', 'param', 'none', 'pos', 'param', 'neg', 'exp', 'bounded'])
        v = np.exp(rng.uniform(-1.5, 1.2, shape)) * (-1 if con == 'neg' else 1)
        p = Param('p%d' % i, v, Logexp()) if con == 'param' else Param('p%d' % i, v)
        if con == 'pos':
            p.constrain_positive(warning=False)
        elif con == 'neg':
            p.constrain_negative(warning=False)
        elif con == 'exp':
            p.constrain(Exponent(), warning=False)
        elif con == 'bounded':
            p.constrain_bounded(1e-3, 60., warning=False)
        ps.append(p)
        state.append([p, None, con != 'none'])
    nested = {i for i in range(n) if rng.rand() < 0.4}
    m = Toy(ps, nested)
    c = lambda i: 0.3 * (i + 1)
    ops = []
    shared = {dom: gen_prior(rng, dom) for dom in ('real', 'positive')}
    for _ in range(6):
        i = rng.randint(n)
        op = choice(rng, ['set', 'set', 'set', 'similar', 'similar', 'shared', 'unset', 'value', 'all', 'fix'])
        if op in ('set', 'shared', 'similar'):
            dom = 'positive' if state[i][2] else choice(rng, ['real', 'positive'])
            pr, d = gen_prior(rng, dom) if op == 'set' else shared[dom]
            if op == 'similar':
                held = [s[1] for s in state if s[1] and (s[1][0] == 'gaussian') == (dom == 'real')]
                pr, d = similar(rng, choice(rng, held) if held else d)
                mon.event('prior like another')
            if op == 'shared':
                mon.event('prior object shared')
            before = np.array(ps[i])
            ps[i].set_prior(pr)
            state[i][1] = d
            if dom == 'positive':
                state[i][2] = True
                mon.check((np.asarray(ps[i]) > 0).all(), 'constrained to the domain')
                # the constraint must be in force for the optimiser
                oa = np.array(m.optimizer_array)
                m.optimizer_array = oa - 3.
                mon.check((np.asarray(ps[i]) > 0).all(), 'constraint in force', got=np.asarray(ps[i]))
                m.optimizer_array = oa
            if dom == 'real' or (before > 0).all():
                mon.close(np.asarray(ps[i]), before, 'setting a prior keeps the value', 1e-6, 1e-9)
        elif op == 'unset':
            before = np.array(ps[i])
            ps[i].unset_prior()
            state[i][1] = None
            mon.close(np.asarray(ps[i]), before, 'removing a prior keeps the value', 1e-9, 1e-12)
            if state[i][2]:
                oa = np.array(m.optimizer_array)
                m.optimizer_array = oa - 40. * np.sign(before.ravel()[0])
                mon.check((np.sign(np.asarray(ps[i])) in (0, np.sign(before.ravel()[0]))) if before.size == 1 else
                          (np.asarray(ps[i]) * np.sign(before) >= 0).all(), 'removing a prior keeps the constraint',
                          got=np.asarray(ps[i]))
                m.optimizer_array = oa
        elif op == 'fix':           # fixed parameters keep their priors
            whole = rng.rand() < .5
            (m if whole else ps[i]).fix(warning=False)
            vals = [np.asarray(p) for p in ps]
            ll = sum(-0.5 * ((v - c(j)) ** 2).sum() for j, v in enumerate(vals))
            observe(mon, m, state, ll, [-(v - c(j)) for j, v in enumerate(vals)], ', fixed')
            (m if whole else ps[i]).unfix()
            mon.event('fixed with priors')
        elif op == 'value':
            ps[i][:] = np.exp(rng.uniform(-1.5, 1.2, ps[i].shape)) * (-1 if (np.asarray(ps[i]) < 0).all() and state[i][2] else 1)
        else:
            m.optimizer_array = np.array(m.optimizer_array) + 0.3 * rng.randn(len(m.optimizer_array))
        ops.append(op)
        vals = [np.asarray(p) for p in ps]
        ll = sum(-0.5 * ((v - c(j)) ** 2).sum() for j, v in enumerate(vals))
        observe(mon, m, state, ll, [-(v - c(j)) for j, v in enumerate(vals)])
    # directional derivative of the whole objective in the optimiser's space
    if len(m.optimizer_array):
        x0 = np.array(m.optimizer_array)
        grad = np.array(m._grads(x0))
        u = rng.randn(len(x0))
        h = 1e-5
        fd = (m._objective(x0 + h * u) - m._objective(x0 - h * u)) / (2 * h)
        mon.close(grad.dot(u), fd, 'objective gradient is the slope seen by the optimiser', 1e-4, 1e-4 * (1 + np.abs(grad).sum()))
        m.optimizer_array = x0
    mon.sig('toy', ops, [s[1][0] if s[1] else None for s in state], [s[2] for s in state], sorted(nested))
    mon.describe(ops=ops, priors=[s[1] for s in state], constrained=[s[2] for s in state])


def scalable(rng, mon, idx):
    pr = gen.Problem(rng, nmax=6, max_q=2, D=int(choice(rng, [1, 2, 3])), P=1)
    m = pr.build(trace_iterations=1)
    byname = {p.name: p for p in pr.fk.parameters}
    state = []
    for k, kern in zip([k for k in gen.O.all_kernels(pr.sp)], pr.kernels):
        state += [[p, None, True] for p in gen.kernel_param_objs(kern, k)]
    for nm, p in byname.items():
        if nm == 'noise' or nm.startswith('kappa'):
            state.append([p, None, True])
        elif nm.startswith('a') and nm[1:].isdigit():
            state.append([p, None, False])
    ops = []
    for _ in range(5):
        i = rng.randint(len(state))
        op = choice(rng, ['set', 'set', 'set', 'unset', 'value'])
        if op == 'set':
            prior, d = gen_prior(rng, 'positive' if state[i][2] else 'real')
            state[i][0].set_prior(prior)
            state[i][1] = d
        elif op == 'unset':
            state[i][0].unset_prior()
            state[i][1] = None
        else:
            state[i][0][:] = np.asarray(state[i][0]) * float(np.exp(rng.uniform(-.2, .2)))
        ops.append(op)
        observe(mon, m, state, float(m.log_likelihood()), [np.array(s[0].gradient) for s in state], ', scalable model')
    mon.sig('scalable', ops, pr.sig())
    pr.describe(mon, ops=ops)


def far_densities(rng, mon, idx):
    """Arguments of any magnitude."""
    dom = choice(rng, ['real', 'positive'])
    p, d = gen_prior(rng, dom)
    x = 10. ** rng.uniform(-5, 7, 6)
    if dom == 'real':
        x = x * rng.choice([-1, 1], 6) + d[1]
    for f, want, what in ((p.lnpdf, logpdf(d, x), 'log density, far'),
                          (p.lnpdf_grad, dlogpdf(d, x), 'log density gradient, far')):
        got = np.broadcast_to(f(x), x.shape)
        for j in range(len(x)):
            mon.close(float(got[j]), float(want[j]), what, 1e-9, 1e-8, prior=d, at=x[j])
    mon.sig('far', d[0])


def bad(rng, mon, idx):
    v = float(-np.exp(rng.uniform(-3, 3))) if idx % 2 else 0.
    mon.raises(ValueError, 'non-positive variance rejected', Gaussian, rng.randn(), v)
    mon.sig('bad', idx % 2)


FAMILIES = [('far_densities', far_densities, 200, 4000), ('densities', densities, 400, 8000), ('toy', toy, 250, 6000), ('scalable', scalable, 30, 500),
            ('bad', bad, 4, 20)]
MIN_EVENTS = {'prior-carrying parameters observed': 500, 'obs:density integrates to one': 80}
