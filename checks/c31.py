"""C31: mean functions and their gradients agree."""
import numpy as np

from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero
from runlmc.parameterization.model import Model
from vmon.gen import choice

RULE = ('random output counts, ragged (also empty) inputs and offsets; mean vectors compared with the offsets, mean '
        'gradients with finite differences of the mean vectors, stored gradients with their parameters and with the '
        'gradient the optimiser is given, and invalid arguments offered; distinct = (outputs, lengths, history)')
ASSUMPTIONS = []


def inputs(rng, D):
    out = []
    for _ in range(D):
        n = int(choice(rng, [0, 1, 2, 3, 7, 20, 20, 150]))
        X = rng.randn(n) * choice(rng, [1, 100])
        if rng.rand() < .3:
            X = X.astype(choice(rng, [int, np.float32]))
        if rng.rand() < .2:
            X.flags.writeable = False
        out.append(X)
    if D > 1 and rng.rand() < .3:      # one array for several outputs
        out[-1] = out[0]
    return out


def vectors(mon, got, Xs, vals, what):
    mon.check(isinstance(got, list) and len(got) == len(Xs), what + ': one vector per output', got=len(got), want=len(Xs))
    for d, (g, X) in enumerate(zip(got, Xs)):
        g = np.asarray(g)
        mon.check(g.shape == (len(X),), what + ': vector has the length of its input', output=d, got=g.shape, want=len(X))
        mon.check(g.dtype.kind == 'f', what + ': real vector', dtype=str(g.dtype))
        mon.check(bool((g == vals[d]).all()), what + ': value', output=d, got=g, want=vals[d])


class Quadratic(Model):
    """Least squares on the mean: the gradient of the model is known."""

    def __init__(self, Xs, mean):
        super().__init__('quad')
        self.Xs, self.mean = Xs, mean
        self.link_parameter(mean)

    def log_likelihood(self):
        return -sum(np.square(X - f).sum() / 2 for X, f in zip(self.Xs, self.mean.f(self.Xs)))

    def parameters_changed(self):
        fs = self.mean.f(self.Xs)
        g = [sum(np.dot(gi, X - f) for gi, X, f in zip(gj, self.Xs, fs)) for gj in self.mean.mean_gradient(self.Xs)]
        self.mean.update_gradient(np.array(g))


def constant(rng, mon, idx):
    for _ in range(6):
        D = int(rng.randint(1, 8)) if rng.rand() < .8 else int(rng.randint(8, 25))
        st = rng.randint(4)
        c0 = rng.randn(D) * 10. ** rng.randint(-3, 4)
        if st == 1:
            c0 = rng.randint(-5, 6, D)
        elif st == 2:
            c0 = np.repeat(c0, 2)[::2]
            c0.flags.writeable = False
        keep = c0.copy()
        if st == 3:
            c0 = None
            mean = Constant(1, D)
            cur = np.zeros(D)
        else:
            mean = Constant(1, D, c0)
            cur = keep.astype(float)
        hist = []
        for _ in range(4):
            Xs = inputs(rng, D)
            vectors(mon, mean.f(Xs), Xs, cur, 'constant mean')
            mon.event('means evaluated')
            jac = mean.mean_gradient(Xs)
            mon.check(len(jac) == D, 'one gradient per parameter', got=len(jac), want=D)
            for j in range(D):
                vectors(mon, jac[j], Xs, [1. if d == j else 0. for d in range(D)], 'mean gradient')
            # directional derivative of the code's own mean
            h = 2. ** -10
            old = np.array(mean.c)
            dirn = rng.randint(-3, 4, D)
            mean.c[:] = cur + h * dirn
            up = [np.array(v) for v in mean.f(Xs)]
            mean.c[:] = cur - h * dirn
            dn = [np.array(v) for v in mean.f(Xs)]
            mean.c[:] = old
            for d in range(D):
                want = (up[d] - dn[d]) / (2 * h)
                got = sum((dirn[j] * np.asarray(jac[j][d]) for j in range(D)), np.zeros(len(Xs[d])))
                mon.close(got, want, 'gradient is the derivative of the mean', 1e-6, 1e-9 * (1 + np.abs(cur).max()))
            mon.event('mean gradients')
            g = rng.randn(D)
            gk = g.copy()
            mean.update_gradient(g)
            mon.same(np.asarray(mean.c.gradient), gk, 'stored gradient on its parameter')
            mon.same(np.asarray(mean.gradient), gk, 'stored gradient of the mean')
            mon.same(g, gk, 'gradient argument left')
            mon.event('gradients stored')
            op = choice(rng, ['all', 'one', 'none'])
            hist.append(op)
            if op == 'all':
                cur = rng.randn(D)
                mean.c[:] = cur
            elif op == 'one':
                d = rng.randint(D)
                cur = cur.copy()
                cur[d] = rng.randn()
                mean.c[d] = cur[d]
            mon.same(np.asarray(mean.c), cur, 'offsets are what was set')
        if c0 is not None:
            mon.same(c0, keep, 'offset argument left')
        mon.sig('constant', D, st, hist)


def model(rng, mon, idx):
    D = int(rng.randint(1, 6)) if rng.rand() < .8 else int(rng.randint(6, 15))
    Xs = [rng.randn(rng.randint(1, 9)) * 3 for _ in range(D)]
    mean = Constant(1, D, rng.randn(D))
    m = Quadratic(Xs, mean)
    for _ in range(3):
        c = rng.randn(D)
        m.mean.c[:] = c
        want = np.array([np.sum(X - ci) for X, ci in zip(Xs, c)])
        mon.close(m.gradient, want, 'gradient of a model with this mean', 1e-9, 1e-9)
        mon.event('model gradients')
    m.optimize('lbfgsb')
    f = mean.f(Xs)
    for d in range(D):
        mon.close(f[d], np.repeat(Xs[d].mean(), len(Xs[d])), 'fitted mean', 0, 1e-4 * (1 + np.abs(Xs[d]).max()))
    mon.event('fits')
    mon.sig('model', D, [len(X) for X in Xs])


def zero(rng, mon, idx):
    for _ in range(4):
        D = int(rng.randint(1, 8))
        mean = Zero(1, D)
        Xs = inputs(rng, D)
        vectors(mon, mean.f(Xs), Xs, np.zeros(D), 'zero mean')
        mon.check(len(mean.mean_gradient(Xs)) == 0, 'zero mean has no gradient')
        mean.update_gradient(np.zeros(0))
        mon.check(mean.size == 0, 'zero mean has no parameters')
        mon.event('zero means')
        mon.sig('zero', D, [len(X) for X in Xs])


def invalid(rng, mon, idx):
    for _ in range(4):
        D = int(rng.randint(1, 7))
        for mean in (Constant(1, D, rng.randn(D)), Zero(1, D)):
            Xs = inputs(rng, D)
            nm = type(mean).__name__
            mon.raises(ValueError, nm + ': too few inputs', mean.f, Xs[:-1])
            mon.raises(ValueError, nm + ': no inputs', mean.f, [])
            mon.raises(ValueError, nm + ': too many inputs', mean.f, Xs + [Xs[0]])
            for bad in (np.zeros((3, 1)), np.zeros((1, 3)), np.zeros((0, 1)), np.array(1.), np.zeros((2, 2, 1))):
                Zs = list(Xs)
                Zs[rng.randint(D)] = bad
                mon.raises(ValueError, nm + ': input of the wrong dimension', mean.f, Zs)
            mon.event('inputs rejected', 8)
        for shape in ((D + 1,), (D - 1,), (D, 1), (1, D), (), (D, D), (0,)):
            if shape != (D,):
                mon.raises(ValueError, 'offsets of the wrong shape', Constant, 1, D, np.zeros(shape))
                mon.event('offsets rejected')
        mon.sig('invalid', D)


FAMILIES = [('constant', constant, 60, 3000), ('model', model, 30, 800), ('zero', zero, 30, 1000), ('invalid', invalid, 40, 1000)]
MIN_EVENTS = {'means evaluated': 500, 'mean gradients': 500, 'gradients stored': 500, 'model gradients': 50,
              'zero means': 80, 'inputs rejected': 500, 'offsets rejected': 300}
