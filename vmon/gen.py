"""Workload generation: kernel mixes, datasets, queries; and construction of the
corresponding objects of the code under test through its public API."""
import copy

import numpy as np

from runlmc.kern.identity import Identity as IdKern
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.kern.scaled import Scaled
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP

from . import oracle as O


def choice(rng, xs, p=None):
    return xs[rng.choice(len(xs), p=p)]


# ------------------------------------------------------------------ kernels
def gen_kernel(rng, P, span, kinds=('rbf', 'matern', 'periodic', 'id', 'scaled'), ads=None,
               tag=''):
    """A kernel spec whose length scales are sensible for inputs of extent
    `span` (scalar)."""
    kind = choice(rng, list(kinds))
    if kind == 'scaled':
        inner = gen_kernel(rng, P, span, [k for k in kinds if k != 'scaled' or rng.rand() < 0.2] or ['rbf'],
                           ads, tag)
        return {'kind': 'scaled', 'inner': inner, 'scale': float(np.exp(rng.uniform(-1.5, 1.5)))}
    if ads is not None:
        ad = choice(rng, ads)
    elif P == 1:
        ad = choice(rng, [None, (0,), [0]])
    elif P == 2:
        ad = choice(rng, [None, None, (0,), (1,), (1, 0), [0, 1]])
    else:
        ad = choice(rng, [(0,), (P - 1,), (1,), (0, P - 1), (P - 1, 0), (1, 2), (2, 1)])
    if kind == 'periodic' and (P if ad is None else len(ad)) != 1:
        kind = 'rbf'
    name = choice(rng, ['k', 'rbf', kind + tag, kind + tag])
    sp = {'kind': kind, 'ad': ad, 'name': name}
    if kind == 'rbf':
        sp['g'] = float(np.exp(rng.uniform(-1, 3.5))) / span ** 2
    elif kind == 'matern':
        sp['g'] = float(np.exp(rng.uniform(-1, 2))) / span
    elif kind == 'periodic':
        sp['g'] = float(np.exp(rng.uniform(-1.5, 1.5)))
        sp['T'] = float(span * np.exp(rng.uniform(-1.2, 0.7)))
    return sp


def build_kernel(k):
    if k['kind'] == 'scaled':
        s = Scaled(build_kernel(k['inner']))
        s.scale[:] = k['scale']
        return s
    kw = {'name': k.get('name', 'k'), 'active_dims': copy.copy(k['ad'])}
    if k['kind'] == 'rbf':
        return RBF(inv_lengthscale=k['g'], **kw)
    if k['kind'] == 'matern':
        return Matern32(inv_lengthscale=k['g'], **kw)
    if k['kind'] == 'periodic':
        return StdPeriodic(inv_lengthscale=k['g'], period=k['T'], **kw)
    return IdKern(**kw)


def kernel_param_objs(kern, k):
    """Parameter objects of a built kernel, in parameter order."""
    if k['kind'] == 'scaled':
        return kernel_param_objs(kern.k, k['inner']) + [kern.scale]
    if k['kind'] == 'periodic':
        return [kern.inv_lengthscale, kern.period]
    if k['kind'] == 'id':
        return []
    return [kern.inv_lengthscale]


# ------------------------------------------------------------------- specs
def gen_spec(rng, P=None, D=None, mix=None, kinds=('rbf', 'matern', 'periodic', 'id', 'scaled'),
             ads=None, max_q=4, span=1., noise=(0.05, 1.), rank=None, q=None):
    if P is None:
        P = choice(rng, [1, 1, 1, 2, 2, 3])
    if D is None:
        D = choice(rng, [1, 2, 2, 3, 3, 4, 5])
    if mix is None:
        mix = choice(rng, ['lmc', 'lmc', 'slfm', 'indep', 'all', 'all', 'lmc+slfm', 'lmc+indep', 'slfm+indep'])
    fixed_q, q = q, [0, 0, 0]
    present = [mix in ('lmc', 'all', 'lmc+slfm', 'lmc+indep'),
               mix in ('slfm', 'all', 'lmc+slfm', 'slfm+indep'),
               mix in ('indep', 'all', 'lmc+indep', 'slfm+indep')]
    for i in range(3):
        if present[i]:
            q[i] = fixed_q or rng.randint(1, max_q)
    sp = {'P': P, 'D': D, 'lmc': [], 'slfm': [], 'indep': [], 'A': [], 'kappa': [], 'mix': mix}
    n = 0
    for _ in range(q[0]):
        r = rank or choice(rng, [1, 1, 2, 3, D, D + 1])
        sp['lmc'].append((gen_kernel(rng, P, span, kinds, ads, str(n)), r))
        sp['A'].append(rng.randn(r, D) / np.sqrt(r))
        sp['kappa'].append(np.exp(rng.uniform(-2, 0.7, D)))
        n += 1
    for _ in range(q[1]):
        sp['slfm'].append(gen_kernel(rng, P, span, kinds, ads, str(n)))
        sp['A'].append(rng.randn(1, D))
        sp['kappa'].append(np.zeros(D))
        n += 1
    if q[2]:
        style = rng.randint(3)
        if style == 0:           # default index: kernels 0..k-1
            k = min(q[2], D)
            idx = list(range(k))
            sp['indep_index'] = None
        else:
            idx = [int(rng.randint(D)) for _ in range(q[2])]
            sp['indep_index'] = idx
        for d in idx:
            sp['indep'].append(gen_kernel(rng, P, span, kinds, ads, str(n)))
            sp['A'].append(np.zeros((1, D)))
            kap = np.zeros(D)
            kap[d] = 1
            sp['kappa'].append(kap)
            n += 1
    else:
        sp['indep_index'] = None
    if n > 6:                    # paramz recurses too deeply when it renames many namesakes
        for i, k in enumerate(sp['slfm'] + sp['indep'] + [k for k, _ in sp['lmc']]):
            while k:
                k['name'] = 'q%d' % i
                k = k.get('inner')
    sp['noise'] = np.exp(rng.uniform(np.log(noise[0]), np.log(noise[1]), D))
    if rng.rand() < 0.4:
        special_values(rng, sp)
    return sp


def special_values(rng, sp):
    """Coincidences that random values never have: zeros, equal entries, equal kernels."""
    nco, L = len(sp['lmc']) + len(sp['slfm']), len(sp['lmc'])
    st = rng.randint(6)
    if st == 0:
        for q in range(nco):
            sp['A'][q] = sp['A'][q] * (rng.rand(*sp['A'][q].shape) < 0.6)
    elif st == 1:
        for q in range(nco):
            sp['A'][q] = np.round(sp['A'][q])
        for q in range(L):
            sp['kappa'][q] = np.ones(sp['D'])
    elif st == 2:
        for q in range(1, nco):
            if sp['A'][q].shape == sp['A'][q - 1].shape:
                sp['A'][q] = sp['A'][q - 1].copy()
        for q in range(1, L):
            sp['kappa'][q] = sp['kappa'][q - 1].copy()
    elif st == 3:
        sp['noise'] = np.full(sp['D'], sp['noise'][0])
    elif st == 4:
        ks = O.all_kernels(sp)
        for a, b in zip(ks, ks[1:]):
            if kind_name(a) == kind_name(b) and len(O.kparams(a)):
                set_kparams(b, O.kparams(a))
    else:
        for q in range(L):
            sp['kappa'][q] = np.exp(rng.uniform(-9, 1, sp['D']))


def spec_sig(sp):
    P = sp['P']
    return [P, sp['D'], sorted(r for _, r in sp['lmc']), len(sp['slfm']),
            len(sp['indep']), sp['indep_index'] is None,
            sorted((kind_name(k), O.ad_of(k, P)) for k in O.all_kernels(sp))]


def kind_name(k):
    return 's-' + kind_name(k['inner']) if k['kind'] == 'scaled' else k['kind']


def build_fk(sp, set_values=True):
    kw = {'D': sp['D']}
    if sp['lmc']:
        kw['lmc_kernels'] = [build_kernel(k) for k, _ in sp['lmc']]
        kw['lmc_ranks'] = [r for _, r in sp['lmc']]
    if sp['slfm']:
        kw['slfm_kernels'] = [build_kernel(k) for k in sp['slfm']]
    if sp['indep']:
        kw['indep_gp'] = [build_kernel(k) for k in sp['indep']]
        if sp['indep_index'] is not None:
            kw['indep_gp_index'] = list(sp['indep_index'])
    kernels = kw.get('lmc_kernels', []) + kw.get('slfm_kernels', []) + kw.get('indep_gp', [])
    fk = FunctionalKernel(**kw)
    if set_values:
        nco = len(sp['lmc']) + len(sp['slfm'])
        fk.coreg_vecs = [a.copy() for a in sp['A'][:nco]]
        fk.coreg_diags = [k.copy() for k in sp['kappa'][:len(sp['lmc'])]]
        fk.noise = sp['noise'].copy()
    return fk, kernels


def read_spec(sp, fk, kernels):
    """The spec with the values currently held by the code under test."""
    new = copy.deepcopy(sp)
    new['A'] = [np.array(a) for a in fk.coreg_vecs]
    new['kappa'] = [np.array(k) for k in fk.coreg_diags]
    new['noise'] = np.array(fk.noise)
    for k, kern in zip(O.all_kernels(new), kernels):
        vals = [float(np.asarray(p).ravel()[0]) for p in kernel_param_objs(kern, k)]
        set_kparams(k, vals)
    return new


def set_kparams(k, vals):
    if k['kind'] == 'scaled':
        set_kparams(k['inner'], vals[:-1])
        k['scale'] = vals[-1]
    elif k['kind'] == 'periodic':
        k['g'], k['T'] = vals
    elif k['kind'] != 'id':
        k['g'], = vals


# -------------------------------------------------------------------- data
def gen_data(rng, P, D, nmax=14, nmin=2, span=1., style=None, off=None):
    """Ragged inputs and outputs."""
    if off is None:
        off = choice(rng, [0., 0., -3. * span, 10. * span])
    Xs, Ys = [], []
    for d in range(D):
        n = rng.randint(nmin, nmax + 1)
        st = style or choice(rng, ['unif', 'unif', 'grid', 'cluster', 'dup'])
        if st == 'unif':
            X = rng.rand(n, P)
        elif st == 'grid':
            X = np.round(rng.rand(n, P) * 8) / 8.
        elif st == 'cluster':
            X = np.clip(rng.rand(1, P) + 0.05 * rng.randn(n, P), 0, 1)
        else:
            X = rng.rand(n, P)
            X[n // 2:] = X[:n - n // 2]
        Xs.append(X * span + off)
        Ys.append(rng.randn(n) * np.exp(rng.uniform(-1, 1)) + rng.randn() * choice(rng, [0, 1, 5]))
    u = rng.rand()
    if u < 0.12:                # all outputs observed at the same inputs
        n = min(map(len, Xs))
        Xs, Ys = [Xs[0][:n].copy() for _ in Xs], [Y[:n] for Y in Ys]
    elif u < 0.24:              # ordered inputs
        for d, X in enumerate(Xs):
            o = np.argsort(X[:, 0], kind='stable')
            Xs[d] = X[o[::-1] if rng.rand() < 0.5 else o]
    u = rng.rand()
    if u < 0.15:                # repeated observations
        for d, Y in enumerate(Ys):
            Y = np.round(Y)
            if len(Y) > 1 and np.ptp(Y) == 0:
                Y[rng.randint(len(Y))] += 1
            Ys[d] = Y
    elif u < 0.22:              # an outlier
        for Y in Ys:
            Y[rng.randint(len(Y))] += 30. * (1 + np.abs(Y).max())
    # make sure every dimension has spread
    lo, hi = off + 0.02 * span, off + 0.98 * span
    rev = len(Xs[0]) > 1 and len(Xs[-1]) > 1 and Xs[0][0, 0] > Xs[0][-1, 0]
    Xs[0][0], Xs[-1][-1] = (hi, lo) if rev and len(Xs) == 1 else (lo, hi)
    if P == 1 and rng.rand() < 0.6:
        Xs = [X[:, 0] for X in Xs]
    return Xs, Ys


def gen_grid(rng, P, span=1., off=0., big=False):
    """(lo, hi, m) request."""
    if P == 1:
        m = int(choice(rng, [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 25]))
        if big:
            m = int(rng.randint(30, 90))
        m = choice(rng, [m, m, [m], np.array([m]), None])
    elif P == 2:
        m = [int(choice(rng, [2, 3, 4, 5, 6, 8])), int(choice(rng, [2, 3, 4, 5, 7, 9]))]
        m = choice(rng, [m, np.array(m), tuple(m)])
    else:
        m = np.array([int(choice(rng, [2, 3, 4, 5, 6, 7])) for _ in range(P)])
    lo = hi = None
    st = rng.randint(5)
    if st in (1, 3):
        lo = off + span * rng.uniform(-0.5, 0.3, P)
    if st in (2, 3):
        hi = off + span * rng.uniform(0.7, 1.5, P)
    if P == 1:
        if lo is not None and rng.rand() < 0.5:
            lo = float(lo[0])
        if hi is not None and rng.rand() < 0.5:
            hi = float(hi[0])
    return lo, hi, m


def in_units(rng, sp, most=4.):
    """Outputs in very different units (in place); the factor of each output. No independent kernels."""
    s = 10. ** rng.uniform(-most, most, sp['D'])
    if rng.rand() < .3:
        s[:] = s[0]
    for a, k in zip(sp['A'], sp['kappa']):
        a *= s
        k *= s ** 2
    sp['noise'] = sp['noise'] * s ** 2
    return s


def gen_queries(rng, Xs, P, D, nmax=6, empties=True, far=True):
    X, _ = O.stack(Xs, P)
    lo, hi = X.min(0), X.max(0)
    span = np.where(hi > lo, hi - lo, 1.)
    Ts = []
    for d in range(D):
        n = rng.randint(0 if empties else 1, nmax + 1)
        T = lo + span * rng.uniform(-0.02, 1.02, (n, P))
        for i in range(n):
            u = rng.rand()
            if u < 0.2:
                T[i] = X[rng.randint(len(X))]
            elif u < 0.25 and far:
                T[i] = lo + span * rng.uniform(-3, 4, P)
            elif u < 0.3:
                T[i] = choice(rng, [lo, hi])
        if P == 1 and rng.rand() < 0.5:
            T = T[:, 0]
        Ts.append(T)
    if not any(len(T) for T in Ts) and not empties:
        Ts[0] = X[:1]
    return Ts


class Problem:
    """One generated model together with its oracle."""

    def __init__(self, rng, nmax=14, nmin=2, P=None, D=None, mix=None, kinds=None, ads=None,
                 grid=True, noise=(0.05, 1.), max_q=4, style=None, normalize=None, big=False,
                 span=None, off=None, rank=None, q=None):
        kinds = kinds or ('rbf', 'matern', 'periodic', 'id', 'scaled')
        span = choice(rng, [1., 1., 0.01, 300.]) if span is None else span
        off = choice(rng, [0., 0., -3. * span, 10. * span]) if off is None else off
        self.sp = gen_spec(rng, P, D, mix, kinds, ads, max_q, span, noise, rank, q)
        self.P, self.D, self.span = self.sp['P'], self.sp['D'], span
        self.Xs, self.Ys = gen_data(rng, self.P, self.D, nmax, nmin, span, style, off)
        self.lo, self.hi, self.m = gen_grid(rng, self.P, span, off, big) if grid else (None, None, None)
        if self.m is None and sum(map(len, self.Xs)) // self.D < 1:
            self.m = 4
        self.normalize = bool(rng.rand() < 0.5) if normalize is None else normalize
        self.fk = self.kernels = self.model = None
        if rng.rand() < 0.3:
            self.coincide(rng, nmin)

    def coincide(self, rng, nmin):
        """Coincidences between parameters, sizes and arrays."""
        sp, D, L = self.sp, self.D, len(self.sp['lmc'])
        st = rng.randint(6)
        if st == 0:              # as constructed: equal noise and diagonals, equal sizes
            n = min(map(len, self.Xs))
            if n >= nmin:
                first = [self.Xs[0][0].copy(), self.Xs[-1][-1].copy()]
                self.Xs = [X[:n] for X in self.Xs]
                self.Xs[0][0], self.Xs[-1][-1] = first
                self.Ys = [Y[:n] if n < 2 or np.ptp(Y[:n]) else Y[:n] + np.arange(n) for Y in self.Ys]
            sp['noise'] = np.full(D, 0.1 if sp['noise'].max() < 1.5 else sp['noise'][0])
            for q in range(L):
                sp['kappa'][q] = np.ones(D)
        elif st == 1:            # repeated rows of the coregionalisation factors
            for q in range(L):
                if len(sp['A'][q]) > 1:
                    sp['A'][q][1:] = sp['A'][q][0] * choice(rng, [1., 1., -1.])
        elif st == 2:            # two outputs are the same arrays
            if D > 1:
                i, j = rng.permutation(D)[:2]
                self.Ys[j] = self.Ys[i]
                self.Xs[j] = self.Xs[i]
                X = np.vstack([np.reshape(X, (len(X), -1)) for X in self.Xs])
                if np.any(np.ptp(X, axis=0) == 0):      # keep every dimension spread
                    self.Xs[i][0] = self.Xs[i][0] + self.span * 0.5
        elif st == 3:            # outputs of standard deviation one, exactly
            for d in range(D):
                n = len(self.Ys[d])
                if n > 1 and n % 2 == 0 and rng.rand() < 0.7:
                    self.Ys[d] = np.where(np.arange(n) % 2, 1., -1.) + choice(rng, [0., 0., 3.])
        elif st == 4:            # kernels of different kinds, alike in name and parameters
            ks = O.all_kernels(sp)
            for k in ks if len(ks) <= 6 else []:
                base = k
                while base['kind'] == 'scaled':
                    base = base['inner']
                base['name'] = 'k'
                if base['kind'] in ('rbf', 'matern'):
                    base['g'] = 4. / self.span if 0.1 < self.span < 10 else base['g']
        else:                    # two outputs with the same coregionalisation and noise
            if D > 1:
                i, j = rng.permutation(D)[:2]
                for q in range(L + len(sp['slfm'])):
                    sp['A'][q][:, j] = sp['A'][q][:, i]
                    sp['kappa'][q][j] = sp['kappa'][q][i]
                sp['noise'][j] = sp['noise'][i]

    def kwargs(self, **kw):
        d = dict(normalize=self.normalize, lo=self.lo, hi=self.hi, m=self.m, max_procs=1)
        d.update(kw)
        return d

    def build(self, **kw):
        self.fk, self.kernels = build_fk(self.sp)
        self.model = InterpolatedLLGP(
            self.copies(self.Xs), self.copies(self.Ys),
            functional_kernel=self.fk, **self.kwargs(**kw))
        return self.model

    @staticmethod
    def copies(arrays):
        """Copies, where the same array stays the same array."""
        done = {}
        return [done.setdefault(id(a), a.copy()) for a in arrays]

    def y(self):
        Ys = O.normalise(self.Ys) if self.normalize else [np.asarray(Y, float) for Y in self.Ys]
        return np.hstack(Ys)

    def scales(self):
        if not self.normalize:
            return np.zeros(self.D), np.ones(self.D)
        return (np.array([np.mean(Y) for Y in self.Ys]), np.array([np.std(Y) for Y in self.Ys]))

    def oracle(self, sp=None):
        return O.SkiOracle(sp or self.sp, self.Xs, self.lo, self.hi, self.m)

    def current(self):
        return read_spec(self.sp, self.fk, self.kernels)

    def sig(self):
        n = [len(X) for X in self.Xs]
        return spec_sig(self.sp) + [self.lo is None, self.hi is None,
                                    None if self.m is None else np.atleast_1d(self.m).tolist(),
                                    self.normalize]

    def describe(self, mon, **kw):
        mon.describe(P=self.P, D=self.D, mix=self.sp['mix'], lens=[len(X) for X in self.Xs],
                     kernels=[(kind_name(k), O.ad_of(k, self.P)) for k in O.all_kernels(self.sp)],
                     ranks=[r for _, r in self.sp['lmc']], indep_index=self.sp['indep_index'],
                     m=self.m, lo=self.lo, hi=self.hi, normalize=self.normalize, **kw)


def split(v, Xs):
    return np.split(np.asarray(v), np.cumsum([len(x) for x in Xs])[:-1])
