"""C13: coregionalization structure and constraints survive any use."""
import numpy as np
import paramz

from runlmc.models.optimization import AdaDelta
from vmon import gen, oracle as O
from vmon.gen import choice
from checks.c11 import MIXES

RULE = ('random histories (assignments of vectors, diagonals, noise, kernel parameters, whole-vector assignment, '
        'AdaDelta and L-BFGS runs, fixing/unfixing, predictions, likelihood queries) over models of every kernel '
        'mix; structure invariants evaluated after every operation; distinct = (configuration, operation sequence)')
ASSUMPTIONS = ['the user never assigns structure-breaking values (e.g. a nonzero SLFM diagonal) directly']


def observe(mon, pr, fixed, expect=None):
    fk, sp = pr.fk, pr.sp
    L, S, I = len(sp['lmc']), len(sp['slfm']), len(sp['indep'])
    D = pr.D
    mon.check(fk.Q == L + S + I, 'number of kernels', got=fk.Q)
    mon.check(fk.D == D, 'number of outputs')
    cur = pr.current()
    mats = fk.coreg_mats()
    mon.check(len(mats) == L + S + I, 'number of coregionalization matrices')
    idx = sp['indep_index'] if sp['indep_index'] is not None else list(range(I))
    for q, B in enumerate(mats):
        B = np.asarray(B)
        mon.check(B.shape == (D, D) and np.isfinite(B).all(), 'shape of coregionalization', kernel=q, B=B)
        A = np.asarray(cur['A'][q])
        kap = np.asarray(cur['kappa'][q])
        want_rank = sp['lmc'][q][1] if q < L else 1
        mon.check(A.shape == (want_rank, D), 'rank as requested', kernel=q, got=A.shape, want=(want_rank, D))
        if q < L:
            mon.check((kap > 0).all(), 'strictly positive LMC diagonal', kernel=q, got=kap)
            mon.close(B, A.T.dot(A) + np.diag(kap), 'LMC structure', 1e-12, kernel=q)
        elif q < L + S:
            mon.close(B, A.T.dot(A), 'SLFM has no diagonal part', 1e-12, 1e-300, kernel=q)
            s = np.linalg.svd(B, compute_uv=False)
            mon.check(D == 1 or s[1] <= 1e-12 * (s[0] + 1e-300), 'SLFM rank at most one', kernel=q, got=s)
        else:
            E = np.zeros((D, D))
            E[idx[q - L - S], idx[q - L - S]] = 1
            mon.same(B, E, 'independent kernel keeps its unit entry', kernel=q)
        mon.check(tuple(fk.get_active_dims(q)) == O.ad_of(O.all_kernels(sp)[q], pr.P), 'active dimensions in order')
    mon.check((cur['noise'] > 0).all() and np.isfinite(cur['noise']).all(), 'strictly positive noise', got=cur['noise'])
    for k in O.all_kernels(cur):
        v = np.array(O.kparams(k))
        mon.check((v > 0).all() and np.isfinite(v).all(), 'strictly positive kernel parameters', got=v)
    for name, (p, v) in fixed.items():
        mon.close(np.asarray(p), v, 'fixed parameter keeps its value', 1e-14, 0, param=name)
        mon.event('fixed parameter observed')
    if expect:
        for what, got, want in expect(cur):
            mon.close(got, want, 'assignment is what is read back: ' + what, 1e-9, 1e-12)
    # the operator in use is the one of the reported parameters, in order
    if pr.model is not None:
        n = len(pr.model.y)
        v = np.cos(np.arange(n) * 1.7 + 0.3)
        want = pr.oracle(cur).K().dot(v)
        mon.close(pr.model.kernel.K.matvec(v), want, 'operator matches reported parameters', 1e-7)


def params_of(pr):
    """name -> Param, all optimisable leaves."""
    out = {}
    for q, p in enumerate(pr.fk.parameters):
        if isinstance(p, paramz.Param):
            out['%d:%s' % (q, p.name)] = p
    for i, (k, s) in enumerate(zip(pr.kernels, O.all_kernels(pr.sp))):
        for j, p in enumerate(gen.kernel_param_objs(k, s)):
            out['k%d.%d' % (i, j)] = p
    return out


def history(rng, mon, idx, nops=7):
    mix = MIXES[idx % 7]
    pr = gen.Problem(rng, nmax=7, nmin=2, mix=mix, max_q=3, P=int(choice(rng, [1, 1, 2])),
                     D=int(choice(rng, [1, 2, 3, 4])), noise=(0.2, 1.))
    model = pr.build(trace_iterations=2)
    observe(mon, pr, {})
    L, S = len(pr.sp['lmc']), len(pr.sp['slfm'])
    fixed, ops = {}, []
    for _ in range(nops):
        op = choice(rng, ['vecs', 'diags', 'alldiags', 'noise', 'kern', 'ada', 'ada', 'ada', 'lbfgs', 'fix', 'fix',
                          'unfix', 'predict', 'll', 'array', 'noise1'])
        expect = None
        free = params_of(pr)
        nfree = [n for n in free if n not in fixed]
        if op == 'vecs' and L + S:
            new = [rng.randn(*a.shape) * (rng.rand(*a.shape) < choice(rng, [.5, 1, 1])) for a in pr.current()['A'][:L + S]]
            pr.fk.coreg_vecs = new
            expect = lambda c, new=new: [('coreg vecs', c['A'][i], v) for i, v in enumerate(new)]
        elif op == 'diags' and L:
            new = [np.exp(rng.uniform(-2, 1, pr.D)) for _ in range(L)]
            pr.fk.coreg_diags = new
            expect = lambda c, new=new: [('coreg diags', c['kappa'][i], v) for i, v in enumerate(new)]
        elif op == 'alldiags':
            same = [np.array(k) for k in pr.fk.coreg_diags]
            pr.fk.coreg_diags = same
            expect = lambda c, new=same: [('coreg diags', c['kappa'][i], v) for i, v in enumerate(new)]
        elif op == 'noise':
            new = np.exp(rng.uniform(-1.5, 0.5, pr.D))
            pr.fk.noise = new
            expect = lambda c, new=new: [('noise', c['noise'], new)]
        elif op == 'noise1':
            d = rng.randint(pr.D)
            new = pr.current()['noise']
            new[d] = 0.7
            free[[n for n in free if n.endswith(':noise')][0]][d] = 0.7
            expect = lambda c, new=new: [('noise', c['noise'], new)]
        elif op == 'kern':
            names = [n for n in free if n.startswith('k') and ':' not in n]
            if not names:
                continue
            n = choice(rng, names)
            v = float(np.asarray(free[n]).ravel()[0] * np.exp(rng.uniform(-.4, .4)))
            free[n][:] = v
            mon.close(np.asarray(free[n]).ravel(), [v], 'kernel parameter read back', 1e-9)
        elif op == 'ada' and nfree:
            try:
                model.optimize(optimizer=AdaDelta(max_it=int(rng.randint(1, 4)), step_rate=float(choice(rng, [0.1, 1, 1, 5]))))
            finally:
                mon.event('optimiser runs')
        elif op == 'lbfgs' and nfree:
            if min(pr.current()['noise']) < 0.01:
                continue
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    model.optimize(optimizer='lbfgsb', max_iters=1)
                except (ValueError, ArithmeticError, AttributeError, IndexError, np.linalg.LinAlgError):
                    ok = np.array(model.param_array)
                    if np.isfinite(ok).all() and 1e-4 < np.abs(ok[ok != 0]).min() and np.abs(ok).max() < 1e4:
                        raise
                    mon.event('line search left the range')
                    break
            mon.event('optimiser runs')
        elif op == 'fix' and len(nfree) > 1:
            n = choice(rng, nfree)
            free[n].fix()
            fixed[n] = (free[n], np.array(free[n]))
        elif op == 'unfix' and fixed:
            n = choice(rng, sorted(fixed))
            fixed.pop(n)[0].unfix()
        elif op == 'predict':
            model.predict([X[:1] for X in pr.Xs])
        elif op == 'll' and min(pr.current()['noise']) > 0.01:
            model.log_likelihood()
        elif op == 'array' and not fixed:
            model.param_array[:] = np.array(model.param_array)
            model.parameters_changed()
        else:
            continue
        if op not in ('ada', 'lbfgs', 'predict', 'll'):
            # an assignment by the user moves the value that is fixed
            fixed = {n: (p, np.array(p)) for n, (p, _) in fixed.items()}
        ops.append(op)
        mon.event('op ' + op)
        observe(mon, pr, fixed, expect)
        c = pr.current()
        if not (1e-8 < min(c['noise']) and max(np.abs(a).max() if a.size else 0 for a in c['A']) < 1e6):
            break
    mon.sig(pr.sig(), ops)
    pr.describe(mon, ops=ops)


def held(rng, mon, idx):
    """Fix, then assign through the public setters, then optimise, then release."""
    pr = gen.Problem(rng, nmax=6, nmin=2, mix=MIXES[idx % 7], max_q=3, P=1, D=int(choice(rng, [1, 2, 3])), noise=(0.2, 1.))
    model = pr.build(trace_iterations=1)
    free = params_of(pr)
    names = sorted(free)
    hold = [n for n in names if rng.rand() < .5] or [choice(rng, names)]
    if len(hold) == len(names):
        hold = hold[1:] or hold
    if len(hold) == len(names):
        return
    before = bool(rng.rand() < .3)
    ops = []
    if not before:
        for n in hold:
            free[n].fix()
    L, S = len(pr.sp['lmc']), len(pr.sp['slfm'])
    expect = None
    for op in ('noise', 'vecs', 'diags', 'kern', 'deferred'):
        if rng.rand() < .4:
            continue
        ops.append(op)
        if op == 'noise':
            new = np.exp(rng.uniform(-1.5, 0.5, pr.D))
            pr.fk.noise = new
            expect = lambda c, new=new: [('noise', c['noise'], new)]
        elif op == 'vecs' and L + S:
            new = [rng.randn(*a.shape) * (rng.rand(*a.shape) < choice(rng, [.5, 1, 1])) for a in pr.current()['A'][:L + S]]
            pr.fk.coreg_vecs = new
            expect = lambda c, new=new: [('coreg vecs', c['A'][i], v) for i, v in enumerate(new)]
        elif op == 'diags' and L:
            new = [np.exp(rng.uniform(-2, 1, pr.D)) for _ in range(L)]
            pr.fk.coreg_diags = new
            expect = lambda c, new=new: [('coreg diags', c['kappa'][i], v) for i, v in enumerate(new)]
        elif op == 'kern':
            for n in names:
                if n.startswith('k') and ':' not in n:
                    free[n][:] = float(np.asarray(free[n]).ravel()[0] * np.exp(rng.uniform(-.4, .4)))
            expect = None
        elif op == 'deferred':
            model.update_model(False)
            pr.fk.noise = np.exp(rng.uniform(-1.5, 0.5, pr.D))
            model.update_model(True)
            expect = None
        observe(mon, pr, {} if before else {n: (free[n], np.array(free[n])) for n in hold}, expect)
    if before:
        for n in hold:
            free[n].fix()
    fixed = {n: (free[n], np.array(free[n])) for n in hold}
    loose = {n: np.array(free[n]) for n in names if n not in hold}
    for _ in range(2):
        model.optimize(optimizer=AdaDelta(max_it=2, step_rate=float(choice(rng, [1, 5]))))
        mon.event('optimiser runs')
        observe(mon, pr, fixed)
    mon.check(model.optimizer_array.size == sum(v.size for v in loose.values()), 'the optimiser sees the free parameters only',
              got=int(model.optimizer_array.size), want=int(sum(v.size for v in loose.values())))
    for n in hold:
        free[n].unfix()
    mon.check(model.optimizer_array.size == pr.fk.size, 'released parameters are free again')
    mon.event('held')
    mon.sig('held', pr.sig(), len(hold), before, ops)


def construction(rng, mon, idx):
    """Initial state, without a model."""
    sp = gen.gen_spec(rng)
    fk, kernels = gen.build_fk(sp, set_values=False)
    fk.set_input_dim(sp['P'])
    cls = type('H', (), {})
    pr = cls()
    pr.fk, pr.kernels, pr.sp, pr.P, pr.D, pr.model = fk, kernels, sp, sp['P'], sp['D'], None
    pr.current = lambda: gen.read_spec(sp, fk, kernels)
    observe(mon, pr, {})
    c = pr.current()
    for k, want in zip(O.all_kernels(c), O.all_kernels(sp)):
        mon.close(O.kparams(k), O.kparams(want), 'kernel parameters untouched by construction', 1e-12)
    nlink = sum(a.size for a in c['A'][:len(sp['lmc']) + len(sp['slfm'])]) + sum(
        len(k) for k in c['kappa'][:len(sp['lmc'])]) + sp['D'] + sum(len(O.kparams(k)) for k in O.all_kernels(sp))
    mon.check(fk.size == nlink, 'every optimisable parameter is linked, and no other', got=fk.size, want=nlink)
    mon.sig('construct', gen.spec_sig(sp))


FAMILIES = [('held', held, 42, 800), ('history', history, 112, 2500), ('construction', construction, 150, 3000)]
MIN_EVENTS = {'optimiser runs': 60, 'fixed parameter observed': 40,
              'obs:independent kernel keeps its unit entry': 100, 'obs:SLFM rank at most one': 100}
