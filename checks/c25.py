"""C25: parallelism is invisible except in speed."""
import contextlib
import functools
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

from runlmc.util.inline_pool import InlinePool
from vmon import gen
from vmon.core import Inconclusive, SolverHook, Violation, in_repo
from vmon.gen import choice

RULE = ('models of at least 300 points with 1..8 workers and per-task delays injected into the solver, every task '
        'logged (pid, start, end) in an event file; answers compared with the single-process run of the same random '
        'state; task faults injected; direct pool tests; process census; exit of whole programs; distinct = '
        '(workers, completion order of tasks)')
ASSUMPTIONS = ['fork start method (Linux default)', '"small" is exercised at up to 250 points',
               'delays and faults are injected at scipy.sparse.linalg.minres/cg',
               'StopIteration is not injected (multiprocessing itself swallows it)']
JOBS = 4
CASE_LIMIT = 240
HERE = os.path.dirname(os.path.abspath(__file__))


class Injected(Exception):
    """Travels between processes."""


EXCEPTIONS = (Injected, ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError, FloatingPointError,
              OverflowError, RuntimeError, NotImplementedError, MemoryError, OSError, AssertionError, TimeoutError,
              EOFError, np.linalg.LinAlgError, mp.TimeoutError)


class Log:
    """Delays and faults at the library solver, with an event log shared by
    all processes (one line per task)."""

    def __init__(self, seed, max_delay=0.):
        self.seed, self.max_delay = seed, max_delay

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='c25-')
        self.path = os.path.join(self.dir, 'log')
        self.fault = os.path.join(self.dir, 'fault')
        open(self.path, 'w').close()
        self.hook = SolverHook(lambda _name, f: self.wrap(f))
        return self

    def wrap(self, f):
        def g(A, b, *a, **kw):
            h = hashlib.sha256(np.ascontiguousarray(np.asarray(b, dtype=float)).tobytes() + str(self.seed).encode()).digest()
            t0 = time.time()
            if os.path.exists(self.fault):
                with open(self.fault) as fh:
                    mod, exc = map(int, fh.read().split())
                if h[1] % mod == 0:
                    self.note('fault', t0, h)
                    raise EXCEPTIONS[exc]('injected %d' % h[1])
            if self.max_delay:
                time.sleep(self.max_delay * h[0] / 255.)
            r = f(A, b, *a, **kw)
            self.note('task', t0, h)
            return r
        return g

    def note(self, kind, t0, h):
        line = json.dumps([kind, os.getpid(), t0, time.time(), h.hex()[:8]]) + '\n'
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, line.encode())
        os.close(fd)

    def set_fault(self, mod, exc=0):
        if mod is None:
            if os.path.exists(self.fault):
                os.unlink(self.fault)
        else:
            with open(self.fault, 'w') as fh:
                fh.write('%d %d' % (mod, exc))

    def events(self):
        with open(self.path) as fh:
            return [json.loads(x) for x in fh]

    def __exit__(self, *a):
        self.hook.remove()
        shutil.rmtree(self.dir, ignore_errors=True)


def children():
    """Live (not zombie) child processes of this one."""
    out = []
    me = os.getpid()
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    s = f.read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            if int(s[1]) == me and s[0] != 'Z':
                out.append(int(d))
    return out


def isolated(fn):
    """Run a case in a process of its own, whose descendants end with it."""
    @functools.wraps(fn)
    def run(rng, mon, idx):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                os.close(rfd)
                signal.alarm(0)
                err = None
                try:
                    fn(rng, mon, idx)
                except Violation as e:
                    err = ('violation', e.what, e.detail)
                except Inconclusive as e:
                    err = ('inconclusive', str(e), None)
                except Exception as e:  # pylint: disable=broad-except
                    kind = 'repo' if in_repo(sys.exc_info()[2]) else 'error'
                    err = (kind, repr(e)[:300], traceback.format_exc()[-2500:])
                data = pickle.dumps((mon.events, mon.sigs, mon.desc, err))
                while data:
                    data = data[os.write(wfd, data):]
            finally:
                os._exit(0)
        os.close(wfd)
        try:
            buf = b''
            while True:
                # workers may hold the pipe open, so do not wait for its end
                ready, _, _ = select.select([rfd], [], [], 1)
                if ready:
                    chunk = os.read(rfd, 1 << 16)
                    if not chunk:
                        break
                    buf += chunk
                elif os.waitpid(pid, os.WNOHANG)[0]:
                    break
        finally:
            os.close(rfd)
            with contextlib.suppress(OSError):
                os.killpg(pid, signal.SIGKILL)
            with contextlib.suppress(OSError):
                os.waitpid(pid, 0)
        if not buf:
            raise Inconclusive('case process ended without a report')
        events, sigs, desc, err = pickle.loads(buf)
        mon.events.update(events)
        mon.sigs |= sigs
        mon.desc.update(desc)
        if err is None:
            return
        if err[0] == 'violation':
            raise Violation(err[1], err[2])
        if err[0] == 'repo':
            raise Violation('unexpected exception on valid input', {'exception': err[1], 'trace': err[2]})
        if err[0] == 'inconclusive':
            raise Inconclusive(err[1])
        raise AssertionError(err[1] + '\n' + err[2])
    return run


def large(rng, mix=None):
    D = int(choice(rng, [1, 2, 3]))
    per = {1: 310, 2: 155, 3: 105}[D]
    pr = gen.Problem(rng, nmax=per + 15, nmin=per, P=1, D=D, mix=mix or choice(rng, ['lmc', 'lmc', 'all', 'slfm', 'indep']),
                     max_q=3, kinds=('rbf', 'matern', 'scaled'), noise=(.3, 1.))
    pr.m = int(choice(rng, [3, 4, 5, 6, 8, 9, 10]))
    return pr


def script(rng, pr, procs, plan):
    """One run; everything observable, in order."""
    seed, nits, mode, noise, Ts = plan
    np.random.seed(seed)
    out = []
    m = pr.build(trace_iterations=nits, max_procs=procs, prediction=mode)
    out += [('gradient', m.gradient.copy()), ('quadratic', m.normal_quadratic())]
    pr.fk.noise = noise
    out += [('gradient 2', m.gradient.copy()), ('quadratic 2', m.normal_quadratic())]
    g = m.predict([T.copy() for T in Ts])
    out += [('mean', np.hstack(g[0])), ('variance', np.hstack(g[1]))]
    g = m.predict([T[::-1].copy() for T in Ts])
    out += [('mean reversed', np.hstack([x[::-1] for x in g[0]])), ('variance reversed', np.hstack([x[::-1] for x in g[1]]))]
    out.append(('random state afterwards', np.random.rand(3)))
    return out, m


@isolated
def pools(rng, mon, idx):
    pr = large(rng)
    mode = 'precompute' if idx % 3 == 2 else 'on-the-fly'
    plan = (int(rng.randint(2 ** 31)), int(choice(rng, [1, 2, 4, 7])), mode, np.exp(rng.uniform(-1, 0, pr.D)),
            gen.gen_queries(rng, pr.Xs, 1, pr.D, 6, empties=False))
    delay = choice(rng, [0., 0.02, 0.05])
    base = None
    order = [1] + [int(x) for x in rng.permutation([2, 3, 8])[:2]]
    with Log(rng.randint(1 << 30), delay) as lg:
        seen = 0
        for procs in order:
            before = set(children())
            out, m = script(rng, pr, procs, plan)
            kids = set(children()) - before
            ev = lg.events()[seen:]
            seen += len(ev)
            pids = {e[1] for e in ev}
            done = [e[4] for e in ev]
            if procs == 1:
                base = out
                mon.check(not kids, 'a limit of one starts no processes', got=len(kids))
                mon.check(pids <= {os.getpid()}, 'a limit of one runs everything here')
                serial = done
            else:
                mon.check(len(kids) <= procs, 'at most the permitted number of workers', got=len(kids), limit=procs)
                mon.check(len(pids) <= procs + 1, 'tasks run in the permitted workers', got=len(pids), limit=procs)
                if sorted(done) == sorted(serial):
                    mon.event('same tasks as the single process')
                if done != serial:
                    mon.event('schedules completing out of order')
                mon.event('worker processes seen', len(pids))
                mon.sig(procs, hashlib.sha256(repr(done).encode()).hexdigest()[:12])
                for (k, a), (_, b) in zip(out, base):
                    mon.close(a, b, k + ' as with a single process', 1e-8, 1e-9, workers=procs, mode=mode)
            mon.event('tasks logged', len(ev))
            mon.event('runs')
            del m
            pr.model = None
    pr.describe(mon, mode=mode, workers=order, delay=delay)


@isolated
def faults(rng, mon, idx):
    """A failing task reaches the caller, and the model works again after."""
    pr = large(rng, 'lmc')
    procs = int(choice(rng, [1, 2, 4]))
    mode = 'precompute' if idx % 2 else 'on-the-fly'
    Ts = gen.gen_queries(rng, pr.Xs, 1, pr.D, 5, empties=False, far=False)
    with Log(rng.randint(1 << 30), 0.01) as lg:
        np.random.seed(5)
        m = pr.build(trace_iterations=3, max_procs=procs, prediction=mode)
        want = m.normal_quadratic()
        g = np.array(m.gradient)
        kind = int(rng.randint(len(EXCEPTIONS)))
        for mod in (1, 3):
            lg.set_fault(mod, kind)
            n0 = len(lg.events())
            failed = False
            try:
                m.predict([T.copy() for T in Ts])
            except EXCEPTIONS[kind] as e:
                failed = 'injected' in str(e)
            hit = any(e[0] == 'fault' for e in lg.events()[n0:])
            mon.check(failed == hit, 'a failing task reaches the caller of predict', failed=failed, hit=hit, workers=procs,
                      kind=EXCEPTIONS[kind].__name__)
            mon.event('faults injected', int(hit))
            if failed:
                break
        n0 = len(lg.events())
        failed = False
        lg.set_fault(1, kind)
        try:
            pr.fk.noise = np.array(pr.fk.noise) * 1.1
        except EXCEPTIONS[kind] as e:
            failed = 'injected' in str(e)
        hit = any(e[0] == 'fault' for e in lg.events()[n0:])
        mon.check(failed == hit, 'a failing task reaches the caller of an update', failed=failed, hit=hit)
        mon.event('faults injected', int(hit))
        lg.set_fault(None)
        pr.fk.noise = np.array(pr.sp['noise'])
        mon.close(m.normal_quadratic(), want, 'works again after a fault', 1e-8)
        mon.check(np.shape(m.gradient) == g.shape and np.isfinite(m.gradient).all(), 'gradient after a fault')
        got = m.predict([T.copy() for T in Ts])
        mon.check([len(x) for x in got[0]] == [len(T) for T in Ts], 'predicts after a fault')
    mon.sig('fault', procs, mode, pr.sig())


# ------------------------------------------------------------ pool directly
def slow_square(i, wait, big):
    time.sleep(wait)
    return i, i * i, big.sum(), os.getpid()


def fail_at(i, wait, kinds):
    time.sleep(wait)
    if i in kinds:
        raise kinds[i]
    return i


def flaky(i, path, exc):
    """Fails once."""
    if i == 0:
        try:
            os.close(os.open(path, os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            return i
        raise exc
    return i


@isolated
def starmap(rng, mon, idx):
    procs = choice(rng, [None, 1, 2, 3, 7])
    raw = mp.Pool(procs) if procs else None
    pool = InlinePool(raw)
    try:
        for rep in range(4):
            n = int(choice(rng, [0, 1, 2, 5, 17, 60, rng.randint(2, 80), 7 * rng.randint(1, 10), 8 * rng.randint(1, 9)]))
            waits = [float(rng.rand() * 0.02) for _ in range(n)]
            if rep == 1:
                waits = sorted(waits, reverse=True)      # the first submitted finishes last
            arrs = [rng.randn(rng.randint(1, 2000)) for _ in range(n)]
            ls = [(i, w, a) for i, (w, a) in enumerate(zip(waits, arrs))]
            kept = list(ls)
            got = list(pool.starmap(slow_square, ls))
            mon.check(len(got) == n, 'one result per task', got=len(got), want=n)
            for i, r in enumerate(got):
                mon.check(r[0] == i and r[1] == i * i and abs(r[2] - arrs[i].sum()) < 1e-9,
                          'result in the position of its task', position=i, got=r[0])
            mon.check(len(ls) == len(kept) and all(a is b for a, b in zip(ls, kept)), 'task list untouched')
            mon.event('pool tasks', n)
            mon.sig('starmap', procs, n, len({r[3] for r in got}))
            if n:
                for j in range(5):
                    exc = EXCEPTIONS[(idx * 20 + rep * 5 + j) % len(EXCEPTIONS)]
                    bad = {int(rng.randint(n)): exc('x')}
                    mon.raises(exc, 'exception of a task reaches the caller', pool.starmap, fail_at,
                               [(i, 0.001, bad) for i in range(n)])
                    mon.event('pool faults')
                again = list(pool.starmap(fail_at, [(i, 0., {}) for i in range(n)]))
                mon.check(again == list(range(n)), 'usable after a failing task')
        # a failure that would not happen again
        with tempfile.TemporaryDirectory() as tmp:
            for j in range(6):
                exc = EXCEPTIONS[(idx * 6 + j) % len(EXCEPTIONS)]
                mon.raises(exc, 'passing failure of a task reaches the caller', pool.starmap, flaky,
                           [(i, os.path.join(tmp, str(j)), exc('x')) for i in range(5)])
                mon.event('pool faults')
        # the first of very many is the last to finish
        n = 1500 if idx % 2 else 400
        got = list(pool.starmap(fail_at, [(i, .3 if i == 0 else 0., {}) for i in range(n)]))
        mon.check(got == list(range(n)), 'results in the order of very many tasks', tasks=n, got=got[:5])
        mon.event('pool tasks', n)
    finally:
        if raw:
            raw.terminate()
            raw.join()


@isolated
def stiff(rng, mon, idx):
    """Badly conditioned systems, where solves stop at their tolerance."""
    D = int(choice(rng, [1, 2]))
    pr = gen.Problem(rng, nmax=320 // D + 5, nmin=320 // D, P=1, D=D, mix='slfm', q=1, kinds=('rbf',),
                     noise=(.01, .03), span=1., style='unif', off=0.)
    pr.sp['slfm'][0].update(kind='rbf', g=1e4)
    pr.sp['A'][0] = np.full((1, D), 3.)
    pr.m = 200
    out = []
    tol = float(choice(rng, [1e-6, 1e-4]))
    for procs in (1, int(choice(rng, [2, 5]))):
        np.random.seed(3)
        m = pr.build(trace_iterations=3, max_procs=procs, tolerance=tol)
        out.append((m.gradient.copy(), np.asarray(m.kernel.alpha()).copy()))
        del m
        pr.model = None
    for a, b, what in zip(out[1], out[0], ('gradient', 'solution')):
        mon.close(a, b, what + ' of a stiff system as with a single process', 1e-9, tolerance=tol)
    mon.event('runs')
    mon.sig('stiff', D, tol)


@isolated
def patient(rng, mon, idx):
    """Tasks may take as long as they need."""
    raw = mp.Pool(2)
    try:
        waits = [.1, float(choice(rng, [13., 22.])), .1]
        got = list(InlinePool(raw).starmap(slow_square, [(i, w, np.ones(3)) for i, w in enumerate(waits)]))
        mon.check([r[:2] for r in got] == [(0, 0), (1, 1), (2, 4)], 'slow tasks are waited for', got=got)
        mon.event('slow tasks')
    finally:
        raw.terminate()
        raw.join()
    mon.sig('patient', idx)


@isolated
def many_tasks(rng, mon, idx):
    """Precomputing on hundreds of grid nodes, in workers and here."""
    pr = large(rng, 'lmc')
    pr.m = int(choice(rng, [110, 150, 260])) // pr.D
    Ts = gen.gen_queries(rng, pr.Xs, 1, pr.D, 9, empties=False)
    out = []
    for procs in (1, int(choice(rng, [2, 5]))):
        np.random.seed(3)
        m = pr.build(trace_iterations=1, max_procs=procs, prediction='precompute')
        g = m.predict([T.copy() for T in Ts])
        out.append(np.hstack(g[0] + g[1]))
        del m
        pr.model = None
    mon.close(out[1], out[0], 'many tasks as with a single process', 1e-8, 1e-9)
    mon.event('runs')
    mon.sig('many tasks', pr.D, pr.m)


# ----------------------------------------------------------- process census
@isolated
def census(rng, mon, idx):
    before = set(children())
    if idx % 2:
        pr = gen.Problem(rng, nmax=int(choice(rng, [8, 40, 120])), P=1, D=2, max_q=2, kinds=('rbf', 'matern'), noise=(.3, 1.))
        procs = choice(rng, [None, 2, 8, 1])
    else:
        pr = large(rng)
        procs = 1
    pr.m = 6
    m = pr.build(trace_iterations=1, max_procs=procs)
    m.predict([X[:2] for X in pr.Xs])
    m.prediction = 'precompute'
    m.predict([X[:2] for X in pr.Xs])
    pr.fk.noise = np.array(pr.fk.noise) * 1.1
    got = set(children()) - before
    mon.check(not got and not mp.active_children(), 'no processes for small problems or a limit of one', got=len(got),
              n=len(pr.y()), limit=procs)
    mon.event('process census')
    mon.sig('census', procs, len(pr.y()) // 50)


def leaves(rng, mon, idx):
    """Whole programs end by themselves."""
    how = ['drop', 'replace', 'exit', 'alive', 'refused'][idx % 5]
    env = dict(os.environ, OMP_NUM_THREADS='1')
    p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'c25_exit.py'), how, str(rng.randint(1000))],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        with contextlib.suppress(OSError):
            os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        mon.fail('program with a worker pool does not end', how=how)
    mon.check(b'DONE' in out and p.returncode == 0, 'program ends normally', how=how, rc=p.returncode)
    # no orphaned workers: nothing left in the session
    end = time.time() + 20
    left = True
    while left and time.time() < end:
        left = False
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    with open('/proc/%s/stat' % d) as f:
                        s = f.read().rsplit(')', 1)[1].split()
                    left = left or (int(s[3]) == p.pid and s[0] != 'Z')
                except OSError:
                    pass
        if left:
            time.sleep(0.2)
    mon.check(not left, 'no worker outlives the program', how=how)
    mon.event('program exits')
    mon.sig('exit', how)


FAMILIES = [('patient', patient, 2, 6), ('many_tasks', many_tasks, 3, 40), ('stiff', stiff, 4, 60), ('pools', pools, 15, 300), ('faults', faults, 6, 80), ('starmap', starmap, 12, 150),
            ('census', census, 10, 150), ('leaves', leaves, 5, 20)]
MIN_EVENTS = {'runs': 20, 'pool tasks': 100, 'process census': 5, 'program exits': 3}
