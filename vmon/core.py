"""Monitor core: what a case may observe, assert and record.

A *case* is one execution of real /repo code under a generated workload.  The
case function receives a private RandomState and a Mon; it drives the code and
reports every observation through the Mon, which counts it (evidence) and turns
a failed observation into a Violation.
"""
import collections
import hashlib
import logging
import re
import sys
import traceback

import numpy as np
import scipy.sparse.linalg as sla

REPO = '/repo/runlmc'


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__('%s: %s' % (what, detail))
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    """The harness could not decide this case (its own limitation)."""


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        return [jsonable(v, depth + 1) for v in x[:40]]
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return 'array%s %s...' % (x.shape, np.asarray(x).ravel()[:5].tolist())
        return jsonable(np.asarray(x).tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    return repr(x)[:300]


class Mon:
    def __init__(self):
        self.events = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.desc = {}

    # -- recording -------------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] += int(n)

    def sig(self, *items):
        """Record a distinct configuration/state/schedule that was observed."""
        self.sigs.add(repr(jsonable(list(items))))

    def describe(self, **kw):
        self.desc.update({k: jsonable(v) for k, v in kw.items()})

    # -- oracles ---------------------------------------------------------
    def fail(self, what, **detail):
        raise Violation(what, jsonable(detail))

    def check(self, cond, what, **detail):
        self.events['obs:' + what] += 1
        if not cond:
            self.fail(what, **detail)

    def close(self, got, want, what, rtol=1e-8, atol=0., scale=None, **detail):
        """Normwise comparison: |got-want|_inf <= atol + rtol*scale."""
        self.events['obs:' + what] += 1
        try:
            got = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            self.fail(what, got=repr(got)[:300], problem='not numeric', **detail)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(what, got_shape=got.shape, want_shape=want.shape,
                      problem='shape', **detail)
        if got.size == 0:
            return
        if not np.all(np.isfinite(want)):
            raise Inconclusive('oracle not finite in ' + what)
        if not np.all(np.isfinite(got)):
            self.fail(what, problem='not finite', got=got, **detail)
        if scale is None:
            scale = np.abs(want).max()
        err = np.abs(got - want)
        tol = atol + rtol * scale
        if not err.max() <= tol:
            i = np.unravel_index(int(err.argmax()), err.shape)
            self.fail(what, problem='value', max_err=float(err.max()),
                      tol=float(tol), index=[int(j) for j in i],
                      got=float(got[i]), want=float(want[i]), **detail)

    def same(self, got, want, what, **detail):
        """Bitwise-equal arrays (NaN-free)."""
        self.events['obs:' + what] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            self.fail(what, got=got, want=want, **detail)

    def raises(self, exc, what, fn, *a, **kw):
        """fn must raise exc (and nothing else)."""
        self.events['obs:' + what] += 1
        try:
            r = fn(*a, **kw)
        except exc:
            return
        except Exception as e:  # pylint: disable=broad-except
            self.fail(what, problem='wrong exception', got=repr(e)[:200],
                      trace=traceback.format_exc()[-1500:])
        self.fail(what, problem='accepted', got=repr(type(r)))


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO):
            return True
        tb = tb.tb_next
    return False


def case_seed(prop, seed, family, idx):
    h = hashlib.sha256(('%s/%d/%s/%d' % (prop, seed, family, idx)).encode())
    return int.from_bytes(h.digest()[:4], 'little')


class Solves:
    """What the iterative solver reported while the block ran: `res` bounds the
    residual of every solve (0 if all converged, the logged residual if a
    failure was logged, inf if the report cannot be read)."""

    def __init__(self, n=0, tol=1e-4):
        # beyond 100 iterations a solve may stop at the tolerance, silently
        self.floor = tol if n >= 100 else 0.
        self.tap = LogTap()
        self.res = None

    def __enter__(self):
        self.tap.__enter__()
        return self

    def __exit__(self, *a):
        self.tap.__exit__()
        res = self.floor
        for _, _, msg in self.tap.critical():
            nums = re.findall(r'[-+]?\d+\.\d+e[-+]\d+|nan|inf', msg)
            res = max([res] + [float(x) if x not in ('nan', 'inf') else np.inf for x in nums]) if nums else np.inf
        self.res = res


class LogTap(logging.Handler):
    """Collects log records of the code under test."""

    def __init__(self, level=logging.WARNING):
        super().__init__(level)
        self.records = []

    def emit(self, record):
        try:
            self.records.append((record.levelno, record.name, record.getMessage()))
        except Exception as e:  # pylint: disable=broad-except
            self.records.append((record.levelno, record.name, 'unformattable %r' % e))

    def __enter__(self):
        logging.getLogger('runlmc').addHandler(self)
        return self

    def __exit__(self, *a):
        logging.getLogger('runlmc').removeHandler(self)

    def critical(self):
        return [r for r in self.records if r[0] >= logging.CRITICAL]


class SolverHook:
    """Replaces the Krylov solvers of the library by wrappers, under whatever
    name the code under test refers to them."""

    NAMES = ('minres', 'cg')

    def __init__(self, wrap):
        self.undo = []
        for name in self.NAMES:
            orig = getattr(sla, name)
            new = wrap(name, orig)
            spaces = [vars(sla)] + [vars(m) for k, m in list(sys.modules.items())
                                    if m is not None and (k == 'runlmc' or k.startswith('runlmc.'))]
            for ns in spaces:
                for k, v in list(ns.items()):
                    if v is orig:
                        self.put(ns, k, new)
                    elif isinstance(v, dict) and not k.startswith('__'):
                        for kk, vv in list(v.items()):
                            if vv is orig:
                                self.put(v, kk, new)

    def put(self, ns, k, new):
        self.undo.append((ns, k, ns[k]))
        ns[k] = new

    def remove(self):
        for ns, k, v in self.undo:
            ns[k] = v
        self.undo = []
