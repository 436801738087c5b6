"""Runner: forks workers that execute cases, merges what the monitors saw,
writes the evidence file and the verdict."""
import argparse
import collections
import importlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


class CpuTimeout(BaseException):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


def _cpu(_s, _f):
    raise CpuTimeout()


def run_case(mod, prop, seed, family, idx, limit):
    cpu = max(60., limit * 2 / 3.)
    import numpy as np
    from .core import Mon, Violation, Inconclusive, case_seed, in_repo
    fn = dict(mod.FAMILIES_BY_NAME)[family]
    s = case_seed(prop, seed, family, idx)
    rng = np.random.RandomState(s)
    np.random.seed((s ^ 0x5bd1e995) & 0xffffffff)
    mon = Mon()
    out = {'family': family, 'idx': idx, 'status': 'ok'}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    # processor time does not depend on the load of the machine
    signal.signal(signal.SIGPROF, _cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        fn(rng, mon, idx)
    except Violation as e:
        out.update(status='violation', what=e.what, detail=e.detail)
    except Inconclusive as e:
        out.update(status='inconclusive', what=str(e))
    except CaseTimeout:
        out.update(status='inconclusive', what='case exceeded %ds' % limit)
    except CpuTimeout:
        if in_repo(sys.exc_info()[2]):
            out.update(status='violation', what='no answer within %d s of processor time' % cpu,
                       detail={'trace': traceback.format_exc()[-2000:]})
        else:
            out.update(status='inconclusive', what='case exceeded %ds of processor time' % cpu)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        tb = traceback.format_exc()[-3000:]
        if in_repo(sys.exc_info()[2]) and not isinstance(e, MemoryError):
            out.update(status='violation', what='unexpected exception on valid input',
                       detail={'exception': repr(e)[:300], 'trace': tb})
        elif isinstance(e, (TypeError, ValueError, IndexError)):
            # e.g. an answer with too few arrays, or None
            out.update(status='violation', what='answer of the wrong type, number or shape',
                       detail={'exception': repr(e)[:300], 'trace': tb})
        else:
            out.update(status='error', what=repr(e)[:300], detail={'trace': tb})
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    out.update(events=dict(mon.events), sigs=mon.sigs, desc=mon.desc,
               wall=time.time() - t0)
    return out


def worker(mod, prop, seed, plan, counter, stop, deadline, limit, wfd):
    stop, max_violations = stop
    sys.stdin.close()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VMON_STDERR'):
        os.dup2(devnull, 2)
    root = logging.getLogger('runlmc')
    root.propagate = False
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.WARNING)
    while True:
        if stop.value >= max_violations or time.time() > deadline:
            break
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(plan):
            break
        family, idx = plan[i]
        r = run_case(mod, prop, seed, family, idx, limit)
        if r['status'] == 'violation':
            with stop.get_lock():
                stop.value += 1
        b = pickle.dumps(r)
        data = struct.pack('<I', len(b)) + b
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    os.close(wfd)
    os._exit(0)


def make_plan(mod, tier, cases):
    """Interleave families; counts per tier are fixed, so the plan is a
    function of the tier alone."""
    todo = []
    for name, _fn, nq, nt in mod.FAMILIES:
        n = nq if tier == 'quick' else nt
        if cases is not None:
            n = cases
        todo.append([name, n])
    plan = []
    for name, n in todo:
        plan += [((k + 0.5) / n, name, k) for k in range(n)]
    plan.sort()
    return [(name, k) for _, name, k in plan]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--cases', type=int, help='cases per family (debugging)')
    ap.add_argument('--family', help='only this family (debugging)')
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--max-violations', type=int, default=3)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    prop = a.prop

    sys.path.insert(0, VERIF)
    import runlmc
    where = os.path.realpath(os.path.dirname(runlmc.__file__))
    if where != '/repo/runlmc':
        print('INCONCLUSIVE property=%s runlmc imported from %s' % (prop, where))
        return 2
    mod = importlib.import_module('checks.' + prop.lower())
    mod.FAMILIES_BY_NAME = [(f[0], f[1]) for f in mod.FAMILIES]
    limit = getattr(mod, 'CASE_LIMIT', 300)

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        logging.getLogger('runlmc').setLevel(logging.WARNING)
        r = run_case(mod, prop, rp['seed'], rp['family'], rp['idx'], 600)
        print(json.dumps({k: r.get(k) for k in ('status', 'what', 'detail', 'desc')},
                         indent=1, default=str))
        if r['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        return 0 if r['status'] == 'ok' else 2

    plan = make_plan(mod, a.tier, a.cases)
    if a.family:
        plan = [p for p in plan if p[0] == a.family]
    budget = getattr(mod, 'WALL', {}).get(a.tier, 420 if a.tier == 'quick' else 3600)
    deadline = t0 + budget
    if hasattr(mod, 'warmup'):
        mod.warmup()
    results, dead, stopped = pool(a, mod, prop, plan, deadline, limit)
    if dead and not stopped and time.time() < deadline:
        # a worker was ended from outside (memory): once more, one at a time
        done = {(r['family'], r['idx']) for r in results}
        rest = [c for c in plan if c not in done]
        if rest:
            a.jobs = 1
            more, dead, _ = pool(a, mod, prop, rest, deadline, limit)
            results += more
    return report(a, mod, plan, results, dead, t0)


def pool(a, mod, prop, plan, deadline, limit):
    """Run the planned cases in forked workers: results, workers that died, stopped early."""
    counter, stop = mp.Value('i', 0), mp.Value('i', 0)

    jobs = min(a.jobs, getattr(mod, 'JOBS', 8), len(plan))
    fds, pids = {}, []
    for _ in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                for fd in fds:
                    os.close(fd)
                worker(mod, prop, a.seed, plan, counter, (stop, a.max_violations),
                       deadline, limit, wfd)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(wfd)
        fds[rfd] = b''
        pids.append(pid)

    results = []
    hard = deadline + limit + 60
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 5)
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                os.close(fd)
                del fds[fd]
                continue
            buf = fds[fd] + chunk
            while len(buf) >= 4:
                n = struct.unpack('<I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                results.append(pickle.loads(buf[4:4 + n]))
                buf = buf[4 + n:]
            fds[fd] = buf
        if time.time() > hard:
            break
    dead = 0
    for pid in pids:
        try:
            p, st = os.waitpid(pid, os.WNOHANG if fds else 0)
            if p == 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                dead += 1
            elif st != 0:
                dead += 1
        except OSError:
            pass
    return results, dead, stop.value >= a.max_violations


def report(a, mod, plan, results, dead, t0):
    prop = a.prop
    events = collections.Counter()
    sigs = set()
    fam = collections.Counter()
    by = collections.defaultdict(list)
    for r in results:
        events.update(r['events'])
        sigs |= r['sigs']
        fam[r['family']] += 1
        by[r['status']].append(r)
    ev_dir = os.path.join(VERIF, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replay')
    os.makedirs(rp_dir, exist_ok=True)

    known = load_known(prop)
    viol, suppressed = [], []
    for r in by['violation']:
        k = match_known(known, r)
        (suppressed if k else viol).append((r, k))
    lines = []
    for n, (r, _) in enumerate(viol):
        path = os.path.join(rp_dir, '%s-%s-%d.json' % (prop, r['family'], r['idx']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': a.seed, 'tier': a.tier,
                       'family': r['family'], 'idx': r['idx'], 'what': r['what'],
                       'detail': r['detail'], 'case': r['desc']}, f, indent=1, default=str)
        if n < 5:
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            lines.append('  %s/%d %s %s' % (r['family'], r['idx'], r['what'],
                                            json.dumps(r['detail'], default=str)[:700]))
    for desc in sorted({k['what_fails'] for _, k in suppressed}):
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, desc))

    problems = []
    for r in by['error'][:5]:
        problems.append('harness error in %s/%d: %s\n%s' % (
            r['family'], r['idx'], r['what'], r['detail'].get('trace', '')))
    n_inc = len(by['inconclusive'])
    if n_inc > max(2, 0.05 * len(results)):
        problems.append('%d of %d cases inconclusive, e.g. %s' % (
            n_inc, len(results), by['inconclusive'][0]['what']))
    if dead:
        problems.append('%d worker(s) died' % dead)
    if not viol:
        for name, floor in getattr(mod, 'MIN_EVENTS', {}).items():
            if a.cases is None and a.family is None and events[name] < floor:
                problems.append('monitor event %r seen %d times, need %d' % (
                    name, events[name], floor))
        if a.cases is None and a.family is None and len(results) < 0.5 * len(plan):
            problems.append('only %d of %d planned cases ran' % (len(results), len(plan)))

    wall = time.time() - t0
    ok = sorted(by['ok'], key=lambda r: (r['idx'], r['family']))
    samples = []
    for name, _f, _q, _t in mod.FAMILIES:
        for r in [r for r in ok if r['family'] == name and r['desc']][:2]:
            samples.append({'family': name, 'idx': r['idx'], 'case': r['desc'],
                            'events': r['events']})
    evd = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:12],
            'planned': len(plan),
            'cases_per_family': dict(sorted(fam.items())),
            'monitor_events': dict(sorted(events.items())),
            'monitor_event_total': int(sum(events.values())),
            'inconclusive_cases': n_inc,
            'known_findings_seen': len(suppressed),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if not a.no_evidence:
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1, default=str)
    for ln in lines:
        print(ln)
    print('%s tier=%s seed=%d cases=%d/%d distinct=%d observations=%d violations=%d wall=%.1fs' % (
        prop, a.tier, a.seed, len(results), len(plan), len(sigs), sum(events.values()),
        len(viol), wall))
    if os.environ.get('VMON_TIMES'):
        tot = collections.defaultdict(list)
        for r in results:
            tot[r['family']].append(r['wall'])
        for k, v in sorted(tot.items()):
            print('   %-20s n=%d total=%.1f max=%.1f' % (k, len(v), sum(v), max(v)))
    for p in problems:
        print('INCONCLUSIVE property=%s %s' % (prop, p))
    if viol:
        return 1
    return 2 if problems else 0


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == prop]


def match_known(known, r):
    for k in known:
        if k['family'] == r['family'] and k['what'] == r['what'] and all(
                r['desc'].get(x) == y for x, y in k.get('case', {}).items()):
            return k
    return None


if __name__ == '__main__':
    sys.exit(main())
