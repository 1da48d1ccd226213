"""Seed search, minimisation, replay and evidence."""
import copy
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from .sched import sim_locks
from .core import (Ctx, HarnessError, REPO, SimCrash, VERIF, Violation, in_repo, rng_for,
                   where_in_repo)

CPU_LIMIT = 60.0           # seconds of CPU for one simulated run
MEM_LIMIT = 6 << 30
WALL_LIMIT = 60.0         # seconds for one simulated run that waits for something real
ISOLATED_CPU = 3           # seconds, for executions in their own process
ISOLATED_WALL = 20.0
ISOLATED_MEM = 2 << 30
REPLAY_DIR = os.path.join(VERIF, 'evidence', 'replay')


# --------------------------------------------------------------------------- set-up
def prepare():
    """Makes /repo importable the way its own test script does."""
    sys.dont_write_bytecode = True
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
    import warnings
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.unraisablehook = lambda *a: None
    from . import disk, procs  # noqa: F401
    disk.install()
    _repeatable_eigh()
    import logging
    try:
        with sim_locks():
            import hyperion.io      # before forking, so that every run finds it loaded
    except Exception:
        pass                        # the scenario reports it
    logging.disable(logging.CRITICAL)


def _repeatable_eigh():
    """The OpenBLAS that scipy brings reads stale memory in ssymv (a 3x3 single precision eigh gives
    zeros once a NaN is left in its work buffer by anything before), so a result would depend on
    the earlier runs of the worker: single precision goes through the double precision routine."""
    import numpy as np
    import scipy.linalg as la
    real = la.eigh
    if getattr(real, '_sim', False):
        return

    def eigh(a, b=None, *args, **kw):
        if getattr(a, 'dtype', None) != np.float32:
            return real(a, b, *args, **kw)
        r = real(np.asarray(a, dtype='float64'), b, *args, **kw)
        if isinstance(r, tuple):
            return tuple(x.astype('float32') for x in r)
        return r.astype('float32')

    eigh._sim = True
    la.eigh = eigh


def scenario(prop):
    for f in sorted(os.listdir(os.path.join(VERIF, 'sim', 'props'))):
        if f.lower().startswith(prop.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('sim.props.' + f[:-3])
    raise SystemExit('no scenario for %s' % prop)


# --------------------------------------------------------------------------- one run
class _Timeout(BaseException):
    pass


class _Blocked(BaseException):
    pass


def _on_alarm(sig, frame):
    raise _Timeout()


def _on_blocked(sig, frame):
    raise _Blocked()


class Result(object):
    __slots__ = ('violation', 'digest', 'state', 'count', 'simtime', 'steps', 'harness', 'log',
                 'extra', 'recorded')

    def __init__(self):
        self.violation = None
        self.harness = None
        self.digest = self.state = ''
        self.count = {}
        self.simtime = 0.0
        self.steps = 0
        self.log = None
        self.extra = None
        self.recorded = None


def clean_dir(path):
    for n in os.listdir(path):
        p = os.path.join(path, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.remove(p)


class _Chance(object):
    """What the process would take from outside the run and could put into names of files:
    its number, entropy, the generators that no scenario seeded."""

    def __init__(self):
        import tempfile
        import numpy as np
        self.saved = [(os, 'getpid', os.getpid), (os, 'urandom', os.urandom),
                      (tempfile, '_name_sequence', tempfile._name_sequence)]
        r = random.Random('chance')
        os.getpid = lambda: 4242
        os.urandom = lambda n: bytes(r.getrandbits(8) for _ in range(n))
        tempfile._name_sequence = ('%08x' % r.getrandbits(32) for _ in iter(int, 1))
        random.seed(1)
        np.random.seed(1)

    def undo(self):
        for obj, name, val in self.saved:
            setattr(obj, name, val)


def _execute(mod, plan, workdir, keep_log=False):
    """Runs one plan in workdir (the current directory of the simulated processes)."""
    r = Result()
    os.chdir(workdir)
    clean_dir(workdir)
    ctx = Ctx(plan)
    ctx.keep_log = keep_log
    ctx.root = workdir
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    oldr = signal.signal(signal.SIGALRM, _on_blocked)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    wall = ISOLATED_WALL if plan.get('isolate') is True else WALL_LIMIT
    signal.setitimer(signal.ITIMER_REAL, wall)
    chance = _Chance()
    try:
        r.extra = mod.run(plan, ctx)
    except Violation as v:
        r.violation = (v.kind, v.msg)
    except _Timeout as e:
        r.violation = ('no-progress', 'the run used more than %g s of CPU time' %
                       getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    except _Blocked:
        r.violation = ('blocked', 'the run waits for something that nothing in it will bring about')
    except SimCrash:
        r.harness = 'SimCrash escaped the scenario\n' + traceback.format_exc()
    except Exception as e:
        if in_repo(e):
            r.violation = ('unexpected-exception', '%s: %s at %s' % (
                type(e).__name__, str(e)[:300], where_in_repo(e)))
            ctx.log.append(traceback.format_exc())
        elif not isinstance(e, (HarnessError, MemoryError)):
            # what the code under test returned or left on disk cannot be read as an answer (the
            # scenarios raise none of these on answers of the right form)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r.violation = ('uninterpretable-result', '%s: %s in %s' % (
                type(e).__name__, str(e)[:300], tb.name))
            ctx.log.append(traceback.format_exc())
        else:
            r.harness = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        signal.signal(signal.SIGALRM, oldr)
        chance.undo()
        from . import disk
        disk._active = None
    if r.violation:
        ctx.ev('violation', r.violation[0])
    r.digest = ctx.digest()
    r.state = ctx.state_digest()
    r.count = ctx.count
    r.simtime = ctx.simtime
    r.steps = ctx.steps
    r.recorded = getattr(ctx, 'recorded', None)
    if keep_log:
        r.log = ctx.log
    return r


def _execute_forked(mod, plan, workdir, keep_log=False, cpu_s=ISOLATED_CPU, mem=ISOLATED_MEM):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            # a damaged HDF5 file can send the C library into endless loops and allocations
            cpu = int(sum(os.times()[:2])) + cpu_s
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            r = _execute(mod, plan, workdir, keep_log)
            blob = pickle.dumps({k: getattr(r, k) for k in Result.__slots__})
        except BaseException:
            blob = pickle.dumps({'harness': traceback.format_exc()})
        with os.fdopen(wfd, 'wb') as f:
            f.write(blob)
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        blob = f.read()
    _, status = os.waitpid(pid, 0)
    r = Result()
    if not blob:
        # the C library underneath (HDF5) took the simulated process down
        r.count = {'process-died:%d' % (status & 0x7f): 1}
        r.state = r.digest = 'died'
        died = getattr(mod, 'on_death', None)
        if died is not None:
            r.violation = died(plan, status)
        if r.violation is None and (not plan.get('faults') if died is not None else
                                    plan.get('isolate') == 'died'):
            r.violation = ('process-died', 'the process of the run ended with status %d' % status)
        return r
    for k, v in pickle.loads(blob).items():
        setattr(r, k, v)
    return r


def execute(mod, plan, workdir, keep_log=False):
    if plan.get('isolate') == 'died':
        return _execute_forked(mod, plan, workdir, keep_log,
                               int(getattr(mod, 'CPU_LIMIT', CPU_LIMIT)) + 5, MEM_LIMIT)
    if plan.get('isolate'):
        return _execute_forked(mod, plan, workdir, keep_log)
    return _execute(mod, plan, workdir, keep_log)


def plans_for(mod, prop, seed, i, tier, workdir, isolate=None):
    """Generator of (name, plan, result) for seed index i: the fault-free execution and the
    executions with injected faults derived from it."""
    rng = rng_for(prop, seed, i)
    plan = mod.gen(rng, tier)
    plan.setdefault('faults', [])
    if isolate:
        plan['isolate'] = isolate
    r = execute(mod, plan, workdir)
    yield 'base', plan, r
    if r.violation or r.harness:
        return
    inject = getattr(mod, 'inject', None)
    if inject is not None:
        for j, p in enumerate(inject(plan, r.extra, rng, tier)):
            if isolate:
                p['isolate'] = isolate
            yield 'fault%d' % j, p, execute(mod, p, workdir)


# --------------------------------------------------------------------------- workers
def _scratch(tag):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    d = os.path.join(base, 'vsim-%d-%s' % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    return d


def _quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def _worker(mod, prop, seed, tier, idx, wfd, workdir, deadline):
    _quiet()
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = os.fdopen(wfd, 'wb')
    for i in idx:
        if deadline and time.time() > deadline:
            break
        pickle.dump({'at': i}, out)
        out.flush()
        try:
            for name, plan, r in plans_for(mod, prop, seed, i, tier, workdir):
                rec = {'i': i, 'name': name, 'digest': r.digest, 'state': r.state,
                       'count': r.count, 'simtime': r.simtime, 'steps': r.steps}
                if r.violation:
                    rec['violation'] = r.violation
                    rec['plan'] = plan
                if r.harness:
                    rec['harness'] = r.harness
                    rec['plan'] = plan
                pickle.dump(rec, out)
        except BaseException:
            pickle.dump({'i': i, 'harness': traceback.format_exc()}, out)
        out.flush()
    pickle.dump({'done': True}, out)
    out.close()


def explore(mod, prop, seed, tier, n, workers, time_limit=None, first=0, on_rec=None,
            stop=None):
    """Runs seed indices first..first+n-1 on worker processes, yields records."""
    deadline = time.time() + time_limit if time_limit else None
    procs = []
    root = _scratch('w')
    for w in range(workers):
        idx = range(first + w, first + n, workers)
        rfd, wfd = os.pipe()
        wd = os.path.join(root, 'p')   # same path length in every worker
        wd = os.path.join(root, 'w%02d' % w)
        os.makedirs(wd, exist_ok=True)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            code = 0
            try:
                _worker(mod, prop, seed, tier, idx, wfd, wd, deadline)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(wfd)
        procs.append([pid, os.fdopen(rfd, 'rb'), False, None])
    recs = []
    live = {p[1].fileno(): p for p in procs}
    bufs = {fd: b'' for fd in live}
    halted = False
    while live:
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            p = live[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                del live[fd]
                continue
            bufs[fd] += chunk
            while True:
                b = bufs[fd]
                try:
                    import io as _io
                    bio = _io.BytesIO(b)
                    rec = pickle.load(bio)
                except (EOFError, pickle.UnpicklingError, ValueError, IndexError,
                        AttributeError, KeyError):
                    break
                bufs[fd] = b[bio.tell():]
                if rec.get('done'):
                    p[2] = True
                elif 'at' in rec:
                    p[3] = rec['at']
                else:
                    recs.append(rec)
                    if stop is not None and not halted and stop(rec):
                        halted = True
        if halted:
            for p in procs:
                try:
                    os.kill(p[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    dead = []
    for p in procs:
        _, st = os.waitpid(p[0], 0)
        p[1].close()
        if not p[2] and not halted:
            dead.append((st, p[3]))
    shutil.rmtree(root, ignore_errors=True)
    recs.sort(key=lambda r: (r['i'], r.get('name', '')))
    return recs, dead, halted


def again(mod, prop, seed, i, tier):
    wd = _scratch('d')
    recs = []
    try:
        for name, plan, r in plans_for(mod, prop, seed, i, tier, wd, isolate='died'):
            if r.violation:
                recs.append({'i': i, 'name': name, 'digest': r.digest, 'state': r.state,
                             'count': r.count, 'simtime': r.simtime, 'steps': r.steps,
                             'violation': r.violation, 'plan': plan})
                break
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return recs


# --------------------------------------------------------------------------- minimise
def _variants(plan, mod):
    """Smaller plans, most aggressive first."""
    for key in getattr(mod, 'LISTS', ('faults', 'ops')):
        lst = plan.get(key)
        if not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                q = copy.deepcopy(plan)
                q[key] = lst[:a] + lst[a + size:]
                if len(q[key]) < n:
                    yield q
            size //= 2
    io_cfg = plan.get('io')
    if io_cfg:
        for k in list(io_cfg):
            if k != 'seed' and io_cfg[k]:
                q = copy.deepcopy(plan)
                q['io'][k] = 0 if not isinstance(io_cfg[k], bool) else False
                yield q
    f = getattr(mod, 'shrink', None)
    if f is not None:
        for q in f(copy.deepcopy(plan)):
            yield q


def _size(plan):
    return len(json.dumps(plan, sort_keys=True))


def minimise(mod, plan, kind, workdir, budget=40.0, max_runs=1500):
    t0 = time.time()
    best = plan
    runs = 0
    progress = True
    if 'switches' in getattr(mod, 'LISTS', ()) and plan.get('switches') is None:
        # first make the drawn schedule explicit, so that it can be shortened
        try:
            r = execute(mod, dict(plan, isolate=plan.get('isolate') or True), workdir)
            q = dict(copy.deepcopy(plan), **(r.recorded or {}))
            r2 = execute(mod, dict(q, isolate=plan.get('isolate') or True), workdir)
            runs += 2
            if r2.violation and r2.violation[0] == kind:
                best = q
        except Exception:
            pass
    while progress and time.time() - t0 < budget and runs < max_runs:
        progress = False
        for q in _variants(best, mod):
            if time.time() - t0 > budget or runs >= max_runs:
                break
            runs += 1
            try:
                q = dict(q)
                q['isolate'] = q.get('isolate') or True
                r = execute(mod, q, workdir)
            except Exception:
                continue
            if not best.get('isolate'):
                q.pop('isolate')
            if r.violation and r.violation[0] == kind and _size(q) < _size(best):
                best = q
                progress = True
                break
    return best, runs


def _run_child(fn):
    """Runs fn() in a forked, quiet, memory-limited child and returns its value."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _quiet()
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        try:
            blob = pickle.dumps(('ok', fn()))
        except BaseException:
            blob = pickle.dumps(('err', traceback.format_exc()))
        with os.fdopen(wfd, 'wb') as f:
            f.write(blob)
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    if not blob:
        return None
    k, v = pickle.loads(blob)
    if k == 'err':
        raise HarnessError(v)
    return v


def report(mod, prop, seed, tier, rec, out=sys.stdout):
    """Minimises a violation, writes and verifies its replay file, prints the line."""
    plan, (kind, msg) = rec['plan'], rec['violation']
    wd = _scratch('m')
    try:
        best, runs = _run_child(lambda: minimise(mod, plan, kind, wd)) or (plan, 0)

        def final():
            r = execute(mod, best, wd, keep_log=True)
            return r.violation, r.digest, r.log
        res = _run_child(final)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    viol, digest, log = res if res else (None, None, None)
    if not viol:
        best, viol, digest, log = plan, rec['violation'], rec['digest'], None
    os.makedirs(REPLAY_DIR, exist_ok=True)
    path = os.path.join(REPLAY_DIR, '%s-%d-%d-%s.json' % (prop, seed, rec['i'], rec['name']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'index': rec['i'], 'name': rec['name'],
                   'tier': tier, 'kind': viol[0], 'message': viol[1], 'digest': digest,
                   'minimiser_runs': runs, 'plan': best, 'original_plan': plan,
                   'trace': log}, f, indent=1)
    ok = subprocess.call([sys.executable, os.path.join(VERIF, 'bin', 'replay.py'), path],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    print('  %s: %s' % viol, file=out)
    print('  seed=%d run=%d/%s minimised in %d runs; replay %s' % (
        seed, rec['i'], rec['name'], runs,
        'reproduces it exactly' if ok == 1 else 'did NOT reproduce it (rc %d)' % ok), file=out)
    print('VIOLATION property=%s replay=%s' % (prop, path), file=out)
    out.flush()


# --------------------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def match_known(rec, known):
    kind, msg = rec['violation']
    for k in known:
        if k['kind'] == kind and k['match'] in msg:
            return k
    return None


# --------------------------------------------------------------------------- check
def main_check(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for a in argv[1:]:
        if a == '--thorough':
            tier = 'thorough'
        elif a.startswith('--seed='):
            seed = int(a[7:])
    prepare()
    mod = scenario(prop)
    workers = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4))
    n = mod.RUNS[tier]
    for a in argv[1:]:
        if a.startswith('--runs='):
            n = int(a[7:])
    with sim_locks():
        getattr(mod, 'setup', lambda: None)()
    t0 = time.time()
    known = known_findings(prop)

    def stop(rec):
        return bool(rec.get('violation')) and match_known(rec, known) is None

    recs, dead, halted = explore(mod, prop, seed, tier, n, workers, stop=stop)
    for st, i in dead:
        # the run took its worker with it: once more, in a process of its own
        if i is not None and not halted:
            recs += again(mod, prop, seed, i, tier)
    wall = time.time() - t0
    harness = [r for r in recs if r.get('harness')]
    viols = [r for r in recs if r.get('violation')]
    fresh, listed = [], {}
    for r in viols:
        k = match_known(r, known)
        if k is None:
            fresh.append(r)
        else:
            listed.setdefault(k['id'], (k, r))
    evidence(mod, prop, tier, seed, n, recs, fresh, wall, workers)
    for k, r in listed.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fresh:
        report(mod, prop, seed, tier, fresh[0])
        return 1
    if harness:
        print('HARNESS ERROR in run %s:\n%s' % (harness[0].get('i'), harness[0]['harness']))
        return 2
    if dead:
        print('HARNESS ERROR: worker died with status %s' % dead)
        return 2
    missing = [p for p in getattr(mod, 'MUST_REACH', ()) if tier in ('quick', 'thorough') and
               not any(r.get('count', {}).get(p) for r in recs)]
    if missing and n >= mod.RUNS['quick']:
        print('HARNESS ERROR: never reached %s' % missing)
        return 2
    print('%s: %d seeds, %d executions, %d distinct behaviours, no violation (%.1f s)' % (
        prop, n, len(recs), len({r['state'] for r in recs}), wall))
    return 0


def evidence(mod, prop, tier, seed, n, recs, fresh, wall, workers):
    count = {}
    for r in recs:
        for k, v in r.get('count', {}).items():
            count[k] = count.get(k, 0) + v
    faults = {k[6:]: v for k, v in sorted(count.items()) if k.startswith('fault:')}
    probes = {k: v for k, v in sorted(count.items()) if not k.startswith('fault:')}
    states = {r['state'] for r in recs if r.get('state')}
    digests = {r['digest'] for r in recs if r.get('digest')}
    seeds = len({r['i'] for r in recs})
    simtime = sum(r.get('simtime', 0) for r in recs)
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(recs),
            'distinct_nontrivial': len(states),
            'rule': 'an execution counts as distinct when its behaviour signature (%s) differs '
                    'from every other one' % getattr(mod, 'STATE_RULE',
                                                     'configuration, operations and outcomes'),
            'samples': [{'index': r['i'], 'name': r.get('name'), 'digest': r.get('digest'),
                         'steps': r.get('steps')} for r in recs[:5]],
            'seeds': seeds,
            'simulated_runs': len(recs),
            'fault_free_runs': len([r for r in recs if r.get('name') == 'base']),
            'fault_runs': len([r for r in recs if r.get('name') != 'base']),
            'distinct_executions': len(digests),
            'seeds_per_hour': round(seeds * 3600 / max(wall, 1e-9)),
            'runs_per_hour': round(len(recs) * 3600 / max(wall, 1e-9)),
            'simulated_time_s': round(simtime, 3),
            'simulated_time_note': getattr(
                mod, 'TIME_NOTE', 'no clock in this property: time is counted in events'),
            'simulated_events': sum(r.get('steps', 0) for r in recs),
            'faults_injected': faults,
            'reach_probes': probes,
            'real_components': getattr(mod, 'REAL', []),
            'stub_components': getattr(mod, 'STUB', []),
            'workers': workers,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': [{'kind': r['violation'][0], 'message': r['violation'][1][:400],
                        'index': r['i'], 'name': r['name']} for r in fresh[:10]],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)


# --------------------------------------------------------------------------- replay
def main_replay(argv):
    with open(argv[0]) as f:
        doc = json.load(f)
    prepare()
    mod = scenario(doc['property'])
    with sim_locks():
        getattr(mod, 'setup', lambda: None)()
    wd = _scratch('r')
    try:
        def go():
            r = execute(mod, doc['plan'], wd, keep_log=True)
            return r.violation, r.digest, r.log, r.harness
        res = _run_child(go)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    viol, digest, log, harness = res
    if '--trace' in argv:
        for line in log or ():
            print('   ', line)
    if harness:
        print(harness)
        return 2
    if not viol:
        print('replay: no violation on this tree')
        return 0
    same = (viol[0] == doc['kind'] and digest == doc['digest'])
    print('  %s: %s' % tuple(viol))
    print('  execution digest %s (%s)' % (digest, 'identical' if same else
                                          'recorded %s' % doc['digest']))
    print('VIOLATION property=%s replay=%s' % (doc['property'], argv[0]))
    return 1 if same else 3
