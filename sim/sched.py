"""Cooperative scheduler: owns every thread, lock, sleep and clock of a run.

Simulated tasks are real Python threads that hold one token.  The standard library's own
Thread, Condition, Event, Semaphore, Queue and ThreadPool code runs unchanged on top of
simulated locks (threading.Lock, _allocate_lock, RLock, _set_sentinel and
_start_new_thread are replaced while a Sched is active).  A task gives the token away at
every lock operation, sleep, simulated system call and, on request, at every line or
bytecode of chosen files of the code under test.  Who gets it next is drawn from a seeded
generator, or read from a recorded list of switches.

Schedule file format: plan['sched'] = {'seed', 'policy', 'p'} for a drawn schedule, or
'switches': [[decision, task], ...] on top of the default rule "the running task goes on;
when it blocks the lowest runnable task runs; time advances when nobody can run".
Task -1 means: let the clock advance to the next timer although somebody could run.
"""
import gc
import os
import queue
import random
import select
import sys
import threading
import time
import _thread
import multiprocessing.dummy
import multiprocessing.pool
import multiprocessing.queues
import multiprocessing.synchronize

from .core import REPO, HarnessError, SimCrash, Violation

_real = {
    'start': _thread.start_new_thread, 'alloc': _thread.allocate_lock, 'sleep': time.sleep,
    'time': time.time, 'monotonic': time.monotonic, 'perf': time.perf_counter,
}
_tls = threading.local()
_active = None


class SimKilled(BaseException):
    """Ends a task whose run is over."""


def current():
    return getattr(_tls, 'task', None)


def here():
    """The active scheduler when called from one of its tasks."""
    t = current()
    return t.sched if t is not None and not t.sched.closing_all else None


def _h5_locked():
    """Inside h5py, which serialises its callers with one lock of its own: whoever gets
    the token there would wait for that lock, outside the simulation."""
    m = sys.modules.get('h5py._objects')
    return m is not None and m.phil._is_owned()


def yield_point(tag='io'):
    t = current()
    if t is not None:
        t.sched.yield_(tag)


class Task(object):
    def __init__(self, sched, tid, name, fn, args, proc):
        self.sched, self.id, self.name, self.fn, self.args = sched, tid, name, fn, args
        self.proc = proc
        self.gate = _real['alloc']()
        self.gate.acquire()
        self.wait = None           # predicate that makes the task runnable
        self.deadline = None
        self.done = False
        self.kill = False
        self.exc = None
        self.sentinels = []
        self.nopreempt = 0
        self.where = ''
        self.prio = 0.0

    def runnable(self, now):
        if self.done:
            return False
        if self.wait is None and self.deadline is None:
            return True
        if self.deadline is not None and self.deadline <= now:
            return True
        return self.wait is not None and self.wait()


class SimLock(object):
    """threading.Lock."""

    def __init__(self):
        self._locked = False
        self._owner_tid = None

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None:
            if self._locked:
                if not blocking:
                    return False
                raise HarnessError('simulated lock contended outside the simulation')
            self._locked = True
            return True
        s = t.sched
        s.yield_('acquire')
        if self._locked:
            if not blocking:
                return False
            end = None if timeout is None or timeout < 0 else s.now + timeout
            while self._locked:
                if end is not None and s.now >= end:
                    return False
                s.block(lambda: not self._locked, end, 'lock')
        self._locked = True
        self._owner_tid = t.id
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        self._owner_tid = None
        t = current()
        if t is not None:
            t.sched.yield_('release')

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class _Patches(object):
    """Swaps the names the standard library resolves at run time."""

    def __init__(self):
        self.saved = []

    def set(self, obj, name, val):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def imported(self):
        """Code under test may have taken the same things under names of its own
        (from time import sleep)."""
        swap = {id(old): getattr(obj, name) for obj, name, old in self.saved
                if callable(old) and not (obj is threading and name.startswith('_CR'))}
        for n, m in list(sys.modules.items()):
            if m is not None and (n == 'hyperion' or n.startswith(('hyperion.', 'script_'))):
                for k, v in list(vars(m).items()):
                    if id(v) in swap:
                        self.set(m, k, swap[id(v)])

    def undo(self):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        self.saved = []


class sim_locks(object):
    """Modules imported inside get simulated locks, also those they make when imported."""

    def __enter__(self):
        self.p = _Patches()
        self.p.set(threading, 'Lock', SimLock)
        self.p.set(threading, '_allocate_lock', SimLock)
        self.p.set(threading, 'RLock', lambda *a, **k: threading._PyRLock(*a, **k))

    def __exit__(self, *a):
        self.p.undo()


class Sched(object):
    def __init__(self, ctx, cfg, trace_files=(), opcode=False, max_steps=60000, contexts=()):
        self.ctx = ctx
        self.cfg = cfg = dict(cfg or {})
        self.rng = random.Random('sched:%s' % cfg.get('seed', 0))
        self.policy = cfg.get('policy', 'random')
        self.p = cfg.get('p', 0.3)
        self.p_clock = cfg.get('p_clock', 0.02)
        sw = cfg.get('switches')
        self.explicit = None if sw is None else {int(k): int(v) for k, v in sw}
        self.recorded = []
        self.tasks = []
        self.cur = None
        self.now = 1.6e9
        self.t0 = self.now
        self.k = 0
        self.max_steps = max_steps
        self.trace_files = tuple(os.path.join(REPO, f) for f in trace_files)
        self.opcode = opcode
        self.contexts = list(contexts)     # (name, get, set, fresh): swapped between processes
        self.errors = []                   # (task name, exception) that ended a task
        self.verdict = None
        self.closing_all = False
        self.next_proc = 0
        self.saved = {}                    # process -> context values while it does not run
        self.n_switch = 0
        self.deciding = False
        self.max_stall = 5.0               # a runnable task is not passed over for longer
        self.n_thread = 0
        self.fail_threads = set()          # ordinals of thread starts that fail
        if self.policy == 'pct':
            d = cfg.get('depth', 3)
            self.changes = set(self.rng.randrange(1, cfg.get('horizon', 400)) for _ in range(d))

    # ---- token passing ----------------------------------------------------
    def _choose(self, cur):
        """Next task to run, or None (deadlock)."""
        self.deciding = True          # predicates may call code under test: no switch there
        try:
            return self._choose1(cur)
        finally:
            self.deciding = False

    def _choose1(self, cur):
        while True:
            ready = [t for t in self.tasks if t.runnable(self.now)]
            timers = [t.deadline for t in self.tasks
                      if not t.done and t.deadline is not None and t.deadline > self.now]
            if ready:
                break
            if not timers:
                return None
            self.now = min(timers)
        default = cur if cur in ready else ready[0]
        k = self.k
        self.k += 1
        ids = [t.id for t in ready]
        if self.explicit is not None:
            want = self.explicit.get(k)
            if want == -1 and timers:
                self.now = min(timers)
                return self._choose1(cur)
            pick = self.tasks[want] if want is not None and want in ids else default
            if k > 20000 and want is None:
                pick = ready[k % len(ready)]      # fairness, so that spinning ends
        else:
            if timers and self.rng.random() < self.p_clock and \
                    min(timers) - self.now < self.max_stall:
                self.recorded.append([k, -1])
                self.now = min(timers)
                return self._choose1(cur)
            if len(ready) == 1:
                pick = ready[0]
            elif self.policy == 'sticky':
                pick = default if self.rng.random() > self.p else self.rng.choice(ready)
            elif self.policy == 'pct':
                if k in self.changes and cur is not None:
                    cur.prio = -k
                pick = max(ready, key=lambda t: t.prio)
                if k > self.cfg.get('horizon', 400) * 4:
                    pick = self.rng.choice(ready)
            else:
                pick = self.rng.choice(ready)
            if pick is not default:
                self.recorded.append([k, pick.id])
        return pick

    def _hand_over(self, cur):
        """Gives the token to the next task; cur waits for its own gate when it loses it."""
        if self.closing_all:
            if cur.kill:
                raise SimKilled()
        if self.k >= self.max_steps and self.verdict is None:
            self.verdict = ('no-progress', 'still running after %d scheduling steps: %s' % (
                self.k, self.describe()))
            self._stop_all(cur)
            return
        nxt = self._choose(cur)
        if nxt is None:
            if self.verdict is None:
                self.verdict = ('deadlock', 'nobody can run: ' + self.describe())
            self._stop_all(cur)
            return
        if nxt is cur:
            cur.wait = cur.deadline = None
            return
        self.n_switch += 1
        self.ctx.ev('switch', cur.id if cur is not None else None, nxt.id,
                    cur.where if cur is not None else '')
        self._give(cur, nxt)

    def _give(self, cur, nxt):
        if cur is not None and cur.proc != nxt.proc:
            for name, get, _, _ in self.contexts:
                self.saved.setdefault(cur.proc, {})[name] = get()
        self.cur = nxt
        nxt.wait = nxt.deadline = None
        if cur is None or cur.proc != nxt.proc:
            for name, _, put, _ in self.contexts:
                saved = self.saved.get(nxt.proc, {})
                if name in saved:
                    put(saved[name])
        nxt.gate.release()
        if cur is not None and not cur.done:
            cur.gate.acquire()
            if cur.kill:
                raise SimKilled()

    def _stop_all(self, cur):
        """Deadlock or step limit: ends the run by killing the main task first."""
        main = self.tasks[0]
        main.kill = True
        self.closing_all = True
        if cur is main:
            raise SimKilled()
        self._give(cur, main)

    def yield_(self, tag):
        t = current()
        if t.kill:
            raise SimKilled()
        if t.nopreempt or self.deciding or _h5_locked():
            return
        t.where = tag
        self._hand_over(t)

    def block(self, pred, deadline, tag):
        t = current()
        if t.kill:
            raise SimKilled()
        if self.deciding:
            raise HarnessError('a predicate of the scheduler blocks')
        t.where = tag
        t.wait, t.deadline = pred, deadline
        if pred is None and deadline is None:
            t.wait = lambda: False
        self._hand_over(t)
        t.wait = t.deadline = None

    def sleep(self, secs):
        self.block(None, self.now + max(float(secs), 1e-6), 'sleep')

    def wait_for(self, pred, timeout=None, tag='wait'):
        """For scenario code: block the calling task until pred() holds."""
        end = None if timeout is None else self.now + timeout
        while not pred():
            if end is not None and self.now >= end:
                return False
            self.block(pred, end, tag)
        return True

    def describe(self):
        return '; '.join('%s %s' % (t.name, 'done' if t.done else 'at ' + (t.where or 'start'))
                         for t in self.tasks)

    # ---- tasks --------------------------------------------------------------
    def spawn(self, fn, args=(), kwargs=None, name=None, new_proc=False):
        parent = current()
        if new_proc or parent is None:
            self.next_proc += 1
            proc = self.next_proc
        else:
            proc = parent.proc
        t = Task(self, len(self.tasks), name or 'task%d' % len(self.tasks), fn, args, proc)
        t.kwargs = kwargs or {}
        t.prio = self.rng.random() if self.policy == 'pct' else 0.0
        if new_proc:
            self.saved[proc] = {name: fresh() for name, _, _, fresh in self.contexts}
        self.tasks.append(t)
        self.ctx.ev('spawn', t.id)
        _real['start'](self._body, (t,))
        return t

    def _body(self, t):
        t.gate.acquire()
        _tls.task = t
        if self.trace_files:
            sys.settrace(self._trace)
        try:
            if not t.kill:
                t.fn(*t.args, **t.kwargs)
        except SimKilled:
            pass
        except BaseException as e:
            t.exc = e
            self.errors.append((t.name, e))
        sys.settrace(None)
        t.done = True
        for l in t.sentinels:
            l._locked = False
        self.ctx.ev('end', t.id, type(t.exc).__name__)
        try:
            if t is self.tasks[0]:
                self._finish()
            elif self.closing_all:
                self.reaper.release()
            else:
                nxt = self._choose(None)
                if nxt is None:
                    if self.verdict is None:
                        self.verdict = ('deadlock', 'nobody can run: ' + self.describe())
                    self.closing_all = True
                    self.tasks[0].kill = True
                    self._give(None, self.tasks[0])
                else:
                    self._give(t, nxt)
        finally:
            _tls.task = None

    def _finish(self):
        self.over.release()

    # ---- preemption inside the code under test -------------------------------
    def _trace(self, frame, event, arg):
        if event != 'call' or not frame.f_code.co_filename.startswith(self.trace_files):
            return None
        frame.f_trace_opcodes = self.opcode
        return self._local

    def _local(self, frame, event, arg):
        t = current()
        if t is None:
            return None
        if event in ('line', 'opcode') and not t.kill and not t.nopreempt and \
                not self.deciding:
            sys.settrace(None)
            try:
                t.where = '%s:%s' % (frame.f_code.co_name, frame.f_lineno)
                self._hand_over(t)
            finally:
                sys.settrace(self._trace)
        return self._local

    # ---- run ------------------------------------------------------------------
    def run(self, fn, *args):
        """Runs fn as the main task; returns its value.  Deadlocks and runs without end
        become violations."""
        global _active
        box = {}

        def main():
            box['v'] = fn(*args)

        self.over = _real['alloc']()
        self.over.acquire()
        self.reaper = _real['alloc']()
        self.reaper.acquire()
        p = _Patches()
        self._patch(p)
        _active = self
        gc.collect()       # finalisers of earlier runs must not run inside this one
        gc.disable()
        try:
            t = self.spawn(main, name='main')
            self.cur = t
            t.gate.release()
            if not self.over.acquire(timeout=300):
                raise HarnessError('a task holds the token for ever outside the simulation')
            self._reap()
        finally:
            _active = None
            gc.enable()
            p.undo()
        self.ctx.simtime += self.now - self.t0
        self.ctx.recorded = {'switches': self.recorded}
        self.ctx.ev('schedule', self.k, self.n_switch)
        e = t.exc
        if self.verdict is not None:
            raise Violation(*self.verdict)
        if e is not None:
            raise e
        return box.get('v')

    def _reap(self):
        """Kills what is left after the main task ended."""
        self.closing_all = True
        for t in list(self.tasks):
            if t.done:
                continue
            t.kill = True
            self.cur = t
            t.gate.release()
            for _ in range(50):
                if t.done:
                    self.reaper.acquire()
                    break
                if not self.reaper.acquire(timeout=2):
                    continue
                break

    def alive(self, skip=()):
        return [t for t in self.tasks if not t.done and t not in skip]

    def _patch(self, p):
        sched = self

        def start_new_thread(fn, args, kwargs=None):
            if here() is None and current() is None:
                return _real['start'](fn, args, kwargs or {})
            sched.n_thread += 1
            if sched.n_thread in sched.fail_threads:
                sched.ctx.fault('thread-start')
                sched.ctx.ev('thread-start-fails')
                raise RuntimeError("can't start new thread")
            t = sched.spawn(fn, args, kwargs or {})
            return t.id

        def set_sentinel():
            t = current()
            l = SimLock()
            if t is not None:
                t.sentinels.append(l)
            return l

        def rlock(*a, **k):
            return threading._PyRLock(*a, **k)

        def sleep(secs):
            if current() is None:
                return _real['sleep'](secs)
            sched.sleep(secs)

        def clock(kind):
            def f():
                if current() is None:
                    return _real[kind]()
                sched.now += 1e-4          # time passes between two readings of a clock
                return sched.now
            return f

        def pipe_wait(readers, timeout=None):
            # ThreadPool tells its handler about finished workers through an OS pipe
            if current() is None:
                return real_wait(readers, timeout)
            if timeout is None or timeout > 0:
                sched.wait_for(lambda: any(ready(r) for r in readers), timeout, 'pool-wait')
            return [r for r in readers if ready(r)]

        def ready(r):
            return bool(select.select([r.fileno()], [], [], 0)[0])

        import multiprocessing.pool as mpool
        real_wait = mpool.wait
        p.set(mpool, 'wait', pipe_wait)
        p.set(sys.modules['multiprocessing.connection'], 'wait', pipe_wait)
        p.set(threading, 'Lock', SimLock)
        p.set(threading, '_allocate_lock', SimLock)
        p.set(threading, 'RLock', rlock)
        p.set(threading, '_CRLock', None)
        p.set(threading, '_start_new_thread', start_new_thread)
        p.set(threading, '_set_sentinel', set_sentinel)
        p.set(threading, '_time', clock('monotonic'))
        p.set(threading, 'excepthook', self._excepthook)
        p.set(queue, 'time', clock('monotonic'))
        p.set(queue, 'SimpleQueue', queue._PySimpleQueue)
        p.set(time, 'sleep', sleep)
        p.set(time, 'time', clock('time'))
        p.set(time, 'monotonic', clock('monotonic'))
        p.set(time, 'perf_counter', clock('perf'))
        p.imported()

    def _excepthook(self, a):
        if not issubclass(a.exc_type, SimKilled):
            t = current()
            self.errors.append((t.name if t else '?', a.exc_value))


def gen_cfg(rng, horizon=400):
    pol = rng.choice(['random', 'sticky', 'sticky', 'pct'])
    return {'seed': rng.randint(0, 10 ** 9), 'policy': pol, 'p': rng.choice([0.02, 0.1, 0.3]),
            'p_clock': rng.choice([0, 0.01, 0.1]), 'depth': rng.randint(1, 5),
            'horizon': horizon, 'switches': None}


def warm():
    """Runs the standard library's thread pool once so that nothing is initialised lazily
    inside a measured run."""
    from multiprocessing.pool import ThreadPool
    from .core import Ctx

    def main():
        q = queue.Queue(1)
        t = threading.Thread(target=q.put, args=(1,))
        t.start()
        q.get()
        t.join()
        e = threading.Event()
        e.wait(0.1)
        p = ThreadPool(2)
        p.map(abs, range(3))
        p.apply_async(abs, (1,)).get()
        p.close()
        p.join()
    for i in range(2):
        Sched(Ctx({}), {'seed': i}).run(main)
    gc.collect()
    gc.freeze()
