"""Processes of the multiprocessing module as tasks of the scheduler (fork start method).

A started process is a copy: the closure and arguments of its target are copied, except the
shared objects (queues, events, processes).  Its random state is its own.  A queue has, as in the
standard library, a bound on the items under way, a buffer and a feeder in every process that
puts, and a pipe; messages are written whole.  A process that ends flushes its buffer, one that is
terminated or killed loses it."""
import collections
import copy
import errno
import pickle
import types

import numpy as np

from .sched import current


def contexts():
    return [('numpy-random', np.random.get_state, np.random.set_state, np.random.get_state)]


class Shared(object):
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Event(Shared):
    def __init__(self):
        self.flag = False

    def is_set(self):
        current().sched.yield_('event')
        return self.flag

    def set(self):
        current().sched.yield_('event')
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        return current().sched.wait_for(lambda: self.flag, timeout, 'event')


class Queue(Shared):
    def __repr__(self):
        return '<queue>'

    def __init__(self, maxsize=0):
        self.maxsize = maxsize if maxsize > 0 else 2 ** 31 - 1
        self.under_way = 0
        self.pipe = collections.deque()
        self.bufs = {}
        self.feeders = {}
        self.closed = set()

    def check_open(self):
        if current().proc in self.closed:
            raise ValueError('Queue %r is closed' % self)

    def put(self, obj, block=True, timeout=None):
        import queue
        t = current()
        s = t.sched
        self.check_open()
        s.yield_('put')
        if self.under_way >= self.maxsize and not (block and s.wait_for(
                lambda: self.under_way < self.maxsize, timeout, 'put')):
            raise queue.Full
        self.under_way += 1
        if t.proc not in self.feeders:
            self.bufs[t.proc] = collections.deque()
            self.feeders[t.proc] = s.spawn(self.feed, (t.proc,), name='feeder')
        self.bufs[t.proc].append(obj)
        s.yield_('put')

    def feed(self, proc):
        s = current().sched
        buf = self.bufs[proc]
        while True:
            s.wait_for(lambda: buf, tag='feeder')
            s.yield_('feeder')
            self.pipe.append(pickle.dumps(buf[0]))
            buf.popleft()

    def flushed(self, proc):
        return not self.bufs.get(proc)

    def get(self, block=True, timeout=None):
        import queue
        s = current().sched
        self.check_open()
        s.yield_('get')
        if not self.pipe and not (block and s.wait_for(lambda: self.pipe, timeout, 'get')):
            raise queue.Empty
        x = self.pipe.popleft()
        self.under_way -= 1
        return pickle.loads(x)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, x):
        return self.put(x, False)

    def empty(self):
        current().sched.yield_('empty')
        return not self.pipe

    def full(self):
        return self.under_way >= self.maxsize

    def qsize(self):
        current().sched.yield_('qsize')
        return self.under_way

    def close(self):
        self.closed.add(current().proc)

    def join_thread(self):
        p = current().proc
        current().sched.wait_for(lambda: self.flushed(p), tag='join-feeder')

    def cancel_join_thread(self):
        pass


def forked(x, memo):
    """The object as the child of a fork sees it."""
    if isinstance(x, types.FunctionType) and x.__closure__:
        cells = tuple(types.CellType(forked(c.cell_contents, memo)) for c in x.__closure__)
        return types.FunctionType(x.__code__, x.__globals__, x.__name__, x.__defaults__, cells)
    if isinstance(x, types.MethodType):
        return types.MethodType(x.__func__, copy.deepcopy(x.__self__, memo))
    return copy.deepcopy(x, memo)


class World(object):
    """What the multiprocessing module offers to one run."""

    def __init__(self, ctx, fail_start=()):
        self.ctx = ctx
        self.procs = []
        self.queues = []
        self.fail_start = set(fail_start)
        self.n = 0
        self.lost = 0             # items that died with their process
        w = self

        class Process(Shared):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
                         daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.daemon, self.task, self.exitcode, self.name = bool(daemon), None, None, name

            def start(self):
                s = current().sched
                assert self.task is None, 'cannot start a process twice'
                w.n += 1
                if w.n in w.fail_start:
                    w.ctx.fault('process-start')
                    raise OSError(errno.EAGAIN, 'Resource temporarily unavailable')
                memo = {}
                fn = forked(self.target, memo)
                args = tuple(forked(a, memo) for a in self.args)
                kw = {k: forked(v, memo) for k, v in self.kwargs.items()}
                self.task = s.spawn(self.body, (fn, args, kw), name='process%d' % w.n, new_proc=True)
                w.procs.append(self)
                s.yield_('fork')

            def run(self):
                self.target(*self.args, **self.kwargs)

            def body(self, fn, args, kw):
                s = current().sched
                p = current().proc
                try:
                    try:
                        fn(*args, **kw)
                        code = 0
                    except Exception as e:
                        # printed by the child; the parent sees its exit code only
                        s.errors.append((self.task.name, e))
                        code = 1
                    for q in w.queues:
                        s.wait_for(lambda: q.flushed(p), tag='flush')
                    self.exitcode = code
                finally:
                    if self.exitcode is None:
                        self.exitcode = -15
                    self.end_feeders(p)

            def end_feeders(self, p):
                for q in w.queues:
                    t = q.feeders.get(p)
                    if q.bufs.get(p):
                        w.lost += len(q.bufs[p])
                        q.bufs[p].clear()
                    if t is not None and not t.done:
                        t.kill = True
                        t.wait = t.deadline = None

            def running(self):
                return self.task is not None and self.exitcode is None and not self.task.done

            def is_alive(self):
                current().sched.yield_('is-alive')
                return self.running()

            def terminate(self):
                current().sched.yield_('terminate')
                w.signal(self)

            kill = terminate

            def join(self, timeout=None):
                assert self.task is not None, 'can only join a started process'
                current().sched.wait_for(lambda: not self.running(), timeout, 'join')

            def close(self):
                pass

            @property
            def pid(self):
                return self.task and 1000 + self.task.proc
        self.Process = Process

    def signal(self, proc):
        t = proc.task
        if not proc.running():
            return
        t.kill = True
        t.wait = t.deadline = None

    def queue(self, maxsize=0):
        q = Queue(maxsize)
        self.queues.append(q)
        return q

    def alive(self):
        return [p for p in self.procs if p.running()]

    def patch(self, p, seed):
        import multiprocessing
        r = np.random.RandomState(seed)
        real = np.random.seed

        def reseed(x=None):
            # the operating system's entropy is drawn from the run
            real(r.randint(0, 2 ** 31 - 1) if x is None else x)
        p.set(multiprocessing, 'Process', self.Process)
        p.set(multiprocessing, 'Queue', self.queue)
        p.set(multiprocessing, 'Event', Event)
        p.set(np.random, 'seed', reseed)
        p.imported()
