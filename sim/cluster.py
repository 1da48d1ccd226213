"""Simulated job cluster: part-jobs as processes that start, crash, fail, are retried and
interleave at every system call, all drawn from one seed.

A process is a scheduler task with its own simulated disk view, its own numpy global random
state and its own sys.argv.  Its body runs real code of the repository (a function or a
command-line script).  A killed process loses its buffers; files keep what reached write(2).
"""
import gc
import random
import sys

import numpy as np

from . import disk as _disk
from .core import SimCrash, Violation, in_repo, where_in_repo
from .disk import Disk
from .sched import Sched, SimKilled, current


class Outcome(object):
    def __init__(self, kind, exc=None, n_mut=0, n_read=0, nbytes=0, failed=()):
        self.kind = kind           # 'ok', 'crashed', 'failed'
        self.exc = repr(exc)[:300] if exc is not None else None
        self.where = where_in_repo(exc) if exc is not None else None
        self.in_repo = in_repo(exc) if exc is not None else False
        self.n_mut, self.n_read, self.nbytes = n_mut, n_read, nbytes
        self.failed = list(failed)


def process(ctx, io, faults, body):
    """One process life under its own disk."""
    d = Disk(ctx, ctx.root, io, faults)
    kind, exc = 'ok', None
    try:
        with d:
            try:
                body()
                gc.collect()          # a normal exit flushes what is still open
                if d.crashed:
                    raise SimCrash()
            except (SimCrash, SimKilled):
                raise
            except Violation:
                raise
            except SystemExit as e:
                if e.code not in (None, 0):
                    kind, exc = 'failed', e
            except Exception as e:
                kind, exc = 'failed', e
            if d.crashed:
                kind = 'crashed'
    except SimCrash:
        kind = 'crashed'
    return Outcome(kind, exc, d.n_mut, d.n_read, d.bytes_written, d.failed)


class Cluster(object):
    """run(jobs): every job is retried until it succeeds; faults name (job, attempt)."""

    def __init__(self, ctx, plan, max_attempts=5):
        self.ctx = ctx
        self.io = plan['io']
        self.faults = plan['faults']
        self.slots = plan.get('slots', 1)
        self.cfg = plan.get('sched')
        self.max_attempts = max_attempts
        self.seed = self.io.get('seed', 0)
        self.history = []

    def contexts(self):
        def get_active():
            return _disk._active

        def set_active(v):
            _disk._active = v
        return [('disk', get_active, set_active, lambda: None),
                ('nprandom', np.random.get_state, np.random.set_state, self._fresh_np),
                ('random', random.getstate, random.setstate, self._fresh_py),
                ('argv', lambda: sys.argv, lambda v: setattr(sys, 'argv', v), lambda: ['job'])]

    def _fresh_np(self):
        self.seed += 1
        return np.random.RandomState(self.seed % 2 ** 31).get_state()

    def _fresh_py(self):
        self.seed += 1
        return random.Random(self.seed).getstate()

    def attempt(self, name, k, body):
        fl = [f for f in self.faults if f['job'] == name and f.get('attempt', 0) == k]
        io = dict(self.io)
        io['seed'] = '%s/%s/%d' % (io.get('seed', 0), name, k)
        o = process(self.ctx, io, fl, body)
        self.ctx.ev('job', name, k, o.kind, o.exc)
        if o.kind != 'ok':
            self.ctx.probe('job-' + o.kind)
        self.history.append((name, k, o))
        return o

    def drive(self, name, body):
        for k in range(self.max_attempts):
            o = self.attempt(name, k, body)
            if o.kind == 'ok':
                if k:
                    self.ctx.probe('job-retried')
                return o
            if o.kind == 'failed' and not o.failed:
                raise Violation('job-failed', 'job %s fails without a fault: %s at %s' % (
                    name, o.exc, o.where))
        raise Violation('job-failed', 'job %s never succeeds: %s' % (name, o.exc))

    def run(self, jobs):
        """jobs: list of (name, body).  At most self.slots of them are alive at a time."""
        jobs = list(jobs)
        bad = []

        def slot():
            while jobs and not bad:
                name, body = jobs.pop(0)

                def one():
                    try:
                        self.drive(name, body)
                    except Violation as v:
                        bad.append(v)
                t = current().sched.spawn(one, name=name, new_proc=True)
                current().sched.wait_for(lambda: t.done, tag='slot')
                if t.exc is not None:
                    raise t.exc

        if self.slots <= 1 or self.cfg is None:
            for name, body in jobs:
                np.random.set_state(self._fresh_np())
                self.drive(name, body)
            return
        s = Sched(self.ctx, self.cfg, contexts=self.contexts(), max_steps=400000)

        def main():
            ts = [s.spawn(slot, name='slot%d' % i) for i in range(self.slots)]
            s.wait_for(lambda: all(t.done for t in ts), tag='cluster')
            for t in ts:
                if t.exc is not None:
                    raise t.exc
        s.run(main)
        if bad:
            raise bad[0]
