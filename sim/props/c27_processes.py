"""C27: the generator queue with process workers: forked copies of the source, a bounded queue
between processes, ends, failures, stops from either side, workers that cannot be started and
workers that the system kills."""
import copy
import importlib

import numpy as np

from sim import mproc, sched
from sim.core import Violation, attempt, check
from sim.sched import Sched, _Patches, current, yield_point

RUNS = {'quick': 2500, 'thorough': 80000}
LISTS = ('switches', 'sessions', 'fail_start')
STATE_RULE = 'order of produced, delivered, start, stop and kill events of the history'
MUST_REACH = ['end:take', 'end:drain', 'end:idle', 'end:thread', 'drained', 'restarted',
              'many-workers', 'source-failed', 'source-finished', 'queue-full', 'none-item',
              'fault:process-start', 'fault:stall', 'fault:worker-killed', 'seeded', 'unseeded',
              'survivors-drained', 'slot-lost']
REAL = ['hyperion.utils.queues.GeneratorQueue and its copy in hyperion.io.queues, process mode']
STUB = ['multiprocessing: processes, queues and events (fork semantics, feeder buffers, bounded '
        'slots)', 'scheduler and clock', 'the entropy of the operating system', 'the data source']
ASSUMPTIONS = ['fork start method', 'messages between processes are written whole', 'one consumer '
               'at a time', 'when a killed worker takes a slot of the bounded queue with it, only '
               'safety and the stop are asked for']
TIME_NOTE = 'virtual seconds of the scheduler clock'
FILES = ['hyperion/utils/queues.py', 'hyperion/io/queues.py']


def setup():
    import hyperion.utils.queues  # noqa: F401
    import hyperion.io.queues  # noqa: F401
    sched.warm()


def gen(rng, tier):
    kind = rng.choice(['inf', 'inf', 'finite', 'finite', 'fail'])
    ss = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        end = rng.choice(['take', 'take', 'idle', 'thread'] + ['drain'] * 3 * (kind != 'inf'))
        ss.append({'end': end, 'workers': rng.choice([1, 1, 2, 3, 4]), 'limit': rng.choice([1, 2, 3, 10]),
                   'k': rng.choice([0, 1, 3, 8, 15]), 'pause': rng.choice([0, 0, 0.01, 0.15]),
                   'wait': rng.choice([0.01, 0.2, 0.5]), 'kills': []})
        if rng.random() < 0.2:
            ss[-1]['kills'] = [[rng.randint(0, 3), rng.choice([0, 3, 20, 80, 200])]
                               for _ in range(rng.choice([1, 1, 2]))]
    return {'faults': [], 'mod': rng.choice(['hyperion.utils.queues', 'hyperion.io.queues']),
            'kind': kind, 'n': rng.choice([0, 1, 4, 9]), 'sessions': ss,
            'delay': rng.choice([0, 0, 0.002, 0.1, 0.6]), 'none': rng.random() < 0.15,
            'inner': rng.choice([0, 0, 2]), 'wait_time': rng.choice([0.05, 0.05, 0.02, 1.0]),
            'seed': rng.choice([None, 0, rng.randint(1, 10 ** 6)]), 'entropy': rng.randint(0, 10 ** 6),
            'fail_start': [rng.randint(1, 5)] if rng.random() < 0.12 else [],
            'sched': sched.gen_cfg(rng, horizon=800),
            'switches': None}


class SourceError(Exception):
    pass


class Source(object):
    """Hands out (branch, i, draw).  Every process that gets a copy is a branch of its own."""

    def __init__(self, world, branch=None, nth=None):
        self.world, self.branch, self.nth = world, branch, nth
        self.made = []
        self.i = 0
        self.over = False

    def __deepcopy__(self, memo):
        w = self.world
        s = Source(w, len(w.branches), w.mp.n)
        s.i = self.i
        w.branches.append(s)
        return s

    def __iter__(self):
        return self

    def __next__(self):
        w, s = self.world, current().sched
        check(self.branch is not None, 'wrong-process', 'the starting process takes data itself')
        plan = w.plan
        s.now += 1e-3              # making an item takes time
        for _ in range(plan['inner']):
            yield_point('source')
        if plan['delay'] and self.i % 3 == 2:
            w.ctx.fault('stall')
            s.sleep(plan['delay'])
        if plan['kind'] != 'inf' and self.i >= plan['n']:
            self.over = True
            if plan['kind'] == 'fail':
                w.ctx.probe('source-failed')
                raise SourceError(self.i)
            w.ctx.probe('source-finished')
            raise StopIteration
        i = self.i
        self.i += 1
        x = (self.branch, i, int(np.random.randint(1 << 30)))
        self.made.append(x)
        w.hist.append(('made', self.branch, i))
        if plan['none'] and i % 4 == 1:
            w.ctx.probe('none-item')
            return None
        return x


class World(object):
    def __init__(self, plan, ctx, s, mp):
        self.plan, self.ctx, self.s, self.mp = plan, ctx, s, mp
        self.hist, self.branches, self.viol = [], [], []
        self.src = Source(self)
        self.failed_starts = 0
        self.q = importlib.import_module(plan['mod']).GeneratorQueue(
            self.src, use_multiprocessing=True, wait_time=plan['wait_time'], random_seed=plan['seed'])

    def want(self, b):
        return [x for x in self.branches[b].made if not (self.plan['none'] and x[1] % 4 == 1)]

    def accept(self, x, ses):
        check(isinstance(x, tuple) and len(x) == 3, 'invented-item', lambda: 'the consumer got %r' % (x,))
        b = x[0]
        self.hist.append(('got', b, x[1]))
        check(ses['first'] <= b < len(self.branches), 'invented-item', lambda: 'item %r comes from a '
              'worker of another session' % (x,))
        got = ses['got'].setdefault(b, [])
        got.append(x)
        w = self.want(b)[:len(got)]
        check(got == w, 'order-or-loss', lambda: 'worker %d made %s, the consumer got %s of it' % (
            b, w[-4:], got[-4:]))
        n = sum(len(self.want(k)) for k in range(ses['first'], len(self.branches)))
        held = n - sum(len(g) for g in ses['got'].values())
        if not self.plan['none']:
            check(held <= ses['limit'] + ses['workers'], 'queue-too-long', lambda: '%d items wait or are '
                  'held, limit %d with %d workers' % (held, ses['limit'], ses['workers']))
            if held >= ses['limit']:
                self.ctx.probe('queue-full')

    def take(self, it, ses, k):
        n = 0
        while k is None or n < k:
            try:
                x = next(it)
            except StopIteration:
                ses['ended'] = True
                return
            self.accept(x, ses)
            n += 1
            if ses['pause']:
                self.s.sleep(ses['pause'])

    def killer(self, ses, who, n):
        """The system kills a worker."""
        for _ in range(n):
            yield_point('killer')
        b = ses['p0'] + who % ses['workers']
        if b < len(self.mp.procs) and self.mp.procs[b].running():
            self.mp.signal(self.mp.procs[b])
            self.ctx.fault('worker-killed')
            self.hist.append(('killed', b))
            ses['killed'] = True

    def session(self, ses):
        plan, ctx, q, s = self.plan, self.ctx, self.q, self.s
        ses.update(got={}, first=len(self.branches), ended=False, p0=len(self.mp.procs), killed=False)
        self.mp.lost = 0
        self.hist.append(('start', ses['workers'], ses['limit']))
        n0 = self.mp.n
        _, e = attempt(q.start, workers=ses['workers'], max_queue_size=ses['limit'])
        if e is not None:
            check(any(n0 < f <= self.mp.n for f in self.mp.fail_start), 'unexpected-exception',
                  lambda: 'start raises %r' % e)
            self.failed_starts += 1
            self.hist.append(('start-failed',))
            self.stopped('a start that failed', ses)
            return
        check(self.mp.n == n0 + ses['workers'], 'wrong-workers', lambda: 'start(%d) makes %d processes' % (
            ses['workers'], self.mp.n - n0))
        if ses['workers'] > 1:
            ctx.probe('many-workers')
        end = ses['end']
        ctx.probe('end:' + end)
        for who, n in ses['kills']:
            s.spawn(self.killer, (ses, who, n), name='killer', new_proc=True)
        if end == 'idle':
            s.sleep(ses['wait'])
        elif end == 'thread' or ses['kills']:
            self.background(ses)
        else:
            self.take(q.get(), ses, None if end == 'drain' else ses['k'])
        if self.viol:
            raise self.viol[0]
        self.ended(ses)
        if end != 'thread':
            self.stop(ses)

    def ended(self, ses):
        """The consumer saw the end of the data, or has enough."""
        if not ses['ended'] or ses.get('stopped'):
            return
        mine = range(ses['first'], len(self.branches))
        kind = self.plan['kind']
        dead = [b for b in mine if not self.branches[b].over]
        if kind == 'fail' and any(self.branches[b].over for b in mine):
            return
        check(not dead or ses['killed'], 'ended-early', lambda: 'the consumer saw the end, the workers '
              '%s have more data' % dead)
        for b in mine:
            if b in dead:
                continue
            got = ses['got'].get(b, [])
            if ses['killed'] and self.killed_late(b):
                continue
            check(got == self.want(b), 'item-lost', lambda: 'worker %d made %d items, the consumer got %d '
                  'before the end' % (b, len(self.want(b)), len(got)))
        self.ctx.probe('survivors-drained' if ses['killed'] else 'drained')

    def killed_late(self, b):
        return ('killed', b) in self.hist or any(
            p.exitcode != 0 for p in self.mp.procs[self.branch_proc(b):self.branch_proc(b) + 1])

    def branch_proc(self, b):
        """Index of the process of a branch: both count the starts that succeeded, a branch also the
        last failed ones."""
        nth = self.branches[b].nth
        return nth - 1 - sum(1 for f in self.mp.fail_start if f < nth)

    def background(self, ses):
        """The consumer is a thread of its own; the starting thread stops the queue."""
        s, box = self.s, {}
        stops = ses['end'] == 'thread'

        def body():
            try:
                self.take(self.q.get(), ses, None if ses['end'] in ('drain', 'thread') else ses['k'])
            except Violation as v:
                self.viol.append(v)
            except Exception as e:
                box['e'] = e
        t = s.spawn(body, name='consumer')
        big = 60 + 40 * (self.plan['wait_time'] + self.plan['delay'] + ses['pause'])
        if stops:
            s.sleep(ses['wait'])
        else:
            s.wait_for(lambda: t.done, timeout=big, tag='consumer')
        if self.viol:
            raise self.viol[0]
        if t.done and 'e' in box:
            raise Violation('consumer-error', 'the consumer gets %r' % box['e'])
        if not stops:
            if not t.done:
                check(self.mp.lost > 0, 'consumer-waits', lambda: 'after a worker was killed the consumer '
                      'waits for ever: ' + s.describe())
                self.ctx.probe('slot-lost')
            else:
                return
        ses['stopped'] = not t.done
        self.q.stop()
        self.hist.append(('stop',))
        ok = s.wait_for(lambda: t.done, timeout=big * 10, tag='consumer')
        check(ok, 'consumer-waits', lambda: 'the consumer is still waiting after stop(): ' + s.describe())
        if self.viol:
            raise self.viol[0]
        if 'e' in box:
            raise Violation('consumer-error', 'the consumer of a stopped queue gets %r' % box['e'])
        self.stopped('stop() with a consumer', ses)

    def stop(self, ses):
        self.q.stop()
        self.hist.append(('stop',))
        self.stopped('stop()', ses)
        if self.hist.count(('stop',)) % 2:
            self.q.stop()
            self.stopped('a second stop()', ses)

    def stopped(self, what, ses):
        ok = self.s.wait_for(lambda: not self.mp.alive(), timeout=30, tag='stopped')
        check(ok, 'worker-survives', lambda: 'after %s %d workers are alive' % (what, len(self.mp.alive())))
        check(not self.q.is_running(), 'still-running', lambda: 'is_running() after ' + what)
        x = list(self.q.get())
        check(x == [], 'item-after-stop', lambda: '%r is delivered after %s' % (x, what))
        self.draws(ses)

    def draws(self, ses):
        """Every worker has its own random state, given by the seed of the queue."""
        mine = [b for b in self.branches[ses['first']:] if b.made]
        seed = self.plan['seed']
        if seed is not None and not self.failed_starts:
            for b in mine:
                r = np.random.RandomState(seed + b.nth - 1)
                w = [int(r.randint(1 << 30)) for _ in b.made]
                check([x[2] for x in b.made] == w, 'wrong-seed', lambda: 'worker %d of a queue with seed '
                      '%d draws other numbers than its seed gives' % (b.nth, seed))
                self.ctx.probe('seeded')
        for a in range(len(mine)):
            for c in range(a):
                n = min(len(mine[a].made), len(mine[c].made))
                if n:
                    self.ctx.probe('unseeded' if seed is None else 'seeded')
                    check([x[2] for x in mine[a].made[:n]] != [x[2] for x in mine[c].made[:n]],
                          'same-random-state', 'two workers draw the same random numbers')

    def run(self):
        for n, ses in enumerate(self.plan['sessions']):
            if n:
                self.ctx.probe('restarted')
            self.session(ses)
            if self.viol:
                raise self.viol[0]


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
              max_steps=400000, contexts=mproc.contexts())
    mp = mproc.World(ctx, plan['fail_start'])
    w = None

    def main():
        nonlocal w
        w = World(plan, ctx, s, mp)
        w.run()
    p = _Patches()
    mp.patch(p, plan['entropy'])
    try:
        s.run(main)
    finally:
        p.undo()
        if w is not None and w.viol:
            raise w.viol[0]
    for name, e in s.errors:
        # a worker may only die of its source
        if isinstance(e, Violation):
            raise e
        if not isinstance(e, (SourceError, StopIteration)):
            raise Violation('worker-error', '%s: %r' % (name, e))
    ctx.state(tuple(w.hist))


def shrink(plan):
    for k, v in (('inner', 0), ('delay', 0), ('none', False), ('n', 1)):
        if plan[k] not in (v, False):
            yield dict(plan, **{k: v})
    for i, ses in enumerate(plan['sessions']):
        for k, v in (('workers', 1), ('workers', 2), ('pause', 0), ('k', 1), ('limit', 1)):
            if ses[k] > v:
                q = copy.deepcopy(plan)
                q['sessions'][i][k] = v
                yield q
        if ses['kills']:
            q = copy.deepcopy(plan)
            q['sessions'][i]['kills'] = ses['kills'][1:]
            yield q
