"""C10: the generator queue with its real worker threads under seeded schedules: sources that
pause, end or fail, consumers of any speed, stops from either side, thread starts that fail."""
import copy
import importlib

from sim import sched
from sim.core import Violation, attempt, check
from sim.sched import Sched, current, yield_point

RUNS = {'quick': 2500, 'thorough': 80000}
LISTS = ('switches', 'sessions', 'fail_start')
STATE_RULE = 'order of produced, delivered, start and stop events of the history'
MUST_REACH = ['end:take', 'end:drain', 'drained', 'end:idle', 'end:thread', 'end:flush', 'end:timeout',
              'restarted', 'many-workers', 'source-failed', 'source-finished', 'queue-full',
              'fault:thread-start', 'fault:stall', 'stop-did-not-wait', 'none-item']
REAL = ['hyperion.utils.queues.GeneratorQueue and its copy in hyperion.io.queues',
        'ThreadSafeIter', 'threading and queue of the standard library over simulated locks']
STUB = ['thread scheduler, locks and clock', 'the data source']
ASSUMPTIONS = ['one consumer at a time', 'a source used by several workers is safe for threads',
               'thread workers (process workers are C27)']
TIME_NOTE = 'virtual seconds of the scheduler clock'

FILES = ['hyperion/utils/queues.py', 'hyperion/io/queues.py', 'hyperion/utils/multithreading.py']


def setup():
    import hyperion.utils.queues  # noqa: F401
    import hyperion.io.queues  # noqa: F401
    import hyperion.utils.multithreading  # noqa: F401
    sched.warm()


def gen(rng, tier):
    kind = rng.choice(['inf', 'inf', 'inf', 'finite', 'fail'])
    ss = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        end = rng.choice(['take', 'take', 'idle', 'thread', 'flush', 'timeout'] +
                         (['drain'] * 3 if kind != 'inf' else []))
        ss.append({'end': end, 'workers': rng.choice([1, 1, 2, 3, 5]), 'limit': rng.choice([1, 2, 3, 10]),
                   'k': rng.choice([0, 1, 3, 8, 15]), 'pause': rng.choice([0, 0, 0.01, 0.15]),
                   'wait': rng.choice([0.01, 0.2, 0.5]), 'timeout': rng.choice([0.001, 0.05, 0.5])})
    return {'faults': [], 'mod': rng.choice(['hyperion.utils.queues', 'hyperion.io.queues']),
            'kind': kind, 'n': rng.choice([0, 1, 4, 12, 30]), 'sessions': ss,
            'delay': rng.choice([0, 0, 0.002, 0.1, 0.6]), 'none': rng.random() < 0.15,
            'inner': rng.choice([0, 0, 2]), 'wait_time': rng.choice([0.05, 0.05, 0.02, 1.0]),
            'fail_start': [rng.randint(1, 5)] if rng.random() < 0.12 else [],
            'opcode': rng.random() < 0.25, 'sched': sched.gen_cfg(rng, horizon=800),
            'switches': None}


class SourceError(Exception):
    pass


class Source(object):
    """Hands out ('item', i); pauses at a gate on request."""

    def __init__(self, plan, ctx, hist):
        self.plan, self.ctx, self.hist = plan, ctx, hist
        self.i = 0
        self.open = True
        self.produced = []
        self.waiting = 0

    def __iter__(self):
        return self

    def __next__(self):
        s = current().sched
        if not self.open:
            self.waiting += 1
            s.wait_for(lambda: self.open, tag='gate')
            self.waiting -= 1
        for _ in range(self.plan['inner']):
            yield_point('source')
        if self.plan['delay'] and self.i % 3 == 2:
            self.ctx.fault('stall')
            s.sleep(self.plan['delay'])
        i = self.i
        if self.plan['kind'] != 'inf' and i >= self.plan['n']:
            if self.plan['kind'] == 'fail':
                self.ctx.probe('source-failed')
                raise SourceError(i)
            self.ctx.probe('source-finished')
            raise StopIteration
        self.i = i + 1
        self.produced.append(i)
        self.hist.append(('made', i))
        if self.plan['none'] and i % 4 == 1:
            self.ctx.probe('none-item')
            return None
        return ('item', i)


class World(object):
    def __init__(self, plan, ctx, s):
        from hyperion.utils.multithreading import ThreadSafeIter
        self.plan, self.ctx, self.s = plan, ctx, s
        self.hist = []
        self.src = Source(plan, ctx, self.hist)
        multi = any(x['workers'] > 1 or x['end'] == 'timeout' for x in plan['sessions'])
        self.q = importlib.import_module(plan['mod']).GeneratorQueue(
            ThreadSafeIter(self.src) if multi else self.src, wait_time=plan['wait_time'])
        self.delivered = []          # over all sessions
        self.viol = []

    def skipped(self, i):
        return self.plan['none'] and i % 4 == 1

    def workers(self):
        return [t for t in self.s.alive() if t.name not in ('main', 'consumer')]

    def sleep(self, t):
        self.s.sleep(t)

    # ---- one session ------------------------------------------------------
    def accept(self, x, ses):
        """One item reached the consumer."""
        check(isinstance(x, tuple) and len(x) == 2 and x[0] == 'item', 'invented-item',
              lambda: 'the consumer got %r' % (x,))
        i = x[1]
        self.hist.append(('got', i))
        check(i in self.src.produced, 'invented-item', lambda: 'item %d was never produced' % i)
        check(i not in self.delivered, 'item-repeated', lambda: 'item %d was delivered before' % i)
        self.delivered.append(i)
        ses['got'].append(i)
        if ses['workers'] == 1 and ses['old']:
            check(ses['got'] == sorted(ses['got']), 'order-or-loss', lambda: 'one worker: consumer '
                  'got %s' % ses['got'])
        elif ses['workers'] == 1:
            mine = [j for j in self.src.produced[ses['first']:] if not self.skipped(j)]
            check(ses['got'] == mine[:len(ses['got'])], 'order-or-loss', lambda: 'one worker: source '
                  'gave %s, consumer got %s' % (mine[:12], ses['got'][:12]))
        if not self.plan['none']:
            held = len(self.src.produced) - ses['first'] - len(ses['got'])
            check(held <= ses['limit'] + ses['workers'] + ses['old'], 'queue-too-long', lambda: '%d items are '
                  'waiting or held, limit %d with %d workers' % (held, ses['limit'], ses['workers']))

    def take(self, it, ses, k):
        """Up to k items (None: to the end).  Returns True when the consumer saw the end."""
        n = 0
        while k is None or n < k:
            try:
                x = next(it)
            except StopIteration:
                ses['ended'] = True
                return True
            self.accept(x, ses)
            n += 1
            if ses['pause']:
                self.sleep(ses['pause'])
        return False

    def session(self, ses):
        plan, ctx, q, s, src = self.plan, self.ctx, self.q, self.s, self.src
        # workers that an earlier stop did not wait for may still take one item each
        ses['old'] = len(self.workers())
        ses.update(got=[], first=len(src.produced), ended=False)
        self.hist.append(('start', ses['workers'], ses['limit']))
        nt = s.n_thread
        _, e = attempt(q.start, workers=ses['workers'], max_queue_size=ses['limit'])
        if e is not None:
            check(any(nt < f <= s.n_thread for f in s.fail_threads), 'unexpected-exception',
                  lambda: 'start raises %r' % e)
            self.hist.append(('start-failed',))
            self.stopped('a start that failed')
            return
        check(nt + ses['workers'] == s.n_thread, 'wrong-workers', lambda: 'start(%d) makes %d threads' % (
            ses['workers'], s.n_thread - nt))
        if ses['workers'] > 1:
            ctx.probe('many-workers')
        end = ses['end']
        ctx.probe('end:' + end)
        if end in ('take', 'timeout'):
            self.take(q.get(), ses, ses['k'])
        elif end == 'drain':
            self.take(q.get(), ses, None)
            if plan['kind'] == 'finite' and not ses['old']:
                ctx.probe('drained')
                want = [i for i in src.produced[ses['first']:] if not self.skipped(i)]
                check(self.source_over() and sorted(ses['got']) == want, 'item-lost', lambda: 'the '
                      'source ended after %s of %d items, the consumer got %s before the end' % (
                          want[:12], plan['n'], sorted(ses['got'])[:12]))
        elif end == 'idle':
            self.sleep(ses['wait'])
        elif end == 'thread':
            self.background(ses, lambda c: self.sleep(ses['wait']))
            return
        elif end == 'flush':
            self.background(ses, lambda c: self.flush(ses))
            return
        if not plan['none'] and len(src.produced) - ses['first'] - len(ses['got']) >= ses['limit']:
            ctx.probe('queue-full')
        if end == 'timeout':
            r0 = len(self.workers())
            q.stop(ses['timeout'])
            self.hist.append(('stop-timeout',))
            if self.workers():
                ctx.probe('stop-did-not-wait')
                ses['late'] = True
            check(not q.is_running(), 'still-running', 'is_running() after stop')
            return
        self.stop(ses)

    def source_over(self):
        return self.plan['kind'] != 'inf' and len(self.src.produced) >= self.plan['n']

    def stop(self, ses):
        if ses['ended']:
            check(self.source_over() or ses.get('stopped'), 'ended-early', lambda: 'the consumer saw the '
                  'end, but the source goes on after %d items' % len(self.src.produced))
        self.q.stop()
        self.hist.append(('stop',))
        self.stopped('stop()')
        if self.hist.count(('stop',)) % 2:
            self.q.stop()             # stopping a stopped queue is harmless
            self.stopped('a second stop()')

    def stopped(self, what):
        late = [x for x in self.plan['sessions'] if x.get('late')]
        if not late:
            w = self.workers()
            check(not w, 'worker-survives', lambda: 'after %s %d workers are alive' % (what, len(w)))
        check(not self.q.is_running(), 'still-running', lambda: 'is_running() after ' + what)
        q = getattr(self.q, 'queue', None)
        check(q is None or q.qsize() == 0, 'not-empty', lambda: 'the queue holds items after ' + what)
        # a consumer of a stopped queue sees the end at once
        t0 = self.s.now
        x = list(self.q.get())
        check(x == [], 'item-after-stop', lambda: '%r is delivered after %s' % (x, what))

    def background(self, ses, while_running):
        """The consumer is another thread; the starting thread stops the queue."""
        s = self.s
        box = {}

        def body():
            try:
                self.take(self.q.get(), ses, None)
            except Violation as v:
                self.viol.append(v)
            except Exception as e:
                box['e'] = e
        t = s.spawn(body, name='consumer')
        while_running(t)
        ses['stopped'] = True
        over = self.source_over()
        if t.done and ses['ended'] and not over:
            raise Violation('ended-early', 'the consumer saw the end of an endless source')
        self.q.stop()
        self.hist.append(('stop',))
        ok = s.wait_for(lambda: t.done, timeout=1e4 + 100 * (ses['pause'] + self.plan['wait_time']))
        check(ok, 'consumer-waits', lambda: 'the consumer is still waiting after stop(): ' + s.describe())
        if 'e' in box:
            raise Violation('consumer-error', 'the consumer of a stopped queue gets %r' % box['e'])
        self.stopped('stop() with a consumer')

    def flush(self, ses):
        """Every item that waits while the queue runs is delivered: the source pauses and the
        consumer must catch up."""
        s, src = self.s, self.src
        self.sleep(ses['wait'])
        src.open = False

        def settled():
            return not s.alive() or src.waiting == ses['workers'] or not self.q.is_running()
        t = self.plan['wait_time'] * 40 + 40 * self.plan['delay'] + 10 + 60 * ses['pause']
        s.wait_for(settled, timeout=t, tag='flush')
        if src.waiting == ses['workers']:
            def want():
                return {i for i in src.produced[ses['first']:] if not self.skipped(i)}
            ok = s.wait_for(lambda: set(ses['got']) == want(), timeout=t, tag='flush')
            if self.q.is_running() and not ses['old']:
                check(ok, 'item-lost', lambda: 'waiting items were never delivered: %s' % sorted(
                    want() - set(ses['got']))[:10])
                self.ctx.probe('flushed')
        src.open = True

    def run(self):
        for n, ses in enumerate(self.plan['sessions']):
            if n:
                self.ctx.probe('restarted')
            self.session(ses)
            if self.viol:
                raise self.viol[0]
            if ses.get('late'):
                # workers that stop() did not wait for end on their own
                if n % 2 == 0:
                    self.late(ses)
        for ses in self.plan['sessions']:
            if ses.get('late'):
                self.late(ses)

    def late(self, ses):
        ok = self.s.wait_for(lambda: not self.workers(), timeout=1e4, tag='late')
        check(ok, 'worker-survives', lambda: 'workers never end after a stop that did not wait: ' +
              self.s.describe())
        for x in self.plan['sessions']:
            x.pop('late', None)


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
              opcode=plan['opcode'], max_steps=500000)
    s.fail_threads = set(plan['fail_start'])
    w = None

    def main():
        nonlocal w
        w = World(plan, ctx, s)
        w.run()
    try:
        s.run(main)
    finally:
        if w is not None and w.viol:
            raise w.viol[0]
    for name, e in s.errors:
        # a worker may only die of its source
        if not isinstance(e, (SourceError, StopIteration, Violation)):
            raise Violation('worker-error', '%s: %r' % (name, e))
    ctx.state(tuple(w.hist))


def shrink(plan):
    for k, v in (('inner', 0), ('delay', 0), ('none', False), ('n', 1)):
        if plan[k] not in (v, False):
            yield dict(plan, **{k: v})
    for i, ses in enumerate(plan['sessions']):
        for k, v in (('workers', 1), ('workers', 2), ('pause', 0), ('k', 1), ('limit', 1)):
            if ses[k] > v:
                q = copy.deepcopy(plan)
                q['sessions'][i][k] = v
                yield q
