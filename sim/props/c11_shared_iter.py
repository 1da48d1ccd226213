"""C11: threads that draw from one ThreadSafeIter under seeded schedules, with sources that
pause, fail and end; exactly-once, order and exclusion are checked over the history."""
import copy
import random

from sim import sched
from sim.core import Violation, check
from sim.sched import Sched, current, yield_point

RUNS = {'quick': 4000, 'thorough': 150000}
LISTS = ('switches', 'threads', 'bad')
STATE_RULE = 'sequence of (thread, item or error) in the history'
MUST_REACH = ['contended', 'source-error', 'generator', 'iterator', 'end-seen', 'fault:stall']
REAL = ['hyperion.utils.multithreading', 'threading.Thread over simulated locks']
STUB = ['thread scheduler, locks and clock']
ASSUMPTIONS = ['preemption happens between bytecodes, at lock operations and inside the source']
TIME_NOTE = 'virtual seconds of the scheduler clock'


def setup():
    import hyperion.utils.multithreading  # noqa: F401
    import hyperion.utils  # noqa: F401
    sched.warm()


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 5, 9, 20])
    kind = rng.choice(['gen', 'iter', 'iter'])
    return {'faults': [], 'kind': kind, 'n': n, 'opcode': rng.random() < 0.5,
            'sched': sched.gen_cfg(rng, horizon=300), 'switches': None,
            'threads': [[rng.choice(['next', 'for', 'list', 'dflt']), rng.choice([0, 0, 0.01])]
                        for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))],
            'bad': sorted(rng.sample(range(n), min(n, rng.choice([0, 0, 1, 2])))),
            'inner': rng.choice([0, 1, 3]), 'stall': rng.choice([0, 0, 0.005, 1.0]),
            'none': rng.random() < 0.2}


class Boom(Exception):
    pass


class Source(object):
    def __init__(self, plan, ctx, hist):
        self.plan, self.ctx, self.hist = plan, ctx, hist
        self.i = 0
        self.inside = None

    def __iter__(self):
        return self

    def __next__(self):
        me = current().id
        if self.inside is not None and self.inside != me:
            raise Violation('not-exclusive', 'threads %s and %s are inside the iterator at once' % (
                self.inside, me))
        self.inside = me
        try:
            i = self.i
            for _ in range(self.plan['inner']):
                yield_point('inside')
            if self.plan['stall'] and i % 3 == 1:
                self.ctx.fault('stall')
                current().sched.sleep(self.plan['stall'])
            self.i = i + 1
            if i in self.plan['bad']:
                self.ctx.probe('source-error')
                self.hist.append((me, 'raise', i))
                raise Boom(i)
            if i >= self.plan['n']:
                raise StopIteration
            self.hist.append((me, 'give', i))
            return None if self.plan['none'] and i % 4 == 2 else ('item', i)
        finally:
            self.inside = None


def run(plan, ctx):
    from hyperion.utils.multithreading import ThreadSafeIter, threadsafe_generator
    cfg = dict(plan['sched'], switches=plan['switches'])
    s = Sched(ctx, cfg, trace_files=['hyperion/utils/multithreading.py'], opcode=plan['opcode'])
    hist = []
    src = Source(plan, ctx, hist)
    got, ends, viol = {}, {}, []

    def draw(k, how, pause, it):
        mine = got.setdefault(k, [])

        def take(x):
            mine.append(x)
            if pause:
                s.sleep(pause)

        def body():
            while True:
                try:
                    if how == 'for':
                        for x in it:
                            take(x)
                    elif how == 'list':
                        for x in list(it) if not plan['bad'] else it:
                            take(x)
                    elif how == 'dflt':
                        end = object()
                        while True:
                            x = next(it, end)
                            if x is end:
                                break
                            take(x)
                    else:
                        try:
                            while True:
                                take(next(it))
                        except StopIteration:
                            pass
                    ends[k] = ends.get(k, 0) + 1
                    return
                except Boom as e:
                    take(e)
        try:
            body()
        except Violation as v:
            viol.append(v)

    def main():
        if plan['kind'] == 'gen':
            ctx.probe('generator')

            @threadsafe_generator
            def g(a, b=1):
                for x in src:
                    yield x
            it = g(0, b=2)
        else:
            ctx.probe('iterator')
            it = ThreadSafeIter(src)
        import threading
        ts = [threading.Thread(target=draw, args=(k, h, p, it))
              for k, (h, p) in enumerate(plan['threads'])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    s.run(main)
    if viol:
        raise viol[0]
    for name, e in s.errors:
        raise Violation('unexpected-exception', '%s: %r' % (name, e))
    nt = len(plan['threads'])
    check(ends == {k: 1 for k in range(nt)}, 'end-not-seen', lambda: 'ends seen: %s of %d' % (ends, nt))
    ctx.probe('end-seen')
    if len({h[0] for h in hist}) > 1:
        ctx.probe('contended')
    # exactly once: what the threads hold is what the iterator gave
    given = [i for _, w, i in hist if w == 'give']
    errs = [i for _, w, i in hist if w == 'raise']
    held, held_err, nones = [], [], 0
    for k in range(nt):
        last = -1
        for x in got.get(k, []):
            if x is None:
                nones += 1
                continue
            i = x.args[0] if isinstance(x, Boom) else x[1]
            check(i > last, 'out-of-order', lambda: 'thread %d gets %d after %d' % (k, i, last))
            last = i
            (held_err if isinstance(x, Boom) else held).append(i)
    want = [i for i in given if not (plan['none'] and i % 4 == 2)]
    check(sorted(held) == want, 'not-exactly-once', lambda: 'given %s, held %s' % (want, sorted(held)))
    check(nones == len(given) - len(want), 'not-exactly-once', lambda: '%d of %d None items' % (
        nones, len(given) - len(want)))
    check(sorted(held_err) == errs, 'error-lost', lambda: 'raised %s, seen %s' % (errs, sorted(held_err)))
    if plan['kind'] == 'iter':
        check(len(given) + len(errs) == plan['n'], 'not-exactly-once',
              lambda: 'the iterator was asked for %d of %d' % (len(given) + len(errs), plan['n']))
    ids = sorted({h[0] for h in hist})
    ctx.state(plan['kind'], nt, tuple((ids.index(t), w, i) for t, w, i in hist))


def shrink(plan):
    for n in (1, 2, plan['n'] // 2, plan['n'] - 1):
        if 0 < n < plan['n']:
            yield dict(plan, n=n, bad=[b for b in plan['bad'] if b < n])
    if plan['opcode'] and plan['switches'] is None:
        yield dict(plan, opcode=False)
