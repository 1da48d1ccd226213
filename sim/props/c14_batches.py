"""C14: training batches of the generators, read directly, through reader threads and under read
faults, against a model of which slices, labels, weights and counts a batch and an epoch may have."""
import copy
import gc

from sim import batches as bt, sched, storage as st
from sim.core import Violation, attempt, check
from sim.disk import Disk
from sim.sched import Sched

RUNS = {'quick': 1500, 'thorough': 60000}
LISTS = ('faults', 'recs', 'switches')
STATE_RULE = 'generator, options, record lengths and the keys of the batches'
MUST_REACH = ['v1', 'v2', 'random', 'sequential', 'full_seqs', 'class-balanced', 'pruned', 'part',
              'class-list', 'utt1hot', 'epochs', 'threads', 'fault:eio-read', 'batch-refused',
              'read-after-error', 'script-range', 'fault:sliced-read', 'short-sequence']
REAL = ['SequenceBatchGeneratorV1, SequenceBatchGeneratorV2', 'random access readers and transforms '
        'under them', 'to3D_by_seq', 'Utt2Info', 'threadsafe_generator and GeneratorQueue']
STUB = ['system calls below the buffers', 'thread scheduler, locks and clock']
ASSUMPTIONS = ['options that leave no sequences, no batch in an epoch, or a minimum over the maximum '
               'may be refused', 'equal draws of classes are judged with 6.5 standard deviations']
FILES = ['hyperion/generators/sequence_batch_generator_v1.py',
         'hyperion/generators/sequence_batch_generator_v2.py', 'hyperion/utils/queues.py',
         'hyperion/utils/multithreading.py']
shrink = bt.shrink


def setup():
    import hyperion.generators  # noqa: F401
    import hyperion.transforms  # noqa: F401
    import hyperion.utils.queues  # noqa: F401
    sched.warm()


def gen(rng, tier):
    plan = bt.gen(rng)
    plan.update(faults=[], io=st.gen_io(rng), epochs=rng.choice([1, 2, 2, 3]), cap=rng.choice([20, 60]),
                threads=rng.choice([0, 0, 0, 1, 2, 4]), limit=rng.choice([1, 3, 10]),
                sched=sched.gen_cfg(rng, horizon=500), switches=None)
    return plan


def inject(plan, extra, rng, tier):
    if not extra or plan['threads'] or not extra[1]:
        return
    h5 = plan['fmt'].endswith('h5')
    lo, hi = extra
    for _ in range(2 if tier == 'quick' else 6):
        q = copy.deepcopy(plan)
        for _ in range(rng.choice([1, 1, 2, 4])):
            n = rng.randint(lo + 1, hi) if hi > lo and rng.random() < 0.8 else rng.randint(1, hi)
            q['faults'].append({'kind': 'eio_read', 'n': n, 'times': rng.choice([1, 1, 2, 5])})
        q['isolate'] = h5
        yield q


def on_death(plan, status):
    return None


def probes(plan, ds, ctx):
    o = plan['opts']
    ctx.probe(plan['gen'])
    ctx.probe(o.get('gen_method', 'v2'))
    if o.get('class_weight'):
        ctx.probe('class-balanced')
    if o.get('prune_min_length'):
        ctx.probe('pruned')
    if o.get('num_parts'):
        ctx.probe('part')
    if plan['class_list'] is not None:
        ctx.probe('class-list')
    if o.get('return_utt1hot'):
        ctx.probe('utt1hot')
    if plan['cut_scp'] and plan['fmt'] == 'scp:ark':
        ctx.probe('script-range')
    if ds.ok and any(ds.len[k] < ds.min for k in ds.ok):
        ctx.probe('short-sequence')


def run(plan, ctx):
    ds = bt.DataSet(plan)
    with Disk(ctx, ctx.root, plan['io']):
        ds.write()
        gc.collect()
    probes(plan, ds, ctx)
    ctx.state(plan['gen'], sorted(plan['opts'].items()), plan['fmt'],
              tuple((r['key'], r['len'], r['cls']) for r in plan['recs']))
    if plan['threads']:
        return threads(plan, ctx, ds)
    with Disk(ctx, ctx.root, plan['io'], plan['faults']) as d:
        g, e = attempt(ds.open)
        if e is not None:
            check(d.failed or not ds.valid(), 'unexpected-exception', lambda: 'the generator is refused: %s: %s'
                  % (type(e).__name__, str(e)[:200]))
            return None
        n0 = d.n_read
        steps, _ = attempt(lambda: g.steps_per_epoch)
        if not ds.valid():
            return None
        want = ds.steps()
        check(want is None or want == steps, 'wrong-steps', lambda: '%s batches in an epoch, should be '
              '%s' % (steps, want))
        if want is None and steps == 0:
            return None
        check(steps and steps > 0, 'wrong-steps', lambda: '%s batches in an epoch' % steps)
        check(ds.dup and ds.iters is None or g.num_seqs == ds.total, 'wrong-list',
              lambda: 'a list of %d sequences, should be %d' % (g.num_seqs, ds.total))
        w = bt.Watch(ds, ctx)
        hist = []
        cap = plan['cap']
        if plan['gen'] == 'v2' and not plan['faults']:
            cap *= 3
        lost = False
        for ep in range(plan['epochs']):
            if ep:
                ctx.probe('epochs')
            for i in range(steps):
                if cap <= 0:
                    break
                cap -= 1
                check(g.cur_epoch == ep, 'wrong-steps', lambda: 'epoch %d after %d batches of epoch '
                      '%d of %d batches' % (g.cur_epoch, i, ep, steps)) if not lost else None
                f0 = len(d.failed)
                b, e = attempt(ds.read, g)
                if e is not None:
                    check(len(d.failed) > f0 or (lost and ds.subs), 'unexpected-exception',
                          lambda: 'read raises %s: %s' % (type(e).__name__, str(e)[:200]))
                    ctx.probe('batch-refused')
                    lost = True
                    hist.append('!')
                    continue
                if lost:
                    ctx.probe('read-after-error')
                    got = w.batch(b)
                else:
                    w.next(b)
                    got = [b[0]]
                hist.append(tuple(str(v) for v in b[0]))
            else:
                if not lost:
                    w.end_epoch(steps)
                continue
            break
        if not lost:
            w.end()
        ctx.state(tuple(hist))
        return [n0, d.n_read]


def threads(plan, ctx, ds):
    """The batches go through a queue that several threads fill from one generator."""
    ctx.probe('threads')
    if not ds.valid():
        return None
    s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
              max_steps=600000)
    s.run(lambda: consume(plan, ctx, ds, s))
    for name, e in s.errors:
        raise Violation('worker-error', '%s: %r' % (name, e))


def consume(plan, ctx, ds, s):
    from hyperion.utils.multithreading import threadsafe_generator
    from hyperion.utils.queues import GeneratorQueue
    with Disk(ctx, ctx.root, plan['io']):
        g = ds.open()
        w = bt.Watch(ds, ctx)

        @threadsafe_generator
        def source():
            while True:
                yield ds.read(g)
        steps = g.steps_per_epoch
        if ds.steps() is None and steps == 0:
            return
        q = GeneratorQueue(source())
        q.start(workers=plan['threads'], max_queue_size=plan['limit'])
        it = q.get()
        hist = []
        n = min(plan['cap'], 12)
        for i in range(n):
            b = next(it, None)
            check(b is not None, 'ended-early', 'the queue ends, but the generator goes on')
            if plan['threads'] == 1:
                w.next(b)
                if (i + 1) % steps == 0:
                    w.end_epoch(steps)
            else:
                w.batch(b)
            hist.append(tuple(str(v) for v in b[0]))
        q.stop()
        ctx.state(tuple(hist))
