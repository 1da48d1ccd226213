"""C13: streams of training batches from twin generators that run interleaved with other users of
the random state, behind a queue, and in training jobs that are killed and resumed, compared with
the stream of an undisturbed generator."""
import copy
import gc
import json
import os
import random

import numpy as np

from sim import batches as bt, sched, storage as st
from sim.cluster import Cluster
from sim.core import Violation, attempt, check
from sim.disk import Disk
from sim.sched import Sched, current

RUNS = {'quick': 1200, 'thorough': 50000}
LISTS = ('faults', 'recs', 'switches', 'tasks')
STATE_RULE = 'world, options, data layout and the history of batches, kills and resumptions'
MUST_REACH = ['world:twins', 'world:queue', 'world:resume', 'rogue', 'queried', 'epochs-compared',
              'reset-rng', 'init-epoch', 'job-retried', 'fault:crash', 'fault:eio-read',
              'fault:eio-write', 'v1', 'v2', 'many-workers', 'fault:sliced-read']
REAL = ['SequenceBatchGeneratorV1, SequenceBatchGeneratorV2', 'random access readers and transforms '
        'under them', 'Utt2Info', 'threadsafe_generator and GeneratorQueue']
STUB = ['system calls below the buffers', 'thread and job scheduler, locks and clock',
        'the trainer: a loop that reads batches and records finished epochs']
ASSUMPTIONS = ['a restarted trainer passes the number of finished epochs as init_epoch',
               'epochs are compared only when 12 or more choices of 4 or more values make them']
FILES = ['hyperion/generators/sequence_batch_generator_v1.py',
         'hyperion/generators/sequence_batch_generator_v2.py', 'hyperion/utils/queues.py',
         'hyperion/utils/multithreading.py', 'hyperion/utils/utt2info.py']


def shrink(plan):
    for q in bt.shrink(plan):
        yield q
    for k in ('epochs', 'workers'):
        if plan[k] > 1:
            yield dict(plan, **{k: plan[k] - 1})


def setup():
    import hyperion.generators  # noqa: F401
    import hyperion.transforms  # noqa: F401
    import hyperion.utils.queues  # noqa: F401
    sched.warm()


def gen(rng, tier):
    plan = bt.gen(rng)
    world = rng.choice(['twins', 'twins', 'queue', 'resume'])
    plan.update(world=world, faults=[], io=st.gen_io(rng), epochs=rng.choice([2, 2, 3, 4]),
                cap=rng.choice([12, 30]), workers=rng.choice([1, 1, 2, 4]),
                limit=rng.choice([1, 3, 10]), sched=sched.gen_cfg(rng, horizon=600), switches=None,
                tasks=[], slots=rng.choice([1, 2, 3]))
    n = rng.choice([2, 2, 3]) if world == 'twins' else rng.choice([0, 1])
    for i in range(n):
        plan['tasks'].append({'kind': 'twin' if world == 'twins' else 'rogue',
                              'query': rng.random() < 0.5, 'init': rng.choice([0, 0, 1, 2]),
                              'seed': rng.randint(0, 10 ** 6)})
    if world == 'twins' and rng.random() < 0.7:
        plan['tasks'].append({'kind': 'rogue', 'seed': rng.randint(0, 10 ** 6)})
    return plan


def inject(plan, extra, rng, tier):
    if plan['world'] != 'resume' or not extra:
        return
    for _ in range(3 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, n_mut, n_read = rng.choice(extra)
            kind = rng.choice(['crash', 'crash', 'crash', 'eio_write', 'eio_read'])
            top = n_read if kind == 'eio_read' else n_mut
            if not top:
                continue
            f = {'job': name, 'attempt': rng.choice([0, 0, 0, 1, 2]), 'kind': kind,
                 'n': rng.randint(1, top)}
            if kind == 'crash':
                f['keep'] = rng.choice([0, 0.5, 1])
            if kind == 'eio_read':
                f['times'] = rng.choice([1, 2, 1000])
            q['faults'].append(f)
        if q['faults']:
            q['isolate'] = plan['fmt'].endswith('h5')
            yield q


def on_death(plan, status):
    return None


QUERIES = ['num_seqs', 'seq_lengths', 'total_length', 'min_seq_length', 'max_seq_length',
           'steps_per_epoch', 'num_total_subseqs']


def query(g, r):
    getattr(g, r.choice(QUERIES))


def rogue(seed, stop):
    """Other code that draws from and reseeds the global random states."""
    r = random.Random(seed)
    for _ in range(r.randint(5, 60)):
        if stop():
            return
        np.random.seed(r.randint(0, 5))
        np.random.rand(r.randint(1, 3))
        random.seed(r.randint(0, 5))
        random.random()
        current().sched.sleep(0.001)


class Ref(object):
    """Streams of an undisturbed generator, by epoch."""

    def __init__(self, plan, ctx, ds):
        g, e = attempt(ds.open)
        self.ok = e is None
        if not self.ok:
            check(not ds.valid(), 'unexpected-exception', lambda: 'the generator is refused: %r' % e)
            return
        self.steps, e = attempt(lambda: g.steps_per_epoch)
        if not ds.valid() or not self.steps:
            self.ok = False
            return
        self.n = min(plan['epochs'] * self.steps, plan['cap'])
        self.epochs = -(-self.n // self.steps)
        self.b = []
        self.draws = []
        for i in range(self.n):
            b, e = attempt(ds.read, g)
            check(e is None, 'unexpected-exception', lambda: 'read raises %s: %s' % (
                type(e).__name__, str(e)[:200]))
            self.b.append(bt.canon(b))
        # an epoch restarted with its number gives the same
        o = plan['opts']
        whole = [self.b[i * self.steps:(i + 1) * self.steps] for i in range(self.n // self.steps)]
        if len(whole) > 1:
            if o.get('reset_rng'):
                ctx.probe('reset-rng')
                for i, w in enumerate(whole[1:]):
                    check(w == whole[0], 'not-reproducible', lambda: 'reset_rng: epoch %d differs from '
                          'epoch 0' % (i + 1))
            elif choices(ds, plan) * self.steps * o['batch_size'] >= 12:
                ctx.probe('epochs-compared')
                for i in range(len(whole)):
                    for j in range(i):
                        check(whole[i] != whole[j], 'same-epochs', lambda: 'epochs %d and %d draw '
                              'exactly the same batches' % (j, i))

    def compare(self, i, b, who, kind='not-reproducible'):
        check(bt.canon(b) == self.b[i], kind, lambda: '%s: batch %d of epoch %d is %s, should be %s' % (
            who, i % self.steps, i // self.steps, [str(k) for k in b[0]][:6], self.b[i][0][:6]))


def choices(ds, plan):
    """Random choices of four or more values per sequence of a batch."""
    o = plan['opts']
    m = o.get('gen_method', 'random')
    if m == 'random' or plan['gen'] == 'v2':
        # the first row or the length varies over 4 or more values for every sequence
        return int(all(ds.len[k] - min(ds.len[k], ds.min) >= 3 for k in ds.ok))
    return 0


def run(plan, ctx):
    ctx.probe('world:' + plan['world'])
    ctx.probe(plan['gen'])
    ds = bt.DataSet(plan)
    ds.write()
    gc.collect()
    st0 = np.random.get_state()[1].tolist(), random.getstate()
    ref = Ref(plan, ctx, ds)
    check(st0 == (np.random.get_state()[1].tolist(), random.getstate()), 'global-state',
          'the generator draws from or seeds the global random state')
    if not ref.ok:
        return None
    ctx.state(plan['world'], plan['gen'], sorted(plan['opts'].items()), plan['fmt'], ref.n, ref.steps)
    if plan['world'] == 'resume':
        return resume(plan, ctx, ds, ref)
    s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
              max_steps=900000)
    s.run(lambda: twins(plan, ctx, ds, ref, s) if plan['world'] == 'twins'
          else queue(plan, ctx, ds, ref, s))
    for name, e in s.errors:
        raise e if isinstance(e, Violation) else Violation('worker-error', '%s: %r' % (name, e))


def twins(plan, ctx, ds, ref, s):
    bad = []
    done = []

    def twin(n, t):
        def body():
            try:
                r = random.Random(t['seed'])
                k = t['init'] if t['init'] < ref.epochs else 0
                if k:
                    ctx.probe('init-epoch')
                g = ds.open(init_epoch=k)
                for i in range(k * ref.steps, ref.n):
                    if t.get('query') and r.random() < 0.4:
                        ctx.probe('queried')
                        query(g, r)
                    ref.compare(i, ds.read(g), 'generator %d that started at epoch %d' % (n, k),
                                'not-resumable' if k else 'not-reproducible')
                    ctx.state('b', n, i)
            except Violation as v:
                bad.append(v)
            except Exception as e:
                bad.append(Violation('unexpected-exception', '%s: %s' % (type(e).__name__, str(e)[:200])))
            done.append(n)
        return body
    n = sum(t['kind'] == 'twin' for t in plan['tasks'])
    with Disk(ctx, ctx.root, plan['io']):
        ts = []
        for i, t in enumerate(plan['tasks']):
            if t['kind'] == 'rogue':
                ctx.probe('rogue')
                ts.append(s.spawn(lambda t=t: rogue(t['seed'], lambda: len(done) == n), name='rogue'))
            else:
                ts.append(s.spawn(twin(i, t), name='twin%d' % i))
        s.wait_for(lambda: all(t.done for t in ts), tag='twins')
    if bad:
        raise bad[0]


def queue(plan, ctx, ds, ref, s):
    from hyperion.utils.multithreading import threadsafe_generator
    from hyperion.utils.queues import GeneratorQueue
    fin, ts = [], []
    with Disk(ctx, ctx.root, plan['io']):
        g = ds.open()

        @threadsafe_generator
        def source():
            for _ in range(ref.n):
                yield ds.read(g)
        for t in plan['tasks']:
            ctx.probe('rogue')
            ts.append(s.spawn(lambda t=t: rogue(t['seed'], lambda: fin), name='rogue'))
        if plan['workers'] > 1:
            ctx.probe('many-workers')
        q = GeneratorQueue(source())
        q.start(workers=plan['workers'], max_queue_size=plan['limit'])
        left = list(range(ref.n))
        for n, b in enumerate(q.get()):
            if plan['workers'] == 1:
                check(n < ref.n, 'not-reproducible', 'more batches than the generator made')
                ref.compare(n, b, 'the queue')
            else:
                c = bt.canon(b)
                i = next((i for i in left if ref.b[i] == c), None)
                check(i is not None, 'not-reproducible', lambda: 'batch %d from %d threads is not one '
                      'of the batches of the generator: %s' % (n, plan['workers'], [str(k) for k in b[0]][:6]))
                left.remove(i)
                ctx.state('q', i)
        n += 1
        check(n == ref.n, 'not-reproducible', lambda: '%d of %d batches came out of the queue' % (n, ref.n))
        fin.append(1)
        q.stop()
        s.wait_for(lambda: all(t.done for t in ts), tag='rogues')


def resume(plan, ctx, ds, ref):
    """Training jobs: killed at any system call, restarted from the number of finished epochs."""
    two = len(plan['tasks']) > 0
    names = ['train1', 'train2'] if two else ['train1']

    def trainer(name):
        def body():
            f = '%s.epoch' % name
            k = json.load(open(f)) if os.path.exists(f) else 0
            if k:
                ctx.probe('init-epoch')
            g = ds.open(init_epoch=k)
            with open('%s.log' % name, 'a') as log:
                for i in range(k * ref.steps, ref.n):
                    b = ds.read(g)
                    ref.compare(i, b, '%s resumed at epoch %d' % (name, k),
                                'not-resumable' if k else 'not-reproducible')
                    log.write('%d %d\n' % (k, i))
                    log.flush()
                    if two:
                        np.random.rand(3)
                        np.random.seed(i)
                    if (i + 1) % ref.steps == 0:
                        with open(f + '.tmp', 'w') as h:
                            json.dump((i + 1) // ref.steps, h)
                        os.replace(f + '.tmp', f)
        return body
    cl = Cluster(ctx, plan)
    cl.run([(n, trainer(n)) for n in names])
    ctx.state(tuple((n, k, o.kind) for n, k, o in cl.history))
    for n in names:
        seen = set(int(l.split()[1]) for l in open('%s.log' % n) if len(l.split()) == 2)
        check(set(range(ref.n)) <= seen or plan['faults'], 'epochs-lost', 'a trainer skipped batches')
    return [[n, o.n_mut, o.n_read] for n, k, o in cl.history if k == 0]
