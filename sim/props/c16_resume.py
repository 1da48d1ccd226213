"""C16: training resumed from a checkpoint equals uninterrupted training."""
import copy
import os
import shutil

from sim import storage as st
from sim import training as T
from sim.core import check

RUNS = {'quick': 700, 'thorough': 15000}
LISTS = ('faults',)
STATE_RULE = 'schedule policy, and per process: epoch it restarts from, epochs it runs, how it ends'
MUST_REACH = ['resumed', 'job-crashed', 'job-failed', 'job-retried', 'fault:crash', 'fault:torn-write',
              'fault:eio-write', 'fault:enospc', 'fault:eio-read', 'fault:clock-jump', 'rewind',
              'two-phases', 'save-model'] + \
    ['sched:' + s for s in ('none', 'exp_lr', 'cos_lr', 'adamcos_lr', 'red_lr_on_plateau')]
REAL = ['TorchTrainer, LoggerList, CSVLogger, ProgLogger, MetricAcc, the learning-rate schedulers and '
        'their factory, OptimizerFactory, TorchModel, CategoricalAccuracy']
STUB = ['PyTorch itself (not installed): tensors, modules, SGD and Adam, save/load of checkpoints by '
        'pickle over open()', 'system calls, process death, wall clock']
ASSUMPTIONS = ['the data loader gives the same batches in every epoch (its shuffling state is not '
               'part of a checkpoint)', 'process-crash model: what reached write(2) survives']
CPU_LIMIT = 60


def setup():
    T.setup()


def gen(rng, tier):
    p = T.gen_train(rng, tier, 7 if tier == 'quick' else 12)
    return {'train': p, 'io': st.gen_io(rng), 'faults': [],
            'rewind': rng.randint(1, p['phases'][-1]) if rng.random() < 0.5 else None,
            'save': rng.random() < 0.3}


def inject(plan, extra, rng, tier):
    for q in faults(plan, extra, rng, 4 if tier == 'quick' else 10):
        yield q


def faults(plan, extra, rng, n):
    if not extra:
        return
    for _ in range(n):
        q = copy.deepcopy(plan)
        fl = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            name, mut, rd, nb = rng.choice(extra)
            used = [f['attempt'] for f in fl if f['job'] == name]
            a = max(used) + 1 if used else 0
            if a > 4:
                continue
            if a:
                mut = max(1, mut)
            m = rng.random()
            f = {'job': name, 'attempt': a}
            if m < 0.6 and mut:
                f.update(kind='crash', n=rng.randint(1, mut), keep=rng.choice([0, 0.3, 0.5, 0.9, 1]))
            elif m < 0.75 and mut:
                f.update(kind='eio_write', n=rng.randint(1, mut))
            elif m < 0.9 and nb:
                f.update(kind='enospc', after=rng.randint(0, nb))
            elif rd:
                f.update(kind='eio_read', n=rng.randint(1, rd))
            else:
                continue
            fl.append(f)
        q['faults'] = fl
        if fl:
            yield q


def run(plan, ctx):
    p = plan['train']
    ctx.probe('sched:' + p['sch']['lrsch_type'])
    ctx.state(p['sch']['lrsch_type'], p['phases'], len(p['sizes']), bool(p['val']))
    if len(p['phases']) > 1:
        ctx.probe('two-phases')
    h = T.History(plan, ctx)
    known = set()

    def audit(epochs, start, rec, res, end):
        T.same_training(h, epochs, start, rec, res, end)
        T.audit_checkpoints(h, known)
    out = h.run(audit)
    now = T.checkpoints(h.exp)
    check(sorted(now) == list(range(1, h.E + 1)) and None not in now.values(), 'checkpoint-missing',
          lambda: 'after %d epochs the complete checkpoints are %s' % (
              h.E, sorted(e for e, v in now.items() if v is not None)))
    if plan['rewind']:
        rewind(plan, ctx, h, min(plan['rewind'], h.E))
    if plan['save']:
        save_model(plan, ctx, h)
    return out


def rewind(plan, ctx, h, k):
    """Continue in another place from the checkpoint of epoch k, in a trainer that was used before."""
    ctx.probe('rewind')
    p = dict(h.p, loggers='none')
    os.makedirs('old')
    src = os.path.abspath('%s/model_ep%04d.pth' % (h.exp, k))
    shutil.copy(src, 'old/model_ep%04d.pth' % k)
    rec, res = T.Recorder(ctx), {}

    def body():
        t, _, _ = T.make_trainer(p, h.E, rec, 'again')
        tr, va = T.loaders(p)
        if plan['save']:
            t.epochs = 1
            t.fit(tr, va)                 # it has already trained something else
            t.epochs = h.E
            rec.epochs.clear()
        t.load_checkpoint('old/model_ep%04d.pth' % k)
        check(t.cur_epoch == k, 'epochs-skipped', lambda: 'loaded epoch %d as %s' % (k, t.cur_epoch))
        t.fit(tr, va)
        res['state'] = T.state(t)
    h.cl.run([('rewind', body)])
    T.same_training(h, h.E, k, rec, res, 'ok')


def save_model(plan, ctx, h):
    """TorchModel.save: the file it names holds the parameters."""
    ctx.probe('save-model')
    import torch
    rec = T.Recorder(ctx)

    def body():
        t, _, _ = T.make_trainer(dict(h.p, loggers='none'), h.E, rec, 'x')
        t.model.save('out/m.pth' if h.p['seed'] % 2 else 'm.pth')
        d = torch.load('out/m.pth' if h.p['seed'] % 2 else 'm.pth')
        x = T.diff(T.norm(d['model_state_dict']), T.norm(t.model.state_dict()))
        check(x is None, 'wrong-checkpoint', lambda: 'saved model: %s' % x)
    h.cl.run([('save', body)])


def shrink(plan):
    p = plan['train']
    for k in ('rewind',):
        if plan[k]:
            q = copy.deepcopy(plan)
            q[k] = None
            yield q
    if plan['save']:
        q = copy.deepcopy(plan)
        q['save'] = False
        yield q
    for q in T.shrink(plan):
        yield q
