"""Simulated training jobs for hyperion.torch: the real trainer, loggers, schedulers and metrics over
a small stand-in for PyTorch (sim/stubs/torch), on a simulated disk and a simulated clock."""
import glob
import os
import pickle
import re
import sys
import time
from collections import OrderedDict

import numpy as np

from .batches import command
from .core import VERIF, Violation, check

STUBS = os.path.join(VERIF, 'sim', 'stubs')


def setup():
    if STUBS not in sys.path:
        sys.path.insert(0, STUBS)
    import torch
    if not torch.__file__.startswith(STUBS):
        raise RuntimeError('the stand-in is not the torch in use')
    import hyperion.torch.torch_trainer        # noqa: F401
    import hyperion.torch.lr_schedulers        # noqa: F401
    import hyperion.torch.metrics              # noqa: F401


# --------------------------------------------------------------------------- plans
def gen_sched(rng, n_groups, val):
    t = rng.choice(['none', 'exp_lr', 'exp_lr', 'cos_lr', 'cos_lr', 'adamcos_lr',
                    'red_lr_on_plateau', 'red_lr_on_plateau'])
    if t == 'none':
        return {'lrsch_type': t}
    s = {'lrsch_type': t, 'warmup_steps': rng.choice([0, 0, 1, 2, 3, 5, 9])}
    ml = lambda: rng.choice([0, 0, 0.001, 0.004])
    s['min_lr'] = ml() if rng.random() < 0.7 or n_groups == 1 else [ml() for _ in range(n_groups)]
    if t == 'exp_lr':
        s.update(decay_rate=rng.choice([0.01, 0.1, 0.5, 0.9]), decay_steps=rng.choice([1, 2, 3, 10]),
                 hold_steps=rng.choice([0, 1, 2, 4]), update_lr_on_batch=rng.random() < 0.4)
    elif t in ('cos_lr', 'adamcos_lr'):
        s.update(T=rng.choice([1, 2, 3, 4, 5, 8]), T_mul=rng.choice([1, 1, 2]),
                 warm_restarts=rng.random() < 0.6, gamma=rng.choice([1, 1, 0.5, 0.1]),
                 update_lr_on_batch=rng.random() < 0.4)
    else:
        s.update(monitor=rng.choice((['val_loss', 'val_acc'] if val else []) + ['loss', 'acc']),
                 mode=rng.choice(['min', 'max']), factor=rng.choice([0.1, 0.5, 0.7]),
                 patience=rng.choice([0, 0, 1, 2]), threshold=rng.choice([1e-4, 0.01, 0.1]),
                 threshold_mode=rng.choice(['rel', 'abs']), cooldown=rng.choice([0, 0, 1, 2]),
                 eps=rng.choice([1e-8, 1e-8, 0.00137]))
    return s


def gen_train(rng, tier, max_epochs=7):
    nb = rng.choice([1, 1, 2, 3, 4, 5])
    size = rng.choice([1, 2, 4, 7])
    sizes = [size] * nb
    if rng.random() < 0.7:
        sizes[-1] = rng.randint(1, size)
    if rng.random() < 0.3:
        sizes = [rng.randint(1, 8) for _ in range(nb)]
    val = [rng.randint(1, 6) for _ in range(rng.choice([1, 2, 3]))] if rng.random() < 0.7 else None
    n_groups = rng.choice([1, 1, 2])
    p = {'dim': rng.choice([2, 3, 4]), 'classes': rng.choice([2, 3]), 'seed': rng.randint(0, 10 ** 6),
         'sizes': sizes, 'val': val, 'groups': n_groups,
         'lr': [rng.choice([0.01, 0.05, 0.1, 0.5]) for _ in range(n_groups)],
         'opt': rng.choice([{'opt_type': 'sgd'}, {'opt_type': 'sgd', 'momentum': 0.9},
                            {'opt_type': 'sgd', 'momentum': 0.5, 'nesterov': True,
                             'weight_decay': 0.01}, {'opt_type': 'adam'},
                            {'opt_type': 'adam', 'beta1': 0.5, 'weight_decay': 0.01}]),
         'sch': gen_sched(rng, n_groups, val), 'margin': rng.random() < 0.4,
         'loggers': rng.choice(['default', 'default', 'default', 'list', 'object']),
         'log': rng.choice([None, 'train.csvlog', 'logs/a/train.csvlog']),
         'sep': rng.choice([',', ',', '\t', ';']), 'exp': rng.choice(['exp', 'exp/run1', './e']),
         'clock': rng.choice(['still', 'steps', 'jumps']), 'cli': rng.random() < 0.3}
    n = rng.randint(1, max_epochs)
    phases = [n]
    while phases[0] > 1 and rng.random() < 0.4:
        phases.insert(0, rng.randint(1, phases[0] - 1))
    p['phases'] = phases
    if p['sch'].get('monitor', '').endswith('acc') and rng.random() < 0.2:
        p['sch']['monitor'] = p['sch']['monitor'].replace('acc', 'loss')
    p['metrics'] = True if p['sch'].get('monitor', '').endswith('acc') else rng.random() < 0.6
    return p


class Clock(object):
    """A clock that stands still, advances, or jumps in both directions."""

    def __init__(self, how, seed, ctx):
        self.how, self.r, self.now, self.ctx = how, np.random.RandomState(seed % 2 ** 31), 1.0e9, ctx

    def __call__(self):
        if self.how == 'steps':
            self.now += 0.25
        elif self.how == 'jumps' and self.r.rand() < 0.3:
            d = self.r.choice([-86400.0 * 40, -3600.0, -1.0, 60.0, 86400.0 * 400])
            self.now += d
            self.ctx.fault('clock-jump')
        self.ctx.simtime = max(self.ctx.simtime, 0.0) + (0.25 if self.how == 'steps' else 0)
        return self.now


class Patched(object):
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.real = time.time
        time.time = self.clock

    def __exit__(self, *a):
        time.time = self.real


# --------------------------------------------------------------------------- model and data
class DataSet(object):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class Loader(object):
    """The same batches in every epoch."""

    def __init__(self, sizes, dim, classes, seed):
        r = np.random.RandomState(seed)
        self.b = [(r.randn(n, dim), r.randint(classes, size=n)) for n in sizes]
        self.dataset = DataSet(sum(sizes))

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        import torch
        for x, y in self.b:
            yield torch.Tensor(x.copy()), torch.Tensor(y.copy())


def build(p, rec):
    """Fresh model, optimiser, loss, schedule: what a training script sets up."""
    import torch
    import torch.nn as nn
    from hyperion.torch.helpers.optimizer_factory import OptimizerFactory
    from hyperion.torch.lr_schedulers import LRSchedulerFactory
    from hyperion.torch.torch_model import TorchModel

    class Net(TorchModel):
        def __init__(self):
            super().__init__()
            r = np.random.RandomState(p['seed'])
            self.w = nn.Parameter(r.randn(p['dim'], p['classes']))
            self.b = nn.Parameter(np.zeros(p['classes']))
            self.register_buffer('mean', np.zeros(p['dim']))

        def forward(self, x):
            d = x.data
            if self.training:
                m = d.mean(axis=0)
                self.mean = 0.8 * self.mean + 0.2 * m       # running statistics, as batch norm
            else:
                m = self.mean
            h = d - m
            w, b = self.w, self.b

            def back(g):
                gw, gb = h.T @ g, g.sum(axis=0)
                w.grad = gw if w.grad is None else w.grad + gw
                b.grad = gb if b.grad is None else b.grad + gb
            o = torch.Tensor(h @ w.data + b.data, back if torch.is_grad_enabled() else None)
            o.training = self.training
            return o

    class Loss(nn.Module):
        """Cross-entropy with a temperature kept in its own state."""

        def __init__(self):
            super().__init__()
            self.register_buffer('calls', np.zeros(()))

        def forward(self, out, target):
            z, y = out.data, target.data.astype(int)
            scale = 1.0
            if p['margin']:
                scale = 1.0 + 0.1 * float(self.calls)
                if out.training:
                    self.calls = np.minimum(self.calls + 1, 50.0)
            z = z * scale
            e = np.exp(z - z.max(axis=1, keepdims=True))
            q = e / e.sum(axis=1, keepdims=True)
            n = len(y)
            v = -np.log(q[np.arange(n), y] + 1e-30).mean()
            rec.loss(out, float(v), n, torch.is_grad_enabled())

            def back(g):
                d = q.copy()
                d[np.arange(n), y] -= 1
                out._back(float(g) * d * scale / n)
            return torch.Tensor(v, back if out._back else None)

    model, loss = Net(), Loss()
    ps = [{'params': [model.w, model.b], 'lr': p['lr'][0]}] if p['groups'] == 1 else \
        [{'params': [model.w], 'lr': p['lr'][0]}, {'params': [model.b], 'lr': p['lr'][1]}]
    if p['groups'] == 1:
        ps = model.parameters()
    o, sc = dict(p['opt'], lr=p['lr'][0]), p['sch']
    if p.get('cli'):
        o = command(OptimizerFactory, o, [None, 'opt'][p['seed'] % 2])
        sc = command(LRSchedulerFactory, sc, 'lrsch',
                     ('min_lr',) if isinstance(sc.get('min_lr'), list) else ())
    opt = OptimizerFactory.create(ps, **o)
    opt.on_step = rec.step
    sch = LRSchedulerFactory.create(opt, **sc)
    return model, opt, loss, sch


class Recorder(object):
    """What one process saw: every batch with its loss and rates, and every epoch report."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.epochs = OrderedDict()       # epoch -> dict
        self.cur = None
        self.ended = False

    def begin(self, epoch):
        if epoch in self.epochs:
            raise Violation('epoch-repeated', 'epoch %d was trained twice in one process' % (epoch + 1))
        self.cur = self.epochs[epoch] = {'train': [], 'val': [], 'lrs': [], 'logs': None}

    def loss(self, out, v, n, grad):
        if self.cur is None:
            raise Violation('epoch-not-announced', 'a batch outside of an epoch')
        if out.training != grad:
            raise Violation('wrong-mode', 'the model is in %s mode with gradients %s' % (
                'training' if out.training else 'evaluation', 'on' if grad else 'off'))
        o = out.data.argmax(axis=1)
        self.cur['train' if grad else 'val'].append((v, n, o))

    def step(self, lrs):
        self.cur['lrs'].append(list(lrs))

    def logger(self):
        from hyperion.torch.loggers import Logger
        rec = self

        class Rec(Logger):
            def on_epoch_begin(self, epoch, logs=None, **k):
                rec.begin(epoch)

            def on_epoch_end(self, logs=None, **k):
                rec.cur['logs'] = OrderedDict(logs)
        return Rec()


def make_trainer(p, epochs, rec, exp):
    from hyperion.torch.loggers import CSVLogger, LoggerList, ProgLogger
    from hyperion.torch.metrics import CategoricalAccuracy
    from hyperion.torch.torch_trainer import TorchTrainer
    model, opt, loss, sch = build(p, rec)
    kw = {}
    if p['metrics']:
        kw['metrics'] = OrderedDict([('acc', CategoricalAccuracy())])
    log = exp + '/train.log' if p['loggers'] == 'default' or p['log'] is None else p['log']
    if p['loggers'] == 'none':
        kw['loggers'] = LoggerList([])
    elif p['loggers'] == 'list':
        kw['loggers'] = [ProgLogger(interval=1), CSVLogger(log, sep=p['sep'], append=True)]
    elif p['loggers'] == 'object':
        kw['loggers'] = LoggerList([CSVLogger(log, sep=p['sep'], append=True),
                                    ProgLogger(metrics=['loss'], interval=2)])
    t = TorchTrainer(model, opt, loss, epochs, exp, lr_scheduler=sch, **kw)
    t.loggers.loggers.insert(0, rec.logger())
    return t, log, (',' if p['loggers'] == 'default' else p['sep'])


def loaders(p):
    tr = Loader(p['sizes'], p['dim'], p['classes'], p['seed'] + 1)
    va = Loader(p['val'], p['dim'], p['classes'], p['seed'] + 2) if p['val'] else None
    return tr, va


def train(p, epochs, rec, exp, res, resume=True):
    """Body of one training process."""
    t, log, sep = make_trainer(p, epochs, rec, exp)
    res['resumed'] = 0
    if resume:
        res['restored'] = t.load_last_checkpoint()
        res['resumed'] = t.cur_epoch
    tr, va = loaders(p)
    t.fit(tr, va)
    res['state'] = state(t)
    res['log'], res['sep'] = log, sep


def norm(x):
    """Comparable copy of a state."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if k != 'is_better'}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, np.ndarray):
        return [float(v) for v in x.reshape(-1)] if x.dtype.kind == 'f' else x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def state(t):
    return norm(pickle.loads(pickle.dumps({
        'epoch': t.cur_epoch, 'model': t.model.state_dict(), 'optimiser': t.optimizer.state_dict(),
        'loss': t.loss.state_dict(),
        'schedule': {k: v for k, v in t.lr_scheduler.state_dict().items() if k != 'is_better'}
        if t.lr_scheduler is not None else None})))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s.%s only in one' % (path, k)
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if same(a, b) else '%s is %r, should be %r' % (path, a, b)


def checkpoints(exp):
    """{epoch: content or None when the file is not complete} of what is on disk."""
    import torch
    out = {}
    for f in glob.glob(exp + '/model_ep*.pth'):
        m = re.match(r'model_ep(\d+)\.pth$', os.path.basename(f))
        if not m:
            continue
        try:
            out[int(m.group(1))] = torch.load(f)
        except Exception:
            out[int(m.group(1))] = None
    return out


def last_complete(exp, epochs):
    c = [e for e, v in checkpoints(exp).items() if v is not None and e <= epochs]
    return max(c) if c else 0


# --------------------------------------------------------------------------- logs
def read_log(path, sep):
    with open(path, newline='') as f:
        txt = f.read()
    check(txt == '' or txt.endswith('\n'), 'incomplete-row', lambda: 'the log ends with %r' % txt[-60:])
    rows = [ln.split(sep) for ln in txt.replace('\r\n', '\n').split('\n') if ln != '']
    return rows


def expected_rows(eps, upto):
    """eps: {epoch: record}; one row per epoch."""
    head, rows = None, []
    for e in range(upto):
        logs = eps[e]['logs']
        if head is None:
            head = list(logs)
        rows.append([e + 1] + [logs[k] for k in head])
    return ['epoch'] + (head or []), rows


def check_log(path, sep, eps, upto, where):
    check(os.path.isfile(path), 'no-log', where)
    rows = read_log(path, sep)
    head, want = expected_rows(eps, upto)
    if not upto and not rows:
        return
    check(rows and sorted(rows[0]) == sorted(head) and rows[0][0] == 'epoch', 'wrong-header',
          lambda: '%s: the log starts with %s, should be %s' % (where, rows[:1], head))
    order = [head.index(h) for h in rows[0]]
    heads = sum(r[0] == 'epoch' for r in rows)
    check(heads == 1, 'header-repeated', lambda: '%s: %d headers' % (where, heads))
    got = [r[0] for r in rows[1:]]
    check(got == [str(r[0]) for r in want], 'wrong-rows', lambda: '%s: the log has rows of epochs '
          '%s, finished are %s' % (where, got, [r[0] for r in want]))
    for r, w in zip(rows[1:], want):
        check(len(r) == len(head), 'incomplete-row', lambda: '%s: %s' % (where, r))
        for i, s in zip(order, r):
            v = float(w[i])
            try:
                x = float(s)
            except ValueError:
                raise Violation('wrong-value', '%s: %r in the row of epoch %d' % (where, s, w[0]))
            check(abs(x - v) <= 1e-6 * max(abs(v), 1e-6) or (x != x and v != v) or x == v,
                  'wrong-value', lambda: '%s: epoch %d has %s = %s in the log, reported was %r' % (
                      where, w[0], head[i], s, v))


def check_averages(p, ep, e, ctx):
    """The report of an epoch against its batches."""
    logs = ep['logs']
    tr, va = loaders(p)
    for what, pre, data in (('train', '', tr), ('val', 'val_', va)):
        b = ep[what]
        if data is None:
            check(not b, 'wrong-batches', 'validation without data')
            continue
        check([n for _, n, _ in b] == [len(x) for x, _ in data.b], 'wrong-batches', lambda: 'epoch '
              '%d used %s batches of sizes %s, the data has %s' % (
                  e + 1, what, [n for _, n, _ in b], [len(x) for x, _ in data.b]))
        n = float(sum(k for _, k, _ in b))
        want = {'loss': sum(v * k for v, k, _ in b) / n}
        if p['metrics']:
            want['acc'] = sum((o == y).sum() for (_, _, o), (_, y) in zip(b, data.b)) / n
        for k, v in want.items():
            check(pre + k in logs, 'metric-missing', lambda: 'epoch %d reports %s' % (e + 1, list(logs)))
            check(abs(logs[pre + k] - v) <= 1e-6 * max(1.0, abs(v)) or v != v, 'wrong-average',
                  lambda: 'epoch %d reports %s%s = %.9g, the average over its samples is %.9g' % (
                      e + 1, pre, k, logs[pre + k], v))
    check(abs(logs['lr'] - ep['lrs'][-1][0]) <= 1e-12, 'wrong-average', lambda: 'epoch %d reports '
          'learning rate %r, used %r' % (e + 1, logs['lr'], ep['lrs'][-1][0]))


# --------------------------------------------------------------------------- whole histories
class quiet(object):
    """The harness looks at the files without being seen by the simulated disk."""

    def __enter__(self):
        from . import disk
        self.prev, disk._active = disk._active, None

    def __exit__(self, *a):
        from . import disk
        disk._active = self.prev


class History(object):
    """An uninterrupted run and a run of processes that die and are started again."""

    def __init__(self, plan, ctx):
        from .cluster import Cluster, process
        self.plan, self.ctx, self.p = plan, ctx, plan['train']
        self.E = self.p['phases'][-1]
        self.exp = self.p['exp']
        self.reports = {}                 # epoch -> last report
        self.attempts = []
        self.cl = Cluster(ctx, plan, max_attempts=6)
        self.process = process

    def reference(self):
        rec, res = Recorder(self.ctx), {}
        q = dict(self.p, loggers='none')
        o = self.process(self.ctx, {}, [], lambda: train(q, self.E, rec, 'ref', res))
        if o.kind != 'ok':
            raise Violation('job-failed', 'uninterrupted training fails: %s at %s' % (o.exc, o.where))
        self.rec, self.final = rec, res['state']
        check(list(rec.epochs) == list(range(self.E)), 'epochs-skipped', lambda: 'uninterrupted '
              'training of %d epochs ran %s' % (self.E, [e + 1 for e in rec.epochs]))
        self.ck = {e: norm(v) for e, v in checkpoints('ref').items() if v is not None}
        check(sorted(self.ck) == list(range(1, self.E + 1)), 'checkpoint-missing', lambda: 'after %d '
              'epochs there are checkpoints %s' % (self.E, sorted(self.ck)))
        for e in self.ck:
            check(self.ck[e]['epoch'] == e, 'wrong-checkpoint', lambda: 'the checkpoint of epoch %d '
                  'holds epoch %s' % (e, self.ck[e]['epoch']))

    def body(self, epochs, audit, load=None):
        def run():
            exp = self.exp
            with quiet():
                start = last_complete(exp, epochs)
            rec, res = Recorder(self.ctx), {}
            end = 'died'
            try:
                train(self.p, epochs, rec, exp, res)
                end = 'ok'
            finally:
                with quiet():
                    for e, d in rec.epochs.items():
                        if d['logs'] is not None:
                            self.reports[e] = d
                    if start:
                        self.ctx.probe('resumed')
                    if rec.epochs:
                        self.ctx.state(start, len(rec.epochs), end)
                    audit(epochs, start, rec, res, end)
        return run

    def run(self, audit):
        c = Clock(self.p['clock'], self.p['seed'], self.ctx)
        with Patched(c):
            self.reference()
            n = 0
            for i, epochs in enumerate(self.p['phases']):
                self.cl.run([('train%d' % i, self.body(epochs, audit))])
        return [(name, o.n_mut, o.n_read, o.nbytes) for name, k, o in self.cl.history if k == 0]


def same_training(h, epochs, start, rec, res, end):
    """Every batch, rate and report of a process equals that of the uninterrupted run."""
    got = list(rec.epochs)
    check(got == list(range(start, start + len(got))), 'epochs-skipped' if not got or
          got[0] >= start else 'epoch-repeated', lambda: 'the newest complete checkpoint was epoch '
          '%d, the restarted process trained epochs %s' % (start, [e + 1 for e in got]))
    for e in got:
        a, b = rec.epochs[e], h.rec.epochs[e]
        for j, (x, y) in enumerate(zip(a['lrs'], b['lrs'])):
            check(same(norm(x), norm(y)), 'schedule-differs', lambda: 'epoch %d batch %d uses rates '
                  '%s, without the interruption %s (restarted after epoch %d)' % (e + 1, j, x, y, start))
        for w in ('train', 'val'):
            for j, (x, y) in enumerate(zip(a[w], b[w])):
                check(same(x[0], y[0]), 'model-differs', lambda: 'epoch %d %s batch %d has loss %r, '
                      'without the interruption %r (restarted after epoch %d)' % (
                          e + 1, w, j, x[0], y[0], start))
        if a['logs'] is not None:
            check(len(a['train']) == len(b['train']) and len(a['val']) == len(b['val']),
                  'batches-differ', lambda: 'epoch %d' % (e + 1))
            check(same(norm(dict(a['logs'])), norm(dict(b['logs']))), 'report-differs',
                  lambda: 'epoch %d reports %s, without the interruption %s' % (
                      e + 1, dict(a['logs']), dict(b['logs'])))
    if end == 'ok':
        check(start + len(got) == epochs, 'epochs-skipped', lambda: 'training of %d epochs ended '
              'after epoch %d' % (epochs, start + len(got)))
        want = h.final if epochs == h.E else None
        if want is not None:
            d = diff(res['state'], want)
            check(d is None, 'state-differs', lambda: 'after %d epochs (restarted after epoch %d) %s' % (
                epochs, start, d))


def audit_checkpoints(h, before):
    """What is on disk after a process ended; before: complete checkpoints known so far."""
    now = checkpoints(h.exp)
    for e, v in now.items():
        if v is not None:
            check(1 <= e <= h.E, 'wrong-checkpoint', 'checkpoint of epoch %d' % e)
            d = diff(norm(v), h.ck[e])
            check(d is None, 'checkpoint-differs', lambda: 'checkpoint of epoch %d: %s' % (e, d))
    lost = [e for e in before if now.get(e) is None]
    check(not lost, 'checkpoint-lost', lambda: 'the checkpoints of epochs %s were complete and are '
          'gone or damaged' % lost)
    before.update(e for e, v in now.items() if v is not None)


def shrink(plan):
    import copy
    p = plan['train']

    def alt(**kw):
        q = copy.deepcopy(plan)
        q['train'].update(kw)
        return q
    if len(p['phases']) > 1:
        yield alt(phases=p['phases'][-1:])
    if p['phases'][-1] > 1:
        yield alt(phases=[min(x, p['phases'][-1] - 1) for x in p['phases']])
    if len(p['sizes']) > 1:
        yield alt(sizes=p['sizes'][1:])
    if p['val'] and len(p['val']) > 1:
        yield alt(val=p['val'][1:])
    if p['val'] and not p['sch'].get('monitor', '').startswith('val'):
        yield alt(val=None)
    if p['metrics'] and not p['sch'].get('monitor', '').endswith('acc'):
        yield alt(metrics=False)
    for k, v in (('margin', False), ('clock', 'still'), ('opt', {'opt_type': 'sgd'}),
                 ('sch', {'lrsch_type': 'none'}), ('loggers', 'default')):
        if p[k] != v:
            yield alt(**{k: v})
    if p['sch'].get('warmup_steps'):
        yield alt(sch=dict(p['sch'], warmup_steps=0))
    if plan['io'].get('slice_reads') or plan['io'].get('vary_buf') or plan['io'].get('slice_writes'):
        q = copy.deepcopy(plan)
        q['io'] = {'seed': 0}
        yield q
