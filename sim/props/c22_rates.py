"""C22: the learning rate follows the configured policy through every step and restart."""
import copy
import math
import pickle

import numpy as np

from sim import training as T
from sim.batches import command
from sim.core import check, guard

RUNS = {'quick': 60000, 'thorough': 2000000}
LISTS = ('stops',)
STATE_RULE = 'policy, its options, and where the process was stopped and restored'
MUST_REACH = ['sched:exp_lr', 'sched:cos_lr', 'sched:adamcos_lr', 'sched:red_lr_on_plateau', 'restored',
              'warm-up', 'on-batch', 'on-epoch', 'warm-restart', 'reduced', 'cooldown', 'held',
              'floor', 'period-over', 'two-groups', 'decay', 'other-code', 'options']
REAL = ['LRScheduler, ExponentialLR, CosineLR, AdamCosineLR, ReduceLROnPlateau, LRSchedulerFactory']
STUB = ['PyTorch (Optimizer with parameter groups), the training loop that drives the schedulers, '
        'process death and restart from saved state at any epoch boundary']
ASSUMPTIONS = ['the reference follows the formulas of the class documentation; after a warm-up that '
               'ends inside an epoch the rate stays at its target until the next epoch']


def setup():
    T.setup()


def gen(rng, tier):
    n_groups = rng.choice([1, 1, 2, 3])
    sch = {'lrsch_type': 'none'}
    while sch['lrsch_type'] == 'none':
        sch = T.gen_sched(rng, n_groups, True)
    if sch['lrsch_type'] == 'red_lr_on_plateau':
        sch['monitor'] = rng.choice(['val_loss', 'loss', 'x'])
    E = rng.randint(1, 14 if tier == 'quick' else 40)
    same = rng.randint(1, 6)
    if rng.random() < 0.3 or (sch.get('update_lr_on_batch') and sch.get('warm_restarts')):
        nb = [same] * E
    else:
        nb = [rng.randint(1, 6) for _ in range(E)]
    best = rng.uniform(-1, 3)
    met = []
    for _ in range(E):
        m = rng.random()
        step = 0 if m < 0.2 else rng.choice([1e-5, 0.005, 0.05, 0.5]) * rng.choice([-1, 1, 1])
        best += step
        met.append(best if rng.random() > 0.03 else float('nan'))
    return {'sch': sch, 'lr': [rng.choice([0.01, 0.05, 0.1, 0.5]) for _ in range(n_groups)], 'nb': nb,
            'metric': met, 'stops': sorted(set(rng.randrange(E) for _ in range(rng.choice([0, 1, 1, 3])))),
            'implicit': rng.random() < 0.3, 'seed': rng.randint(0, 10 ** 6), 'cli': rng.random() < 0.3}


class Policy(object):
    """Reference: what the rate of every group is, step by step."""

    def __init__(self, s, lrs, ctx):
        self.s, self.base, self.ctx = s, list(lrs), ctx
        ml = s.get('min_lr', 0)
        if s['lrsch_type'] == 'adamcos_lr':
            ml = 0
        self.min = list(ml) if isinstance(ml, list) else [ml] * len(lrs)
        self.lr = list(lrs)
        self.epoch, self.batch, self.n_epoch = -1, -1, 0
        self.T, self.start, self.k = s.get('T'), 0, 0
        self.best = None
        self.bad = self.cool = 0

    def formula(self, t):
        s = self.s
        if s['lrsch_type'] == 'exp_lr':
            if t < s['hold_steps']:
                self.ctx.probe('held')
                return list(self.base)
            self.ctx.probe('decay')
            out = []
            for b, m in zip(self.base, self.min):
                v = b * math.pow(s['decay_rate'], (t - s['hold_steps']) / float(s['decay_steps']))
                if v < m:
                    self.ctx.probe('floor')
                out.append(max(m, v))
            return out
        if s['update_lr_on_batch'] and s['warm_restarts'] and self.epoch == 0 and \
                t - self.start >= self.T:
            self.T = t - self.start + 1           # the first period has at least one epoch
        if t - self.start >= self.T:
            if not s['warm_restarts']:
                self.ctx.probe('period-over')
                return list(self.min)
            self.ctx.probe('warm-restart')
            self.start, self.T, self.k = t, self.T * s['T_mul'], self.k + 1
        a = s['gamma'] ** self.k
        c = math.cos(math.pi * (t - self.start) / self.T)
        return [m + 0.5 * (a * b - m) * (1 + c) for b, m in zip(self.base, self.min)]

    def begin(self):
        self.epoch += 1
        self.n_epoch = 0
        if self.s['lrsch_type'] != 'red_lr_on_plateau' and not self.s['update_lr_on_batch']:
            self.ctx.probe('on-epoch')
            self.lr = self.formula(self.epoch)

    def step(self):
        self.batch += 1
        self.n_epoch += 1
        W = self.s['warmup_steps']
        if W and self.batch <= W:
            self.ctx.probe('warm-up')
            self.lr = [m + (b - m) * self.batch / float(W) for b, m in zip(self.base, self.min)]
        elif self.s.get('update_lr_on_batch'):
            self.ctx.probe('on-batch')
            self.lr = self.formula(self.batch)

    def end(self, v):
        s = self.s
        if s['lrsch_type'] == 'red_lr_on_plateau':
            e = s['threshold']
            if self.best is None:
                b = float('inf') if s['mode'] == 'min' else -float('inf')
            else:
                b = self.best
            if s['mode'] == 'min':
                better = v < (b * (1 - e) if s['threshold_mode'] == 'rel' else b - e)
            else:
                better = v > (b * (1 + e) if s['threshold_mode'] == 'rel' else b + e)
            if better:
                self.best, self.bad = v, 0
            else:
                self.bad += 1
            if self.cool:
                self.ctx.probe('cooldown')
                self.cool -= 1
                self.bad = 0
            if self.bad > s['patience']:
                for i, m in enumerate(self.min):
                    n = max(self.lr[i] * s['factor'], m)
                    if self.lr[i] - n > s['eps']:
                        self.ctx.probe('reduced')
                        self.lr[i] = n
                self.cool, self.bad = s['cooldown'], 0
        elif s['lrsch_type'] != 'exp_lr' and s['warm_restarts'] and s['update_lr_on_batch'] and \
                self.epoch == 0:
            self.T = math.ceil(self.T / float(self.n_epoch)) * self.n_epoch


def run(plan, ctx):
    import torch.nn as nn
    import torch.optim as optim
    from hyperion.torch.lr_schedulers import LRSchedulerFactory
    s = plan['sch']
    ctx.probe('sched:' + s['lrsch_type'])
    ctx.state(s['lrsch_type'], sorted((k, str(v)) for k, v in s.items()), plan['stops'])
    if len(plan['lr']) > 1:
        ctx.probe('two-groups')
    r = np.random.RandomState(plan['seed'])
    cli = None
    if plan.get('cli'):
        ctx.probe('options')
        cli = command(LRSchedulerFactory, s, [None, 'lrsch'][plan['seed'] % 2],
                      ('min_lr',) if isinstance(s['min_lr'], list) else ())
        for k in s:
            check(cli[k] == s[k], 'wrong-rate', lambda: 'option %s=%r arrives as %r' % (k, s[k], cli[k]))

    def make(lrs):
        opt = optim.SGD([{'params': [nn.Parameter(np.zeros(2))], 'lr': x} for x in lrs], lr=1.0)
        kw = dict(s, prefix_not_used=1)
        args = cli or LRSchedulerFactory.filter_args('p', **{'p_' + k: v for k, v in kw.items()})
        return opt, guard(LRSchedulerFactory.create, opt, **args)
    opt, sch = make(plan['lr'])
    check(sch is not None, 'wrong-rate', lambda: 'no schedule for %s' % s)
    ref = Policy(s, plan['lr'], ctx)

    def compare(where, e, b):
        got = [g['lr'] for g in opt.param_groups]
        for i, (x, y) in enumerate(zip(got, ref.lr)):
            check(abs(x - y) <= 1e-9 * max(abs(y), 1e-3), 'wrong-rate', lambda: '%s with %s: epoch %d '
                  'batch %s group %d has rate %.9g, the policy gives %.9g' % (
                      where, s, e, b, i, x, y))
    key = s.get('monitor', 'loss')
    for e, n in enumerate(plan['nb']):
        if e in plan['stops']:
            # the process dies here and another one restores what was saved
            ctx.probe('restored')
            sd = pickle.loads(pickle.dumps((opt.state_dict(), {
                k: v for k, v in sch.state_dict().items() if k != 'is_better'})))
            opt, sch = make(plan['lr'])
            if r.rand() < 0.5:
                ctx.probe('other-code')           # it had already been used for something else
                guard(sch.epoch_begin_step, 0)
                guard(sch.batch_step)
                guard(sch.epoch_end_step, {key: 100.0})
            opt.load_state_dict(sd[0])
            guard(sch.load_state_dict, sd[1])
        ref.begin()
        if plan['implicit']:
            guard(sch.epoch_begin_step)
        else:
            guard(sch.epoch_begin_step, e)
        for b in range(n):
            ref.step()
            guard(sch.batch_step)
            compare('training', e, b)
        ref.end(plan['metric'][e])
        guard(sch.epoch_end_step, {key: plan['metric'][e], 'other': 1.0, 'lr': 5.0})
        if s['lrsch_type'] == 'red_lr_on_plateau':
            compare('end of epoch', e, None)
    return None


def shrink(plan):
    if len(plan['nb']) > 1:
        q = copy.deepcopy(plan)
        q['nb'], q['metric'] = q['nb'][:-1], q['metric'][:-1]
        yield q
    for i, n in enumerate(plan['nb']):
        if n > 1:
            q = copy.deepcopy(plan)
            q['nb'][i] = 1
            yield q
    if len(plan['lr']) > 1 and not isinstance(plan['sch'].get('min_lr'), list):
        q = copy.deepcopy(plan)
        q['lr'] = q['lr'][:1]
        yield q
    for k, v in (('warmup_steps', 0), ('min_lr', 0)):
        if plan['sch'].get(k) not in (v, None):
            q = copy.deepcopy(plan)
            q['sch'][k] = v
            yield q
