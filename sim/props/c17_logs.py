"""C17: training logs have one row per finished epoch across restarts."""
import copy
import os
from collections import OrderedDict

import numpy as np

from sim import storage as st
from sim import training as T
from sim.cluster import Cluster
from sim.core import Violation, check, guard
from . import c16_resume as R

RUNS = {'quick': 700, 'thorough': 15000}
LISTS = ('faults',)
STATE_RULE = 'mode, logger set-up, and per process: epoch it restarts from, epochs it runs, how it ends'
MUST_REACH = ['resumed', 'job-crashed', 'job-failed', 'job-retried', 'fault:crash', 'fault:torn-write',
              'fault:eio-write', 'fault:enospc', 'fault:eio-read', 'two-phases', 'mode:train',
              'mode:logger', 'mode:acc', 'loggers:default', 'loggers:list', 'loggers:object',
              'refit', 'old-log']
REAL = ['TorchTrainer, CSVLogger, ProgLogger, LoggerList, MetricAcc, CategoricalAccuracy, csv']
STUB = ['PyTorch itself (not installed)', 'system calls, process death, wall clock']
ASSUMPTIONS = ['a restarted run uses the same metrics', 'process-crash model']


def setup():
    T.setup()


def gen(rng, tier):
    mode = rng.choice(['train', 'train', 'train', 'logger', 'acc'])
    plan = {'mode': mode, 'io': st.gen_io(rng), 'faults': []}
    if mode == 'train':
        plan['train'] = T.gen_train(rng, tier, 7 if tier == 'quick' else 12)
        plan['refit'] = rng.random() < 0.4
        plan['fresh'] = rng.random() < 0.3
    elif mode == 'logger':
        keys = rng.sample(['loss', 'acc', 'val_loss', 'val_acc', 'lr', 'a b', 'x,y', 'q"q'],
                          rng.randint(1, 5))
        plan['log'] = {'keys': keys, 'sep': rng.choice([',', '\t', ';', ' ']),
                       'path': rng.choice(['t.log', 'd/t.log', './t.log', 'd/e/t.log']),
                       'n': rng.randint(1, 8), 'stop': [], 'seed': rng.randint(0, 10 ** 6)}
        while rng.random() < 0.5 and len(plan['log']['stop']) < 3:
            plan['log']['stop'].append(rng.randint(0, plan['log']['n']))
    else:
        plan['acc'] = {'keys': rng.sample(['loss', 'acc', 'z', 'b'], rng.randint(1, 4)),
                       'epochs': [[rng.choice([1, 1, 2, 5, 32, 1000]) for _ in range(rng.randint(1, 12))]
                                  for _ in range(rng.randint(1, 4))],
                       'reset': rng.random() < 0.6, 'scale': rng.choice([1, 1e-6, 1e6]),
                       'peek': rng.random() < 0.5, 'seed': rng.randint(0, 10 ** 6)}
    return plan


def inject(plan, extra, rng, tier):
    for q in R.faults(plan, extra, rng, 4 if tier == 'quick' else 10):
        yield q


def run(plan, ctx):
    ctx.probe('mode:' + plan['mode'])
    ctx.state(plan['mode'])
    return {'train': run_train, 'logger': run_logger, 'acc': run_acc}[plan['mode']](plan, ctx)


# --------------------------------------------------------------------------- training
def run_train(plan, ctx):
    p = plan['train']
    ctx.probe('loggers:' + p['loggers'])
    ctx.state(p['loggers'], p['phases'], bool(p['val']), p['metrics'])
    if len(p['phases']) > 1:
        ctx.probe('two-phases')
    if plan['fresh']:                      # a log of some other, older training is in the way
        old_log(p, ctx)
    h = T.History(plan, ctx)
    path = log_path(p)
    sep = ',' if p['loggers'] == 'default' else p['sep']

    def audit(epochs, start, rec, res, end):
        for e, d in rec.epochs.items():
            if d['logs'] is not None:
                T.check_averages(p, d, e, ctx)
        if end == 'ok':
            T.check_log(path, sep, h.reports, epochs, 'training of %d epochs (restarted after %d)' % (
                epochs, start))
            return
        # the process died: rows of epochs before the one in progress are all there
        done = [e for e, d in rec.epochs.items() if d['logs'] is not None]
        need = list(range(start)) + done[:-1]
        survive(path, sep, h.reports, need)
    out = h.run(audit)
    T.check_log(path, sep, h.reports, h.E, 'in the end')
    if plan['refit']:
        refit(plan, ctx, h, path, sep)
    return out


def old_log(p, ctx):
    if p['loggers'] == 'default':
        ctx.probe('old-log')
        os.makedirs(p['exp'], exist_ok=True)
        with open(log_path(p), 'w') as f:
            f.write('epoch,foo,lr\n1,0.5,0.1\n2,0.25,0.1\n')


def log_path(p):
    return p['exp'] + '/train.log' if p['loggers'] == 'default' or p['log'] is None else p['log']


def survive(path, sep, reports, need):
    if not need:
        return
    check(os.path.isfile(path), 'row-lost', 'the log is gone')
    with open(path, newline='') as f:
        txt = f.read().replace('\r\n', '\n')
    lines = txt.split('\n')[:-1]
    head = lines[0].split(sep) if lines else []
    have = {}
    for ln in lines[1:]:
        r = ln.split(sep)
        have.setdefault(r[0], r)
    for e in need:
        r = have.get(str(e + 1))
        check(r is not None, 'row-lost', lambda: 'epoch %d was reported before the process died, the '
              'log has rows %s' % (e + 1, sorted(have)))
        want = reports[e]['logs']
        check(len(r) == len(head) == len(want) + 1, 'row-lost', lambda: 'row of epoch %d is %s' % (e + 1, r))


def refit(plan, ctx, h, path, sep):
    """More epochs with the trainer object that is still alive, after going back to epoch k."""
    ctx.probe('refit')
    p = h.p
    k = 1 + plan['io'].get('seed', 0) % h.E
    rec, res = T.Recorder(ctx), {}

    def body():
        t, _, _ = T.make_trainer(p, h.E, rec, h.exp)
        tr, va = T.loaders(p)
        t.load_checkpoint('%s/model_ep%04d.pth' % (h.exp, k))
        t.fit(tr, va)
        for e, d in rec.epochs.items():
            h.reports[e] = d
        T.check_log(path, sep, h.reports, h.E, 'continued from epoch %d' % k)
        t.epochs = h.E + 2
        t.fit(tr, va)
        for e, d in rec.epochs.items():
            h.reports[e] = d
    h.cl.run([('refit', body)])
    T.check_log(path, sep, h.reports, h.E + 2, 'two more epochs')


# --------------------------------------------------------------------------- logger alone
def value(r):
    m = r.randint(6)
    return (r.randn() * 10.0 ** r.randint(-12, 12) if m < 3 else float(r.randint(100)) if m == 3 else
            float('nan') if m == 4 and r.rand() < 0.3 else np.float64(r.rand()))


def run_logger(plan, ctx):
    g = plan['log']
    r = np.random.RandomState(g['seed'])
    logs = [OrderedDict((k, value(r)) for k in g['keys']) for _ in range(g['n'])]
    from hyperion.torch.loggers import CSVLogger, LoggerList
    cl = Cluster(ctx, plan, max_attempts=6)
    reports = {e: {'logs': logs[e]} for e in range(g['n'])}
    seen = []

    def rows():
        """Complete rows on disk, as the one who restarts would look at them."""
        import csv
        if not os.path.isfile(g['path']):
            return []
        with T.quiet():
            with open(g['path'], newline='') as f:
                txt = f.read()
        txt = txt[:txt.rfind('\n') + 1]
        return list(csv.reader(txt.splitlines(True), delimiter=g['sep']))

    def body(upto):
        def run():
            start = max(0, len(rows()) - 1)
            if start:
                ctx.probe('resumed')
            lg = LoggerList()
            lg.append(CSVLogger(g['path'], sep=g['sep'], append=True))
            done = []
            try:
                lg.on_train_begin(epochs=g['n'])
                for e in range(start, upto):
                    lg.on_epoch_begin(e, samples=10)
                    for b in range(2):
                        lg.on_batch_begin(b)
                        lg.on_batch_end(logs={'loss': 0.5}, batch_size=3)
                    lg.on_epoch_end(logs[e])
                    done.append(e)
                lg.on_train_end()
            finally:
                got = {x[0] for x in rows()[1:]}
                need = list(range(start)) + done
                lost = [e + 1 for e in need if str(e + 1) not in got]
                check(not lost, 'row-lost', lambda: 'epochs %s were logged, rows on disk are %s' % (
                    lost, sorted(got)))
                ctx.state(start, len(done), upto)
        return run
    stops = sorted(g['stop']) + [g['n']]
    for i, u in enumerate(stops):
        cl.run([('log%d' % i, body(u))])
    got = rows()
    with open(g['path'], newline='') as f:
        check(f.read().endswith('\n'), 'incomplete-row', 'the log ends without a newline')
    check(got and got[0] == ['epoch'] + g['keys'], 'wrong-header', lambda: '%s' % got[:1])
    check([x[0] for x in got[1:]] == [str(e + 1) for e in range(g['n'])], 'wrong-rows', lambda: 'rows '
          'of epochs %s, logged were 1..%d' % ([x[0] for x in got[1:]], g['n']))
    for x, lg in zip(got[1:], logs):
        for a, k in zip(x[1:], g['keys']):
            v = float(lg[k])
            check(abs(float(a) - v) <= 1e-6 * abs(v) or (v != v and a == 'nan'), 'wrong-value',
                  lambda: 'epoch %s %s: %s, logged %r' % (x[0], k, a, v))
    return [(name, o.n_mut, o.n_read, o.nbytes) for name, k, o in cl.history if k == 0]


# --------------------------------------------------------------------------- accumulator alone
def run_acc(plan, ctx):
    from hyperion.torch.utils import MetricAcc
    g = plan['acc']
    r = np.random.RandomState(g['seed'])
    acc = MetricAcc()
    batch = OrderedDict()
    for e, sizes in enumerate(g['epochs']):
        if e:
            if g['reset']:
                guard(acc.reset)
            else:
                acc = MetricAcc()
        vals, kept = [], None
        for b, n in enumerate(sizes):
            row = OrderedDict((k, float(r.randn() * g['scale'])) for k in g['keys'])
            vals.append(row)
            batch.update(row)              # the caller keeps one dictionary for all batches
            if b == len(sizes) - 1 and b and g['peek']:
                kept = (guard(lambda: acc.metrics), b)
            if n == 1 and b % 2:
                guard(acc.update, batch)
            else:
                guard(acc.update, batch, n)
        got = guard(lambda: acc.metrics)
        compare(got, vals, sizes, len(sizes), 'epoch %d' % e)
        if kept:
            compare(kept[0], vals, sizes, kept[1], 'report kept from an earlier batch')
    ctx.state(len(g['epochs']), g['reset'])
    return None


def compare(got, vals, sizes, n, where):
    check(list(got) == list(vals[0]), 'metric-missing', lambda: '%s: %s' % (where, list(got)))
    for k in vals[0]:
        w = sum(v[k] * s for v, s in zip(vals[:n], sizes[:n])) / float(sum(sizes[:n]))
        m = max(abs(v[k]) for v in vals[:n])
        check(abs(got[k] - w) <= 1e-9 * m, 'wrong-average', lambda: '%s: %s is %r, the average over '
              'the samples is %r' % (where, k, got[k], w))


def shrink(plan):
    if plan['mode'] == 'train':
        for k in ('refit', 'fresh'):
            if plan[k]:
                q = copy.deepcopy(plan)
                q[k] = False
                yield q
        for q in T.shrink(plan):
            yield q
    elif plan['mode'] == 'logger':
        g = plan['log']
        for kw in ([dict(stop=g['stop'][1:])] if g['stop'] else []) + \
                ([dict(keys=g['keys'][1:])] if len(g['keys']) > 1 else []) + \
                ([dict(n=g['n'] - 1, stop=[min(x, g['n'] - 1) for x in g['stop']])] if g['n'] > 1 else []):
            q = copy.deepcopy(plan)
            q['log'].update(kw)
            yield q
    else:
        for i, e in enumerate(plan['acc']['epochs']):
            if len(e) > 1:
                q = copy.deepcopy(plan)
                q['acc']['epochs'][i] = e[1:]
                yield q
