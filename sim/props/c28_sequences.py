"""C28: the sequence readers of the variational training programs serve every epoch the parts of the
sequences that their options define, each with its own label and posteriors, whatever reads at the
same time and whatever read fails; the evaluation of a UBM over a list counts every sequence once.

The reference states which parts of a sequence an epoch has (windows every so many frames, one for
what is left), where they come from and how often each is used."""
import copy
import gc
import os

import numpy as np

from sim import sched, storage as st
from sim.core import Violation, attempt, check, guard
from sim.disk import Disk
from sim.props import c24_evaluation as E
from sim.sched import Sched

RUNS = {'quick': 2500, 'thorough': 60000}
LISTS = ('faults', 'recs', 'switches', 'jobs')
STATE_RULE = 'reader, options, record lengths and the keys of the batches; for the program, its ' \
             'options and what happened to each part'
MODES = ['full', 'sequential', 'random_slice', 'random_samples', 'random_slice_1seq',
         'random_samples_1seq']
MUST_REACH = ['mode:' + m for m in MODES] + ['reader:' + r for r in ('seq', 'class', 'post',
                                                                     'postclass')] + [
    'epochs', 'threads', 'twin', 'padded', 'list', 'minimum', 'overlap', 'short-sequence',
    'exact-minimum', 'overlap-longer', 'last-window', 'preproc', 'part', 'walk', 'reset-rng',
    'shuffled', 'fault:eio-read', 'batch-refused', 'read-after-error', 'options', 'kind:ubm',
    'kind:ubm-kaldi', 'kind:kaldi-full', 'fault:crash', 'fault:eio-write', 'fault:enospc', 'retried',
    'failed-loudly', 'split', 'positions']
REAL = ['SequenceReader, SequenceClassReader, SequencePostReader, SequencePostClassReader',
        'HypDataReader, HypDataWriter, HDF5, SCPList', 'to3D_by_seq', 'threadsafe_generator and '
        'GeneratorQueue', 'eval-elbo-ubm (as a program, from its command line)', 'DiagGMM and its '
        'files, DiagGMM and GMM from Kaldi text files']
STUB = ['system calls below the buffers', 'thread scheduler, locks and clock', 'the shell that '
        'starts the program and retries it']
ASSUMPTIONS = ['options with which an epoch has no batch are not used', 'the minimum is not over the '
               'maximum', 'draws are judged to happen when they miss with a probability under 1e-9']
FILES = ['hyperion/helpers/sequence_reader.py', 'hyperion/helpers/sequence_post_reader.py',
         'hyperion/helpers/sequence_class_reader.py',
         'hyperion/helpers/sequence_post_class_reader.py', 'hyperion/io/hyp_data_reader.py',
         'hyperion/utils/queues.py', 'hyperion/utils/multithreading.py']


def setup():
    import hyperion.helpers      # noqa: F401
    import hyperion.pdfs         # noqa: F401
    import hyperion.transforms   # noqa: F401
    import hyperion.utils.queues  # noqa: F401
    sched.warm()


# ---------------------------------------------------------------------------------- the plan
def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 6, 9])
    lo = rng.choice([1, 2, 4, 10])
    hi = lo + rng.choice([0, 2, 5, 12, 30])
    nc = rng.randint(1, min(n, 4))
    style = rng.choice(['utt%02d', 's/u%d', 'x-%d', '%d', 'u.%d', 'u%d.x'])
    p = {'type': 'ubm' if rng.random() < 0.15 else 'read', 'dim': rng.choice([1, 2, 3]),
         'field': rng.choice(['', '', '.x', '/feat']), 'seed': rng.randint(0, 10 ** 6),
         'sep': rng.choice(['=', '=', ' ', ',']), 'recs': [], 'jobs': [], 'faults': []}
    for i in range(n):
        p['recs'].append({'key': style % i, 'len': rng.randint(lo, hi), 'seed': rng.randint(0, 10 ** 6),
                          'cls': i if i < nc else rng.randrange(nc), 'listed': True})
    for i in range(rng.choice([0, 0, 1, 2])):
        p['recs'].append({'key': style % (n + i), 'len': rng.randint(lo, hi), 'cls': 0,
                          'seed': rng.randint(0, 10 ** 6), 'listed': False})
    rng.shuffle(p['recs'])
    p['io'] = st.gen_io(rng)
    p['pre'] = rng.random() < 0.2
    if p['type'] == 'ubm':
        for i in range(rng.choice([1, 1, 2])):
            p['jobs'].append({'id': i, 'kind': rng.choice(['ubm', 'ubm-kaldi', 'kaldi-full']),
                              'seed': rng.randint(0, 10 ** 6), 'np': rng.randint(0, 10 ** 6),
                              'comp': rng.randint(1, 3), 'nparts': rng.randint(1, nc), 'fpart': 0,
                              'faults': []})
        return p
    p['reader'] = rng.choice(['seq', 'seq', 'class', 'post', 'postclass'])
    p['comp'], p['best'] = rng.choice([(1, 1), (4, 2), (6, 1), (5, 5)])
    m = rng.choice(MODES)
    if 'post' in p['reader'] and 'samples' in m:
        m = m.replace('samples', 'slice')
    p['mode'] = m
    o = {'batch_size': rng.choice([1, 1, 2, 3, 4, n]), 'seqr_seed': rng.choice([1024, 0, 7])}
    if rng.random() < 0.5:
        o['shuffle_seqs'] = False
    if rng.random() < 0.3:
        o['reset_rng'] = True
    mid = (lo + hi) // 2
    if m == 'full':
        o['min_seq_length'] = rng.choice([0, 1, rng.randint(lo, hi), p['recs'][0]['len']])
    else:
        o['seq_split_mode'] = m
        o['max_seq_length'] = rng.randint(max(1, lo // 2), max(1, rng.choice([mid, hi, hi + 3])))
        o['min_seq_length'] = rng.choice([1, rng.randint(1, o['max_seq_length']),
                                          o['max_seq_length']])
        if '1seq' not in m and o['max_seq_length'] > 1 and rng.random() < 0.5:
            o['seq_split_overlap'] = rng.randint(0, o['max_seq_length'] - 1)
    if rng.random() < 0.15:
        o['num_parts'] = rng.randint(2, max(2, nc))
        o['part_idx'] = rng.randint(1, o['num_parts'])
        if o['num_parts'] > nc:
            del o['num_parts'], o['part_idx']
    p['opts'] = o
    p['cli'] = rng.random() < 0.25
    p['3d'] = rng.random() < 0.6
    p['pad'] = rng.choice([0, 0, 3])
    p['twin'] = rng.random() < 0.3
    p['walk'] = rng.random() < 0.15
    p['epochs'] = rng.choice([1, 2, 2, 3])
    p['cap'] = rng.choice([12, 30, 60])
    p['threads'] = rng.choice([0, 0, 0, 1, 2, 3])
    if o.get('min_seq_length') == 1 and rng.random() < 0.5:
        del o['min_seq_length']
    if n <= 2 and m.startswith('random_slice'):
        p['epochs'], p['cap'], p['threads'] = 80, 80, 0
        o['batch_size'] = 1
        for rec in p['recs']:
            rec['len'] = max(o['max_seq_length'] + rng.choice([1, 1, 2]), o.get('min_seq_length', 1))
    p['limit'] = rng.choice([1, 3, 10])
    p['sched'] = sched.gen_cfg(rng, horizon=500)
    p['switches'] = None
    return p


def inject(plan, extra, rng, tier):
    if plan['type'] == 'ubm':
        yield from E.inject(plan, extra, rng, tier)
        return
    if not extra or plan['threads'] or not extra[1]:
        return
    lo, hi = extra
    for _ in range(1 if tier == 'quick' else 4):
        q = copy.deepcopy(plan)
        for _ in range(rng.choice([1, 1, 2, 4])):
            n = rng.randint(lo + 1, hi) if hi > lo and rng.random() < 0.8 else rng.randint(1, hi)
            q['faults'].append({'kind': 'eio_read', 'n': n, 'times': rng.choice([1, 1, 2, 5])})
        q['isolate'] = True
        yield q


def on_death(plan, status):
    return None


def shrink(plan):
    if plan['type'] == 'ubm':
        return
    for k in ('shuffle_seqs', 'reset_rng', 'num_parts', 'seq_split_overlap'):
        if k in plan['opts']:
            o = dict(plan['opts'])
            del o[k]
            o.pop('part_idx', 0) if k == 'num_parts' else None
            yield dict(plan, opts=o)
    for k, v in (('twin', False), ('walk', False), ('pre', False), ('dim', 1), ('pad', 0), ('cli', False),
                 ('field', ''), ('sep', '='), ('epochs', 1)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


# ---------------------------------------------------------------------------------- data
class Data(object):
    def __init__(self, plan):
        self.p = p = plan
        self.o = o = plan.get('opts', {})
        self.x, self.r, self.post, self.cls, self.len = {}, {}, {}, {}, {}
        for rec in p['recs']:
            g = np.random.RandomState(rec['seed'])
            k, L = rec['key'], rec['len']
            x = g.randint(-500, 500, (L, p['dim'])).astype('float32')
            x[:, 0] = np.arange(L) + 1 + 100 * (rec['seed'] % 997)
            self.x[k], self.len[k], self.cls[k] = x, L, rec['cls']
            if 'post' in p.get('reader', ''):
                idx = np.array([g.permutation(p['comp'])[:p['best']] for _ in range(L)])
                v = (g.randint(1, 100, idx.shape) / 128.).astype('float32')
                self.r[k] = (v, idx)
                d = np.zeros((L, p['comp']))
                for i in range(L):
                    d[i, idx[i]] = v[i]
                self.post[k] = d
        g = np.random.RandomState(p['seed'])
        ks = [rec['key'] for rec in p['recs'] if rec['listed']]
        self.list = [ks[i] for i in g.permutation(len(ks))]
        self.classes = ['c%d' % i for i in g.permutation(max([0] + list(self.cls.values())) + 2)]
        self.T, self.mu = None, None
        if p['pre']:
            d = p['dim']
            self.T = np.triu(g.randint(-3, 4, (d, d))).astype(float)
            self.T[np.diag_indices(d)] = 2
            self.mu = g.randint(-9, 10, d).astype(float)

    def pre(self, x):
        return x if self.T is None else (np.asarray(x, dtype=float) - self.mu) @ self.T

    def write(self):
        from hyperion.io.hyp_data_writer import HypDataWriter
        p = self.p
        with HypDataWriter('seq.h5') as w:
            ks = sorted(self.x, key=lambda k: self.x[k][0, 0])
            if p['field'] != '/feat':
                w.write(ks, '.other', [self.x[k] * 0 - 1 for k in ks])
            w.write(ks, p['field'], [self.x[k] for k in ks])
        if self.r:
            with HypDataWriter('post.h5') as w:
                for k in ks:
                    w.write(k, '.r', self.r[k][0])
                    w.write(k, '.index', self.r[k][1].astype('float32'))
        with open('list', 'w') as f:
            f.writelines('%s%s%s\n' % (self.name(k), p['sep'], k) for k in self.list)
        with open('classes', 'w') as f:
            f.writelines('%s 1\n' % c for c in self.classes)
        if self.T is not None:
            from hyperion.transforms import CentWhiten, TransformList
            TransformList(CentWhiten(mu=self.mu, T=self.T, name='t')).save('pre.h5')

    def name(self, k):
        return 'c%d' % self.cls[k]

    def open(self, kind='', **over):
        from hyperion import helpers as H
        p = self.p
        C = {'seq': H.SequenceReader, 'class': H.SequenceClassReader, 'post': H.SequencePostReader,
             'postclass': H.SequencePostClassReader}[p['reader']]
        o = dict(self.o)
        if kind:            # the extraction programs read every sequence whole
            o = {k: o[k] for k in ('num_parts', 'part_idx') if k in o}
        o.update(over)
        args = ['seq.h5', 'list']
        if 'post' in p['reader']:
            args.append('post.h5')
            o['num_comp'] = p['comp']
        if 'class' in p['reader']:
            args.append('classes')
        o.update(scp_sep=p['sep'], seq_field=p['field'])
        if p['cli']:
            o = self.command(C, o, kind)
        if self.T is not None:
            from hyperion.transforms import TransformList
            o['preproc'] = TransformList.load('pre.h5')
        return C(*args, **o)

    def command(self, C, o, kind=''):
        """The options as a program takes them."""
        import argparse
        pr = argparse.ArgumentParser()
        pre = [None, 'tr'][self.p['seed'] % 2]
        getattr(C, 'add_argparse_%sargs' % kind)(pr, prefix=pre)
        argv, rest = [], {}
        for k, v in o.items():
            if k in ('batch_size', 'reset_rng') or (kind and k == 'shuffle_seqs'):
                rest[k] = v
            elif k == 'shuffle_seqs':
                argv += [] if v else ['--%sno-shuffle-seqs' % ('tr-' if pre else '')]
            else:
                argv += ['--%s%s=%s' % ('tr-' if pre else '', k.replace('_', '-'), v)]
        try:
            v = pr.parse_args(argv)
        except SystemExit:
            raise Violation('options-refused', 'the options %s are refused' % argv)
        out = getattr(C, 'filter_%sargs' % kind)(prefix=pre, **vars(v))
        out.update(rest)
        return out

    # ---- what the options define
    def parts(self, k):
        """(first rows of the windows, rows of each) of a sequence; None where drawn at random."""
        L, o = self.len[k], self.o
        mn = o.get('min_seq_length', 1)
        if self.p['mode'] == 'full':
            return [(0, L)] if L >= mn else []
        mx = o['max_seq_length']
        if '1seq' in self.p['mode']:
            return [(None, min(mx, L))] if L >= mn else []
        sh = mx - o.get('seq_split_overlap', 0)
        w = [(s, mx) for s in range(0, L - mx + 1, sh)]
        left = L - len(w) * sh
        if left >= mn:
            w.append((len(w) * sh, min(mx, left)))
        if self.p['mode'] != 'sequential':
            w = [(None, mx if len(w) > 1 else min(mx, L)) for _ in w]
        return w

    def uses(self, ks):
        return {k: self.parts(k) for k in ks}


# ---------------------------------------------------------------------------------- batches
class Watch(object):
    def __init__(self, ds, ctx, ks):
        self.ds, self.ctx, self.ks = ds, ctx, ks
        self.parts = ds.uses(ks)
        self.total = sum(len(v) for v in self.parts.values())
        self.B = ds.o['batch_size']
        self.starts = {}
        self.orders = []
        self.nth = {k: {} for k in ks}
        self.epoch()

    def epoch(self):
        self.count = {k: 0 for k in self.ks}
        self.seq = []

    def batch(self, b, ordered=True):
        ds, p, B = self.ds, self.ds.p, self.B
        r = list(b)
        post, cls = 'post' in p['reader'], 'class' in p['reader']
        want = 2 + post + cls + p['3d']
        check(len(r) == want, 'wrong-batch', lambda: 'a batch has %d parts, should have %d' % (
            len(r), want))
        y = np.asarray(r.pop()) if cls else None
        keys = [str(k) for k in r.pop()]
        check(len(keys) == B, 'wrong-batch', lambda: '%d sequences in a batch of %d' % (len(keys), B))
        for k in keys:
            check(k in self.parts and self.parts[k], 'not-eligible', lambda: 'sequence %s should not be '
                  'used' % k)
        w = np.asarray(r.pop()) if p['3d'] else None
        xs = self.unpack(r[0], w, keys, p['dim'])
        rs = self.unpack(r[1], w, keys, p['comp']) if post else [None] * B
        for i, k in enumerate(keys):
            self.one(k, xs[i], rs[i], ordered)
        if cls:
            t = np.zeros((B, len(ds.classes)))
            for i, k in enumerate(keys):
                t[i, ds.classes.index(ds.name(k))] = 1
            check(np.array_equal(y, t), 'wrong-label', lambda: 'sequences %s have labels %s' % (
                keys, np.asarray(y).tolist()))
        return keys

    def unpack(self, x, w, keys, dim):
        p = self.ds.p
        check(len(x) == len(keys), 'wrong-batch', lambda: '%d arrays for %d keys' % (len(x), len(keys)))
        if w is None:
            return [np.asarray(v) for v in x]
        out = []
        x = np.asarray(x)
        check(x.ndim == 3 and x.shape[2] == dim and w.shape == x.shape[:2], 'wrong-batch', lambda:
              'shapes %s and %s' % (x.shape, w.shape))
        if p['pad']:
            check(x.shape[1] == self.top() + p['pad'], 'wrong-batch', lambda: 'a batch of length %d, %d '
                  'was asked for' % (x.shape[1], self.top() + p['pad']))
        for i in range(len(keys)):
            n = int(np.sum(w[i] != 0))
            check(np.all(w[i, :n] == 1) and np.all(w[i, n:] == 0), 'wrong-weight', lambda: 'weights '
                  '%s' % w[i])
            check(np.all(x[i, n:] == 0), 'wrong-padding', lambda: 'rows after the %d of %s are not '
                  'zero' % (n, keys[i]))
            out.append(x[i, :n])
        return out

    def top(self):
        return max([1] + [n for v in self.parts.values() for _, n in v])

    def one(self, k, x, r, ordered):
        """One sequence of a batch against its record."""
        ds, p = self.ds, self.ds.p
        rec = np.asarray(ds.x[k], dtype=float)
        n = len(x)
        sizes = [s for _, s in self.parts[k]]
        check(x.ndim == 2 and x.shape[1] == rec.shape[1] and n in sizes, 'wrong-length',
              lambda: 'a sequence of shape %s of %s (%d rows), should have %s rows' % (
                  x.shape, k, len(rec), sorted(set(sizes))))
        i0 = 0 if ds.mu is None else ds.mu[0]
        t0 = 1 if ds.T is None else ds.T[0, 0]
        rows = [int(round(float(v) / t0 + i0 - rec[0, 0])) for v in x[:, 0]]
        check(all(0 <= v < len(rec) for v in rows), 'wrong-rows', lambda: 'values of %s which are not '
              'of this sequence: %s' % (k, x[:, 0]))
        want = ds.pre(rec[rows])
        check(np.allclose(x, want, rtol=1e-5, atol=1e-3), 'wrong-rows', lambda: 'rows of %s are not as '
              'stored%s' % (k, ' and transformed' if p['pre'] else ''))
        if 'samples' in p['mode']:
            check(rows == sorted(rows), 'wrong-rows', lambda: 'samples of %s are not in time order: %s' %
                  (k, rows))
        else:
            check(rows == list(range(rows[0], rows[0] + n)), 'wrong-rows', lambda: 'rows %s of %s are '
                  'not consecutive' % (rows, k))
            if r is not None:
                check(r.shape == ds.post[k][rows].shape and np.allclose(r, ds.post[k][rows]), 'wrong-posteriors', lambda: 'the posteriors of '
                      '%s are not those of its rows %d to %d' % (k, rows[0], rows[0] + n))
        c = self.count[k]
        if p['mode'] in ('full', 'sequential'):
            if ordered:
                check(c < len(self.parts[k]), 'wrong-usage', lambda: 'sequence %s is used %d times in '
                      'an epoch, has %d parts' % (k, c + 1, len(self.parts[k])))
                check((rows[0], n) == self.parts[k][c], 'wrong-window', lambda: 'window %d of %s has '
                      'rows %d to %d, should have %d to %d' % ((c, k, rows[0], rows[0] + n) + (
                          self.parts[k][c][0], sum(self.parts[k][c]))))
            else:
                check((rows[0], n) in self.parts[k], 'wrong-window', lambda: 'rows %d to %d of %s are no '
                      'window: %s' % (rows[0], rows[0] + n, k, self.parts[k]))
                u = self.nth[k]
                u[rows[0]] = u.get(rows[0], 0) + 1
        elif n < len(rec):
            self.starts.setdefault(k, []).append(rows[0])
        self.count[k] += 1

    def next(self, b):
        for k in self.batch(b):
            self.seq.append(k)
            n = self.count[k]
            check(n <= len(self.parts[k]), 'wrong-usage', lambda: 'sequence %s is used %d times in an '
                  'epoch, has %d parts' % (k, n, len(self.parts[k])))
            for q, c in self.count.items():
                check(c >= min(n - 1, len(self.parts[q])) or '1seq' in self.ds.p['mode'], 'wrong-turn',
                      lambda: 'sequence %s is used %d times before %s is used %d times' % (k, n, q, n - 1))
        if self.ds.o.get('shuffle_seqs') is False:
            e = self.expected()[:len(self.seq)]
            check(self.seq == e, 'wrong-order', lambda: 'sequences %s, the list has %s' % (self.seq, e))

    def expected(self):
        top = max(len(v) for v in self.parts.values())
        return [k for t in range(top) for k in self.ks if len(self.parts[k]) > t]

    def end_epoch(self):
        left = self.total - len(self.seq)
        check(0 <= left < self.B, 'wrong-usage', lambda: '%d sequences in an epoch of %d in batches of '
              '%d' % (len(self.seq), self.total, self.B))
        self.orders.append(tuple(self.seq))
        self.epoch()

    def end(self):
        """Draws happen."""
        ds = self.ds
        n = sum(1 for k in self.ks if self.parts[k])
        full = [o for o in self.orders if len(o) >= n - self.B]
        if ds.o.get('shuffle_seqs', True) and not ds.o.get('reset_rng') and n >= 9 and self.B <= 2 and len(full) >= 3:
            self.ctx.probe('shuffled')
            check(len(set(full)) > 1, 'not-shuffled', lambda: 'all epochs have the order %s' % (full[0],))
        if 'slice' in ds.p['mode'] and not ds.o.get('reset_rng'):
            for k, s in self.starts.items():
                m = ds.len[k] - self.parts[k][0][1] + 1
                if m > 1 and m * (1 - 1. / m) ** len(s) < 1e-9:
                    self.ctx.probe('positions')
                    check(set(s) == set(range(m)), 'wrong-window', lambda: 'the windows of %s start at '
                          '%s only, in %d draws' % (k, sorted(set(s)), len(s)))


def canon(b):
    out = []
    for v in b:
        if isinstance(v, list) or (isinstance(v, np.ndarray) and v.dtype.kind in 'OUS'):
            out.append([x if isinstance(x, str) else (np.shape(x), np.asarray(x).tobytes()) for x in v])
        else:
            out.append((np.shape(v), np.asarray(v).tobytes()))
    return out


def get(ds, g, w):
    if ds.p['3d']:
        return g.read(return_3d=True, max_seq_length=w.top() + ds.p['pad'] if ds.p['pad'] else 0)
    return g.read()


# ---------------------------------------------------------------------------------- one run
def run(plan, ctx):
    if plan['type'] == 'ubm':
        return UBM(plan, ctx).run()
    ds = Data(plan)
    if not ds.list:
        return None
    with Disk(ctx, ctx.root, plan['io']):
        ds.write()
        gc.collect()
    o = plan['opts']
    ks = ds.list
    if 'num_parts' in o:
        ks = part(plan, ctx, ds)
    w = Watch(ds, ctx, ks)
    if w.total < w.B:
        return None
    ctx.probe('mode:' + plan['mode'])
    ctx.probe('reader:' + plan['reader'])
    mn = o.get('min_seq_length', 1)
    for name, on in (
            ('minimum', mn > 1), ('overlap', o.get('seq_split_overlap')), ('padded', plan['3d']),
            ('list', not plan['3d']), ('preproc', plan['pre']), ('options', plan['cli']),
            ('short-sequence', any(not v for v in w.parts.values())),
            ('exact-minimum', any(ds.len[k] == mn for k in ks)),
            ('overlap-longer', any(ds.len[k] < o.get('seq_split_overlap', 0) for k in ks)),
            ('last-window', any(len(v) > 1 and v[-1][1] < v[0][1] for v in w.parts.values()))):
        if on:
            ctx.probe(name)
    ctx.state(plan['reader'], plan['mode'], sorted(o.items()), plan['3d'],
              tuple((r['key'], r['len'], r['cls']) for r in plan['recs']))
    if plan['threads']:
        return threads(plan, ctx, ds, w)
    with Disk(ctx, ctx.root, plan['io'], plan['faults']) as d:
        g, e = attempt(ds.open)
        if e is not None:
            check(d.failed, 'unexpected-exception', lambda: 'the reader is refused: %r' % (e,))
            return None
        n0 = d.n_read
        nb, e = attempt(lambda: g.num_batches)
        if e is not None:
            check(d.failed, 'unexpected-exception', lambda: 'num_batches raises %r' % (e,))
            return None
        check(nb == w.total // w.B, 'wrong-steps', lambda: '%d batches in an epoch, should be %d' % (
            nb, w.total // w.B))
        check(g.num_seqs == len(ks) and g.num_total_subseqs == w.total and g.total_length ==
              sum(ds.len[k] for k in ks), 'wrong-steps', lambda: '%d sequences in %d parts, %d rows; '
              'should be %d in %d, %d rows' % (g.num_seqs, g.num_total_subseqs, g.total_length, len(ks),
                                               w.total, sum(ds.len[k] for k in ks)))
        t = u = None
        if plan['twin'] and not plan['faults']:
            ctx.probe('twin')
            t, u = ds.open(), ds.open(seqr_seed=99)
        if plan['walk']:
            walk(plan, ctx, ds, ks, d)
        steps(plan, ctx, ds, w, d, g, nb, t, u)
        return [n0, d.n_read]


def steps(plan, ctx, ds, w, d, g, nb, t, u):
    o = plan['opts']
    cap, lost, hist, first = plan['cap'], False, [], None
    np.random.seed(plan['seed'])
    for ep in range(plan['epochs']):
        if ep:
            ctx.probe('epochs')
        this = []
        for i in range(nb):
            if cap <= 0:
                break
            cap -= 1
            if u is not None and i % 2:
                get(ds, u, w)
                np.random.rand()
            f0 = len(d.failed)
            b, e = attempt(get, ds, g, w)
            if e is not None:
                check(len(d.failed) > f0 or lost, 'unexpected-exception', lambda: 'read %d of an '
                      'epoch of %d raises %s: %s' % (i, nb, type(e).__name__, str(e)[:200]))
                ctx.probe('batch-refused')
                lost = True
                hist.append('!')
                continue
            if lost:
                ctx.probe('read-after-error')
                hist.append(tuple(w.batch(b, False)))
                continue
            n = len(w.seq)
            w.next(b)
            hist.append(tuple(w.seq[n:]))
            c = canon(b)
            this.append(c)
            if t is not None:
                check(canon(get(ds, t, w)) == c, 'not-repeatable', lambda: 'batch %d of epoch %d of two '
                      'readers with the same options differs' % (i, ep))
        else:
            if not lost:
                w.end_epoch()
            if o.get('reset_rng') and o.get('shuffle_seqs') is False and not lost:
                if first is not None:
                    ctx.probe('reset-rng')
                    check(this == first, 'not-repeatable', 'an epoch after the reset differs')
                first = this
            continue
        break
    if not lost:
        w.end()
    ctx.state(tuple(hist))


def part(plan, ctx, ds):
    """The parts of the list: together the list, classes kept together."""
    ctx.probe('part')
    o = plan['opts']
    got = []
    mine = None
    for i in range(1, o['num_parts'] + 1):
        with Disk(ctx, ctx.root, plan['io']):
            g = guard(ds.open, part_idx=i)
            ks = [str(k) for k in g.scp.file_path]
        if i == o['part_idx']:
            mine = ks
        got.append(ks)
    check(sorted(sum(got, [])) == sorted(ds.list), 'wrong-list', lambda: 'parts %s of the list %s' % (
        got, ds.list))
    for a in range(len(got)):
        for b in range(a):
            s = set(ds.name(k) for k in got[a]) & set(ds.name(k) for k in got[b])
            check(not s, 'wrong-list', lambda: 'classes %s are in two parts' % s)
    return mine


def walk(plan, ctx, ds, ks, d):
    """read_next_seq goes through the list."""
    ctx.probe('walk')
    g, e = attempt(ds.open, 'eval_', shuffle_seqs=False)
    if e is not None:
        check(d.failed, 'unexpected-exception', lambda: 'the reader is refused: %r' % (e,))
        return
    for k in ks:
        f0 = len(d.failed)
        b, e = attempt(g.read_next_seq)
        if e is not None:
            check(len(d.failed) > f0, 'unexpected-exception', lambda: 'read_next_seq raises %r' % (e,))
            continue
        b = list(b)
        q = str(b.pop())
        check(q == k, 'wrong-order', lambda: 'sequence %s, the list has %s' % (q, k))
        check(np.shape(b[0]) == ds.x[k].shape and np.allclose(b[0], ds.pre(ds.x[k]), rtol=1e-5,
                                                             atol=1e-3), 'wrong-rows',
              lambda: 'the rows of %s are not as stored' % k)
        if len(b) > 1:
            check(np.allclose(b[1], ds.post[k]), 'wrong-posteriors', lambda: 'the posteriors of %s are '
                  'not as stored' % k)


def threads(plan, ctx, ds, w):
    ctx.probe('threads')
    s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
              max_steps=600000)
    s.run(lambda: consume(plan, ctx, ds, w))
    for name, e in s.errors:
        raise Violation('worker-error', '%s: %r' % (name, e))


def consume(plan, ctx, ds, w):
    """As the training programs: a generator shared by the threads of a queue."""
    from hyperion.utils.multithreading import threadsafe_generator
    from hyperion.utils.queues import GeneratorQueue
    with Disk(ctx, ctx.root, plan['io']):
        g = ds.open()

        @threadsafe_generator
        def source():
            while True:
                yield get(ds, g, w)
        nb = g.num_batches
        q = GeneratorQueue(source())
        q.start(workers=plan['threads'], max_queue_size=plan['limit'])
        it = q.get()
        hist = []
        for i in range(min(plan['cap'], 12)):
            b = next(it, None)
            check(b is not None, 'ended-early', 'the queue ends, but the generator goes on')
            if plan['threads'] == 1:
                w.next(b)
                if (i + 1) % nb == 0:
                    w.end_epoch()
            else:
                w.batch(b, False)
            hist.append(tuple(str(v) for v in b[-2 if 'class' in plan['reader'] else -1]))
        q.stop()
        ctx.state(tuple(hist))


# ---------------------------------------------------------------------------------- eval-elbo-ubm
class UBM(E.Run):
    """The program that evaluates a mixture over a list, in parts."""

    def run(self):
        self.ds = ds = Data(self.p)
        if not ds.list:
            return None
        with Disk(self.ctx, self.ctx.root, self.p['io']):
            ds.write()
            gc.collect()
        for j in self.p['jobs']:
            self.ctx.probe('kind:' + j['kind'])
            getattr(self, 'full' if j['kind'] == 'kaldi-full' else 'ubm')(j)
        return self.info

    def model(self, j, full=False):
        r = np.random.RandomState(j['seed'])
        d, K = self.p['dim'], j['comp']
        pi = r.randint(1, 9, K) / 1.
        pi = pi / pi.sum()
        mu = np.array([self.ds.pre(self.ds.x[self.ds.list[i % len(self.ds.list)]][0]) for i in range(K)])
        mu = mu + r.randint(-3, 4, (K, d))
        if full:
            P = np.zeros((K, d, d))
            for k in range(K):
                A = r.randint(-2, 3, (d, d))
                P[k] = (A @ A.T + np.eye(d)) / 16.
        else:
            P = r.randint(1, 9, (K, d)) / 64.
        return pi, mu, P

    def terms(self, x, pi, mu, P):
        """log of weight and density of each component, by definition."""
        x = np.asarray(x, dtype=float)
        out = np.zeros((len(x), len(pi)))
        for k in range(len(pi)):
            S = P[k] if P.ndim == 3 else np.diag(P[k])
            z = x - mu[k]
            out[:, k] = np.log(pi[k]) + 0.5 * (np.linalg.slogdet(S)[1] - len(mu[k]) * np.log(2 * np.pi) -
                                               np.sum((z @ S) * z, 1))
        return out

    def bound(self, x, m):
        t = self.terms(x, *m)
        r = np.exp(t - t.max(1, keepdims=True))
        r /= r.sum(1, keepdims=True)
        return np.sum(r * t)

    def kaldi(self, pi, mu, P, name):
        """A mixture in the text format of Kaldi."""
        full = P.ndim == 3
        n = 'FullGMM' if full else 'DiagGMM'
        v = lambda a: ' '.join(repr(float(x)) for x in a)
        L = ['<%s> ' % n, '<GCONSTS>  [ %s ]' % v(pi * 0), '<WEIGHTS>  [ %s ]' % v(pi)]
        L.append('<MEANS_INV%s>  [' % ('COVARS' if full else 'VARS'))
        m = [P[k] @ mu[k] if full else P[k] * mu[k] for k in range(len(pi))]
        L += ['  ' + v(a) + ' ' + (']' if k == len(pi) - 1 else '') for k, a in enumerate(m)]
        if full:
            for k in range(len(pi)):
                L.append('<INV_COVARS>  [' if k == 0 else '[')
                L += [v(P[k, i, :i + 1]) + ' ' + (']' if i == len(mu[k]) - 1 else '')
                      for i in range(len(mu[k]))]
        else:
            L.append('<INV_VARS>  [')
            L += ['  ' + v(a) + ' ' + (']' if k == len(pi) - 1 else '') for k, a in enumerate(P)]
        L.append('</%s> ' % n)
        self.text(name, L)

    def full(self, j):
        from hyperion.pdfs import GMM
        m = self.model(j, True)
        with Disk(self.ctx, self.ctx.root, self.p['io']):
            self.kaldi(*m, name='full')
            g = guard(GMM.load_from_kaldi, 'full')
            guard(g.initialize)
        for k in self.ds.list[:2]:
            x = self.ds.pre(self.ds.x[k])
            t = self.terms(x, *m)
            want = E.lse(t)[:, 0]
            got = guard(g.log_prob, x.astype('float32'), mode='std')
            check(np.allclose(got, want, rtol=1e-3, atol=2e-2 * max(1, np.abs(want).max() * 1e-2)),
                  'wrong-model', lambda: 'log probabilities %s, should be %s' % (got, want))
        self.ctx.state('kaldi-full', j['comp'])

    def ubm(self, j):
        from hyperion.pdfs import DiagGMM
        from sim import scripts
        p, ds = self.p, self.ds
        m = self.model(j)
        name = 'ubm%d' % j['id']
        with Disk(self.ctx, self.ctx.root, p['io']):
            if j['kind'] == 'ubm':
                g = DiagGMM(x_dim=p['dim'], pi=m[0], mu=m[1], Lambda=m[2])
                g.initialize()
                g.save(name)
            else:
                self.kaldi(*m, name=name)
        got = []
        n = min(j['nparts'], len(set(ds.cls[k] for k in ds.list)))
        for part in range(n):
            out = 'elbo%d.%d' % (j['id'], part)
            a = ['--seq-file', 'seq.h5', '--file-list', 'list', '--model-file', name, '--output-file', out,
                 '--scp-sep', p['sep'], '--seq-field', p['field']]
            if j['kind'] != 'ubm':
                a += ['--ubm-type', 'kaldi-diag-gmm']
            if p['pre']:
                a += ['--preproc-file', 'pre.h5']
            if n > 1:
                self.ctx.probe('split')
                a += ['--part-idx', part + 1, '--num-parts', n]

            def body():
                scripts.main('eval-elbo-ubm.py', a)

            def verify():
                got.append(open(out).read())
            self.job(j, body, None, verify, [out], part)
        tot = frames = 0
        for s in got:
            f = s.split()
            check(len(f) == 5 and f[:2] == ['Total', 'ELBO:'] and f[3] == 'ELBO_NORM', 'wrong-report',
                  lambda: 'the report is %r' % s)
            tot += float(f[2])
            frames += float(f[2]) / float(f[4])
        want = sum(self.bound(ds.pre(ds.x[k]), m) for k in ds.list)
        fr = sum(ds.len[k] for k in ds.list)
        check(abs(tot - want) <= 1e-3 * max(1, abs(want)), 'wrong-report', lambda: 'the total of %s is %r, '
              'should be %r' % (got, tot, want))
        check(abs(frames - fr) <= 1e-3 * fr + 1e-4, 'wrong-report', lambda: '%s is for %r frames, there '
              'are %d' % (got, frames, fr))
        self.ctx.state(j['kind'], n, p['pre'], tuple(sorted(self.info.get(str(j['id']), []))))
