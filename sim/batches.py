"""Data sets, options and the reference model of the training batch generators (C13, C14)."""
import math
import random

import numpy as np

from .core import Violation, check


def gen(rng):
    n = rng.choice([1, 2, 3, 5, 6, 8, 11])
    lo = rng.choice([1, 4, 10])
    hi = lo + rng.choice([0, 3, 10, 30])
    nc = rng.randint(1, min(n, 4))
    style = rng.choice(['utt%02d', 's/u%d', 'x-%d', '%d'])
    recs = []
    for i in range(n):
        recs.append({'key': style % i, 'len': rng.randint(lo, hi), 'listed': True,
                     'cls': i if i < nc else rng.choice([0, rng.randrange(nc)]),
                     'seed': rng.randint(0, 10 ** 6)})
    for i in range(rng.choice([0, 0, 1, 3])):
        recs.append({'key': style % (n + i), 'len': rng.randint(lo, hi + 5), 'listed': False,
                     'cls': 0, 'seed': rng.randint(0, 10 ** 6)})
    rng.shuffle(recs)
    g = rng.choice(['v1', 'v1', 'v2'])
    plan = {'recs': recs, 'dim': rng.choice([1, 2, 3]), 'gen': g, 'list_seed': rng.randint(0, 10 ** 6),
            'fmt': rng.choice(['scp:ark', 'scp:ark', 'scp:h5', 'h5']), 'norm': rng.random() < 0.15,
            'class_list': None, 'extra_classes': 0, 'cut_scp': rng.random() < 0.15}
    o = {'batch_size': rng.choice([1, 2, 3, 4, n, 2 * n]), 'sg_seed': rng.choice([1024, 0, 7]),
         'iters_per_epoch': rng.choice(['auto', 'auto', 1, 1, 2, 5])}
    m = rng.random()
    mid = (lo + hi) // 2
    if m < 0.6:
        a = rng.randint(max(1, lo // 2), max(1, mid))
        o['min_seq_length'] = a
        o['max_seq_length'] = rng.randint(a, max(a, hi))
    elif m < 0.7:
        o['max_seq_length'] = hi
    elif m < 0.8:
        o['min_seq_length'] = rng.randint(1, lo)
    if rng.random() < 0.3:
        o['prune_min_length'] = rng.randint(1, max(1, mid + 1))
    if rng.random() < 0.15:
        o['return_class'] = False
    if rng.random() < 0.15:
        o['reset_rng'] = True
    if rng.random() < 0.2:
        plan['class_list'] = rng.randint(0, 10 ** 6)
        plan['extra_classes'] = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.15 and n > 2:
        o['num_parts'] = rng.choice([2, 3])
        o['part_idx'] = rng.randint(1, o['num_parts'])
    if g == 'v1':
        o['gen_method'] = rng.choice(['random', 'random', 'sequential', 'sequential', 'full_seqs'])
        o['shuffle_seqs'] = rng.random() < 0.7
        if o['gen_method'] == 'sequential':
            if rng.random() < 0.5:
                o['seq_overlap'] = rng.randint(0, 3)
            o['seq_weight'] = rng.choice(['balanced', 'unbalanced'])
        if rng.random() < 0.35:
            o['class_weight'] = 'balanced'
            o['max_class_imbalance'] = rng.choice([1, 2, 4])
        if o['gen_method'] == 'full_seqs':
            o.pop('max_seq_length', None)
            o.pop('min_seq_length', None)
    else:
        o['num_egs_per_class'] = rng.choice([1, 1, 2, 3])
        o['num_egs_per_utt'] = rng.choice([1, 1, 2])
        if rng.random() < 0.25:
            o['return_utt1hot'] = True
    plan['opts'] = o
    plan['squeeze'] = rng.random() < 0.7
    plan['cli'] = rng.random() < 0.2
    plan['pad'] = rng.choice([0, 0, 3])
    return plan


def shrink(plan):
    """Simpler data sets and options; deleting records is in LISTS."""
    for k in ('prune_min_length', 'num_parts', 'class_weight', 'reset_rng', 'seq_overlap',
              'return_utt1hot', 'shuffle_seqs'):
        if k in plan['opts']:
            o = dict(plan['opts'])
            del o[k]
            if k == 'num_parts':
                del o['part_idx']
            yield dict(plan, opts=o)
    for k, v in (('norm', False), ('class_list', None), ('cut_scp', False), ('dim', 1), ('pad', 0)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def command(C, o, prefix, direct=()):
    """Options as a program takes them: those its command line has go through it."""
    import argparse
    parser = argparse.ArgumentParser()
    C.add_argparse_args(parser, prefix=prefix)
    p = prefix + '_' if prefix else ''
    flags = {a.dest: a for a in parser._actions}
    argv, rest = [], {}
    for k, v in o.items():
        a = flags.get(p + k)
        if a is None or k in direct:
            rest[k] = v
        elif a.nargs == 0:
            if bool(v) == bool(a.const):
                argv.append(a.option_strings[0])
        elif v is not None:
            argv += ['%s=%s' % (a.option_strings[0], x) for x in [v]]
    try:
        v = parser.parse_args(argv)
    except SystemExit:
        raise Violation('options-refused', 'the options %s are refused' % argv)
    out = C.filter_args(prefix=prefix, **vars(v))
    for k in o:
        check(k in rest or k in out or k[:3] == 'no_', 'option-lost', lambda: 'the option %s=%r does not reach %s' % (
            k, o[k], C.__name__))
    out.update(rest)
    return out


def array(r, dim):
    """Record content: every row is distinct, so that a slice tells where it comes from."""
    g = np.random.RandomState(r['seed'])
    x = g.randint(-1000, 1000, (r['len'], dim)).astype(np.float32)
    x[:, 0] = np.arange(r['len']) + 1 + 100 * (r['seed'] % 997)
    return x


class DataSet(object):
    """The files of a run and what the generator may make of them."""

    def __init__(self, plan):
        self.plan = plan
        self.o = o = plan['opts']
        recs = plan['recs']
        self.x = {r['key']: array(r, plan['dim']) for r in recs}
        self.keys = [r['key'] for r in recs]
        listed = [r for r in recs if r['listed']]
        random.Random(plan['list_seed']).shuffle(listed)
        self.list = [r['key'] for r in listed]
        self.cls = {r['key']: 'c%d' % r['cls'] for r in listed}
        self.mean = np.arange(plan['dim'], dtype=float) + 0.5 if plan['norm'] else None
        # --- what the options let in
        ks, n = self.list, o.get('num_parts', 1)
        if n > 1:
            i = o['part_idx']
            ks = ks[(i - 1) * len(ks) // n:i * len(ks) // n]
        self.len = {r['key']: r['len'] for r in recs}
        ks = [k for k in ks if self.len[k] >= o.get('prune_min_length', 0)]
        self.ok = ks
        self.classes = sorted(set(self.cls[k] for k in ks))
        self.nonempty = list(self.classes)
        if plan['class_list'] is not None:
            l = sorted(set(self.cls.values())) + ['zz%d' % i for i in range(plan['extra_classes'])]
            random.Random(plan['class_list']).shuffle(l)
            self.classes = l
        if not ks:
            return
        ll = [self.len[k] for k in ks]
        self.min = o.get('min_seq_length', min(ll))
        self.max = o.get('max_seq_length', max(ll))
        # multiplicity of every key in one pass: (low, high), and list length
        self.mult = {k: (1, 1) for k in ks}
        self.total = len(ks)
        self.per_class = {c: sum(self.cls[k] == c for k in ks) for c in self.nonempty}
        self.dup = False
        if o.get('class_weight') == 'balanced' and plan['gen'] == 'v1':
            top = int(math.ceil(max(self.per_class.values()) / float(o.get('max_class_imbalance', 2))))
            self.total = 0
            for c, m in list(self.per_class.items()):
                t = max(m, top)
                self.total += t
                self.per_class[c] = t
                for k in ks:
                    if self.cls[k] == c:
                        self.mult[k] = (t // m, -(-t // m))
                        self.dup = self.dup or t > m
        self.subs = None
        if o.get('gen_method') == 'sequential':
            self.shift = int((self.max + self.min) / 2) - o.get('seq_overlap', 0)
            if self.shift > 0:
                self.subs = {k: -(-self.len[k] // self.shift) for k in ks}
        self.iters = o['iters_per_epoch']
        if self.iters == 'auto':
            if plan['gen'] == 'v1' and o['gen_method'] != 'random':
                self.iters = 1
            elif self.dup and len(set(ll)) > 1:
                self.iters = None                 # depends on which copies are in the list
            else:
                self.iters = int(math.ceil(np.mean(ll) / int((self.max + self.min) / 2)))

    def valid(self):
        """False when the options make no epoch: the generator may refuse them."""
        if not self.ok or self.min > self.max:
            return False
        if self.o.get('gen_method') == 'sequential' and self.subs is None:
            return False
        if self.o.get('gen_method') == 'full_seqs' and self.o['batch_size'] > self.total:
            return False
        s = self.steps()
        return s is None or s > 0

    def steps(self):
        """Batches per epoch, None when the model does not say."""
        o = self.o
        if self.iters is None:
            return None
        if self.plan['gen'] == 'v2':
            return int(math.ceil(self.iters * self.total / float(o['batch_size'])))
        n = self.total
        if self.subs:
            if self.o.get('seq_weight', 'balanced') == 'balanced':
                n = self.total * max(self.subs.values())
            elif self.dup:
                return None
            else:
                n = sum(self.subs.values())
        return int(self.iters * n // o['batch_size'])

    def write(self):
        from hyperion.io import DataWriterFactory as W
        f = self.plan['fmt']
        spec = {'scp:ark': 'ark,scp:d.ark,d.scp', 'scp:h5': 'h5,scp:d.h5,d.scp', 'h5': 'h5:d.h5'}[f]
        # the script may cut records: what the generator sees is the cut record
        cut = self.plan['cut_scp'] and f == 'scp:ark'
        pre = 3 if cut else 0
        with W.create(spec) as w:
            for k in self.keys:
                x = self.x[k]
                if cut:
                    x = np.vstack((x[:1] * 0 - 7, x[:1] * 0 - 8, x[:1] * 0 - 9, x, x[:1] * 0 - 5))
                w.write([k], [x])
        if cut:
            from hyperion.utils.scp_list import SCPList
            s = SCPList.load('d.scp')
            with open('d.scp', 'w') as g:
                for i, k in enumerate(s.key):
                    g.write('%s %s:%d[%d:%d]\n' % (k, s.file_path[i], s.offset[i], pre,
                                                   pre + self.len[k]))
        with open('u2c', 'w') as g:
            for k in self.list:
                g.write('%s %s\n' % (k, self.cls[k]))
        if self.plan['class_list'] is not None:
            with open('classes', 'w') as g:
                g.writelines('%s\n' % c for c in self.classes)
        self.rspec = 'h5:d.h5' if f == 'h5' else 'scp:d.scp'

    def open(self, **over):
        from hyperion.generators import SequenceBatchGeneratorV1, SequenceBatchGeneratorV2
        o = dict(self.o)
        o.update(over)
        if self.plan['class_list'] is not None:
            o['class_list'] = 'classes'
        if self.mean is not None:
            from hyperion.transforms import CentWhiten
            o['transform'] = CentWhiten(mu=self.mean, T=np.eye(self.plan['dim']))
        c = SequenceBatchGeneratorV1 if self.plan['gen'] == 'v1' else SequenceBatchGeneratorV2
        if self.plan.get('cli'):
            o = command(c, o, [None, 'tr'][self.plan['list_seed'] % 2])
        return c(self.rspec, 'u2c', **o)

    def read(self, g):
        if self.plan['squeeze'] and self.plan['pad']:
            return g.read(max_seq_length=self.max + self.plan['pad'])
        return g.read(squeeze=self.plan['squeeze'])


def canon(b):
    """A batch in comparable form."""
    out = []
    for v in b:
        if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.dtype.kind in 'OUS'):
            out.append([x if isinstance(x, str) else (np.shape(x), np.asarray(x).tobytes())
                        for x in v])
        else:
            v = np.asarray(v)
            out.append((v.shape, v.dtype.str, v.tobytes()))
    return out


class Watch(object):
    """Checks batches one by one and, in the order of one generator, epoch by epoch."""

    def __init__(self, ds, ctx):
        self.ds, self.ctx = ds, ctx
        self.draws = {c: 0 for c in ds.nonempty} if ds.ok else {}
        self.udraws = {k: 0 for k in ds.ok}
        self.new_epoch()

    def new_epoch(self):
        self.n = 0
        self.count = {k: 0 for k in self.ds.ok}
        self.cursor = {k: 0 for k in self.ds.ok}
        self.sub = {k: 0 for k in self.ds.ok}

    # ---- one batch, any order -------------------------------------------------
    def batch(self, b):
        """Returns [(key, first row, rows)]."""
        ds, o = self.ds, self.ds.o
        bs, dim = o['batch_size'], ds.plan['dim']
        r = list(b)
        want = 2 + (1 if ds.plan['squeeze'] else 0) + (1 if o.get('return_class', True) else 0) + (
            1 if o.get('return_utt1hot') else 0)
        check(len(r) == want, 'wrong-batch', lambda: 'a batch has %d parts, should have %d' % (
            len(r), want))
        keys = [str(k) for k in r.pop(0)]
        check(len(keys) == bs, 'wrong-batch', lambda: '%d sequences in a batch of %d' % (len(keys), bs))
        for k in keys:
            check(k in self.count, 'not-eligible', lambda: 'sequence %s should not be used' % k)
        x = r.pop(0)
        if ds.plan['squeeze']:
            w = np.asarray(r.pop(0))
            L = int(ds.max + ds.plan['pad'])
            check(np.shape(x) == (bs, L, dim) and w.shape == (bs, L), 'wrong-batch', lambda: 'shapes '
                  '%s and %s of a batch of %d with length %d' % (np.shape(x), w.shape, bs, L))
            seqs = []
            for i in range(bs):
                n = int(np.sum(w[i] != 0))
                check(np.all(w[i, :n] == 1) and np.all(w[i, n:] == 0), 'wrong-weight',
                      lambda: 'weights %s' % w[i])
                check(np.all(x[i, n:] == 0), 'wrong-padding', lambda: 'rows after the %d of sequence '
                      '%s are not zero' % (n, keys[i]))
                seqs.append(np.asarray(x[i, :n]))
        else:
            check(len(x) == bs, 'wrong-batch', lambda: '%d arrays for %d keys' % (len(x), bs))
            seqs = [np.asarray(v) for v in x]
        out = []
        for k, v in zip(keys, seqs):
            out.append((k,) + self.slice(k, v))
        if o.get('return_class', True):
            y = np.asarray(r.pop(0))
            check(y.shape == (bs, len(ds.classes)), 'wrong-label', lambda: 'label shape %s' % (y.shape,))
            for k, row in zip(keys, y):
                t = np.zeros(len(ds.classes))
                t[ds.classes.index(ds.cls[k])] = 1
                check(np.array_equal(row, t), 'wrong-label', lambda: 'sequence %s of class %s (of %s) '
                      'is labelled %s' % (k, ds.cls[k], ds.classes, row))
        if ds.plan['gen'] == 'v2':
            self.groups(keys)
            if o.get('return_utt1hot'):
                z = np.asarray(r.pop(0))
                n = -(-bs // o['num_egs_per_utt'])
                check(z.shape == (bs, n) and np.all((z == 0) | (z == 1)) and np.all(z.sum(axis=1) == 1),
                      'wrong-label', lambda: 'utterance labels %s' % (z,))
                c = [int(np.argmax(v)) for v in z]
                check(len(set(zip(keys, c))) == len(set(keys)) == len(set(c)), 'wrong-label',
                      lambda: 'utterances %s have labels %s' % (keys, c))
        return out

    def slice(self, k, v):
        """(first row, rows) of a sequence in its record."""
        ds = self.ds
        rec = ds.x[k].astype(float)
        check(v.ndim == 2 and v.shape[1] == rec.shape[1] and len(v) > 0, 'wrong-slice',
              lambda: 'sequence of shape %s for %s' % (v.shape, k))
        v = v.astype(float) + (0 if ds.mean is None else ds.mean)
        a = int(round(v[0, 0] - rec[0, 0]))
        n = len(v)
        check(0 <= a and a + n <= len(rec) and np.allclose(rec[a:a + n], v, rtol=1e-6, atol=1e-3),
              'wrong-slice', lambda: '%d rows for %s are not rows %d to %d of its record' % (n, k, a, a + n))
        m = ds.o.get('gen_method', 'random')
        full = len(rec)
        if m == 'full_seqs':
            check(n == full, 'wrong-length', lambda: '%d of the %d rows of %s' % (n, full, k))
        else:
            lo = min(full, ds.min) if m == 'random' else 1
            check(lo <= n <= ds.max, 'wrong-length', lambda: 'a sequence of %d rows of %s, should be '
                  '%d to %d' % (n, k, lo, ds.max))
        return a, n

    def groups(self, keys):
        """V2: blocks of sequences of one class and of one utterance."""
        o = self.ds.o
        u = o['num_egs_per_utt']
        c = u * o['num_egs_per_class']
        for i in range(0, len(keys), u):
            check(len(set(keys[i:i + u])) == 1, 'wrong-group', lambda: 'sequences %d to %d are of '
                  'several utterances: %s' % (i, i + u, keys[i:i + u]))
            self.udraws[keys[i]] += 1
        for i in range(0, len(keys), c):
            s = set(self.ds.cls[k] for k in keys[i:i + c])
            check(len(s) == 1, 'wrong-group', lambda: 'sequences %d to %d are of classes %s' % (
                i, i + c, sorted(s)))
            self.draws[s.pop()] += 1

    # ---- order of one generator -----------------------------------------------
    def next(self, b):
        got = self.batch(b)
        self.n += 1
        for k, a, n in got:
            self.count[k] += 1
            if self.ds.subs and not self.ds.dup:
                self.chunk(k, a, n)

    def chunk(self, k, a, n):
        ds = self.ds
        full, mn, mx = ds.len[k], ds.min, ds.max
        check(a == self.cursor[k], 'wrong-chunk', lambda: 'chunk of %s starts at row %d, should start '
              'at %d' % (k, a, self.cursor[k]))
        rem = full - a
        if self.sub[k] == ds.subs[k] - 1:
            lo = hi = min(rem, mx)
            nxt = 0
        else:
            lo, hi = min(rem, mn), min(max(mn, rem - mn), mx, rem)
            nxt = max(0, min(full - mn, a + n - ds.o.get('seq_overlap', 0)))
        check(lo <= n <= hi, 'wrong-chunk', lambda: 'chunk %d of %s has %d rows, should have %d to %d' % (
            self.sub[k], k, n, lo, hi))
        self.sub[k] = (self.sub[k] + 1) % ds.subs[k]
        self.cursor[k] = nxt

    def end_epoch(self, steps):
        """After the announced number of batches: the list was read in turn."""
        ds = self.ds
        if ds.plan['gen'] == 'v1' and ds.ok:
            T = steps * ds.o['batch_size']
            check(sum(self.count.values()) == T, 'wrong-steps', lambda: '%d sequences in the epoch, '
                  'should be %d' % (sum(self.count.values()), T))
            L = ds.total
            unb = ds.subs and ds.o.get('seq_weight', 'balanced') != 'balanced'
            if unb and ds.dup:
                self.new_epoch()
                return
            if unb:
                L = sum(ds.subs.values())
            p, q = T // L, -(-T // L)
            for k, c in self.count.items():
                lo, hi = ds.mult[k]
                if unb:
                    lo = hi = ds.subs[k]
                check(p * lo <= c <= q * hi, 'wrong-usage', lambda: 'sequence %s is used %d times in an '
                      'epoch of %d draws from a list of %d, should be %d to %d' % (
                          k, c, T, L, p * lo, q * hi))
            if not unb:
                for cl, t in ds.per_class.items():
                    c = sum(v for k, v in self.count.items() if ds.cls[k] == cl)
                    check(p * t <= c <= q * t, 'wrong-usage', lambda: 'class %s is used %d times in an '
                          'epoch of %d draws, should be %d to %d' % (cl, c, T, p * t, q * t))
        self.new_epoch()

    def end(self):
        """V2 draws classes, and utterances of a class, evenly."""
        if self.ds.plan['gen'] != 'v2' or not self.ds.ok:
            return

        def even(d, what):
            n, k = sum(d.values()), len(d)
            tol = 6.5 * math.sqrt(n / float(k)) + 6
            for c, v in d.items():
                check(abs(v - n / float(k)) <= tol, 'unbalanced-draws', lambda: '%s %s was drawn %d '
                      'times in %d draws from %d' % (what, c, v, n, k))
        even(self.draws, 'class')
        # utterances of one class: draws of utterances counted per class
        for c in self.ds.nonempty:
            even({k: v for k, v in self.udraws.items() if self.ds.cls[k] == c}, 'utterance')
