"""C21: class-labelled vectors selected with per-class limits and split classes, by twin readers
that run interleaved with other users of the random state and under read faults, against a model of
what each selection may hold."""
import copy
import gc
import random

import numpy as np

from sim import sched, storage as st
from sim.core import Violation, attempt, check
from sim.disk import Disk
from sim.sched import Sched, current

RUNS = {'quick': 3000, 'thorough': 80000}
LISTS = ('faults', 'recs', 'switches', 'ops')
STATE_RULE = 'options, class sizes, list order and the history of calls with the labels they gave'
MUST_REACH = ['max-random', 'max-first', 'max-last', 'min', 'split:sequential', 'split:random',
              'split:one', 'split-each-time', 'overlap', 'map', '3d', 'preproc', 'rogue',
              'fault:eio-read', 'refused-read', 'fault:sliced-read', 'trimmed', 'no-class-left']
REAL = ['VectorClassReader', 'Utt2Info', 'random access readers', 'to3D_by_class', 'CentWhiten']
STUB = ['system calls below the buffers', 'thread scheduler and clock']
ASSUMPTIONS = ['sub-classes of split classes have no names in a class map',
               'two readers with the same seed are compared over the same sequence of calls']
FILES = ['hyperion/helpers/vector_class_reader.py', 'hyperion/utils/utt2info.py']


def setup():
    import hyperion.helpers  # noqa: F401
    import hyperion.transforms  # noqa: F401
    sched.warm()


def gen(rng, tier):
    nc = rng.randint(1, 6)
    recs = []
    for c in range(nc):
        for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
            recs.append({'cls': c, 'seed': rng.randint(0, 10 ** 6)})
    rng.shuffle(recs)
    style = rng.choice(['v%03d', 's/x%d', '%d'])
    for i, r in enumerate(recs):
        r['key'] = style % i
    o = {'vcr_seed': rng.choice([1024, 0, 3])}
    if rng.random() < 0.35:
        o['min_spc'] = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.5:
        o['max_spc'] = rng.choice([1, 2, 3, 5, 8])
        o['spc_pruning_mode'] = rng.choice(['random', 'random', 'first', 'last'])
    plan = {'recs': recs, 'dim': rng.choice([1, 2, 3]), 'opts': o, 'faults': [], 'map': None,
            'fmt': rng.choice(['scp:ark', 'scp:ark', 'scp:h5', 'h5']), 'preproc': rng.random() < 0.2,
            'names': rng.choice(['c%d', 'spk-%d', '%d']), 'io': st.gen_io(rng),
            'list_seed': rng.randint(0, 10 ** 6), 'twins': rng.choice([1, 1, 2, 3]),
            'rogue': rng.random() < 0.6, 'sched': sched.gen_cfg(rng, horizon=400), 'switches': None,
            'seed': rng.randint(0, 10 ** 6)}
    if rng.random() < 0.6:
        o['csplit_max_spc'] = m = rng.choice([1, 2, 3, 5])
        o['csplit_min_spc'] = rng.choice([1, 1, 2, 3])
        o['csplit_mode'] = rng.choice(['sequential', 'random', 'random_1part', 'random_1subclass'])
        if m > 1 and rng.random() < 0.4:
            o['csplit_overlap'] = rng.randint(1, m - 1)
        if rng.random() < 0.4:
            o['csplit_once'] = False
    if rng.random() < 0.25 and o.get('csplit_mode', '')[:8] not in ('sequenti', 'random'):
        plan['map'] = rng.randint(0, 10 ** 6)
        plan['map_extra'] = rng.choice([0, 0, 1])
    plan['ops'] = [rng.choice(['read', 'read', 'read', '3d', 'spc', 'max', 'names'])
                   for _ in range(rng.randint(1, 6))]
    return plan


def inject(plan, extra, rng, tier):
    if not extra or plan['twins'] > 1:
        return
    lo, hi = extra
    for _ in range(2 if tier == 'quick' else 5):
        if hi < 1:
            return
        q = copy.deepcopy(plan)
        n = rng.randint(lo + 1, hi) if hi > lo and rng.random() < 0.8 else rng.randint(1, hi)
        q['faults'] = [{'kind': 'eio_read', 'n': n, 'times': rng.choice([1, 2, 1000])}]
        q['isolate'] = plan['fmt'].endswith('h5')
        yield q


def on_death(plan, status):
    return None


def shrink(plan):
    for k in list(plan['opts']):
        if k in ('csplit_mode', 'vcr_seed', 'csplit_max_spc', 'spc_pruning_mode'):
            continue
        o = dict(plan['opts'])
        del o[k]
        yield dict(plan, opts=o)
    for k, v in (('map', None), ('preproc', False), ('dim', 1), ('rogue', False), ('twins', 1)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def vec(r, i, dim):
    v = np.random.RandomState(r['seed']).randint(-50, 50, dim).astype(np.float32)
    v[0] = i + 1
    return v


class Model(object):
    def __init__(self, plan):
        self.plan, self.o = plan, plan['opts']
        recs = plan['recs']
        self.x = {r['key']: vec(r, i, plan['dim']) for i, r in enumerate(recs)}
        self.cls = {r['key']: plan['names'] % r['cls'] for r in recs}
        self.list = [r['key'] for r in recs]
        random.Random(plan['list_seed']).shuffle(self.list)
        self.by = {}
        for k in self.list:
            self.by.setdefault(self.cls[k], []).append(k)
        o = self.o
        self.by = {c: v for c, v in self.by.items() if len(v) >= o.get('min_spc', 1)}
        mx = o.get('max_spc')
        self.mean = np.arange(plan['dim'], dtype=float) + 0.25
        self.trim = {}                 # class -> number of samples that stay
        self.fixed = {}                # class -> the samples, when they are determined
        for c, v in self.by.items():
            n = len(v) if mx is None else min(mx, len(v))
            self.trim[c] = n
            m = o.get('spc_pruning_mode', 'random')
            self.fixed[c] = v if n == len(v) else v[:n] if m == 'last' else v[-n:] if m == 'first' else None
        # sub-classes: how many of which size
        self.cmax = o.get('csplit_max_spc')
        self.cmin = o.get('csplit_min_spc', 1)
        self.mode = o.get('csplit_mode', 'random')
        if self.mode.startswith('random_1'):
            self.mode = 'one'
        self.over = o.get('csplit_overlap', 0)
        self.split = self.cmax is not None and any(n > self.cmax for n in self.trim.values())
        self.sizes = {}
        for c, n in self.trim.items():
            if self.cmax is None:
                s = [n]
            elif n <= self.cmax:
                s = [n]
            elif self.mode == 'one':
                s = [self.cmax]
            else:
                sh = self.cmax - self.over
                k = -(-(n - self.cmax) // sh) + 1
                if self.mode == 'random':
                    s = [self.cmax] * k
                else:
                    s = [self.cmax] * (k - 1) + [n - (k - 1) * sh]
            # random_1part drops small classes before it cuts the large ones
            if self.cmax is not None:
                if self.mode == 'one':
                    s = s if n >= self.cmin else []
                else:
                    s = [v for v in s if v >= self.cmin]
            if s:
                self.sizes[c] = s
        self.relabel = self.split and self.mode != 'one'
        self.map = None
        if plan['map'] is not None:
            l = sorted(set(self.cls.values())) + ['zz'] * plan['map_extra']
            random.Random(plan['map']).shuffle(l)
            self.map = {c: i for i, c in enumerate(l)}

    def write(self):
        from hyperion.io import DataWriterFactory as W
        f = self.plan['fmt']
        spec = {'scp:ark': 'ark,scp:d.ark,d.scp', 'scp:h5': 'h5,scp:d.h5,d.scp', 'h5': 'h5:d.h5'}[f]
        keys = [r['key'] for r in self.plan['recs']]
        with W.create(spec) as w:
            w.write(keys, [self.x[k] for k in keys])
        with open('u2c', 'w') as g:
            for k in self.list:
                g.write('%s %s\n' % (k, self.cls[k]))
        if self.map is not None:
            with open('c2i', 'w') as g:
                for c, i in self.map.items():
                    g.write('%s %d\n' % (c, i))
        self.rspec = 'h5:d.h5' if f == 'h5' else 'scp:d.scp'

    def open(self):
        from hyperion.helpers import VectorClassReader
        kw = dict(self.o)
        if self.map is not None:
            kw['class2int_file'] = 'c2i'
        if self.plan['preproc']:
            from hyperion.transforms import CentWhiten
            kw['preproc'] = CentWhiten(mu=self.mean, T=np.eye(self.plan['dim']))
        return VectorClassReader(self.rspec, 'u2c', **kw)

    def key(self, v):
        v = np.asarray(v, dtype=float) + (self.mean if self.plan['preproc'] else 0)
        i = int(round(v[0])) - 1
        ks = [r['key'] for r in self.plan['recs']]
        check(0 <= i < len(ks) and np.allclose(v, self.x[ks[i]], atol=1e-3), 'wrong-vector',
              lambda: 'vector %s is not in the data' % (v,))
        return ks[i]

    # ---- what a selection may hold --------------------------------------------
    def selection(self, groups):
        """groups: label -> keys in the order they come."""
        got = {}
        for i, ks in groups.items():
            cs = set(self.cls[k] for k in ks)
            check(len(cs) == 1, 'wrong-label', lambda: 'label %s has samples of classes %s' % (
                i, sorted(cs)))
            check(len(set(ks)) == len(ks), 'sample-repeated', lambda: 'class %s has a sample twice: %s' % (
                i, ks))
            got.setdefault(cs.pop(), []).append(ks)
        check(set(got) == set(self.sizes), 'wrong-classes', lambda: 'classes %s, should be %s' % (
            sorted(got), sorted(self.sizes)))
        for c, l in got.items():
            s = sorted(len(v) for v in l)
            check(s == sorted(self.sizes[c]), 'wrong-size', lambda: 'class %s of %d samples has '
                  '(sub-)classes of %s samples, should have %s' % (c, self.trim[c], s, sorted(self.sizes[c])))
            allk = set(k for v in l for k in v)
            check(len(allk) <= self.trim[c], 'wrong-size', lambda: '%d samples of class %s are used, '
                  'the limit is %d' % (len(allk), c, self.trim[c]))
            f = self.fixed[c]
            if f is not None:
                check(allk <= set(f), 'wrong-pruning', lambda: 'class %s has samples %s, should be of '
                      '%s' % (c, sorted(allk), f))
            full = self.cmax is None or len(self.by[c]) <= self.cmax or not self.split
            if full:
                check(f is None or l[0] == f, 'wrong-order', lambda: 'class %s: %s, should be %s' % (
                    c, l[0], f))
            elif self.mode == 'sequential':
                self.windows(c, l, f)

    def windows(self, c, l, f):
        """Sequential sub-classes are windows of the list with the overlap asked."""
        sh = self.cmax - self.over
        pos = {k: i for i, k in enumerate(self.by[c])}
        for v in l:
            p = [pos[k] for k in v]
            check(p == sorted(p), 'wrong-order', lambda: 'a sub-class of %s is not in list order' % c)
        l = sorted(l, key=lambda v: pos[v[0]])
        if f is not None and self.trim[c] > self.cmax:
            for j, v in enumerate(l):
                check(v == f[j * sh:j * sh + len(v)], 'wrong-split', lambda: 'sub-class %d of %s is %s' % (
                    j, c, v))
        if self.over == 0:
            check(sum(len(v) for v in l) == len(set(k for v in l for k in v)), 'class-leak',
                  lambda: 'sub-classes of %s share samples' % c)

    def labels(self, ids):
        n = len(self.map) if self.map is not None else sum(len(s) for s in self.sizes.values())
        check(all(0 <= i < n for i in ids), 'wrong-label', lambda: 'labels %s of %d classes' % (
            sorted(set(ids)), n))
        if self.map is None:
            check(len(set(ids)) == n, 'wrong-label', lambda: '%d labels for %d classes' % (
                len(set(ids)), n))
        return n

    def named(self, groups):
        """Classes that keep their name have the label of the name."""
        if self.relabel:
            return
        names = sorted(self.sizes)
        for i, ks in groups.items():
            c = self.cls[ks[0]]
            want = self.map[c] if self.map is not None else names.index(c)
            check(i == want, 'wrong-label', lambda: 'class %s has label %d, should be %d' % (c, i, want))


def call(m, r, op):
    """One call, checked; returns a comparable answer."""
    if op in ('read', '3d'):
        if op == 'read':
            x, ids = r.read()
            ids = [int(i) for i in ids]
            check(len(x) == len(ids), 'wrong-shape', '%d vectors, %d labels' % (len(x), len(ids)))
            keys = [m.key(v) for v in x]
            groups = {}
            for k, i in zip(keys, ids):
                groups.setdefault(i, []).append(k)
            m.labels(ids)
            out = [keys, ids]
        else:
            x, w = r.read(return_3d=True)
            check(x.ndim == 3 and w.shape == x.shape[:2], 'wrong-shape', lambda: '%s %s' % (x.shape, w.shape))
            groups = {}
            for i in range(len(x)):
                n = int(np.sum(w[i] != 0))
                check(np.all(w[i, :n] == 1) and np.all(x[i, n:] == 0), 'wrong-weight',
                      lambda: 'weights %s' % w[i])
                if n:
                    groups[i] = [m.key(v) for v in x[i, :n]]
            m.labels(list(groups))
            mx = max(max(s) for s in m.sizes.values())
            check(x.shape[1] == mx, 'wrong-shape', lambda: '%d rows for classes of up to %d' % (
                x.shape[1], mx))
            out = sorted((i, k) for i, k in groups.items())
        m.selection(groups)
        m.named(groups)
        return out
    if op == 'spc':
        n = sorted(int(v) for v in r.samples_per_class)
        want = sorted(v for s in m.sizes.values() for v in s)
        check(n == want, 'wrong-size', lambda: 'samples_per_class is %s, should be %s' % (n, want))
        return n
    if op == 'max':
        n = int(r.max_samples_per_class)
        check(n == max(v for s in m.sizes.values() for v in s), 'wrong-size',
              lambda: 'max_samples_per_class is %d' % n)
        return n
    names = [str(c) for c in r.class_names]
    if m.map is not None:
        check(names == sorted(m.map, key=m.map.get), 'wrong-label', lambda: 'class names %s' % names)
    elif not m.relabel and (m.o.get('csplit_once', True) or m.cmax is None):
        check(names == sorted(m.sizes), 'wrong-label', lambda: 'class names %s' % names)
    return names


def probes(plan, m, ctx):
    o = plan['opts']
    if o.get('max_spc') is not None:
        ctx.probe('max-' + o['spc_pruning_mode'])
        if any(m.trim[c] < len(v) for c, v in m.by.items()):
            ctx.probe('trimmed')
    if o.get('min_spc', 1) > 1:
        ctx.probe('min')
    if m.split:
        ctx.probe('split:' + m.mode)
        if not o.get('csplit_once', True):
            ctx.probe('split-each-time')
        if m.over:
            ctx.probe('overlap')
    for k in ('map', 'preproc'):
        if plan[k] not in (None, False):
            ctx.probe(k)
    if '3d' in plan['ops']:
        ctx.probe('3d')


def run(plan, ctx):
    m = Model(plan)
    if not plan['recs']:
        return None
    m.write()
    gc.collect()
    if not m.sizes:
        ctx.probe('no-class-left')
        return None
    probes(plan, m, ctx)
    st0 = np.random.get_state()[1].tolist(), random.getstate()
    if plan['faults']:
        return faulty(plan, ctx, m)
    r, e = attempt(m.open)
    check(e is None, 'unexpected-exception', lambda: 'the reader is refused: %s: %s' % (
        type(e).__name__, str(e)[:200]))
    ref = []
    for op in plan['ops']:
        v, e = attempt(call, m, r, op)
        check(e is None, 'unexpected-exception', lambda: '%s raises %s: %s' % (
            op, type(e).__name__, str(e)[:200]))
        ref.append(v)
    check(st0 == (np.random.get_state()[1].tolist(), random.getstate()), 'global-state',
          'the reader draws from or seeds the global random state')
    ctx.state(sorted(plan['opts'].items()), plan['fmt'], ref)
    s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
              max_steps=600000)
    box = []
    s.run(lambda: box.append(twins(plan, ctx, m, ref, s)))
    return box[0]


def twins(plan, ctx, m, ref, s):
    bad, done, reads = [], [], [0]

    def twin(n, d):
        def body():
            try:
                r = m.open()
                reads[0] = d.n_read
                for i, op in enumerate(plan['ops']):
                    v = call(m, r, op)
                    check(v == ref[i], 'not-reproducible', lambda: 'call %d (%s) of reader %d gives '
                          '%s, the same reader gave %s before' % (i, op, n, str(v)[:150], str(ref[i])[:150]))
            except Violation as v:
                bad.append(v)
            except Exception as e:
                bad.append(Violation('unexpected-exception', '%s: %s' % (type(e).__name__, str(e)[:200])))
            done.append(n)
        return body

    def rogue():
        r = random.Random(plan['seed'])
        for _ in range(r.randint(5, 60)):
            if len(done) == plan['twins']:
                return
            np.random.seed(r.randint(0, 5))
            np.random.permutation(5)
            random.seed(r.randint(0, 5))
            current().sched.sleep(0.001)
    with Disk(ctx, ctx.root, plan['io']) as d:
        ts = [s.spawn(twin(i, d), name='twin%d' % i) for i in range(plan['twins'])]
        if plan['rogue']:
            ctx.probe('rogue')
            ts.append(s.spawn(rogue, name='rogue'))
        s.wait_for(lambda: all(t.done for t in ts), tag='twins')
    if bad:
        raise bad[0]
    return [reads[0], d.n_read]


def faulty(plan, ctx, m):
    """A read error is raised, and what is returned is right; later calls work."""
    with Disk(ctx, ctx.root, plan['io'], plan['faults']) as d:
        r, e = attempt(m.open)
        if e is not None:
            check(d.failed, 'unexpected-exception', lambda: 'the reader is refused: %r' % e)
            return None
        for op in plan['ops']:
            f0 = len(d.failed)
            v, e = attempt(call, m, r, op)
            if e is not None:
                check(len(d.failed) > f0, 'unexpected-exception', lambda: '%s raises %s: %s' % (
                    op, type(e).__name__, str(e)[:200]))
                ctx.probe('refused-read')
                ctx.state('refused', op)
            else:
                ctx.state(v)
    return None
