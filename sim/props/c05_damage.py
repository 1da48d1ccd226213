"""C05: damaged archives and failing reads are reported, never misread."""
import copy
import os

from sim import readers as rd
from sim import storage as st
from sim.core import Violation, attempt, check, guard, in_repo
from sim.disk import Disk

RUNS = {'quick': 900, 'thorough': 6000}
STATE_RULE = 'archive format, kind and position of the fault, and the outcome (keys or error) of ' \
             'every reader operation'
MUST_REACH = ['fault:truncated-archive', 'fault:eio-read', 'read-refused', 'read-survived',
              'healed', 'cut-at-record-boundary', 'permissive-reader', 'metadata-after-damage']
REAL = ['hyperion.io readers and factories', 'hyperion.utils.kaldi_matrix',
        'hyperion.utils.kaldi_io_funcs', 'CPython buffers', 'HDF5 library']
STUB = ['system calls below the buffers (failing and short reads), file truncation']
ASSUMPTIONS = ['scripts are not truncated in the middle of their last line (the format has no '
               'end mark)', 'a bare archive cut exactly between two records is a shorter archive']
LISTS = ('faults', 'ops')
shrink = st.shrink


def gen(rng, tier):
    arcs = st.gen_store(rng, rng.choice([1, 1, 2]), max_recs=5, compress=0.4, scp=True,
                        same_kind=True)
    plan = {'arcs': arcs, 'io': st.gen_io(rng), 'views': [], 'ops': [], 'faults': [],
            'cut': None}
    for i in range(2):
        a = rng.randrange(len(arcs))
        scp = rng.random() < 0.6
        rand = rng.random() < 0.5 and (scp or st.is_h5(arcs[a]))
        plan['views'].append({
            'id': i, 'arc': a, 'kind': 'scp' if scp else 'arc', 'rand': rand,
            'mix': rng.random() < 0.4, 'perm': rng.randint(0, 10 ** 6),
            'ranges': 1 if rng.random() < 0.3 else None,
            'permissive': rng.random() < 0.4, 'via': rng.choice(['factory', 'class'])})
    for _ in range(rng.randint(4, 10)):
        plan['ops'].append({'v': rng.randrange(2),
                            'op': rng.choice(['read'] * 5 + ['shapes', 'num_rows', 'next']),
                            'n': rng.choice([0, 1, 1, 2]), 'ranged': rng.random() < 0.3,
                            'missing': rng.random() < 0.1,
                            'seed': rng.randint(0, 10 ** 6)})
    return plan


def inject(plan, extra, rng, tier):
    sizes, n_read, bounds = extra
    h5 = st.is_h5(plan['arcs'][0])
    k = 5 if tier == 'quick' else 40
    for _ in range(k):
        q = copy.deepcopy(plan)
        a = rng.randrange(len(sizes))
        m = rng.random()
        if m < 0.25 and bounds[a]:
            t = max(0, rng.choice(bounds[a]) + rng.choice([-2, -1, 0, 0, 1, 2, 3, 4, 5, 8]))
        elif m < 0.5:
            t = max(0, sizes[a] - rng.choice([1, 1, 2, 3, 4, 5, 8, 16]))
        else:
            t = rng.randint(0, max(sizes[a] - 1, 0))
        q['cut'] = [a, min(t, max(sizes[a] - 1, 0))]
        q['isolate'] = h5
        yield q
    for _ in range(k):
        q = copy.deepcopy(plan)
        q['faults'] = [{'kind': 'eio_read', 'n': rng.randint(1, max(n_read, 1)),
                        'times': rng.choice([1, 1, 2, 1000])}]
        q['isolate'] = h5
        yield q


def on_death(plan, status):
    return None


class Tolerant(object):
    """Every operation may fail; what it returns must be what was stored."""

    def __init__(self, model, ctx, view, v, damaged, cut, starts):
        self.cut, self.starts = cut, starts
        self.model, self.ctx, self.view, self.v = model, ctx, view, v
        self.damaged = damaged
        if v['rand']:
            self.r, exc = attempt(st.open_rand, view.kind, view.path, view.h5, v['via'],
                                  v['permissive'])
            if v['permissive']:
                ctx.probe('permissive-reader')
        else:
            self.r, exc = attempt(st.open_seq, view.kind, view.path, view.h5, v['via'])
        self.pos = 0
        self.ents = {e[0]: e for e in view.entries}
        self.where = '%s reader of %s' % ('random-access' if v['rand'] else 'sequential',
                                          view.path)
        self.dead = self.r is None
        if self.dead:
            self.refused(exc, 'open')

    def refused(self, exc, what):
        self.ctx.probe('read-refused')
        self.ctx.ev('refused', what, type(exc).__name__)
        self.ctx.state('refused', what)
        if not self.damaged():
            raise Violation('healthy-read-failed', '%s: %s failed although nothing it reads is '
                            'damaged: %r' % (self.where, what, exc))

    def op(self, o):
        import random
        rng = random.Random(o['seed'])
        if self.dead:
            return
        k = o['op']
        if self.v['rand']:
            return self.rand_op(o, 'read' if k == 'next' else k, rng)
        n = 1 if k == 'next' else o['n']
        left = self.view.entries[self.pos:]
        e = left if n == 0 else left[:n]
        per = [(r0, c) for _, r0, c in e]
        kw = {}
        if k == 'read' and o['ranged'] and len(e) == (n or len(e)):
            ro, nr, per, ok = rd.rows_arg(rng, self.model, e, False)
            if ok:
                kw = dict(row_offset=ro, num_rows=nr)
            else:                   # a record without rows
                per = [(r0, c) for _, r0, c in e]
        if k == 'read':
            got, exc = attempt(self.r.read, n, **kw)
        elif k == 'next':
            try:
                got, exc = attempt(lambda: [[x] for x in next(self.r)])
            except StopIteration:
                got, exc = ([], []), None
            if isinstance(exc, StopIteration):
                got, exc = ([], []), None
        else:
            f = {'shapes': self.r.read_shapes, 'num_rows': self.r.read_num_rows}[k]
            got, exc = attempt(f, n, assert_same_dim=False)
        if got is None:
            self.refused(exc, k)
            self.dead = True        # the position after an error is not defined
            return
        ks, vs = got
        ks = list(ks)
        exp = [x[0] for x in e][:len(ks)]
        check(ks == exp, 'wrong-keys', lambda: '%s returned keys %s, expected %s' % (
            self.where, ks, [x[0] for x in e]))
        if len(ks) < len(e):
            check(self.view.kind == 'arc' and not self.view.h5 and self.damaged(), 'lost-records',
                  lambda: '%s returned %d of %d records without an error' % (self.where, len(ks),
                                                                            len(e)))
            self.ctx.probe('cut-at-record-boundary')
            check(self.at_boundary(self.pos + len(ks)), 'lost-records', lambda: '%s ended after %d '
                  'records although the archive goes on' % (self.where, self.pos + len(ks)))
        self.judge(k, vs, e[:len(ks)], per[:len(ks)])
        self.pos += len(ks)

    def at_boundary(self, n):
        """The cut archive ends at or before the first byte of record n."""
        return self.cut is not None and self.cut[0] == self.v['arc'] and \
            self.starts[self.v['arc']][n] >= self.cut[1]

    def judge(self, k, vs, e, per):
        self.ctx.probe('read-survived', len(e))
        self.ctx.state('ok', k, len(e))
        if k in ('read', 'next'):
            rd.compare(self.model, self.ctx, vs, e, per, self.where)
        else:
            self.ctx.probe('metadata-after-damage')
            rd.meta_ok(k, vs, [rd.shape_of(self.model, x) for x in e], self.where)

    def rand_op(self, o, k, rng):
        n = max(o['n'], 1)
        keys = [rng.choice(self.view.entries)[0] for _ in range(n)]
        e = [self.ents[x] for x in keys]
        per = [(r0, c) for _, r0, c in e]
        kw = {}
        if k == 'read' and o['ranged']:
            ro, nr, per, ok = rd.rows_arg(rng, self.model, e, False)
            if ok:
                kw = dict(row_offset=ro, num_rows=nr)
            else:                   # a record without rows
                per = [(r0, c) for _, r0, c in e]
        if k == 'read':
            vs, exc = attempt(self.r.read, keys, **kw)
        else:
            f = {'shapes': self.r.read_shapes, 'num_rows': self.r.read_num_rows}[k]
            vs, exc = attempt(f, keys, assert_same_dim=False)
        if vs is None:
            self.refused(exc, k)
            return
        check(len(vs) == len(keys), 'wrong-count', self.where)
        self.judge(k, vs, e, per)


def run(plan, ctx):
    model = st.Model(plan['arcs'], ctx)
    bounds, sizes = [], []
    with Disk(ctx, ctx.root):
        for arc in plan['arcs']:
            guard(st.write_archive, arc, ctx)
            sizes.append(os.path.getsize(arc['path']))
            b = []
            if not st.is_h5(arc):
                for l in st.script_lines(arc):
                    b.append(int(l.rsplit(':', 1)[1]))
                    b.append(b[-1] - len(l.split(' ')[0].encode()) - 1)
            bounds.append(b)
        views = [rd.make_view(model, plan, v, ctx) for v in plan['views']]
    ctx.state(tuple((a['fmt'], a['compress']) for a in plan['arcs']))
    cut = plan['cut']
    saved = None
    if cut:
        p = plan['arcs'][cut[0]]['path']
        with open(p, 'rb') as f:
            saved = f.read()
        with open(p, 'r+b') as f:
            f.truncate(cut[1])
        ctx.fault('truncated-archive')
        ctx.ev('cut', cut)
        ctx.state('cut', cut[1] if len(saved) < 400 else cut[1] * 400 // len(saved))
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])
    seen = [0]
    with d:
        drv = []
        for v, view in zip(plan['views'], views):
            damaged = (lambda: bool(cut) or bool(d.failed))
            drv.append(Tolerant(model, ctx, view, v, damaged, cut, [b[1::2] for b in bounds]))
        for o in plan['ops']:
            if o['v'] < len(drv):
                drv[o['v']].op(o)
        for t in drv:
            if t.r is not None:
                attempt(t.r.close)
    # the storage heals: a reopened reader returns everything
    if cut:
        with open(p, 'wb') as f:
            f.write(saved)
    if cut or d.failed:
        with Disk(ctx, ctx.root, plan['io']):
            for v, view in zip(plan['views'], views):
                if v['rand']:
                    r = guard(st.open_rand, view.kind, view.path, view.h5, v['via'])
                    vs = guard(r.read, [e[0] for e in view.entries])
                else:
                    r = guard(st.open_seq, view.kind, view.path, view.h5, v['via'])
                    ks, vs = guard(r.read)
                    check(list(ks) == [e[0] for e in view.entries], 'wrong-keys', 'after healing')
                rd.compare(model, ctx, vs, view.entries, [e[1:] for e in view.entries],
                           'after healing')
                r.close()
            ctx.probe('healed')
    return sizes, d.n_read, bounds
