"""C20: list operations keep every key tied to its own data.

A seeded history of operations over a few list objects held by a simulated process that also
saves and loads them over a faulty disk and is killed and restarted in between; every object is
compared with a reference model after every step."""
import copy
import os

import numpy as np

from sim import artifacts as A
from sim.core import SimCrash, Violation, attempt, check, guard
from sim.disk import Disk

RUNS = {'quick': 4000, 'thorough': 40000}
STATE_RULE = 'kind of list and sequence of operations with their argument classes'
MUST_REACH = ['op:filter', 'op:filter_not', 'op:split', 'op:merge', 'op:sort', 'op:shuffle',
              'op:copy', 'op:lookup', 'op:reload', 'op:filter_index', 'op:filter_info',
              'op:filter_paths', 'op:prefix', 'op:iterate', 'op:align', 'op:missing',
              'op:transform', 'op:to_ndx', 'op:compare', 'op:tarnon', 'op:segmentation', 'differs',
              'align-lenient', 'merged-three', 'fault:crash', 'fault:sliced-read', 'recovered'] + \
    ['kind:' + k for k in ('scp', 'u2i', 'seg', 'ndx', 'key', 'scr')]
REAL = ['SCPList, Utt2Info, SegmentList, TrialNdx, TrialKey, TrialScores', 'list_utils',
        'pandas, numpy, HDF5']
STUB = ['system calls below the buffers; death and restart of the process holding the lists; '
        'global random state disturbed by other code']
ASSUMPTIONS = ['keys are distinct within a list']
LISTS = ('ops', 'faults')

LOPS = {'scp': ['filter', 'filter_not', 'filter_paths', 'filter_index', 'split', 'merge', 'sort',
                'shuffle', 'copy', 'lookup', 'reload', 'prefix', 'compare'],
        'u2i': ['filter', 'filter_not', 'filter_info', 'filter_index', 'split', 'merge', 'sort',
                'shuffle', 'copy', 'lookup', 'reload', 'compare'],
        'seg': ['filter', 'filter_not', 'split', 'merge', 'copy', 'lookup', 'iterate', 'reload',
                'compare'],
        'ndx': ['filter', 'filter_not', 'split', 'merge', 'sort', 'copy', 'reload', 'compare',
                'segmentation'],
        'key': ['filter', 'filter_not', 'split', 'merge', 'sort', 'copy', 'to_ndx', 'reload',
                'compare'],
        'scr': ['filter', 'filter_not', 'split', 'merge', 'sort', 'copy', 'align', 'missing',
                'transform', 'reload', 'tarnon', 'compare']}
ART = {'scp': 'scp', 'u2i': 'u2i', 'seg': 'seg', 'ndx': 'ndx_h5', 'key': 'key_h5', 'scr': 'scr_h5'}


def gen(rng, tier):
    kind = rng.choice(sorted(LOPS))
    K = A.KINDS[ART[kind]]
    specs = []
    base = K.gen(rng)
    if kind == 'scp':
        base = uniq(base)
    for i in range(rng.randint(1, 3)):
        s = copy.deepcopy(base)
        s['seed'] = rng.randint(0, 10 ** 6)
        if 'rows' in s and i:
            s = variant(rng, kind, base, i)
        elif 'models' in s and i:
            if rng.random() < 0.7:
                s['models'] = A.ids(rng, rng.randint(1, 4), 'mod', 0.2)
            if rng.random() < 0.7:
                s['segs'] = A.ids(rng, rng.randint(1, 4), 'seg', 0.2)
        specs.append(s)
    n = rng.randint(3, 10 if tier == 'quick' else 18)
    ops = [{'op': rng.choice(LOPS[kind]), 'a': rng.randint(0, 10 ** 6)} for _ in range(n)]
    return {'kind': kind, 'specs': specs, 'ops': ops, 'faults': [],
            'io': {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
                   'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}}


def uniq(s):
    seen, rows = set(), []
    for r in s['rows']:
        if r[0] not in seen:
            seen.add(r[0])
            rows.append(r)
    s['rows'] = rows
    return s


def variant(rng, kind, base, i):
    s = copy.deepcopy(base)
    rows = []
    for r in base['rows']:
        if rng.random() < 0.8:
            q = copy.deepcopy(r)
            q[0] = '%s_l%d' % (r[0], i)
            rows.append(q)
    s['rows'] = rows or [[base['rows'][0][0] + '_l%d' % i] + copy.deepcopy(base['rows'][0][1:])]
    return s


def inject(plan, extra, rng, tier):
    if not extra:
        return
    for n in sorted(set(rng.randint(1, extra) for _ in range(2))):
        q = copy.deepcopy(plan)
        q['faults'] = [{'kind': 'crash', 'n': n, 'keep': rng.choice([0, 0.5, 1])}]
        yield q


class Trials(object):
    """Reference model of a trial object."""

    def __init__(self, kind, models, segs, cells, conds=None, names=None):
        self.kind, self.models, self.segs = kind, list(models), list(segs)
        self.cells = dict(cells)
        self.conds = conds or {}         # ('model', i) -> set of ids, ('trial', i) -> set of pairs
        self.names = names or {}

    def restrict(self, models, segs):
        M, S = set(models), set(segs)
        c = {}
        for (w, i), v in self.conds.items():
            c[(w, i)] = {x for x in v if (x in M if w == 'model' else x in S if w == 'seg' else
                                          x[0] in M and x[1] in S)}
        return Trials(self.kind, models, segs, {k: v for k, v in self.cells.items() if k[0] in M and
                                                k[1] in S}, c, self.names)


def trials_model(kind, s):
    mask, tar, non, scr = A.trial_arrays(s)
    ref = A.reference(ART[kind], dict(s, conds=[0, 0, 0]))
    conds, names = {}, {}
    if kind == 'key':
        for nm, c in A._cond(s).items():
            if nm.endswith('_name'):
                names[nm[:-10]] = [str(x) for x in c]
                continue
            w = nm[:-5]
            for q in range(c.shape[0]):
                v = set()
                for ix in zip(*np.nonzero(c[q])):
                    v.add(s['models'][ix[0]] if w == 'model' else s['segs'][ix[0]] if w == 'seg' else
                          (s['models'][ix[0]], s['segs'][ix[1]]))
                conds[(w, q)] = v
    return Trials(kind, s['models'], s['segs'], ref, conds, names)


class Slot(object):
    def __init__(self, kind, spec, obj, ref):
        self.kind, self.spec, self.obj, self.ref = kind, spec, obj, ref
        self.file = None                 # (path, ref) of the last complete save

    def clone(self, obj, ref):
        return Slot(self.kind, self.spec, obj, ref)


def run(plan, ctx):
    kind = plan['kind']
    ctx.probe('kind:' + kind)
    K = A.KINDS[ART[kind]]
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])
    slots, perms = [], {}
    for s in plan['specs']:
        obj = guard(K.build, s)
        ref = copy.deepcopy(s['rows']) if 'rows' in s else trials_model(kind, s)
        slots.append(Slot(kind, s, obj, ref))
        verify(slots[-1], ctx, 'built')
    nfile = [0]
    i = 0
    while i < len(plan['ops']):
        op = plan['ops'][i]
        r = np.random.RandomState(op['a'])
        np.random.seed(op['a'] % 1000)
        sl = slots[r.randint(len(slots))]
        ctx.ev('op', op['op'])
        ctx.state(kind, op['op'], len(sl.ref) if isinstance(sl.ref, list) else
                  (len(sl.ref.models), len(sl.ref.segs)))
        ctx.probe('op:' + op['op'])
        try:
            with d:
                step(kind, K, op['op'], r, sl, slots, ctx, perms, nfile)
                if d.crashed:
                    raise SimCrash()
        except SimCrash:
            # the process restarts and loads what it had saved completely; the rest is rebuilt
            ctx.probe('recovered')
            d = Disk(ctx, ctx.root, plan['io'], [])
            with d:
                for q in slots:
                    if q.file:
                        q.obj = guard(K.load, q.spec, q.file[0])
                        q.ref = q.file[1]
                    else:
                        q.obj = guard(K.build, q.spec)
                        q.ref = (copy.deepcopy(q.spec['rows']) if 'rows' in q.spec else
                                 trials_model(kind, q.spec))
                    verify(q, ctx, 'recovered')
        for q in slots:
            verify(q, ctx, 'after %s' % op['op'])
        i += 1
    return d.n_mut


def pick(r, lst, lo=1):
    lst = list(lst)
    n = r.randint(lo, len(lst) + 1)
    ix = r.permutation(len(lst))[:n]
    return [lst[i] for i in ix]


def arr(r, lst):
    return np.array(lst) if r.rand() < 0.7 else list(lst)


def step(kind, K, op, r, sl, slots, ctx, perms, nfile):
    put = lambda obj, ref: place(r, sl, slots, obj, ref)
    if op == 'reload':
        nfile[0] += 1
        p = 'l%d.%s' % (nfile[0], K.ext)
        guard(K.save, sl.obj, p)
        if _crashed():
            raise SimCrash()
        sl.file = (p, copy.deepcopy(sl.ref))
        sl.obj = guard(K.load, sl.spec, p)
        return
    if op == 'copy':
        c = guard(sl.obj.copy)
        q = sl.clone(c, copy.deepcopy(sl.ref))
        verify(q, ctx, 'copy')
        # changing the copy must not reach the original
        if kind in ('scp', 'u2i') and len(c):
            guard(c.shuffle, seed=7)
        elif kind in ('ndx', 'key', 'scr'):
            guard(c.sort)
            if kind == 'scr':
                guard(c.transform, lambda x: x + 1)
        return
    if op == 'compare':
        return compare(kind, r, sl, slots, ctx)
    if kind in ('scp', 'u2i', 'seg'):
        list_step(kind, op, r, sl, slots, ctx, perms, put)
    else:
        trial_step(kind, op, r, sl, slots, ctx, put)


def compare(kind, r, sl, slots, ctx):
    """Two lists are equal when, and only when, they hold the same entries."""
    import pandas as pd
    o = sl.obj
    c = guard(o.copy)
    eq = lambda a, b: bool(guard(a.__eq__, b))
    check(eq(o, c) and eq(c, o) and not o != c, 'equality', '%s: a copy is not equal' % kind)
    if kind in ('scp', 'u2i', 'seg') and not sl.ref:
        return
    if kind == 'scp':
        w = [w for w in ('key', 'file_path', 'offset', 'range_spec', 'no-offset', 'no-range')
             if getattr(c, w.replace('no-range', 'range_spec').replace('no-', '')) is not None]
        w = w[r.randint(len(w))]
        i = r.randint(len(c))
        if w in ('key', 'file_path'):
            a = [str(x) for x in getattr(c, w)]
            a[i] += 'x'
            setattr(c, w, np.array(a))
        elif w in ('offset', 'range_spec'):
            a = np.array(getattr(c, w))
            a[i] += 1
            setattr(c, w, a)
        else:
            setattr(c, w.replace('no-range', 'range_spec').replace('no-', ''), None)
    elif kind in ('u2i', 'seg'):
        d = c.utt_info if kind == 'u2i' else c.segments
        d = pd.DataFrame(d).copy()
        i, w = r.randint(len(d)), r.randint(d.shape[1])
        v = d.iloc[i, w]
        col = list(d.iloc[:, w])
        col[i] = v + 'x' if isinstance(v, str) else v + 1
        d[d.columns[w]] = col
        w = str(d.columns[w])
        if kind == 'u2i':
            c.utt_info = d
        else:
            c.segments = d
    else:
        w = {'ndx': ['model_set', 'seg_set', 'trial_mask'],
             'key': ['model_set', 'seg_set', 'tar', 'non', 'model_cond', 'seg_cond', 'trial_cond',
                     'model_cond_name', 'seg_cond_name', 'trial_cond_name'],
             'scr': ['model_set', 'seg_set', 'scores', 'score_mask']}[kind]
        w = [x for x in w if getattr(c, x) is not None and np.size(getattr(c, x))]
        w = w[r.randint(len(w))]
        a = np.array(getattr(c, w))
        ix = tuple(r.randint(n) for n in a.shape)
        if w.startswith('model_set') or w.startswith('seg_set') or w.endswith('name'):
            a = a.astype(object)
            a[ix] = str(a[ix]) + 'x'
            a = np.array([str(x) for x in a])
        elif a.dtype == bool:
            a[ix] = not a[ix]
        else:
            a[ix] += 1 + abs(a[ix])
        setattr(c, w, a)
    check(not eq(o, c) and not eq(c, o) and o != c, 'equality',
          lambda: '%s: equal to a list with another %s' % (kind, w))
    ctx.probe('differs')
    ctx.state(kind, 'compare', w)
    for q in slots:
        if q is not sl and type(q.ref) is type(sl.ref):
            same = sl.ref == q.ref if isinstance(sl.ref, list) else None
            if same is None and (set(sl.ref.models) != set(q.ref.models) or set(sl.ref.cells) !=
                                 set(q.ref.cells)):
                same = False
            if same is False:
                check(not eq(o, q.obj), 'equality', '%s: two different lists are equal' % kind)


def _crashed():
    from sim import disk
    return disk.active() is not None and disk.active().crashed


def place(r, sl, slots, obj, ref):
    q = sl.clone(obj, ref)
    if len(slots) < 4 and r.rand() < 0.4:
        slots.append(q)
    else:
        sl.obj, sl.ref, sl.file = obj, ref, None
        sl.file = None
    return q


# --------------------------------------------------------------------------- lists
def keys_of(kind, sl):
    if kind == 'seg' and sl.obj.index_by_file:
        out = []
        for x in sl.ref:
            if x[1] not in out:
                out.append(x[1])
        return out
    return [x[0] for x in sl.ref]


def list_step(kind, op, r, sl, slots, ctx, perms, put):
    ref, o = sl.ref, sl.obj
    n = len(ref)
    kcol = 1 if kind == 'seg' and o.index_by_file else 0
    if op in ('filter', 'filter_not'):
        ks = pick(r, keys_of(kind, sl))
        if op == 'filter':
            new = [x for x in ref if x[kcol] in ks]
            put(guard(o.filter, arr(r, ks)), new)
        else:
            if len(ks) == len(keys_of(kind, sl)):
                ks = ks[1:]
            if not ks:
                return
            new = [x for x in ref if x[kcol] not in ks]
            put(guard(o.filter, arr(r, ks), keep=False), new)
    elif op == 'filter_paths':
        ps = sorted({x[1] for x in ref})
        sel = pick(r, ps)
        keep = bool(r.rand() < 0.6) or len(sel) == len(ps)
        put(guard(o.filter_paths, np.array(sel), keep=keep),
            [x for x in ref if (x[1] in sel) == keep])
    elif op == 'filter_info':
        f = r.randint(1, sl.spec['f'] + 1)
        vs = sorted({x[f] for x in ref})
        sel = pick(r, vs)
        keep = bool(r.rand() < 0.6) or len(sel) == len(vs)
        put(guard(o.filter_info, np.array(sel), field=f, keep=keep),
            [x for x in ref if (x[f] in sel) == keep])
    elif op == 'filter_index':
        ix = pick(r, range(n))
        keep = bool(r.rand() < 0.6) or len(ix) == n
        new = [ref[i] for i in ix] if keep else [ref[i] for i in range(n) if i not in ix]
        q = put(guard(o.filter_index, np.array(ix), keep=keep), new)
        exact_order(q, new, 'filter_index')
    elif op == 'split':
        k = r.randint(1, min(4, n) + 1)
        i = r.randint(1, k + 1)
        kw = {}
        if kind == 'scp':
            kw['group_by_key'] = bool(r.rand() < 0.5)
        elif kind == 'u2i' and r.rand() < 0.5:
            kw['group_by_field'] = r.randint(1, sl.spec['f'] + 1)
        got = guard(o.split, i, k, **kw)
        rows = content(kind, got, sl.spec)
        # its entries are entries of the list (C07 checks the partition)
        for x in rows:
            check(x in ref, 'key-lost-its-data', lambda: 'split of %s: %s not in the list' % (
                kind, x))
        if rows:
            put(got, rows)
    elif op == 'merge':
        other = [q for q in slots if q is not sl and not ({x[0] for x in q.ref} & {
            x[0] for x in ref})]
        if not other:
            return
        q = other[r.randint(len(other))]
        parts, new = [o, q.obj], ref + q.ref
        for z in other:
            if z is not q and r.rand() < 0.7 and not {x[0] for x in z.ref} & {x[0] for x in new}:
                parts.append(z.obj)
                new = new + z.ref
                ctx.probe('merged-three')
        if kind == 'seg':
            m = guard(type(o).merge, parts, index_by_file=o.index_by_file)
        else:
            m = guard(type(o).merge, parts)
        z = put(m, new)
        exact_order(z, new, 'merge')
    elif op == 'sort':
        if kind == 'u2i' and r.rand() < 0.5:
            f = r.randint(1, sl.spec['f'] + 1)
            guard(o.sort, field=f)
            got = content(kind, o, sl.spec)
            vals = [x[f] for x in got]
        else:
            guard(o.sort)
            got = content(kind, o, sl.spec)
            vals = [x[0] for x in got]
        check(vals == sorted(vals), 'not-sorted', lambda: '%s.sort: %s' % (kind, vals))
    elif op == 'shuffle':
        seed = r.choice([1, 2, 1024])
        ix = guard(o.shuffle, seed=int(seed))
        ix = [int(i) for i in ix]
        check(sorted(ix) == list(range(n)), 'wrong-permutation', lambda: '%s' % ix)
        before = perms.setdefault((n, int(seed)), ix)
        check(before == ix, 'shuffle-not-reproducible', lambda: '%s.shuffle(seed=%d) of %d entries '
              'gave %s, before %s' % (kind, seed, n, ix, before))
        now = content(kind, o, sl.spec)
        base = [None] * n
        order = list(sl.order)
        check([row(x) for x in now] == [row(order[i]) for i in ix], 'key-lost-its-data',
              lambda: '%s.shuffle: list is not permuted by the returned index' % kind)
        c = guard(o.copy)
        np.random.seed(5)
        ix2 = [int(i) for i in guard(c.shuffle, seed=int(seed))]
        check(ix2 == ix, 'shuffle-not-reproducible', 'the same seed gave another permutation')
    elif op == 'prefix':
        guard(o.add_prefix_to_filepath, 'p%d/' % r.randint(9))
        pre = content(kind, o, sl.spec)[0][1].split('/')[0] + '/'
        sl.ref = [[x[0], pre + x[1]] + x[2:] for x in ref]
    elif op == 'lookup':
        pass                                  # verify() does it after every step
    elif op == 'iterate':
        got = []
        for q in o:
            if o.index_by_file:
                part = content('seg', q, sl.spec)
                check(len({x[1] for x in part}) == 1, 'key-lost-its-data', 'iteration by file')
                got += part
            else:
                got.append([str(q['segment_id']), str(q['file_id']), A._ms(q['tbeg']),
                            A._ms(q['tend'])])
        same_rows(got, ref, 'iteration over segments')


def row(x):
    return repr(x)


def content(kind, o, spec):
    return A.KINDS[ART[kind]].content(o, spec)


def same_rows(got, ref, where):
    a, b = sorted(map(row, got)), sorted(map(row, ref))
    if a != b:
        extra = [x for x in a if x not in b]
        miss = [x for x in b if x not in a]
        raise Violation('key-lost-its-data', '%s: has %s, lacks %s (%d entries, expected %d)' % (
            where, extra[:3], miss[:3], len(a), len(b)))


def exact_order(q, ref, where):
    got = content(q.kind, q.obj, q.spec)
    check([row(x) for x in got] == [row(x) for x in ref], 'wrong-order', lambda: '%s of %s: %s, '
          'expected %s' % (where, q.kind, got, ref))


def verify(sl, ctx, where):
    kind, o = sl.kind, sl.obj
    ctx.probe('verified')
    if isinstance(sl.ref, Trials):
        return verify_trials(sl, where)
    got = guard(content, kind, o, sl.spec)
    same_rows(got, sl.ref, '%s %s' % (kind, where))
    sl.ref = sl.order = got               # (the reference follows the order of the object)
    n = len(got)
    check(len(o) == n, 'wrong-length', where)
    by = {x[0]: x for x in sl.ref}
    if kind == 'scp':
        for i in range(n):
            k, p, off, rg = guard(o.__getitem__, i)
            p2, off2, rg2 = guard(o.__getitem__, str(k))
            w = by[str(k)]
            rgl = [0, 0] if rg is None else [int(a) for a in rg]
            check([str(p), off if off is None else int(off), rgl] == w[1:] and p2 == p and
                  (off2 == off) and np.array_equal(rg, rg2), 'lookup-disagrees',
                  lambda: 'scp %s: entry %d %s by key gives %s' % (where, i, k, (p2, off2, rg2)))
            check(guard(o.get_index, str(k)) == i and k in o, 'lookup-disagrees', where)
        check('no such key' not in o, 'lookup-disagrees', where)
    elif kind == 'u2i':
        for i in range(n):
            k, v = guard(o.__getitem__, i)
            v2 = guard(o.__getitem__, str(k))
            w = by[str(k)][1:]
            lv = [str(v)] if np.ndim(v) == 0 else [str(a) for a in v]
            lv2 = [str(v2)] if np.ndim(v2) == 0 else [str(a) for a in v2]
            check(lv == w and lv2 == w, 'lookup-disagrees', lambda: 'labels %s: entry %d %s is %s by '
                  'position, %s by key, should be %s' % (where, i, k, lv, lv2, w))
            check(guard(o.get_index, str(k)) == i and k in o, 'lookup-disagrees', where)
        check('no such key' not in o, 'lookup-disagrees', where)
    else:
        byf = {}
        for x in sl.ref:
            byf.setdefault(x[1], []).append(x)
            check(x[0] in o, 'lookup-disagrees', where)
        for f in byf:
            ids = guard(o.segments_ids_from_file, f)
            check(sorted(map(str, ids)) == sorted(x[0] for x in byf[f]), 'lookup-disagrees',
                  lambda: 'segments %s: file %s has %s' % (where, f, list(ids)))
        if o.index_by_file:
            fs = sorted(byf)
            for i, f in enumerate(fs):
                a = guard(o.__getitem__, f)
                same_rows(content('seg', a, sl.spec), byf[f], 'segments of file %s' % f)
            seen = []
            for i in range(len(fs)):
                a = content('seg', guard(o.__getitem__, i), sl.spec)
                seen += a
            same_rows(seen, sl.ref, 'segments by file position')
        else:
            for i in range(n):
                a = guard(o.__getitem__, i)
                b = guard(o.__getitem__, str(a['segment_id']))
                w = by[str(a['segment_id'])]
                for q in (a, b):
                    check([str(q['segment_id']), str(q['file_id']), A._ms(q['tbeg']),
                           A._ms(q['tend'])] == w, 'lookup-disagrees', 'segment ' + w[0])


# --------------------------------------------------------------------------- trials
def trial_step(kind, op, r, sl, slots, ctx, put):
    ref, o = sl.ref, sl.obj
    if op == 'filter':
        m, g = pick(r, ref.models), pick(r, ref.segs)
        put(guard(o.filter, arr(r, m), arr(r, g)), ref.restrict(m, g))
    elif op == 'filter_not':
        m, g = pick(r, ref.models), pick(r, ref.segs)
        km = [x for x in ref.models if x not in m]
        kg = [x for x in ref.segs if x not in g]
        if not km or not kg:
            return
        put(guard(o.filter, np.array(m), np.array(g), keep=False), ref.restrict(km, kg))
    elif op == 'split':
        a, b = r.randint(1, min(3, len(ref.models)) + 1), r.randint(1, min(3, len(ref.segs)) + 1)
        got = guard(o.split, r.randint(1, a + 1), a, r.randint(1, b + 1), b)
        m, g = A.sets_of(got)
        check(set(m) <= set(ref.models) and set(g) <= set(ref.segs), 'key-lost-its-data', 'split')
        put(got, ref.restrict(m, g))
    elif op == 'merge':
        others = [q for q in slots if q is not sl]
        parts, new = [o], ref
        for i in r.permutation(len(others))[:2]:
            q = others[i]
            if set(ref.conds) != set(q.ref.conds):
                continue
            if kind == 'scr' and set(new.cells) & set(q.ref.cells):
                continue
            if any(q.ref.cells.get(k, v) != v for k, v in new.cells.items()):
                continue                    # no trial is both target and non-target
            cells = dict(new.cells)
            cells.update(q.ref.cells)
            conds = {k: new.conds[k] | q.ref.conds[k] for k in new.conds}
            new = Trials(kind, set(new.models) | set(q.ref.models), set(new.segs) |
                         set(q.ref.segs), cells, conds, ref.names)
            parts.append(q.obj)
        if len(parts) == 1:
            return
        if len(parts) == 3:
            ctx.probe('merged-three')
        put(guard(type(o).merge, parts), new)
    elif op == 'sort':
        guard(o.sort)
        m, g = A.sets_of(o)
        check(m == sorted(m) and g == sorted(g), 'not-sorted', kind)
    elif op == 'to_ndx':
        n = guard(o.to_ndx)
        check(set(A.content_ndx(n)) == set(ref.cells) and A.sets_of(n) == A.sets_of(o),
              'key-lost-its-data', 'to_ndx')
    elif op in ('align', 'missing'):
        m = pick(r, ref.models + (['new-model'] if r.rand() < 0.5 and 'new-model' not in ref.models else []))
        g = pick(r, ref.segs + (['new-seg'] if r.rand() < 0.5 and 'new-seg' not in ref.segs else []))
        mask = r.rand(len(m), len(g)) < 0.6
        import hyperion.utils as U
        if r.rand() < 0.5:
            n = U.TrialNdx(np.array(m), np.array(g), mask)
        else:
            tar = mask & (r.rand(*mask.shape) < 0.5)
            n = U.TrialKey(np.array(m), np.array(g), tar, mask & ~tar)
        want = {(m[i], g[j]) for i, j in zip(*np.nonzero(mask))}
        have = {k: v for k, v in ref.cells.items() if k in want}
        if op == 'align' and r.rand() < 0.3:
            got = guard(o.align_with_ndx, n, raise_missing=False)
            ctx.probe('align-lenient')
        elif op == 'align':
            complete = set(have) == want and set(m) <= set(ref.models) and set(g) <= set(ref.segs)
            got, exc = attempt(o.align_with_ndx, n)
            if complete:
                check(got is not None, 'unexpected-exception', lambda: 'align: %r' % exc)
            else:
                check(set(have) == want or got is None, 'missing-not-reported', 'align_with_ndx '
                      'accepted a list with uncomputed trials')
            if got is None:
                return
        else:
            got = guard(o.set_missing_to_value, n, -7.5)
            for k in want - set(have):
                have[k] = -7.5
        check(A.sets_of(got) == (m, g), 'wrong-order', 'aligned scores do not follow the list')
        put(got, Trials(kind, m, g, have))
    elif op == 'tarnon':
        import hyperion.utils as U
        m, g = pick(r, ref.models), pick(r, ref.segs)
        mask = np.array([[(a, b) in ref.cells and r.rand() < 0.7 for b in g] for a in m])
        tar = mask & (r.rand(*mask.shape) < 0.5)
        t, n = guard(o.get_tar_non, U.TrialKey(np.array(m), np.array(g), tar, mask & ~tar))
        for what, got, sel in (('target', t, tar), ('non-target', n, mask & ~tar)):
            want = sorted(ref.cells[m[i], g[j]] for i, j in zip(*np.nonzero(sel)))
            got = sorted(float(x) for x in got)
            check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9, atol=0),
                  'key-lost-its-data', lambda: '%s scores: %s, should be %s' % (what, got, want))
    elif op == 'segmentation':
        table = {f: ['%s_s%d' % (f, i) for i in range(r.randint(0 if k else 1, 3))]
                 for k, f in enumerate(ref.segs)}

        class Segmentation(object):
            def ext_segment_ids_from_file(self, f):
                return np.array(table[str(f)], dtype='U40')
        n = guard(o.apply_segmentation_to_test, Segmentation())
        want = {(m, x) for m, g in ref.cells for x in table[g]}
        check(set(A.content_ndx(n)) == want, 'key-lost-its-data', lambda: 'segmentation: %s, should '
              'be %s' % (sorted(A.content_ndx(n)), sorted(want)))
        m, g = A.sets_of(n)
        check(sorted(m) == sorted(ref.models) and sorted(g) == sorted(sum(table.values(), [])),
              'wrong-ids', 'segmentation')
    elif op == 'transform':
        guard(o.transform, lambda x: 2 * x + 1)
        ref.cells = {k: 2 * v + 1 for k, v in ref.cells.items()}


def verify_trials(sl, where):
    kind, o, ref = sl.kind, sl.obj, sl.ref
    m, g = A.sets_of(o)
    check(sorted(m) == sorted(ref.models) and sorted(g) == sorted(ref.segs), 'wrong-ids',
          lambda: '%s %s: models %s segments %s' % (kind, where, m, g))
    got = {'ndx': A.content_ndx, 'scr': A.content_scr, 'key': A.content_key}[kind](o)
    if kind == 'key':
        cells = {k: v for k, v in got.items() if v in ('tar', 'non')}
        for (w, i), v in ref.conds.items():
            lab = (w, ref.names[w][i] if w in ref.names else i)
            have = {k[2] if w != 'trial' else k[2:] for k in got if k[:2] == lab and len(k) == (
                4 if w == 'trial' else 3)}
            check(have == v, 'key-lost-its-data', lambda: 'key %s: condition %s holds for %s, '
                  'should for %s' % (where, lab, sorted(map(str, have)), sorted(map(str, v))))
        got = cells
    for k, v in ref.cells.items():
        check(k in got, 'key-lost-its-data', lambda: '%s %s: trial %s is lost' % (kind, where, k))
        check(got[k] == v or (kind == 'scr' and abs(got[k] - v) <= 1e-9 * abs(v)),
              'key-lost-its-data', lambda: '%s %s: trial %s has %r, should have %r' % (
                  kind, where, k, got[k], v))
    for k in got:
        check(k in ref.cells, 'key-lost-its-data', lambda: '%s %s: trial %s appeared' % (
            kind, where, k))


def shrink(plan):
    for j, s in enumerate(plan['specs']):
        if j and len(plan['specs']) > 1:
            q = copy.deepcopy(plan)
            del q['specs'][j]
            yield q
        for lst in ('rows', 'models', 'segs'):
            if lst in s and len(s[lst]) > 1:
                for i in range(len(s[lst])):
                    q = copy.deepcopy(plan)
                    del q['specs'][j][lst][i]
                    yield q
