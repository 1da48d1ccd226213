"""C07: splitting a list into jobs loses and duplicates nothing.

A list is saved by a planning process and split by N simulated job processes, each of which loads
the list itself, takes its part, writes the part to its own file and may be killed, run twice or
delayed; a merging process, which may be killed too, puts the parts together again."""
import copy
import os

import numpy as np

from sim import artifacts as A
from sim.core import SimCrash, Violation, attempt, check, guard
from sim.disk import Disk

RUNS = {'quick': 2500, 'thorough': 25000}
STATE_RULE = 'kind of list, part counts, grouping, order in which the jobs finished'
MUST_REACH = ['fault:crash', 'fault:job-run-twice', 'grouped', 'plain', 'empty-part',
              'more-parts-than-entries', 'merged-from-files', 'merged-in-memory', 'nested-split',
              'fold-masked', 'fold-grouped', 'one-part'] + \
    ['kind:' + k for k in ('scp', 'u2i', 'seg', 'ndx', 'key', 'scr', 'fold', 'tve', 'raw')]
REAL = ['split and merge of SCPList, Utt2Info, SegmentList, TrialNdx, TrialKey, TrialScores',
        'FoldList, TrainValEvalList', 'split_list, split_list_group_by_key', 'saving and loading '
        'of all of them', 'CPython buffers, pandas, HDF5']
STUB = ['system calls below the buffers; job processes run one at a time in a seeded order (they '
        'share nothing but files nobody rewrites)']
ASSUMPTIONS = ['entries have distinct keys except in data lists', 'process-crash model']
LISTS = ('faults', 'parts')
ART = {'scp': ['scp'], 'u2i': ['u2i'], 'seg': ['seg'], 'ndx': ['ndx_txt', 'ndx_h5'],
       'key': ['key_txt', 'key_h5'], 'scr': ['scr_h5', 'scr_txt']}


def gen(rng, tier):
    kind = rng.choice(['scp', 'scp', 'u2i', 'u2i', 'seg', 'seg', 'ndx', 'key', 'scr', 'fold', 'tve',
                       'raw'])
    io = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
          'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    plan = {'kind': kind, 'io': io, 'faults': [], 'nested': rng.choice([0, 0, 2, 3])}
    if kind in ('fold', 'tve', 'raw'):
        n = rng.choice([rng.randint(1, 25), rng.randint(26, 250)]) if kind == 'raw' else rng.randint(1, 25)
        plan['keys'] = A.ids(rng, n, 'utt')
        g = rng.randint(1, n)
        plan['group'] = ['g%d' % rng.randrange(g) for _ in range(n)]
        c = rng.randint(1, 3)
        plan['cls'] = [int(x[1:]) % c for x in plan['group']]
        plan['mask'] = [rng.random() < 0.8 for _ in range(n)] if rng.random() < 0.3 else None
        plan['use'] = [rng.random() < 0.6, rng.random() < 0.6]
        plan['shuffle'] = rng.random() < 0.5
        plan['seed'] = rng.randint(0, 1000)
        plan['n'] = rng.randint(1, 6)
        plan['prop'] = [round(rng.uniform(0.05, 0.45), 2) for _ in range(rng.randint(1, 2))]
        plan['twice'] = []
        if kind == 'raw':
            plan['parts'] = [rng.randint(1, n) for _ in range(12)] + [n, n + rng.randint(1, 9)]
        return plan
    art = rng.choice(ART[kind])
    plan['art'] = art
    K = A.KINDS[art]
    if K.trial:
        s = K.gen(rng)
        if rng.random() < 0.3:
            s['models'] = A.ids(rng, rng.randint(4, 9), 'mod', 0.2)
            s['segs'] = A.ids(rng, rng.randint(4, 12), 'seg', 0.2)
        plan['n'] = [rng.randint(1, len(s['models'])), rng.randint(1, len(s['segs']))]
        nj = plan['n'][0] * plan['n'][1]
        plan['group'] = False
    else:
        s = K.gen(rng, rng.choice([1, 2, 5, 9, 16, 30]))
        plan['n'] = rng.choice([1, 2, 3, 4, 5, 7, 11, max(1, len(s['rows'])), len(s['rows']) + 2])
        nj = plan['n']
        plan['group'] = rng.random() < 0.5
        plan['field'] = rng.randint(1, s['f']) if kind == 'u2i' else 0
    plan['spec'] = s
    o = list(range(nj))
    rng.shuffle(o)
    plan['order'] = o
    plan['twice'] = [j for j in o if rng.random() < 0.15]
    plan['mergeorder'] = rng.sample(o, len(o))
    plan['files'] = rng.random() < 0.7
    return plan


def inject(plan, extra, rng, tier):
    if not extra:
        return
    for n in sorted(set(rng.randint(1, extra) for _ in range(2 if tier == 'quick' else 6))):
        q = copy.deepcopy(plan)
        q['faults'] = [{'kind': 'crash', 'n': n, 'keep': rng.choice([0, 0.5, 1])}]
        yield q


def run(plan, ctx):
    kind = plan['kind']
    ctx.probe('kind:' + kind)
    if kind == 'raw':
        return raw(plan, ctx)
    if kind in ('fold', 'tve'):
        return folds(plan, ctx)
    return Jobs(plan, ctx).run()


def split(plan, o, j):
    kind, n = plan['kind'], plan['n']
    if isinstance(n, list):
        return guard(o.split, j // n[1] + 1, n[0], j % n[1] + 1, n[1])
    if kind == 'scp':
        return guard(o.split, j + 1, n, group_by_key=plan['group'])
    if kind == 'u2i':
        return guard(o.split, j + 1, n, group_by_field=plan['field'] if plan['group'] else 0)
    return guard(o.split, j + 1, n)


class Jobs(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.kind, self.s = plan['kind'], plan['spec']
        self.K = A.KINDS[plan['art']]
        self.trial = self.K.trial
        self.faults = [dict(f) for f in plan['faults']]
        self.n_mut = 0

    def process(self, body):
        """Runs body in a fresh process, restarting it until it completes."""
        for attempt_no in range(4):
            d = Disk(self.ctx, self.ctx.root, self.plan['io'], self.faults)
            try:
                with d:
                    body()
                    if d.crashed:
                        raise SimCrash()
                self.n_mut += d.n_mut
                for f in self.faults:
                    f['n'] -= d.n_mut
                self.faults = [f for f in self.faults if f['n'] > 0]
                return
            except SimCrash:
                self.n_mut += d.n_mut
                self.faults = []
                self.ctx.ev('killed')
        raise AssertionError('unreachable')

    def whole(self):
        return guard(self.K.load, self.s, 'all.' + self.K.ext)

    def save(self):
        guard(self.K.save, guard(self.K.build, self.s), 'all.' + self.K.ext)

    def job(self, j):
        o = self.whole()
        before = self.K.content(o, self.s)
        p = split(self.plan, o, j)
        check(self.K.content(o, self.s) == before, 'list-changed', 'splitting changes the list')
        rows = self.K.content(p, self.s)
        again = self.K.content(split(self.plan, o, j), self.s)
        check(rows == again, 'split-not-repeatable', lambda: 'part %d: %s, then %s' % (j, rows, again))
        if self.parts.get(j) is not None:
            check(self.parts[j] == rows, 'split-not-repeatable', lambda: 'part %d of %s: a restarted '
                  'job got %s, before %s' % (j, self.plan['n'], rows, self.parts[j]))
        self.parts[j] = rows
        self.objs[j] = p
        if not rows:
            self.ctx.probe('empty-part')
            if not self.trial:
                return
        if self.plan['nested'] and not self.trial and not self.plan['group']:
            # a job splits its own part once more
            self.ctx.probe('nested-split')
            q = dict(self.plan, n=self.plan['nested'])
            sub = []
            for i in range(q['n']):
                sub += self.K.content(split(q, p, i), self.s)
            self.same(sub, rows, 'splitting part %d again' % j)
        guard(self.K.save, p, 'part.%d.%s' % (j, self.K.ext))

    def same(self, got, want, where):
        if isinstance(want, dict):
            d = A.diff(self.plan['art'], got, want)
            check(d is None, 'entries-differ', lambda: '%s: %s' % (where, d))
        else:
            a, b = sorted(map(repr, got)), sorted(map(repr, want))
            check(a == b, 'entries-differ', lambda: '%s: has %s, lacks %s (%d entries, %d expected)' % (
                where, [x for x in a if x not in b][:3], [x for x in b if x not in a][:3], len(a),
                len(b)))

    def run(self):
        plan, ctx, n = self.plan, self.ctx, self.plan['n']
        self.parts, self.objs = {}, {}
        self.process(self.save)
        for j in plan['order']:
            ctx.ev('job', j)
            self.process(lambda: self.job(j))
            if j in plan['twice']:
                ctx.fault('job-run-twice')
                self.process(lambda: self.job(j))
        nj = len(plan['order'])
        if nj == 1:
            ctx.probe('one-part')
        if self.trial:
            ref = A.reference(plan['art'], self.s)
            self.trials(ref, nj)
        else:
            self.rows(nj)
        ctx.state(self.kind, n, plan['group'], plan['order'], len(self.faults))
        return self.n_mut

    # ------------------------------------------------------------------ lists
    def rows(self, nj):
        plan, ref = self.plan, self.s['rows']
        if nj > len(ref):
            self.ctx.probe('more-parts-than-entries')
        if sorted(self.parts) != list(range(nj)):
            return                     # (a minimised plan without some of the jobs)
        allr = [x for j in range(nj) for x in self.parts[j]]
        self.same(allr, ref, 'the %d parts together' % nj)
        grouped = plan['group'] and self.kind in ('scp', 'u2i') or self.kind == 'seg' and \
            self.s['byfile']
        col = {'scp': 0, 'u2i': plan['field'], 'seg': 1}[self.kind]
        if grouped:
            self.ctx.probe('grouped')
            home = {}
            for j in range(nj):
                for x in self.parts[j]:
                    check(home.setdefault(x[col], j) == j, 'group-split', lambda: 'the entries of '
                          '%s are in parts %d and %d' % (x[col], home[x[col]], j))
        else:
            self.ctx.probe('plain')
            check(allr == ref, 'wrong-order', lambda: 'parts in order give %s, the list is %s' % (
                allr, ref))
        got = {}

        def merge():
            if plan['files']:
                self.ctx.probe('merged-from-files')
                obs = [guard(self.K.load, self.s, 'part.%d.%s' % (j, self.K.ext))
                       for j in range(nj) if self.parts[j]]
            else:
                self.ctx.probe('merged-in-memory')
                obs = [self.objs[j] for j in range(nj)]
            kw = {'index_by_file': self.s['byfile']} if self.kind == 'seg' else {}
            m = guard(type(obs[0]).merge, obs, **kw)
            got['rows'] = self.K.content(m, self.s)
            guard(self.K.save, m, 'merged.' + self.K.ext)

        self.process(merge)
        check(got['rows'] == allr, 'merge-differs', lambda: 'merging the parts gives %s, the parts '
              'are %s' % (got['rows'], allr))
        self.process(lambda: got.update(file=self.K.content(guard(
            self.K.load, self.s, 'merged.' + self.K.ext), self.s)))
        check(got['file'] == allr, 'merge-differs', lambda: 'the merged file holds %s, the parts '
              'are %s' % (got['file'], allr))

    # ------------------------------------------------------------------ trials
    def trials(self, ref, nj):
        plan, n = self.plan, self.plan['n']
        if sorted(self.parts) != list(range(nj)) or nj != n[0] * n[1]:
            return
        seen = {}
        for j in range(nj):
            for k, v in self.parts[j].items():
                if k[0] in ('model', 'seg', 'trial', 'conditions'):
                    continue
                check(k not in seen, 'entry-duplicated', lambda: 'trial %s is in parts %d and %d' % (
                    k, seen[k], j))
                seen[k] = j
        got = {}

        def merge():
            if plan['files']:
                self.ctx.probe('merged-from-files')
                # a part without trials makes an empty text file: it adds nothing
                obs = [guard(self.K.load, self.s, 'part.%d.%s' % (j, self.K.ext))
                       for j in plan['mergeorder'] if self.K.h5 or self.parts[j]]
            else:
                self.ctx.probe('merged-in-memory')
                obs = [self.objs[j] for j in plan['mergeorder']]
            m = guard(type(obs[0]).merge, obs)
            got['d'] = self.K.content(m, self.s)
            got['ids'] = [sorted(x) for x in A.sets_of(m)]
            guard(self.K.save, m, 'merged.' + self.K.ext)

        self.process(merge)
        self.same(got['d'], ref, 'merging %s parts in order %s' % (n, plan['mergeorder']))
        if self.K.h5 or not plan['files']:
            want = [sorted(self.s['models']), sorted(self.s['segs'])]
            if self.K.h5:
                check(got['ids'] == want, 'entries-differ', lambda: 'merged ids %s, should be %s' % (
                    got['ids'], want))
        self.process(lambda: got.update(file=self.K.content(guard(
            self.K.load, self.s, 'merged.' + self.K.ext), self.s)))
        self.same(got['file'], ref, 'the merged file')


# --------------------------------------------------------------------------- bare lists
def raw(plan, ctx):
    from hyperion.utils import list_utils as L
    keys = plan['keys']
    a = np.array(keys) if plan['shuffle'] else list(keys)
    grp = plan['group'] if plan['use'][0] else None
    ctx.probe('grouped' if grp else 'plain')
    for n in plan['parts']:
        raw_parts(L, keys, a, grp, n, ctx)
    return 0


def raw_parts(L, keys, a, grp, n, ctx):
    seen, home = [], {}
    for j in range(n):
        if grp:
            x, loc = guard(L.split_list_group_by_key, a, j + 1, n, key=grp)
        else:
            x, loc = guard(L.split_list, a, j + 1, n)
        loc = [int(i) for i in loc]
        check([str(v) for v in x] == [keys[i] for i in loc], 'entries-differ', lambda: 'part %d: %s at '
              '%s' % (j, list(x), loc))
        for i in loc:
            if grp:
                check(home.setdefault(grp[i], j) == j, 'group-split', lambda: 'group %s is in parts '
                      '%d and %d' % (grp[i], home[grp[i]], j))
        seen += loc
    check(sorted(seen) == list(range(len(keys))), 'entries-differ', lambda: '%d parts of %d entries '
          'cover %s' % (n, len(keys), seen))
    if not grp:
        check(seen == list(range(len(keys))), 'wrong-order', lambda: '%s' % seen)
    ctx.state(len(keys), n, bool(grp))


# --------------------------------------------------------------------------- fold lists
def folds(plan, ctx):
    kind, keys, n = plan['kind'], plan['keys'], plan['n']
    use_g, use_b = plan['use']
    mask = None if plan['mask'] is None else np.array(plan['mask'])
    if mask is not None and not mask.any():
        mask = None
    kw = {'mask': mask, 'shuffle': plan['shuffle'], 'seed': plan['seed']}
    if use_g:
        kw['group_by_key'] = np.array(plan['group'])
    if use_b:
        kw['balance_by_key'] = np.array(['c%d' % c for c in plan['cls']])
    if kind == 'fold':
        from hyperion.utils.fold_list import FoldList as C
        make = lambda: attempt(C.create, np.array(keys), n, **copy.deepcopy(kw))
    else:
        from hyperion.utils.train_val_eval_list import TrainValEvalList as C
        if plan['seed'] % 2:
            kw['part_names'] = ['p-%d' % j for j in range(len(plan['prop']) + 1)]
        make = lambda: attempt(C.create, np.array(keys), list(plan['prop']), **copy.deepcopy(kw))
    np.random.seed(1)
    o, exc = make()
    live = [i for i in range(len(keys)) if mask is None or mask[i]]
    grp = plan['group'] if use_g else keys
    cls = plan['cls'] if use_b else [0] * len(keys)
    ngr = max(len({grp[i] for i in live if cls[i] == c}) for c in set(cls[i] for i in live))
    if o is None:
        # refused: only when some fold would be empty
        ok = isinstance(exc, AssertionError) and (kind == 'tve' or ngr < n)
        if mask is not None and isinstance(exc, ValueError) and len({cls[i] for i in live}) < len(
                set(cls)):
            ok = True                  # every entry of a class is masked out
        check(ok, 'unexpected-exception', lambda: '%s.create: %r' % (kind, exc))
        ctx.probe('refused')
        return 0
    np.random.seed(2)
    o2, _ = make()
    num = [int(x) for x in (o.fold if kind == 'fold' else o.part)]
    num2 = [int(x) for x in (o2.fold if kind == 'fold' else o2.part)]
    check(num == num2, 'split-not-repeatable', lambda: 'same seed: %s, then %s' % (num, num2))
    check([str(k) for k in o.key] == keys, 'entries-differ', 'keys of the fold list')
    home = {}
    for i in live:
        check(num[i] >= 0, 'entries-differ', lambda: '%s is in no part' % keys[i])
        if use_g:
            h = home.setdefault((cls[i], grp[i]), num[i])
            check(h == num[i], 'group-split', lambda: 'group %s is in parts %d and %d' % (
                grp[i], h, num[i]))
    if mask is not None:
        ctx.probe('fold-masked')
    if use_g:
        ctx.probe('fold-grouped')
    tests = []
    for f in range(max(num) + 1):
        if kind == 'fold':
            tr, te = guard(o.get_fold, f)
            tr, te = [str(x) for x in tr], [str(x) for x in te]
            check(sorted(tr + te) == sorted(keys[i] for i in live), 'entries-differ',
                  lambda: 'fold %d: train and test hold %s' % (f, sorted(tr + te)))
        else:
            te = [keys[i] for i in np.nonzero(guard(o.get_part_idx, f))[0]]
        want = [keys[i] for i in live if num[i] == f]
        check(te == want, 'entries-differ', lambda: 'part %d holds %s, should %s' % (f, te, want))
        tests += te
    check(sorted(tests) == sorted(keys[i] for i in live), 'entries-differ', 'the folds together')
    share(plan, kind, num, live, grp, cls, n)
    guard(o.save, 'folds.txt')
    b = guard(C.load, 'folds.txt')
    now = [int(x) for x in (b.fold if kind == 'fold' else b.part)]
    check([str(k) for k in b.key] == keys and now == num, 'entries-differ', lambda: 'the saved list '
          'comes back as %s %s' % (list(b.key), now))
    if kind == 'fold':
        check(len(b) == max(num) + 1, 'entries-differ', lambda: 'a list of %d folds' % len(b))
    else:
        for f in range(max(num) + 1):
            want = [k for k, v in zip(keys, num) if v == f]
            names = [f] + ([o.part_names[f]] if o.part_names is not None else [])
            for nm in names:
                te = [str(k) for k in guard(b.get_part, nm)]
                check(te == want, 'entries-differ', lambda: 'part %s of the saved list holds %s, should '
                      '%s' % (nm, te, want))
    # aligning keeps each key with its fold
    perm = list(np.random.RandomState(plan['seed']).permutation(len(keys)))
    if plan['seed'] % 3 == 0:
        perm = perm[:1 + plan['seed'] % len(perm)]
    al = guard(o.copy)
    guard(al.align_with_key, np.array([keys[i] for i in perm]))
    if mask is not None:
        check([bool(x) for x in al.mask] == [bool(mask[i]) for i in perm], 'entries-differ',
              'the mask of an aligned list')
        ctx.probe('masked-aligned')
    now = [int(x) for x in (al.fold if kind == 'fold' else al.part)]
    check(now == [num[i] for i in perm] and [str(k) for k in al.key] == [keys[i] for i in perm],
          'entries-differ', 'align_with_key')
    bad, exc = attempt(guard(o.copy).align_with_key, np.array([keys[0], 'no such key']))
    check(exc is not None and not isinstance(exc, (NameError, AttributeError)), 'missing-not-reported',
          'align_with_key accepted a key that is not in the list')
    ctx.state(kind, num)
    return 0


def share(plan, kind, num, live, grp, cls, n):
    """Every part has its share of the groups of every class."""
    if kind == 'fold':
        prop = [1.0 / n] * n
    else:
        prop = list(plan['prop'])
        prop.append(1 - sum(prop))
    for c in set(cls[i] for i in live):
        g = {}
        for i in live:
            if cls[i] == c:
                g[grp[i]] = num[i]
        for j, p in enumerate(prop):
            k = sum(v == j for v in g.values())
            check(abs(k - p * len(g)) <= 1.0 + 1e-6, 'unbalanced', lambda: 'part %d has %d of the %d '
                  'groups of class %s, its share is %g' % (j, k, len(g), c, p))


def shrink(plan):
    s = plan.get('spec')
    if s and 'rows' in s and len(s['rows']) > 1:
        for i in range(len(s['rows'])):
            q = copy.deepcopy(plan)
            del q['spec']['rows'][i]
            yield q
