"""C09: distributed scoring neither loses, duplicates nor invents scores.

A trial list is scored by a grid of simulated job processes (the repository's own scoring
scripts or trial readers) which read vectors and lists from disk, are killed, meet read and write
errors, are retried, run twice or never finish; a merging process joins the score files and an
evaluating process aligns them with the list and the key."""
import copy
import os

import numpy as np

from sim import artifacts as A
from sim import models as M
from sim import scripts
from sim.core import SimCrash, Violation, attempt, check, guard, in_repo
from sim.disk import Disk

RUNS = {'quick': 350, 'thorough': 7000}
STATE_RULE = 'scorer, grid, file formats, which jobs failed and how, which outputs are missing'
MUST_REACH = ['fault:crash', 'fault:eio-read', 'fault:eio-write', 'fault:enospc',
              'fault:job-run-twice', 'fault:output-missing', 'fault:merged-twice', 'retried',
              'aligned', 'refused-missing', 'marked-missing', 'filled', 'tar-non', 'report',
              'killed-merge', 'scored:cos', 'scored:plda', 'scored:nvs1', 'scored:gbe',
              'scored:multi', 'fmt:txt', 'fmt:h5', 'split', 'whole']
REAL = ['eval-cos-1vs1, eval-plda-1vs1, eval-plda-nvs1, eval-linear-gbe, eval-2class-performance '
        '(their main functions)', 'TrialDataReader, MultiTestTrialDataReader, '
        'ClassifTrialDataReader', 'TrialNdx, TrialKey, TrialScores, Utt2Info', 'archive readers',
        'PLDA, LinearGBE and transforms with their files', 'CPython buffers, HDF5']
STUB = ['system calls below the buffers; job processes (run one at a time in a seeded order, they '
        'share only files nobody rewrites); the scheduler that retries failed jobs']
ASSUMPTIONS = ['the output of a job that failed is not merged', 'process-crash model']
LISTS = ('jobs',)


def gen(rng, tier):
    how = rng.choice(['cos', 'cos', 'plda', 'nvs1', 'gbe', 'multi'])
    nm, ns = rng.randint(1, 5), rng.randint(1, 7)
    odd = 0.2
    p = {'how': how, 'dim': rng.randint(3, 6), 'seed': rng.randint(0, 10 ** 6),
         'models': A.ids(rng, nm, 'mod', odd), 'segs': A.ids(rng, ns, 'seg', odd),
         'enroll': [1 if how in ('cos', 'plda', 'multi') else rng.randint(1, 3) for _ in range(nm)],
         'extra': rng.randint(0, 2), 'dens': rng.choice([0.3, 0.7, 1]),
         'subs': [rng.randint(1, 3) for _ in range(ns)],
         'grid': [rng.randint(1, nm), rng.randint(1, ns)], 'ndx': rng.choice(['txt', 'h5']),
         'scr': rng.choice(['txt', 'h5']), 'merged': rng.choice(['txt', 'h5']),
         'key': rng.choice(['txt', 'h5']), 'store': rng.choice(['ark', 'h5']),
         'preproc': rng.random() < 0.4, 'flags': rng.randint(0, 7)}
    if how == 'gbe':
        p['grid'][0] = 1
        p['models'] = A.ids(rng, 3, 'cls', odd)
        p['method'] = rng.choice(['linear', 'llk'])
    nj = p['grid'][0] * p['grid'][1]
    o = list(range(nj))
    rng.shuffle(o)
    p['jobs'] = [{'j': j, 'faults': [], 'twice': rng.random() < 0.1} for j in o]
    p['lost'] = []
    p['mergeorder'] = rng.sample(o, nj)
    p['mergefaults'] = []
    p['dupmerge'] = rng.random() < 0.1
    p['io'] = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
               'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    return p


def inject(plan, extra, rng, tier):
    if not extra:
        return
    for v in range(3 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        for jb in q['jobs']:
            if rng.random() < (0.6 if len(q['jobs']) < 4 else 0.3):
                mut, rd, nb = extra.get(str(jb['j']), (1, 1, 1))
                k = rng.choice(['crash', 'crash', 'eio_read', 'eio_write', 'enospc'])
                jb['faults'] = [{'crash': {'kind': k, 'n': rng.randint(1, mut), 'keep': rng.choice(
                    [0, 0.5, 1])}, 'eio_read': {'kind': k, 'n': rng.randint(1, max(1, rd)),
                                                'times': rng.choice([1, 10 ** 6])},
                    'eio_write': {'kind': k, 'n': rng.randint(1, mut)},
                    'enospc': {'kind': k, 'after': rng.randint(0, max(0, nb - 1))}}[k]]
        if v != 0 and len(q['jobs']) > 0:
            q['lost'] = [jb['j'] for jb in q['jobs'] if rng.random() < 0.3]
            if len(q['lost']) == len(q['jobs']):
                q['lost'].pop()
        elif 'merge' in extra:
            q['mergefaults'] = [{'kind': 'crash', 'n': rng.randint(1, max(1, extra['merge'])),
                                 'keep': rng.choice([0, 0.5, 1])}]
        yield q


class Job(object):
    def __init__(self, plan, ctx):
        self.p, self.ctx = plan, ctx
        self.r = np.random.RandomState(plan['seed'])
        p = plan
        self.mask = self.r.rand(len(p['models']), len(p['segs'])) < p['dens']
        if not self.mask.any():
            self.mask[0, 0] = True
        self.tar = self.mask & (self.r.rand(*self.mask.shape) < 0.4)
        self.tar.flat[np.nonzero(self.mask.ravel())[0][0]] = True
        self.enr = []
        for m, n in zip(p['models'], p['enroll']):
            for i in range(n):
                self.enr.append(['e%d_%s' % (i, m), m])
        for i in range(p['extra']):
            self.enr.append(['x%d' % i, 'extra%d' % i])
        order = self.r.permutation(len(self.enr))
        self.enr = [self.enr[i] for i in order]
        self.sub = [['t%d_%s' % (i, s), s] for s, n in zip(p['segs'], p['subs']) for i in range(n)]
        order = self.r.permutation(len(self.sub))
        self.sub = [self.sub[i] for i in order]
        self.scores = {}
        self.info = {}

    # ------------------------------------------------------------------ the input of the jobs
    def prepare(self):
        import hyperion.utils as U
        from hyperion.io import DataWriterFactory, HypDataWriter
        p, r = self.p, self.r
        vecs = {}
        keys = [e[0] for e in self.enr] + ([x[0] for x in self.sub] if p['how'] == 'multi' else
                                           list(p['segs']))
        for k in keys:
            vecs[k] = r.randn(p['dim']).astype('float32')
        self.vecs = vecs
        d = Disk(self.ctx, self.ctx.root, p['io'])
        with d:
            if p['how'] == 'gbe':
                w = HypDataWriter('v.h5')
                w.write(list(vecs), '', [vecs[k] for k in vecs])
                w.f.close()
                with open('classes', 'w') as f:
                    for i, m in enumerate(p['models']):
                        f.write('%s %d\n' % (m, i))
                with open('tests', 'w') as f:
                    for s in p['segs']:
                        f.write('%s\n' % s)
                self.v = 'v.h5'
            else:
                ext = p['store']
                with DataWriterFactory.create('%s,scp:v.%s,v.scp' % (ext, ext)) as w:
                    w.write(list(vecs), [vecs[k] for k in vecs])
                self.v = 'scp:v.scp' if ext == 'ark' else 'h5:v.h5'
            self.ndx = 'trials.' + p['ndx']
            U.TrialNdx(list(p['models']), list(p['segs']), self.mask).save(self.ndx)
            U.TrialKey(list(p['models']), list(p['segs']), self.tar, self.mask & ~self.tar).save(
                'key.' + p['key'])
            U.Utt2Info.create([e[0] for e in self.enr], [e[1] for e in self.enr]).save('enroll')
            U.Utt2Info.create([e[0] for e in self.sub], [e[1] for e in self.sub]).save('subsegs')
            self.pre = None
            s = {'kind': 'chain', 'dim': p['dim'], 'seed': p['seed'], 'flags': p['flags'],
                 'name': None, 'parts': ['centwhiten', 'lnorm']}
            if p['preproc']:
                self.pre = M.build(s)
                self.pre.save('./pre.h5')
            kind = {'plda': 'splda', 'nvs1': 'frplda', 'gbe': 'lgbe'}.get(p['how'])
            self.model = None
            if kind:
                self.model = M.build({'kind': kind, 'dim': p['dim'], 'seed': p['seed'] + 1, 'flags':
                                      p['flags'], 'name': None})
                self.model.save('./model.h5')
        # what the trial list on disk says (text lists hold only what has trials)
        if p['ndx'] == 'txt':
            self.M = sorted(p['models'][i] for i in range(len(p['models'])) if self.mask[i].any())
            self.S = sorted(p['segs'][j] for j in range(len(p['segs'])) if self.mask[:, j].any())
        else:
            self.M, self.S = list(p['models']), list(p['segs'])
        if p['how'] == 'gbe':
            self.M, self.S = list(p['models']), list(p['segs'])
        self.grid = [min(p['grid'][0], len(self.M)), min(p['grid'][1], len(self.S))]
        self.reference()

    def reference(self):
        """Scores straight from the vectors, one trial at a time."""
        p = self.p
        pp = (lambda x: self.pre.predict(x)) if self.pre is not None else (lambda x: x)
        ln = lambda x: x / np.sqrt((x ** 2).mean())
        one = lambda k: pp(np.asarray(self.vecs[k], dtype='float64')[None])[0]
        ref = {}
        for m in p['models']:
            es = [one(e[0]) for e in self.enr if e[1] == m] if p['how'] != 'gbe' else None
            for s in p['segs']:
                if p['how'] == 'cos':
                    a, b = es[0], one(s)
                    v = float(len(a) * (a @ b) / np.sqrt((a @ a) * (b @ b)))   # (LNorm)
                elif p['how'] == 'plda':
                    v = float(self.model.llr_1vs1(es[0][None], one(s)[None])[0, 0])
                elif p['how'] == 'nvs1':
                    v = float(np.mean([self.model.llr_1vs1(e[None], one(s)[None])[0, 0]
                                       for e in es]))
                elif p['how'] == 'gbe':
                    v = float(self.model.predict(one(s)[None], p['method'], False)[
                        0, p['models'].index(m)])
                else:
                    v = float(max(es[0] @ one(x[0]) for x in self.sub if x[1] == s))
                ref[(m, s)] = v
        self.ref = ref

    # ------------------------------------------------------------------ one scoring job
    def score(self, j, out):
        p = self.p
        kw = dict(model_idx=j // self.grid[1] + 1, num_model_parts=self.grid[0],
                  seg_idx=j % self.grid[1] + 1, num_seg_parts=self.grid[1])
        pre = './pre.h5' if p['preproc'] else None
        how = p['how']
        if how == 'cos':
            scripts.load('eval-cos-1vs1.py').eval_cos(self.v, self.ndx, 'enroll', None, pre, out, **kw)
        elif how == 'plda':
            scripts.load('eval-plda-1vs1.py').eval_plda(
                self.v, self.ndx, 'enroll', None, pre, './model.h5', out, 'splda', **kw)
        elif how == 'nvs1':
            scripts.load('eval-plda-nvs1.py').eval_plda(
                self.v, self.ndx, 'enroll', None, pre, './model.h5', out, plda_type='frplda',
                pool_method='savg', **kw)
        elif how == 'gbe':
            kw.pop('model_idx'), kw.pop('num_model_parts')
            scripts.load('eval-linear-gbe.py').eval_linear_gbe(
                self.v, 'classes', 'tests', pre, './model.h5', out, None, False, p['method'], **kw)
        else:
            from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader as MR
            from hyperion.transforms import TransformList
            import hyperion.utils as U
            rd = MR(self.v, self.ndx, 'enroll', None, 'subsegs', None if pre is None else
                    TransformList.load(pre), **kw)
            xe, xt, enr, ndx, orig = rd.read()
            sc = np.dot(xe, xt.T)
            seg, tot = list(ndx.seg_set), np.full((len(enr), len(ndx.seg_set)), -1e300)
            for i, s in enumerate(orig):
                if s in seg:
                    k = seg.index(s)
                    tot[:, k] = np.maximum(tot[:, k], sc[:, i])
            U.TrialScores(enr, ndx.seg_set, tot).save(out)

    def process(self, body, faults):
        """One process: 'ok', 'killed' or 'failed' (exit with an error)."""
        d = Disk(self.ctx, self.ctx.root, self.p['io'], faults)
        try:
            with d:
                body()
                if d.crashed:
                    raise SimCrash()
            st = 'ok'
        except SimCrash:
            st = 'killed'
        except Violation:
            raise
        except Exception as e:
            if not (faults and (d.failed or d.crashed)):
                if in_repo(e):
                    guard(_raise, e)
                raise
            st = 'failed'
        self.ctx.ev('process', st)
        return st, d

    def run(self):
        p, ctx = self.p, self.ctx
        self.prepare()
        nj = self.grid[0] * self.grid[1]
        ctx.probe('scored:' + p['how'])
        ctx.probe('fmt:' + p['scr'])
        ctx.probe('split' if nj > 1 else 'whole')
        outcome = {}
        for jb in p['jobs']:
            j = jb['j']
            if j >= nj:
                continue
            out = 'scores.%d.%s' % (j, p['scr'])
            st, d = self.process(lambda: self.score(j, out), jb['faults'])
            outcome[j] = st
            self.info[str(j)] = (d.n_mut, d.n_read, d.bytes_written)
            n = 0
            while st != 'ok':
                n += 1
                ctx.probe('retried')
                st, _ = self.process(lambda: self.score(j, out), [])
            if jb['twice']:
                ctx.fault('job-run-twice')
                self.process(lambda: self.score(j, out), [])
        if sorted(outcome) != list(range(nj)):
            return self.info
        for j in range(nj):
            self.check_part(j)
        lost = [j for j in p['lost'] if j < nj]
        if len(lost) == nj:
            lost = lost[1:]
        for j in lost:
            ctx.fault('output-missing')
            os.remove('scores.%d.%s' % (j, p['scr']))
        have = [j for j in p['mergeorder'] if j < nj and j not in lost]
        self.merge(have)
        self.evaluate(lost)
        ctx.state(p['how'], self.grid, p['scr'], p['ndx'], sorted(outcome.items()), lost)
        return self.info

    def part_ids(self, j):
        a, b = self.grid
        i, k = j // b, j % b
        M, S = self.M, self.S
        cut = lambda l, i, n: l[i * len(l) // n:(i + 1) * len(l) // n]
        return cut(M, i, a), cut(S, k, b)

    def near(self, a, b, prints):
        tol = 1e-6 * max(1, abs(b)) + prints * 0.51e-6
        return abs(a - b) <= tol

    def check_part(self, j):
        """A finished job's file holds the scores of its own part."""
        import hyperion.utils as U
        s = guard(U.TrialScores.load, 'scores.%d.%s' % (j, self.p['scr']))
        got = A.content_scr(s)
        m, g = self.part_ids(j)
        want = {(x, y) for x in m for y in g}
        check(set(got) == want, 'wrong-trials', lambda: 'job %d scored %s, its part is %s' % (
            j, sorted(got), sorted(want)))
        for k, v in got.items():
            check(self.near(v, self.ref[k], 1), 'wrong-score', lambda: 'job %d gave %s the score %r, '
                  'its vectors give %r' % (j, k, v, self.ref[k]))
        self.scores[j] = got

    def merge(self, have):
        import hyperion.utils as U
        p = self.p
        out = 'merged.' + p['merged']

        def body():
            parts = [U.TrialScores.load('scores.%d.%s' % (j, p['scr'])) for j in have]
            U.TrialScores.merge(parts).save(out)

        st, d = self.process(body, p['mergefaults'])
        self.info['merge'] = d.n_mut
        if st != 'ok':
            self.ctx.probe('killed-merge')
            st, d = self.process(body, [])
        if p['dupmerge'] and have:
            # the same output given twice must not count twice
            self.ctx.fault('merged-twice')
            parts = [guard(U.TrialScores.load, 'scores.%d.%s' % (j, p['scr'])) for j in have]
            m, exc = attempt(U.TrialScores.merge, parts + parts[:1])
            if m is not None:
                for k, v in A.content_scr(m).items():
                    check(self.near(v, self.ref[k], 1), 'wrong-score', 'merged twice')
        want = {}
        for j in have:
            want.update(self.scores[j])
        self.have = want
        s = guard(U.TrialScores.load, out)
        got = A.content_scr(s)
        check(set(got) == set(want), 'wrong-trials', lambda: 'merged scores lack %s, invent %s' % (
            sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4]))
        tol = 0.51e-6 if p['merged'] == 'txt' else 0
        for k in want:
            check(abs(got[k] - want[k]) <= tol + 1e-12 * abs(want[k]), 'wrong-score',
                  lambda: 'merged score of %s is %r, the job computed %r' % (k, got[k], want[k]))
        self.merged = got

    def evaluate(self, lost):
        import hyperion.utils as U
        p, ctx = self.p, self.ctx
        got = {}

        def body():
            got['scr'] = U.TrialScores.load('merged.' + p['merged'])
            got['key'] = U.TrialKey.load('key.' + p['key'])
            got['ndx'] = U.TrialNdx.load(self.ndx)

        self.process(body, [])
        for which in ('ndx', 'key'):
            scr, lst = got['scr'], got[which]
            c = A.content_ndx(lst) if which == 'ndx' else A.content_key(lst)
            want = set(c)
            missing = want - set(self.merged)
            al, exc = attempt(scr.align_with_ndx, lst)
            if missing:
                check(al is None, 'missing-not-reported', lambda: 'aligned although the scores of %s '
                      'were never computed' % sorted(missing)[:4])
                ctx.probe('refused-missing')
            elif al is not None or covered(scr, lst):
                check(al is not None, 'unexpected-exception', lambda: 'align: %r' % exc)
                ctx.probe('aligned')
                self.aligned(al, lst, want, self.merged)
            al = guard(scr.align_with_ndx, lst, raise_missing=False)
            if missing:
                ctx.probe('marked-missing')
            self.aligned(al, lst, want - missing, self.merged)
            before = A.content_scr(scr)
            al = guard(scr.set_missing_to_value, lst, -123.5)
            ctx.probe('filled')
            full = dict(self.merged)
            full.update({k: -123.5 for k in missing})
            self.aligned(al, lst, want, full)
            check(A.content_scr(scr) == before, 'scores-changed', 'aligning changes the scores')
        key = got['key']
        tn, exc = attempt(got['scr'].get_tar_non, key)
        ck = A.content_key(key)
        if set(ck) - set(self.merged):
            check(tn is None, 'missing-not-reported', 'target scores of an incomplete set')
        elif tn is not None or covered(got['scr'], key):
            check(tn is not None, 'unexpected-exception', lambda: 'get_tar_non: %r' % exc)
            ctx.probe('tar-non')
            for nm, v in zip(('tar', 'non'), tn):
                want = sorted(self.merged[k] for k in ck if ck[k] == nm)
                check(sorted(float(x) for x in v) == want, 'wrong-score', lambda: '%s scores are %s, '
                      'should be %s' % (nm, sorted(map(float, v)), want))
            if 'non' in ck.values() and 'tar' in ck.values():
                st, _ = self.process(lambda: scripts.load(
                    'eval-2class-performance.py').eval_2class_performance(
                    'merged.' + p['merged'], 'key.' + p['key'], 'res/all'), [])
                t = open('res/all.res').read().split()
                n = list(ck.values())
                check(t[2:] == ['NTAR', str(n.count('tar')), 'NNON', str(n.count('non'))],
                      'wrong-report', lambda: 'report %s, key has %d targets, %d non-targets' % (
                          t, n.count('tar'), n.count('non')))
                ctx.probe('report')

    def aligned(self, al, lst, want, values):
        check(A.sets_of(al) == A.sets_of(lst), 'wrong-order', 'aligned scores do not follow the list')
        got = A.content_scr(al)
        check(set(got) == want, 'wrong-trials', lambda: 'aligned scores have %s, should have %s' % (
            sorted(got), sorted(want)))
        for k in want:
            check(got[k] == values[k], 'wrong-score', lambda: 'aligned score of %s is %r, not %r' % (
                k, got[k], values[k]))


def covered(scr, lst):
    """Every model and segment of the list is in the scores (ids without trials may be absent; the
    code refuses those lists, which is not wrong either)."""
    (a, b), (m, g) = A.sets_of(scr), A.sets_of(lst)
    return set(m) <= set(a) and set(g) <= set(b)


def _raise(e):
    raise e


def run(plan, ctx):
    return Job(plan, ctx).run()
