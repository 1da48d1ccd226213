"""C12: sufficient statistics by part-jobs that crash and are retried, by a queue with reader
threads under seeded schedules, in batches and in one go, against a reference that looks at one
sample at a time."""
import copy
import random

import numpy as np

from sim import sched, storage as st
from sim.cluster import Cluster
from sim.core import Violation, attempt, check, guard
from sim.disk import Disk
from sim.sched import Sched, current, yield_point

RUNS = {'quick': 2500, 'thorough': 50000}
LISTS = ('switches', 'faults', 'recs', 'fail_start')
STATE_RULE = 'model kind, world, data layout, options and the history of jobs or queue events'
MUST_REACH = ['world:jobs', 'world:queue', 'world:direct', 'weights', 'batched', 'job-retried',
              'fault:crash', 'fault:eio-write', 'fault:eio-read', 'fault:stall',
              'fault:source-error', 'fault:thread-start', 'many-workers', 'epochs', 'segments',
              'prob', 'sorttime', 'fit', 'kind:sbsw', 'kind:plda', 'short-source', 'reordered']
REAL = ['ExpFamily and ExpFamilyMixture accumulation, Normal, NormalDiagCov, GMM, GMMDiagCov, '
        'GMMTiedDiagCov, SbSw, PLDABase.compute_stats_*', 'GeneratorQueue, ThreadSafeIter',
        'feature readers and writers that carry data and statistics between jobs']
STUB = ['thread and job scheduler, locks and clock', 'system calls below the buffers',
        'the data source of the queue']
ASSUMPTIONS = ['results agree up to rounding (1e-7 of the summed magnitudes; 1e-5 after a hop '
               'through single-precision files)',
               'a killed job restarts from scratch on the same output path']
FILES = ['hyperion/utils/queues.py', 'hyperion/utils/multithreading.py',
         'hyperion/pdfs/mixtures/exp_family_mixture.py']
KINDS = ['normal', 'normdiag', 'gmm', 'gmmdiag', 'gmmtied']


def setup():
    import hyperion.pdfs.core.normal  # noqa: F401
    import hyperion.pdfs.core.normal_diag_cov  # noqa: F401
    import hyperion.pdfs.mixtures.gmm  # noqa: F401
    import hyperion.pdfs.mixtures.gmm_tied_diag_cov  # noqa: F401
    import hyperion.pdfs.plda.plda  # noqa: F401
    import hyperion.transforms.sb_sw  # noqa: F401
    import hyperion.io  # noqa: F401
    sched.warm()


def gen(rng, tier):
    world = rng.choice(['jobs', 'queue', 'queue', 'direct'])
    kind = rng.choice(KINDS[2:] if world == 'queue' else KINDS + ['sbsw', 'plda'] * (world == 'jobs'))
    nrec = rng.choice([1, 2, 3, 4, 6, 9])
    plan = {'world': world, 'kind': kind, 'dim': rng.choice([1, 2, 3]), 'comp': rng.choice([1, 2, 4]),
            'seed': rng.randint(0, 10 ** 6), 'faults': [], 'io': st.gen_io(rng),
            'recs': [[i, rng.choice([1, 2, 3, 5, 8, 17]), rng.randint(0, 10 ** 6)]
                     for i in range(nrec)],
            'weights': rng.choice([None, None, 'frac', 'int', 'zero']),
            'batch': rng.choice([None, 1, 2, 3, 7, 100]), 'sched': sched.gen_cfg(rng, horizon=400),
            'switches': None, 'fail_start': []}
    if world == 'jobs':
        plan.update(parts=rng.choice([1, 2, 3, nrec]), slots=rng.choice([1, 2, 3]),
                    order=rng.randint(0, 10 ** 6), fmt=rng.choice(['ark', 'ark', 'h5']),
                    out=rng.choice(['ark', 'ark,t', 'h5', 'ark,scp']),
                    via=rng.choice(['list', 'pairs']))
        plan['parts'] = min(plan['parts'], nrec)
    elif world == 'queue':
        plan.update(workers=rng.choice([1, 1, 2, 3, 4]), limit=rng.choice([1, 2, 3, 10]),
                    epochs=rng.choice([1, 2, 3]), delay=rng.choice([0, 0, 0.002, 0.05]),
                    inner=rng.choice([0, 1, 2]), form=rng.choice(['x', 'x,u', 'auto']),
                    fit=rng.random() < 0.3, fail_at=rng.choice([None] * 5 + [0, 1, 3, 7]),
                    short=rng.random() < 0.1, none=rng.random() < 0.1,
                    opcode=rng.random() < 0.15)
        if rng.random() < 0.08:
            plan['fail_start'] = [rng.randint(1, 3)]
    else:
        plan.update(segs=[[rng.random(), rng.random()] for _ in range(rng.randint(1, 5))],
                    length=rng.choice([1, 2, 4, 9]), shift=rng.choice([1, 2, 3, 5]))
    return plan


def inject(plan, extra, rng, tier):
    if plan['world'] != 'jobs' or not extra:
        return
    h5 = plan['fmt'] == 'h5' or plan['out'] == 'h5' or plan['kind'] == 'sbsw'
    for _ in range(3 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, n_mut, n_read, nb = rng.choice(extra)
            kind = rng.choice(['crash', 'crash', 'crash', 'eio_write', 'eio_read'])
            f = {'job': name, 'attempt': rng.choice([0, 0, 0, 1]), 'kind': kind}
            top = n_read if kind == 'eio_read' else n_mut
            if not top:
                continue
            f['n'] = rng.randint(1, top)
            if kind == 'crash':
                f['keep'] = rng.choice([0, 0.3, 0.7, 1])
            elif kind == 'eio_read':
                f['times'] = rng.choice([1, 2, 1000])
            q['faults'].append(f)
        if q['faults']:
            q['isolate'] = h5
            yield q


def on_death(plan, status):
    return None


# --------------------------------------------------------------------------- data and model
def _spd(r, d):
    a = r.randn(d, d)
    return a.dot(a.T) / d + 0.5 * np.eye(d)


def build(plan, seed=None):
    r = np.random.RandomState(plan['seed'] if seed is None else seed)
    d, k, kind = plan['dim'], plan['comp'], plan['kind']
    pi = r.dirichlet(np.ones(k) * 3)
    mu = r.randn(k, d)
    if kind == 'normal':
        from hyperion.pdfs.core.normal import Normal
        return Normal(x_dim=d, mu=mu[0], Lambda=_spd(r, d))
    if kind == 'normdiag':
        from hyperion.pdfs.core.normal_diag_cov import NormalDiagCov
        return NormalDiagCov(x_dim=d, mu=mu[0], Lambda=r.uniform(0.5, 2, d))
    if kind == 'gmm':
        from hyperion.pdfs.mixtures.gmm import GMM
        return GMM(x_dim=d, pi=pi, mu=mu, Lambda=np.stack([_spd(r, d) for _ in range(k)]))
    if kind == 'gmmdiag':
        from hyperion.pdfs.mixtures.gmm_diag_cov import GMMDiagCov
        return GMMDiagCov(x_dim=d, pi=pi, mu=mu, Lambda=r.uniform(0.5, 2, (k, d)))
    from hyperion.pdfs.mixtures.gmm_tied_diag_cov import GMMTiedDiagCov
    return GMMTiedDiagCov(x_dim=d, pi=pi, mu=mu, Lambda=r.uniform(0.5, 2, d))


class Data(object):
    def __init__(self, plan):
        self.names, self.x, self.w = [], [], []
        for i, n, seed in plan['recs']:
            r = np.random.RandomState(seed)
            self.names.append('utt%d' % i)
            self.x.append(r.randn(n, plan['dim']).astype(np.float32).astype(float))
            w = plan['weights']
            if w == 'frac':
                w = (r.randint(1, 16, n) / 8.)
            elif w == 'int':
                w = r.randint(1, 4, n).astype(float)
            elif w == 'zero':
                w = r.randint(0, 2, n).astype(float)
            self.w.append(w)

    def all(self):
        w = None if self.w[0] is None else np.concatenate(self.w)
        return np.concatenate(self.x), w


class Ref(object):
    """Posteriors and statistics of single samples, with plain formulas."""

    def __init__(self, plan, model):
        self.kind = plan['kind']
        self.m = model
        if self.kind.startswith('gmm'):
            self.pi = np.array(model.pi, dtype=float)
            self.mu = np.array(model.mu, dtype=float)
            L = np.array(model.Lambda, dtype=float)
            k, d = self.mu.shape
            if self.kind == 'gmm':
                self.L = L
            else:
                if L.ndim == 1:
                    L = np.tile(L, (k, 1))
                self.L = np.stack([np.diag(v) for v in L])

    def u(self, x):
        d = len(x)
        if self.kind in ('normal', 'gmm'):
            return np.array(list(x) + [x[i] * x[j] for i in range(d) for j in range(i, d)])
        return np.array(list(x) + [v * v for v in x])

    def z(self, x):
        if not self.kind.startswith('gmm'):
            return np.ones(1)
        l = []
        for k in range(len(self.pi)):
            e = x - self.mu[k]
            l.append(np.log(self.pi[k]) + 0.5 * np.linalg.slogdet(self.L[k])[1] - 0.5 * e.dot(
                self.L[k]).dot(e))
        l = np.exp(np.array(l) - max(l))
        return l / l.sum()

    def table(self, x, w):
        """Per sample: (weighted posteriors, statistics)."""
        out = []
        for t in range(len(x)):
            z = self.z(x[t]) * (1 if w is None else w[t])
            out.append((z, np.outer(z, self.u(x[t]))))
        return out

    def stats(self, x, w, q=None):
        N, U, A = 0., 0., 1e-30
        for t, (z, u) in enumerate(self.table(x, w)):
            f = 1. if q is None else q[t]
            N, U, A = N + f * z, U + f * u, A + np.abs(f * u)
        if not self.kind.startswith('gmm'):
            N, U, A = np.sum(N), np.reshape(U, -1), np.reshape(A, -1)
        return N, U, A


def near(got, want, mag, what, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    check(got.shape == want.shape, 'wrong-shape', lambda: '%s has shape %s, should be %s' % (
        what, got.shape, want.shape))
    err = np.abs(got - want)
    check(np.all(err <= tol * (mag + np.abs(want) + 1)), 'wrong-statistics',
          lambda: '%s is off by %g: %s, should be %s' % (
              what, err.max(), got.ravel()[:4], want.ravel()[:4]))


def same(ref, N, U, what, tol=1e-7):
    near(N, ref[0], 0, what + ': counts', tol)
    near(U, ref[1], ref[2], what + ': sums', tol)


# --------------------------------------------------------------------------- worlds
class Run(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.data = Data(plan)
        ctx.probe('world:' + plan['world'])
        ctx.probe('kind:' + plan['kind'])
        if plan['weights']:
            ctx.probe('weights')
        if plan['batch']:
            ctx.probe('batched')

    def direct(self):
        p, ctx = self.plan, self.ctx
        m = build(p)
        rf = Ref(p, m)
        x, w = self.data.all()
        x0, w0 = x.copy(), None if w is None else w.copy()
        ref = rf.stats(x, w)
        b = p['batch']
        u = guard(m.compute_suff_stats, x)
        u0 = u.copy()
        for tag, kw in (('one go', {}), ('batches of %s' % b, dict(batch_size=b)),
                        ('given statistics', dict(u_x=u)), ('one go again', {})):
            N, U = guard(m.accum_suff_stats, x, sample_weight=w, **kw)
            same(ref, N, U, tag)
            check(np.array_equal(x, x0) and np.array_equal(u, u0) and (
                w is None or np.array_equal(w, w0)), 'input-changed',
                lambda: '%s changes the arrays of the caller' % tag)
        N, U = guard(m.Estep, x, u, w, b)
        same(ref, N, U, 'Estep')
        if p['weights'] == 'int':
            N, U = guard(m.accum_suff_stats, np.repeat(x, w.astype(int), axis=0), batch_size=b)
            same(ref, N, U, 'repeated samples')
        self.sums(m, [(x[i::3], None if w is None else w[i::3]) for i in range(3) if len(x[i::3])],
                  ref)
        if not p['kind'].startswith('gmm'):
            return
        T = len(x)
        tab = rf.table(x, w)

        def over(rows):
            zu = [tab[t] for t in rows]
            return (sum((z for z, _ in zu), np.zeros(len(rf.pi))),
                    sum((v for _, v in zu), np.zeros_like(tab[0][1])))
        segs = []
        for a, c in p['segs']:
            i, j = sorted((int(a * T), int(c * T)))
            segs.append((i, j))
        ctx.probe('segments')
        for tag, kw in (('segments', {}), ('segments in batches', dict(batch_size=b)),
                        ('segments of given statistics', dict(u_x=u))):
            N, U = guard(m.accum_suff_stats_segments, x, segs, sample_weight=w, **kw)
            check(len(N) == len(segs), 'wrong-shape', lambda: '%d rows for %d segments' % (
                len(N), len(segs)))
            for i, (a, c) in enumerate(segs):
                n, v = over(range(a, c + 1))
                near(N[i], n, 1, '%s: counts of %d-%d' % (tag, a, c), 1e-7)
                near(U[i], v, T, '%s: sums of %d-%d' % (tag, a, c), 1e-7)
        ctx.probe('prob')
        r = np.random.RandomState(p['seed'] + 5)
        prob = r.dirichlet(np.ones(3), size=T)
        for tag, kw in (('soft segments', {}), ('soft segments in batches', dict(batch_size=b))):
            N, U = guard(m.accum_suff_stats_segments_prob, x, prob, sample_weight=w, **kw)
            for i in range(3):
                n, v, a = rf.stats(x, w, prob[:, i])
                near(N[i], n, 1, '%s: counts of %d' % (tag, i), 1e-7)
                near(U[i], v, a, '%s: sums of %d' % (tag, i), 1e-7)
        L, S = p['length'], p['shift']
        if T < L:
            return
        ctx.probe('sorttime')
        nseg = (T - L) // S + 1
        for tag, kw in (('windows', {}), ('windows in batches', dict(batch_size=b))):
            N, U = guard(m.accum_suff_stats_sorttime, x, L, S, sample_weight=w, **kw)
            check(np.shape(N) == (nseg, len(rf.pi)), 'wrong-shape', lambda: '%s: counts are %s for '
                  '%d windows' % (tag, np.shape(N), nseg))
            for i in range(nseg):
                n, v = over(range(i * S, i * S + L))
                near(N[i], n, T, '%s: counts of window %d' % (tag, i), 1e-7)
                near(U[i], v, T, '%s: sums of window %d' % (tag, i), 1e-7)

    def sums(self, m, chunks, ref, tol=1e-7):
        """Map and reduce with the functions for it; the parts stay as they are."""
        Ns, Us = [], []
        for x, w in chunks:
            N, U = guard(m.Estep, x, None, w, self.plan['batch'])
            Ns.append(N)
            Us.append(U)
        self.reduce(m, Ns, Us, ref, tol)

    def reduce(self, m, Ns, Us, ref, tol):
        fn = m.sum_suff_stats if hasattr(m, 'sum_suff_stats') else m.add_suff_stats
        o = list(range(len(Ns)))
        for s in (None, 3):
            if s:
                random.Random(self.plan['seed']).shuffle(o)
                self.ctx.probe('reordered')
            N, U = guard(fn, [Ns[i] for i in o], [Us[i] for i in o])
            same(ref, N, U, 'sum of %d parts in order %s' % (len(o), o), tol)

    # ---- part jobs ------------------------------------------------------------
    def jobs(self):
        p, ctx, data = self.plan, self.ctx, self.data
        from hyperion.io import (DataWriterFactory as W, SequentialDataReaderFactory as R,
                                 RandomAccessDataReaderFactory as RA)
        ext = 'h5' if p['fmt'] == 'h5' else 'ark'
        spec = '%s,scp:%s.%s,%s.scp'
        with W.create(spec % (ext, 'x', ext, 'x')) as w:
            w.write(data.names, data.x)
        if p['weights']:
            with W.create(spec % (ext, 'w', ext, 'w')) as w:
                w.write(data.names, data.w)
        if p['kind'] == 'sbsw':
            return self.sbsw()
        if p['kind'] == 'plda':
            return self.plda()
        m = build(p)
        x, w = data.all()
        ref = Ref(p, m).stats(x, w)
        n = p['parts']
        o = p['out'].split(',')

        def out(j):
            f = ['st%d.%s' % (j, o[0])] + (['st%d.scp' % j] if 'scp' in o else [])
            return '%s:%s' % (p['out'], ','.join(f)), '%s:%s' % (
                'scp' if len(f) > 1 else o[0], f[-1])

        def body(j):
            def run():
                m = build(p)
                Ns, Us = [], []
                wr = RA.create('scp:w.scp') if p['weights'] else None
                with R.create('scp:x.scp', part_idx=j, num_parts=n) as r:
                    while not r.eof():
                        keys, xs = r.read(1)
                        if not keys:
                            break
                        w = wr.read([keys[0]])[0] if wr is not None else None
                        N, U = m.Estep(np.asarray(xs[0], dtype=float), None,
                                       None if w is None else np.asarray(w, dtype=float), p['batch'])
                        Ns.append(N)
                        Us.append(U)
                if wr is not None:
                    wr.close()
                N, U = (m.sum_suff_stats if hasattr(m, 'sum_suff_stats') else m.add_suff_stats)(Ns, Us)
                with W.create(out(j)[0]) as w:
                    w.write(['N'], [np.atleast_1d(np.asarray(N, dtype=float))])
                    w.write(['u_x'], [np.asarray(U)])
            return run
        cl = Cluster(ctx, p)
        js = [('acc%d' % j, body(j)) for j in range(1, n + 1)]
        random.Random(p['order']).shuffle(js)
        cl.run(js)
        res = {}

        def final():
            Ns, Us = [], []
            for j in random.Random(p['order']).sample(range(1, n + 1), n):
                with R.create(out(j)[1]) as r:
                    d = {}
                    while not r.eof():
                        k, v = r.read(1)
                        if not k:
                            break
                        d[k[0]] = np.asarray(v[0], dtype=float)
                N = d['N']
                Ns.append(N if p['kind'].startswith('gmm') else float(N[0]))
                Us.append(d['u_x'])
            m = build(p)
            res['v'] = (m.sum_suff_stats if hasattr(m, 'sum_suff_stats') else m.add_suff_stats)(Ns, Us)
            res['parts'] = (Ns, Us)
        cl.run([('sum', final)])
        same(ref, res['v'][0], res['v'][1], 'sum of %d part-jobs' % n, 2e-5)
        self.reduce(m, res['parts'][0], res['parts'][1], ref, 2e-5)
        return self.end(cl)

    def end(self, cl):
        self.ctx.state(self.plan['kind'], self.plan['world'], tuple((n, o.kind) for n, k, o in cl.history))
        return [[n, o.n_mut, o.n_read, o.nbytes] for n, k, o in cl.history if k == 0]

    def classes(self):
        """Class labels of all frames: record i belongs to class i % n."""
        n = max(1, min(3, len(self.data.x)))
        return n, [np.full(len(x), i % n) for i, x in enumerate(self.data.x)]

    def sbsw(self):
        from hyperion.transforms.sb_sw import SbSw
        p, data = self.plan, self.data
        n, ids = self.classes()
        X, C = np.concatenate(data.x), np.concatenate(ids)
        mus = [X[C == c].mean(axis=0) for c in range(n)]
        mu = np.mean(mus, axis=0)
        Sb = np.mean([np.outer(v, v) for v in mus], axis=0) - np.outer(mu, mu)
        Sw = np.mean([(X[C == c] - mus[c]).T.dot(X[C == c] - mus[c]) / np.sum(C == c)
                      for c in range(n)], axis=0)
        parts = min(p['parts'], n)

        def body(j):
            def run():
                from hyperion.io import RandomAccessDataReaderFactory as RA
                keys = [k for k, i in zip(data.names, ids) if i[0] % parts == j]
                lab = np.concatenate([i for i in ids if i[0] % parts == j])
                with RA.create('scp:x.scp') as r:
                    x = np.concatenate([np.asarray(v, dtype=float) for v in r.read(keys)])
                s = SbSw(name='sbsw')
                s.fit(x, lab, normalize=False)
                s.save('sbsw%d.h5' % j)
            return run
        cl = Cluster(self.ctx, p)
        cl.run([('acc%d' % j, body(j)) for j in range(parts)])
        res = {}

        def final():
            o = random.Random(p['order']).sample(range(parts), parts)
            s = SbSw.accum_stats([SbSw.load('sbsw%d.h5' % j) for j in o])
            s.normalize()
            res['s'] = s
        cl.run([('sum', final)])
        s = res['s']
        check(s.num_classes == n, 'wrong-statistics', lambda: '%s classes' % s.num_classes)
        mag = 1 + np.abs(X).max() ** 2
        near(s.mu, mu, mag, 'mean', 2e-5)
        near(s.Sb, Sb, mag, 'between-class scatter', 2e-5)
        near(s.Sw, Sw, mag, 'within-class scatter', 2e-5)
        one = SbSw()
        guard(one.fit, X, C)
        near(one.Sb, Sb, mag, 'between-class scatter in one go', 1e-7)
        near(one.Sw, Sw, mag, 'within-class scatter in one go', 1e-7)
        return self.end(cl)

    def plda(self):
        from hyperion.pdfs.plda.plda_base import PLDABase as P
        p, data = self.plan, self.data
        n, ids = self.classes()
        X, C = np.concatenate(data.x), np.concatenate(ids)
        w = data.all()[1]
        ww = np.ones(len(X)) if w is None else w
        sf = 0.5 if p['order'] % 2 else None
        ww = ww * (sf or 1)
        N = np.array([ww[C == c].sum() for c in range(n)])
        F = np.stack([(X[C == c] * ww[C == c][:, None]).sum(axis=0) for c in range(n)])
        S = sum(a * np.outer(v, v) for a, v in zip(ww, X))
        mag = 1 + np.abs(F).max() + np.abs(S).max()
        th = np.eye(n)[C]
        th0 = th.copy()
        for tag, D in (('hard', guard(P.compute_stats_hard, X, C, w, sf)),
                       ('soft', guard(P.compute_stats_soft, X, th, w, sf)),
                       ('soft again', guard(P.compute_stats_soft, X, th, w, sf))):
            for g, r, q in zip(D, (N, F, S), 'NFS'):
                near(g, r, mag, 'class statistics %s (%s)' % (q, tag), 1e-7)
        check(np.array_equal(th, th0), 'input-changed', 'compute_stats_soft changes its input')
        parts = p['parts']

        def body(j):
            def run():
                from hyperion.io import DataWriterFactory as W, SequentialDataReaderFactory as R
                x, t, v = [], [], []
                with R.create('scp:x.scp', part_idx=j, num_parts=parts) as r:
                    while not r.eof():
                        k, d = r.read(1)
                        if not k:
                            break
                        i = data.names.index(k[0])
                        x.append(np.asarray(d[0], dtype=float))
                        t.append(np.eye(n)[ids[i]])
                        v.append(data.w[i])
                w = None if p['weights'] is None else np.concatenate(v)
                D = P.compute_stats_soft(np.concatenate(x), np.concatenate(t), w, sf)
                with W.create('ark:st%d.ark' % j) as wr:
                    wr.write(['N', 'F', 'S'], list(D))
            return run
        cl = Cluster(self.ctx, p)
        cl.run([('acc%d' % j, body(j)) for j in range(1, parts + 1)])
        tot = [0, 0, 0]
        from hyperion.io import RandomAccessDataReaderFactory as RA, SequentialDataReaderFactory as R
        for j in range(1, parts + 1):
            with R.create('ark:st%d.ark' % j) as r:
                k, d = r.read()
            check(list(k) == ['N', 'F', 'S'], 'wrong-records', lambda: 'part %d holds %s' % (j, k))
            tot = [a + np.asarray(b, dtype=float) for a, b in zip(tot, d)]
        for g, r, q in zip(tot, (N, F, S), 'NFS'):
            near(g, r, mag, 'class statistics %s of the parts' % q, 2e-5)
        return self.end(cl)

    # ---- reader threads -------------------------------------------------------
    def queue(self):
        p, ctx = self.plan, self.ctx
        s = Sched(ctx, dict(p['sched'], switches=p['switches']), trace_files=FILES,
                  opcode=p['opcode'], max_steps=500000)
        s.fail_threads = set(p['fail_start'])
        s.run(lambda: self.consume(s))
        for name, e in s.errors:
            if not isinstance(e, (SourceError, StopIteration)):
                raise Violation('worker-error', '%s: %r' % (name, e))

    def consume(self, s):
        from hyperion.utils.multithreading import threadsafe_generator
        p, ctx, data = self.plan, self.ctx, self.data
        m = build(p)
        x, w = data.all()
        ref = Ref(p, m).stats(x, w)
        n = len(data.x)
        hist = []
        state = {'i': 0, 'made': 0}
        if p['workers'] > 1:
            ctx.probe('many-workers')

        @threadsafe_generator
        def source():
            while True:
                i = state['i']
                for _ in range(p['inner']):
                    yield_point('source')
                if p['delay'] and i % 3 == 1:
                    ctx.fault('stall')
                    s.sleep(p['delay'])
                if p['fail_at'] is not None and i == p['fail_at']:
                    ctx.fault('source-error')
                    state['i'] += 1
                    raise SourceError(i)
                if p['short'] and i >= n * p['epochs'] - 1:
                    ctx.probe('short-source')
                    return
                state['i'] = i + 1
                hist.append('m%d' % (i % n))
                if p['none'] and i % 4 == 2:
                    yield None
                j = i % n
                d = data.x[j]
                v = [d]
                if p['form'] == 'x,u' or (p['form'] == 'auto' and i % 2):
                    v.append(m.compute_suff_stats(d))
                if p['weights']:
                    v.append(data.w[j])
                elif len(v) == 1 and p['form'] == 'auto':
                    v = v[0]
                yield v if not isinstance(v, list) else (v[0] if len(v) == 1 else tuple(v))
        src = source()
        loud = p['fail_at'] is not None and p['fail_at'] < n * p['epochs'] or p['short']
        b = build(p)
        if p['fit'] and self.fits(b, x, w):
            ctx.probe('fit')
            a = build(p)
            r, e = attempt(a.fit_generator, src, n, epochs=p['epochs'], max_queue_size=p['limit'],
                           workers=p['workers'])
            if e is not None:
                return self.failed(s, e, loud)
            self.no_workers(s)
            check(not loud, 'partial-statistics', 'fit_generator ends well, but the source did not '
                  'give the data of all epochs')
            r2 = self.fitted
            for k in ('pi', 'mu', 'Lambda'):
                g, t = getattr(a, k), getattr(b, k)
                if np.all(np.isfinite(t)):
                    near(g, t, np.abs(t).max(), '%s after %d epochs' % (k, p['epochs']), 1e-5)
            if np.all(np.isfinite(r2[0])):
                near(r[0], r2[0], np.abs(r2[0]).max(), 'objective', 1e-5)
            ctx.state(p['kind'], 'fit', tuple(hist))
            return
        for ep in range(p['epochs']):
            if ep:
                ctx.probe('epochs')
            r, e = attempt(m.Estep_generator, src, n, True, max_queue_size=p['limit'],
                           workers=p['workers'])
            if e is not None:
                if self.failed(s, e, loud) and p['fail_start'] and not loud:
                    state['i'] = 0          # the caller starts the pass again
                    p['fail_start'] = []
                    s.fail_threads = set()
                    r, e = attempt(m.Estep_generator, source(), n, True,
                                   max_queue_size=p['limit'], workers=p['workers'])
                    check(e is None, 'unexpected-exception', lambda: 'a second pass raises %r' % e)
                else:
                    return
            else:
                self.no_workers(s)
            hist.append('e')
            same(ref, r[0], r[1], 'pass %d with %d threads' % (ep, p['workers']))
            check(np.allclose(r[2], m.accum_log_h(x, w)), 'wrong-statistics', 'log h of the pass')
        check(not loud, 'partial-statistics', 'all passes end well, but the source failed')
        ctx.state(p['kind'], tuple(hist))

    def fits(self, b, x, w):
        """True when the data determine the model well: with fewer samples the new covariances are
        singular, and rounding decides whether the fit raises."""
        p = self.plan
        r, e = attempt(b.fit, x, w, epochs=p['epochs'], batch_size=p['batch'])
        if e is not None:
            return False
        L = np.asarray(b.Lambda)
        if not np.all(np.isfinite(L)) or not np.all(np.isfinite(b.mu)):
            return False
        self.fitted = r
        e = np.linalg.eigvalsh(L) if p['kind'] == 'gmm' else L
        return np.all(e > 1e-3) and np.all(e < 1e3) and np.all(b.pi > 1e-3)

    def no_workers(self, s):
        w = [t for t in s.alive() if t.name != 'main']
        check(not w, 'worker-survives', lambda: '%d reader threads are alive after the pass' % len(w))

    def failed(self, s, e, loud):
        """An error of the pass is right when the source or a thread start failed."""
        self.no_workers(s)
        if loud:
            self.ctx.state(self.plan['kind'], 'loud', type(e).__name__)
            return False
        if any(f <= s.n_thread for f in s.fail_threads):
            return True
        raise Violation('unexpected-exception', '%s: %s' % (type(e).__name__, str(e)[:200]))


class SourceError(Exception):
    pass


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    if plan['world'] == 'jobs' and plan.get('switches') is not None:
        plan['sched'] = dict(plan['sched'], switches=plan['switches'])
    if not plan['recs']:
        return None
    if plan['world'] == 'jobs':
        plan['parts'] = min(plan['parts'], len(plan['recs']))
    r = Run(plan, ctx)
    out = getattr(r, plan['world'])()
    if plan['world'] == 'direct':
        ctx.ev('direct', plan['kind'])
        ctx.state(plan['kind'], plan['batch'], plan['weights'], tuple(n for _, n, _ in plan['recs']),
                  plan['length'], plan['shift'])
    return out


def shrink(plan):
    for k, v in (('weights', None), ('dim', 1), ('comp', 1), ('batch', None)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k, v in (('workers', 1), ('workers', 2), ('epochs', 1), ('inner', 0), ('delay', 0),
                 ('limit', 1), ('none', False), ('parts', 1), ('slots', 1)):
        if k in plan and plan[k] > v:
            yield dict(plan, **{k: v})
    for i, r in enumerate(plan['recs']):
        if r[1] > 1:
            q = copy.deepcopy(plan)
            q['recs'][i][1] = 1
            yield q
