"""C29: mixtures trained with EM from memory, from reader threads and by part-jobs that exchange
models and statistics in files, stopped, saved, split and continued, against plain formulas."""
import copy
import math
import random

import numpy as np

from sim import sched, storage as st
from sim.cluster import Cluster
from sim.core import Violation, attempt, check, guard
from sim.sched import Sched, yield_point

RUNS = {'quick': 2500, 'thorough': 60000}
LISTS = ('switches', 'faults', 'acts', 'recs', 'fail_start')
STATE_RULE = 'model kind, options, where the data come from and the history of steps and faults'
KINDS = ['gmm', 'gmmdiag', 'gmmtied']
ACTS = ['fit', 'save', 'split', 'split-random', 'steps', 'use']
MUST_REACH = ['world:jobs', 'world:queue', 'world:direct', 'init:kmeans', 'init:std', 'init:given',
              'weights', 'batched', 'validation', 'floor', 'pruned', 'fixed-means', 'fixed-weights',
              'fixed-precisions', 'job-retried', 'fault:crash', 'fault:eio-write', 'fault:eio-read',
              'fault:source-error', 'continued', 'many-workers', 'likelihood-grows', 'kind:normal',
              'kind:normdiag'] + ['act:' + a for a in ACTS] + ['kind:' + k for k in KINDS]
REAL = ['GMM, GMMDiagCov, GMMTiedDiagCov (fit, fit_generator, E and M steps, split, saving), KMeans, '
        'Normal, NormalDiagCov', 'GeneratorQueue, ThreadSafeIter',
        'feature readers and writers that carry data and statistics between jobs']
STUB = ['thread and job scheduler, locks and clock', 'system calls below the buffers',
        'the data source of the queue']
ASSUMPTIONS = ['results agree up to rounding, with a margin of 1000 times the effect of rounding the '
               'data; a run ends where its own reference becomes singular',
               'a killed job restarts from scratch on the same output path']
FILES = ['hyperion/utils/queues.py', 'hyperion/utils/multithreading.py',
         'hyperion/pdfs/mixtures/exp_family_mixture.py']


def setup():
    import hyperion.clustering  # noqa: F401
    import hyperion.pdfs.core.normal  # noqa: F401
    import hyperion.pdfs.core.normal_diag_cov  # noqa: F401
    import hyperion.pdfs.mixtures.gmm  # noqa: F401
    import hyperion.pdfs.mixtures.gmm_tied_diag_cov  # noqa: F401
    import hyperion.io  # noqa: F401
    sched.warm()


def gen(rng, tier):
    world = rng.choice(['jobs', 'queue', 'direct', 'direct'])
    kind = rng.choice(KINDS)
    if rng.random() < 0.06:
        kind, world = rng.choice(['normal', 'normdiag']), 'direct'
    nrec = rng.choice([1, 2, 3, 4, 6])
    plan = {'world': world, 'kind': kind, 'dim': rng.choice([1, 2, 2, 3]), 'comp': rng.choice([1, 2, 2, 3, 4]),
            'seed': rng.randint(0, 10 ** 6), 'faults': [], 'io': st.gen_io(rng),
            'recs': [[i, rng.choice([5, 17, 30, 60]), rng.randint(0, 10 ** 6)] for i in range(nrec)],
            'weights': rng.choice([None, None, 'frac', 'int', 'zero']), 'near': rng.choice([0.5, 1.5, 4]),
            'init': rng.choice(['given', 'given', 'kmeans', 'std']),
            'floor': rng.choice([1e-3, 1e-3, 1e-5, 0.3, 0.9]),
            'min_N': rng.choice([0, 0, 0, 2, 10]), 'sched': sched.gen_cfg(rng, horizon=400),
            'update': [rng.random() > 0.12 for _ in range(3)], 'switches': None, 'fail_start': []}
    acts = []
    for _ in range(rng.randint(1, 4)):
        a = {'do': rng.choice(['fit', 'fit', 'fit', 'fit', 'steps', 'save', 'split', 'split-random', 'use'])}
        if a['do'] == 'use':
            a['seed'] = rng.randint(0, 10 ** 6)
        if a['do'] in ('fit', 'steps'):
            a['epochs'] = rng.choice([1, 1, 2, 3])
            a['batch'] = rng.choice([None, 1, 3, 7, 1000])
            a['val'] = rng.choice([None, None, 'data', 'weights', 'gen'])
        if a['do'] == 'split-random':
            a['K'] = rng.choice([3, 4])
        acts.append(a)
    if acts[-1]['do'] not in ('fit', 'steps'):
        acts.append({'do': 'fit', 'epochs': rng.choice([1, 2]), 'batch': rng.choice([None, 3]), 'val': None})
    plan['acts'] = acts
    if world == 'jobs':
        plan.update(parts=rng.choice([1, 2, 3, nrec]), slots=rng.choice([1, 2, 3]),
                    order=rng.randint(0, 10 ** 6), fmt=rng.choice(['ark', 'ark', 'h5']))
    elif world == 'queue':
        plan.update(workers=rng.choice([1, 1, 2, 3]), limit=rng.choice([1, 2, 10]),
                    delay=rng.choice([0, 0, 0.002, 0.05]), inner=rng.choice([0, 1]),
                    fail_at=rng.choice([None] * 3 + [0, 1, 3, 7, 12]), given=rng.random() < 0.3,
                    opcode=rng.random() < 0.1)
        if rng.random() < 0.08:
            plan['fail_start'] = [rng.randint(1, 4)]
    return plan


def inject(plan, extra, rng, tier):
    if plan['world'] != 'jobs' or not extra:
        return
    for _ in range(2 if tier == 'quick' else 6):
        q = copy.deepcopy(plan)
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, n_mut, n_read, nb = rng.choice(extra)
            kind = rng.choice(['crash', 'crash', 'crash', 'eio_write', 'eio_read'])
            f = {'job': name, 'attempt': rng.choice([0, 0, 0, 1]), 'kind': kind}
            top = n_read if kind == 'eio_read' else n_mut
            if not top:
                continue
            f['n'] = rng.randint(1, top)
            if kind == 'crash':
                f['keep'] = rng.choice([0, 0.3, 0.7, 1])
            elif kind == 'eio_read':
                f['times'] = rng.choice([1, 2, 1000])
            q['faults'].append(f)
        if q['faults']:
            q['isolate'] = True
            yield q


def on_death(plan, status):
    return None


# --------------------------------------------------------------------------- data and model
def data(plan, seed=0):
    r = np.random.RandomState(plan['seed'])
    c = r.randn(3, plan['dim']) * plan['near']
    A = r.randn(3, plan['dim'], plan['dim']) * 0.5 + np.eye(plan['dim'])
    X, W = [], []
    for i, n, s in plan['recs']:
        q = np.random.RandomState(s + seed)
        k = q.randint(0, 3, n)
        x = np.stack([c[j] + A[j].dot(q.randn(plan['dim'])) for j in k])
        X.append(x.astype(np.float32).astype(float))
        w = plan['weights']
        if w == 'frac':
            w = q.randint(1, 16, n) / 8.
        elif w == 'int':
            w = q.randint(1, 4, n).astype(float)
        elif w == 'zero':
            w = q.randint(0, 2, n).astype(float)
        W.append(w)
    return X, W


def cat(X, W):
    return np.concatenate(X), None if W[0] is None else np.concatenate(W)


def cls(plan):
    k = plan['kind']
    if k == 'gmm':
        from hyperion.pdfs.mixtures.gmm import GMM
        return GMM
    if k == 'gmmdiag':
        from hyperion.pdfs.mixtures.gmm_diag_cov import GMMDiagCov
        return GMMDiagCov
    from hyperion.pdfs.mixtures.gmm_tied_diag_cov import GMMTiedDiagCov
    return GMMTiedDiagCov


class Singular(Exception):
    """The reference itself is not determined: nothing can be said."""


class Ref(object):
    """EM with full covariances and plain formulas."""

    def __init__(self, plan, pi, mu, L):
        self.plan, self.kind = plan, plan['kind']
        self.pi, self.mu, self.L = pi, mu, L
        self.floored = self.pruned = False

    @classmethod
    def of(cls, plan, m):
        L = np.array(m.Lambda, dtype=float)
        k, d = np.shape(m.mu)
        if plan['kind'] == 'gmmtied':
            L = np.tile(L, (k, 1))
        if plan['kind'] != 'gmm':
            L = np.stack([np.diag(v) for v in L])
        return cls(plan, np.array(m.pi, dtype=float), np.array(m.mu, dtype=float), L)

    def copy(self):
        return Ref(self.plan, self.pi.copy(), self.mu.copy(), self.L.copy())

    def joint(self, x):
        d = x.shape[1]
        out = np.empty((len(x), len(self.pi)))
        for k in range(len(self.pi)):
            e = x - self.mu[k]
            out[:, k] = math.log(self.pi[k] + 1e-15) + 0.5 * np.linalg.slogdet(self.L[k])[1] - \
                0.5 * d * math.log(2 * math.pi) - 0.5 * np.einsum('ti,ij,tj->t', e, self.L[k], e)
        return out

    def llk(self, x):
        l = self.joint(x)
        m = l.max(axis=1)
        return m + np.log(np.exp(l - m[:, None]).sum(axis=1))

    def posteriors(self, x, w):
        l = self.joint(x)
        z = np.exp(l - self.llk(x)[:, None])
        return (z if w is None else z * w[:, None]), l

    def elbo(self, x, w):
        z, l = self.posteriors(x, w)
        return (z * l).sum()

    def step(self, x, w):
        p, d = self.plan, x.shape[1]
        z, _ = self.posteriors(x, w)
        N = z.sum(axis=0)
        um, ul, up = p['update']
        prune = N < p['min_N'] if self.kind != 'gmm' and up else np.zeros(len(N), bool)
        if np.any(N[~prune] < 1e-2) or np.any(np.abs(N - p['min_N']) < 1e-6) or np.all(N <= p['min_N']):
            raise Singular()
        Ns = np.where(N < 1e-12, 1, N)
        mean = z.T.dot(x) / Ns[:, None]
        mu = mean if um else self.mu
        L = self.L
        if ul:
            C = np.stack([(z[:, k][:, None] * (x - mu[k])).T.dot(x - mu[k]) / Ns[k]
                          for k in range(len(N))])
            if self.kind == 'gmm':
                F = p['floor'] * C.mean(axis=0)
                if np.linalg.cond(F) > 1e6:
                    raise Singular()
                c = np.linalg.cholesky(F)
                ci = np.linalg.inv(c)
                out = []
                for k in range(len(N)):
                    e, v = np.linalg.eigh(ci.dot(C[k]).dot(ci.T))
                    if np.any(e < 1):
                        self.floored = True
                    out.append(c.dot((v * np.maximum(e, 1)).dot(v.T)).dot(c.T))
                C = np.stack(out)
                if max(np.linalg.cond(v) for v in C) > 1e6:
                    raise Singular()
            else:
                S = np.stack([np.diag(v) for v in C])
                use = N > p['min_N']
                F = p['floor'] * S[use].mean(axis=0)
                if np.any(F[None] > S[N > 1e-9]):
                    self.floored = True
                S = np.maximum(S, F)
                if self.kind == 'gmmtied':
                    S = np.tile((N[:, None] * S).sum(axis=0) / N.sum(), (len(N), 1))
                if np.any(S < 1e-8):
                    raise Singular()
                C = np.stack([np.diag(v) for v in S])
            L = np.stack([np.linalg.inv(v) for v in C])
        if up:
            if np.any(prune):
                self.pruned = True
                N = np.where(prune, 0, N)
                mu = np.where(prune[:, None], 0, mu)
                if self.kind == 'gmmdiag':
                    L = np.where(prune[:, None, None], np.eye(d), L)
            self.pi = N / N.sum()
        self.mu, self.L = mu, L
        if not all(np.all(np.isfinite(v)) for v in (self.pi, self.mu, self.L)):
            raise Singular()


def kmeans(x, n):
    """Labels and centres, or Singular when a cluster is (nearly) empty."""
    mu = [x[0]]
    for i in range(1, n):
        d = sum(((x - m) ** 2).sum(axis=1) for m in mu)
        if np.sum(d > d.max() * (1 - 1e-6)) > 1:
            raise Singular()
        mu.append(x[np.argmax(d)])
    loss, last = [], None
    for it in range(101):
        e = np.stack([((x - m) ** 2).sum(axis=1) for m in mu], axis=1)
        s = np.sort(e, axis=1)
        if n > 1 and np.any(s[:, 1] - s[:, 0] < 1e-6):
            raise Singular()
        lab = e.argmin(axis=1)
        if it:
            loss.append(e.min(axis=1).mean())
            if it > 1:
                d = abs(loss[-2] - loss[-1]) / loss[-2]
                if abs(d - 1e-3) < 1e-7:
                    raise Singular()
                if d < 1e-3:
                    break
        if min(np.sum(lab == k) for k in range(n)) < x.shape[1] + 2:
            raise Singular()
        if it < 100:
            mu = [x[lab == k].mean(axis=0) for k in range(n)]
    return lab, np.stack(mu), loss


class SourceError(Exception):
    pass


class Run(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.X, self.W = data(plan)
        self.x, self.w = cat(self.X, self.W)
        self.val = cat(*data(plan, 77))
        self.cl = None
        self.kind_diag = plan['kind'] != 'gmm'
        self.n_epoch = 0
        self.hist = []
        ctx.probe('world:' + plan['world'])
        ctx.probe('kind:' + plan['kind'])
        if plan['weights']:
            ctx.probe('weights')

    # ---- comparison
    def near(self, got, want, other, what):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        check(got.shape == want.shape, 'wrong-shape', lambda: '%s has shape %s, should be %s' % (
            what, got.shape, want.shape))
        tol = (1e-6 if self.plan['world'] != 'jobs' else 1e-4) * (1 + np.abs(want).max())
        tol = tol + 10 * self.lost * (1 + np.abs(want).max())
        tol = tol + 1000 * np.abs(want - np.asarray(other)).max()
        err = np.abs(got - want)
        check(np.all(err <= tol), 'wrong-model', lambda: '%s is off by %g (margin %g): %s, should be '
              '%s' % (what, err.max(), tol, got.ravel()[:6], want.ravel()[:6]))

    def settled(self, ref, twin):
        """Singular where rounding decides what the model is."""
        if np.abs(twin.mu - ref.mu).max() > 1e-4 or np.abs(twin.L - ref.L).max() > 1e-3 * np.abs(
                ref.L).max():
            raise Singular()                  # rounding decides
        # variances are differences of sums: their error grows with the square of the data
        lost = np.abs(ref.L).max() * (np.abs(self.x).max() ** 2 + 1) * (
            3e-6 if self.plan['world'] == 'jobs' else 1e-13)
        if lost > (3e-3 if self.plan['world'] == 'jobs' else 3e-7):
            raise Singular()
        self.lost = lost

    def same(self, m, ref, twin, what):
        """The model holds the parameters of the reference and computes with them."""
        self.settled(ref, twin)
        g = Ref.of(self.plan, m)
        for k, n in (('pi', 'weights'), ('mu', 'means'), ('L', 'precisions')):
            self.near(getattr(g, k), getattr(ref, k), getattr(twin, k), '%s %s' % (n, what))
        a, b, c = guard(m.log_prob, self.x), ref.llk(self.x), twin.llk(self.x)
        self.near(a, b, c, 'log-likelihoods %s' % what)
        self.near(guard(m.log_prob, self.x, mode='std'), b, c, 'log-likelihoods (std) %s' % what)
        o = self.options(m)
        check(o == self.opts, 'wrong-option', lambda: 'options %s are %s, were %s' % (what, o, self.opts))
        if self.plan['seed'] % 3 == 0:
            N, u = guard(m.Estep, self.x, None, self.w)
            z, _ = g.posteriors(self.x, self.w)
            n, f = guard(m.norm_suff_stats, N.copy(), u.copy())
            d = len(g.mu[0])
            _, f2 = guard(m.norm_suff_stats, N.copy(), u.copy(), return_order2=True)
            self.near(f2[:, :d], f, f, 'normalized statistics of both orders %s' % what)
            for k in range(len(z[0])):
                # whitened up to a rotation: lengths in the metric of the component
                X = self.x - g.mu[k]
                F = (z[:, k][:, None] * X).sum(axis=0)
                self.near(f[k].dot(f[k]), F.dot(g.L[k]).dot(F), F.dot(g.L[k]).dot(F),
                          'normalized statistics %s' % what)
                t = np.einsum('t,ti,ij,tj->', z[:, k], X, g.L[k], X)
                S = f2[k, d:]
                S = S.sum() if self.kind_diag else S[[i * d - i * (i - 1) // 2 for i in range(d)]].sum()
                self.near(S, t, t, 'normalized statistics of second order %s' % what)

    @staticmethod
    def options(m):
        return [float(m.var_floor), float(m.min_N), bool(m.update_mu), bool(m.update_Lambda),
                bool(m.update_pi)]

    def twins(self, m):
        ref = Ref.of(self.plan, m)
        r = np.random.RandomState(5)
        t = ref.copy()
        t.mu = t.mu * (1 + 1e-9 * r.randn(*t.mu.shape))
        eps = 1e-7 if self.plan['world'] == 'jobs' else 1e-10
        return ref, t, self.x * (1 + eps * r.randn(*self.x.shape))

    # ---- how a model starts
    def start(self):
        p = self.plan
        r = np.random.RandomState(p['seed'] + 1)
        d, k = p['dim'], p['comp']
        self.opts = [p['floor'], float(p['min_N'])] + list(p['update'])
        kw = dict(x_dim=d, var_floor=p['floor'], min_N=p['min_N'], update_mu=p['update'][0],
                  update_Lambda=p['update'][1], update_pi=p['update'][2])
        for q, n in zip(p['update'], ('means', 'precisions', 'weights')):
            if not q:
                self.ctx.probe('fixed-' + n)
        c = cls(p)
        self.ctx.probe('init:' + p['init'])
        if p['init'] == 'std':
            m = c(num_comp=1, **kw)
            guard(m.initialize)
            ref = Ref(p, np.ones(1), np.zeros((1, d)), np.eye(d)[None])
            self.same(m, ref, ref, 'at the start')
            return m
        if p['init'] == 'kmeans':
            lab, mu, loss = kmeans(self.x, k) if k > 1 else (
                np.zeros(len(self.x), int), self.x.mean(axis=0)[None], [])
            # around the centres, which may lie one step behind the labels
            at = [self.x[lab == j].mean(axis=0) if p['kind'] == 'gmmdiag' else mu[j] for j in range(k)]
            C = np.stack([(self.x[lab == j] - at[j]).T.dot(self.x[lab == j] - at[j]) / np.sum(lab == j)
                          for j in range(k)])
            if p['kind'] != 'gmm':
                C = np.stack([np.diag(np.diag(v)) for v in C])
            pi = np.array([np.mean(lab == j) for j in range(k)])
            if p['kind'] == 'gmmtied':
                C = np.tile((pi[:, None, None] * C).sum(axis=0), (k, 1, 1))
            if max(np.linalg.cond(v) for v in C) > 1e5 or C.max() > 1e6 or min(
                    np.linalg.eigvalsh(v).min() for v in C) < 1e-6:
                raise Singular()
            if k > 1:
                from hyperion.clustering import KMeans
                km = KMeans(num_clusters=k)
                l, i = guard(km.fit, self.x)
                check(np.array_equal(i, lab), 'wrong-model', lambda: 'clusters %s, should be %s' % (
                    i[:20], lab[:20]))
                self.near(km.mu, mu, mu, 'centres')
                self.near(l, loss, loss, 'distortion')
            m = c(num_comp=k, **kw)
            guard(m.initialize, self.x)
            ref = Ref(p, pi, mu, np.stack([np.linalg.inv(v) for v in C]))
            self.same(m, ref, ref, 'from k-means')
            return m
        pi = r.dirichlet(np.ones(k) * 3)
        mu = self.x[r.choice(len(self.x), k, replace=len(self.x) < k)] + 0.1 * r.randn(k, d)
        if p['kind'] == 'gmm':
            L = np.stack([np.linalg.inv(v.dot(v.T) / d + 0.5 * np.eye(d)) for v in r.randn(k, d, d)])
        else:
            L = r.uniform(0.3, 2, (k, d) if p['kind'] == 'gmmdiag' else d)
        self.arrays = [(v, v.copy()) for v in (pi, mu, L)]
        m = c(pi=pi, mu=mu, Lambda=L, **kw)
        ref = Ref.of(p, m)
        self.same(m, ref, ref, 'at the start')
        return m

    # ---- actions
    def play(self, s=None):
        self.s = s
        try:
            m = self.start()
            for i, a in enumerate(self.plan['acts']):
                self.ctx.probe('act:' + a['do'])
                self.hist.append(a['do'])
                m = getattr(self, a['do'].split('-')[0])(m, a)
        except Singular:
            self.hist.append('singular')

    def save(self, m, a):
        ref = Ref.of(self.plan, m)
        guard(m.save, 'model.h5')
        q = guard(type(m).load, 'model.h5')
        t = ref.copy()
        t.pi, t.mu, t.L = (v.astype('float32').astype(float) for v in (t.pi, t.mu, t.L))
        self.same(q, ref, t, 'after saving and loading')
        return q

    def use(self, m, a):
        """Samples of the mixture, its posteriors in both modes, its distribution function."""
        g = Ref.of(self.plan, m)
        if np.linalg.cond(g.L).max() > 1e6:
            raise Singular()
        self.drawn(m, a['seed'], g.pi, g.mu, g.L)
        z, _ = g.posteriors(self.x, None)
        for mode in ('nat', 'std'):
            self.near(guard(m.compute_pz, self.x, mode=mode), z, z, 'posteriors (%s)' % mode)
        if self.plan['kind'] != 'gmm':
            self.below(guard(m.log_cdf, self.x), self.cdf(self.x, g.pi, g.mu, g.L))
        return m

    def below(self, got, want):
        check(got.shape == want.shape, 'wrong-shape', lambda: 'log_cdf gives shape %s' % (got.shape,))
        i = want > -9                         # far below, 1 + erf has no digits
        self.near(got[i], want[i], want[i], 'logarithm of the distribution function')

    def cdf(self, x, pi, mu, L):
        from scipy.special import logsumexp, ndtr
        p = [math.log(pi[k] + 1e-15) + np.log(ndtr((x - mu[k]) * np.sqrt(np.diag(L[k]))) + 1e-20).sum(1)
             for k in range(len(pi))]
        return logsumexp(p, axis=0)

    def drawn(self, m, seed, pi, mu, L):
        n, d = 6000, mu.shape[1]
        x = guard(m.sample, n, seed=seed)
        check(x.shape == (n, d), 'wrong-shape', lambda: 'sample has shape %s' % (x.shape,))
        y = guard(m.sample, n, rng=np.random.RandomState(seed))
        check(np.array_equal(x, y), 'wrong-sample', 'the seed and a generator with it give different vectors')
        y = guard(m.sample, n, seed=seed + 1)
        check(not np.any(np.all(x == y, axis=1)), 'wrong-sample', 'another seed gives the same vectors')
        S = np.stack([np.linalg.inv(v) for v in L])
        mean = pi.dot(mu)
        C = np.einsum('k,kij->ij', pi, S + np.einsum('ki,kj->kij', mu - mean, mu - mean))
        v = np.diag(C)
        f = (x.mean(axis=0) - mean) / np.sqrt(v / n)
        check(np.all(np.abs(f) < 8), 'wrong-sample', lambda: 'sample mean off by %s deviations' % f)
        e = x - mean
        # fourth moments of the sample itself bound the error
        q = np.einsum('ti,tj->tij', e, e)
        f = (q.mean(axis=0) - C) / (q.std(axis=0) / math.sqrt(n) + 1e-9 * v.max())
        check(np.all(np.abs(f) < 9), 'wrong-sample', lambda: 'sample covariance off by %s deviations' % (
            f.tolist(),))
        # how much falls nearest to each centre, by the law of the components
        k = int(np.argmax(pi))
        c, s = mu[k], np.sqrt(np.diag(S[k]))
        from scipy.special import ndtr
        p = sum(pi[i] * ndtr((c[0] + s[0] - mu[i, 0]) / math.sqrt(S[i][0, 0])) for i in range(len(pi)))
        f = ((x[:, 0] <= c[0] + s[0]).mean() - p) / math.sqrt(max(p * (1 - p), 1e-3) / n)
        check(abs(f) < 8, 'wrong-sample', lambda: 'share of samples below a point off by %g deviations' % f)

    def split(self, m, a):
        K = a.get('K', 2)
        if len(m.pi) * K > 24:
            return m
        ref = Ref.of(self.plan, m)
        if np.any(ref.pi < 1e-3):
            raise Singular()
        np.random.seed(self.plan['seed'])
        q = guard(m.split_comp, K) if K > 2 or self.plan['seed'] % 2 else guard(m.split_comp)
        g = Ref.of(self.plan, q)
        n = len(ref.pi)
        check(g.mu.shape == (n * K, self.plan['dim']), 'wrong-shape', lambda: 'split gives means %s' % (
            g.mu.shape,))
        self.near(g.pi, np.repeat(ref.pi, K) / K, np.repeat(ref.pi, K) / K, 'weights of the split')
        f = 1 if self.plan['kind'] == 'gmmtied' else K ** 2
        L = np.repeat(ref.L, K, axis=0) * f
        self.near(g.L, L, L, 'precisions of the split')
        for k in range(n):
            e, v = np.linalg.eigh(np.linalg.inv(ref.L[k]))
            if self.plan['kind'] != 'gmm':
                e, v = 1 / np.diag(ref.L[k]), np.eye(len(e))
            elif len(e) > 1 and np.min(np.diff(e)) < 1e-4 * e.max():
                raise Singular()
            for j in range(K):
                delta = (g.mu[k * K + j] - ref.mu[k]).dot(v) / np.sqrt(e)
                self.near(np.abs(delta), np.ones(len(e)), 1, 'steps of the split means, in deviations,')
            if K == 2:
                self.near(g.mu[2 * k] + g.mu[2 * k + 1], 2 * ref.mu[k], 2 * ref.mu[k],
                          'centre of a split pair')
        self.same(q, g, g, 'of the split')
        return q

    def steps(self, m, a):
        """E and M steps by hand, statistics summed over the recordings."""
        if self.plan['world'] == 'jobs':
            return self.jobs(m, a)
        for _ in range(a['epochs']):
            ref, twin, x2 = self.twins(m)
            st0 = [guard(m.Estep, x, None, w, a['batch']) for x, w in zip(self.X, self.W)]
            N, u = guard(m.sum_suff_stats, [v[0] for v in st0], [v[1] for v in st0])
            before = self.total(ref)
            ref.step(self.x, self.w)
            twin.step(x2, self.w)
            self.settled(ref, twin)
            N0, u0 = N.copy(), u.copy()
            guard(m.Mstep, N, u)
            self.same(m, ref, twin, 'after a step')
            check(np.array_equal(u, u0) and np.array_equal(N, N0), 'input-changed', 'the M step changes '
                  'the statistics of the caller')
            self.grows(m, before, ref)
        return m

    def total(self, ref):
        l = ref.llk(self.x)
        return (l if self.w is None else l * self.w).sum()

    def grows(self, m, before, ref):
        self.note(ref)
        if ref.floored or ref.pruned:
            return
        self.ctx.probe('likelihood-grows')
        l = guard(m.log_prob, self.x)
        after = (l if self.w is None else l * self.w).sum()
        check(after >= before - 1e-5 * (1 + abs(before)), 'likelihood-falls', lambda: 'the training '
              'data had log-likelihood %.9g, after training %.9g' % (before, after))

    def note(self, ref):
        if ref.floored:
            self.ctx.probe('floor')
        if ref.pruned:
            self.ctx.probe('pruned')

    def fit(self, m, a):
        w = self.plan['world']
        if w == 'jobs':
            return self.jobs(m, a)
        if w == 'queue':
            return self.queue(m, a)
        n = a['epochs']
        ref, twin, x2 = self.twins(m)
        before = self.total(ref)
        val = a['val'] in ('data', 'weights')
        xv = self.val[0][:1 + len(self.val[0]) // 2]
        wv = None if a['val'] != 'weights' or self.val[1] is None else self.val[1][:len(xv)]
        el, ev, el2, ev2 = [], [], [], []
        for _ in range(n):
            el.append(ref.elbo(self.x, self.w))
            el2.append(twin.elbo(x2, self.w))
            ref.step(self.x, self.w)
            twin.step(x2, self.w)
            self.settled(ref, twin)
            ev.append(ref.elbo(xv, wv))
            ev2.append(twin.elbo(xv, wv))
        if a['batch']:
            self.ctx.probe('batched')
        kw = dict(x_val=xv, sample_weight_val=wv) if val else {}
        r = guard(m.fit, self.x, self.w, epochs=n, batch_size=a['batch'], **kw)
        self.same(m, ref, twin, 'after %d epochs' % n)
        self.near(r[0], el, el2, 'objective')
        if self.w is None:
            self.near(r[1], np.array(el) / len(self.x), np.array(el2) / len(self.x), 'objective per sample')
        if val:
            self.ctx.probe('validation')
            check(len(r) == 4, 'wrong-shape', 'no objective of the validation data')
            self.near(r[2], ev, ev2, 'objective of the validation data')
            if wv is None and self.w is None:
                self.near(r[3], np.array(ev) / len(xv), np.array(ev2) / len(xv),
                          'objective per sample of the validation data')
        self.grows(m, before, ref)
        for v, v0 in getattr(self, 'arrays', ()):
            check(np.array_equal(v, v0), 'input-changed', 'training changes the arrays the first model '
                  'was made from')
        return m

    # ---- reader threads
    def source(self, state, X, W, m, fail):
        from hyperion.utils.multithreading import threadsafe_generator
        p = self.plan

        @threadsafe_generator
        def src():
            while True:
                i = state['i']
                for _ in range(p['inner']):
                    yield_point('source')
                if p['delay'] and i % 3 == 1:
                    self.ctx.fault('stall')
                    self.s.sleep(p['delay'])
                if fail and p['fail_at'] is not None and self.made == p['fail_at']:
                    self.ctx.fault('source-error')
                    self.made += 1
                    raise SourceError(i)
                if fail:
                    self.made += 1
                state['i'] = i + 1
                j = i % len(X)
                v = [X[j]]
                if p['given']:
                    v.append(m.compute_suff_stats(X[j]))
                if W[j] is not None:
                    v.append(W[j])
                yield v[0] if len(v) == 1 else tuple(v)
        return src()

    made = 0
    lost = 0.

    def queue(self, m, a):
        p, n = self.plan, len(self.X)
        if p['workers'] > 1:
            self.ctx.probe('many-workers')
        left = a['epochs']
        kw = {}
        Xv, Wv = data(p, 77)
        tries = 0
        while left:
            ref, twin, x2 = self.twins(m)
            before = self.total(ref)
            states, el, el2, ev = [ref.copy()], [], [], []
            tw = [twin.copy()]
            for _ in range(left):
                el.append(ref.elbo(self.x, self.w))
                el2.append(twin.elbo(x2, self.w))
                ref.step(self.x, self.w)
                twin.step(x2, self.w)
                self.settled(ref, twin)
                states.append(ref.copy())
                tw.append(twin.copy())
            if a['val'] == 'gen':
                kw = dict(val_data=self.source({'i': 0}, Xv, Wv, m, False), val_steps=len(Xv))
            elif a['val']:
                kw = dict(val_data=self.val[0] if self.val[1] is None else self.val)
            r, e = attempt(m.fit_generator, self.source({'i': 0}, self.X, self.W, m, True), n, epochs=left,
                           max_queue_size=p['limit'], workers=p['workers'], **kw)
            alive = [t for t in self.s.alive() if t.name != 'main']
            check(not alive, 'worker-survives', lambda: '%d reader threads are alive' % len(alive))
            if e is None:
                self.same(m, ref, twin, 'after %d epochs from the queue' % left)
                self.near(r[0], el, el2, 'objective')
                f = self.samples()
                self.near(r[1], np.array(el) / f, np.array(el2) / f, 'objective per sample')
                if kw:
                    self.ctx.probe('validation')
                    ev = [(s.elbo(*self.val), t.elbo(*self.val)) for s, t in zip(states[1:], tw[1:])]
                    self.near(r[2], [v[0] for v in ev], [v[1] for v in ev], 'objective of the '
                              'validation data')
                    f = len(self.val[0]) if self.val[1] is None else self.val[1].sum()
                    self.near(r[3], [v[0] / f for v in ev], [v[1] / f for v in ev], 'objective per '
                              'sample of the validation data')
                self.grows(m, before, ref)
                return m
            # an epoch was lost: the model is the one of the last whole epoch
            started = any(f <= self.s.n_thread for f in self.s.fail_threads)
            if not isinstance(e, SourceError) and not started and p['fail_at'] is None:
                raise Violation('unexpected-exception', '%s: %s' % (type(e).__name__, str(e)[:200]))
            tries += 1
            check(tries < 4, 'unexpected-exception', lambda: 'training fails again: %r' % e)
            self.ctx.probe('continued')
            self.s.fail_threads = set()
            best = None
            for i, (s, t) in enumerate(zip(states, tw)):
                g = Ref.of(p, m)
                d = max(np.abs(g.mu - s.mu).max(), np.abs(g.L - s.L).max(), np.abs(g.pi - s.pi).max())
                if best is None or d < best[0]:
                    best = d, i
            i = best[1]
            self.same(m, states[i], tw[i], 'after the source failed (%d epochs done)' % i)
            check(i < left or (started and kw), 'partial-statistics', 'all epochs are done, but the pass failed')
            left -= i
        return m

    def samples(self):
        return len(self.x) if self.w is None else self.w.sum()

    # ---- part-jobs that exchange statistics, one more that makes the model of the next epoch
    def jobs(self, m, a):
        from hyperion.io import (DataWriterFactory as W, SequentialDataReaderFactory as R,
                                 RandomAccessDataReaderFactory as RA)
        p, ctx = self.plan, self.ctx
        if self.cl is None:
            self.cl = Cluster(ctx, p)
            e = p['fmt']
            names = ['utt%d' % i for i in range(len(self.X))]
            with W.create('%s,scp:x.%s,x.scp' % (e, e)) as w:
                w.write(names, self.X)
            if p['weights']:
                with W.create('%s,scp:w.%s,w.scp' % (e, e)) as w:
                    w.write(names, self.W)
        parts = min(p['parts'], len(self.X))
        c = cls(p)
        for _ in range(a['epochs']):
            e = self.n_epoch
            self.n_epoch += 1
            guard(m.save, 'm%d.h5' % e)
            m = guard(c.load, 'm%d.h5' % e)

            def acc(j, e=e):
                def body():
                    q = c.load('m%d.h5' % e)
                    Ns, us = [], []
                    wr = RA.create('scp:w.scp') if p['weights'] else None
                    with R.create('scp:x.scp', part_idx=j, num_parts=parts) as r:
                        while not r.eof():
                            k, v = r.read(1)
                            if not k:
                                break
                            w = None if wr is None else np.asarray(wr.read([k[0]])[0], dtype=float)
                            N, u = q.Estep(np.asarray(v[0], dtype=float), None, w, a['batch'])
                            Ns.append(N)
                            us.append(u)
                    if wr is not None:
                        wr.close()
                    N, u = q.sum_suff_stats(Ns, us)
                    with W.create('ark:s%d.%d.ark' % (e, j)) as w:
                        w.write(['N', 'u'], [N, u])
                return body

            def upd(e=e):
                q = c.load('m%d.h5' % e)
                Ns, us = [], []
                for j in range(1, parts + 1):
                    with R.create('ark:s%d.%d.ark' % (e, j)) as r:
                        k, v = r.read()
                    check(list(k) == ['N', 'u'], 'wrong-records', lambda: 'part %d holds %s' % (j, k))
                    Ns.append(np.asarray(v[0], dtype=float))
                    us.append(np.asarray(v[1], dtype=float))
                N, u = q.sum_suff_stats(Ns, us)
                q.Mstep(N, u)
                q.save('n%d.h5' % e)
            ref, twin, x2 = self.twins(m)
            before = self.total(ref)
            ref.step(self.x, self.w)
            twin.step(x2, self.w)
            self.settled(ref, twin)
            js = [('acc%d.%d' % (e, j), acc(j)) for j in range(1, parts + 1)]
            random.Random(p['order'] + e).shuffle(js)
            self.cl.run(js)
            self.cl.run([('upd%d' % e, upd)])
            m = guard(c.load, 'n%d.h5' % e)
            self.same(m, ref, twin, 'after epoch %d of %d part-jobs' % (e, parts))
            self.grows(m, before, ref)
        return m

    # ---- one Gaussian
    def normal(self):
        p, x, w = self.plan, self.x, self.w
        d = p['dim']
        um, ul, _ = p['update']
        mu0 = x[0] + 0.5
        if p['kind'] == 'normal':
            from hyperion.pdfs.core.normal import Normal as C
            L0 = np.eye(d)
        else:
            from hyperion.pdfs.core.normal_diag_cov import NormalDiagCov as C
            L0 = np.ones(d)
        m = C(x_dim=d, mu=mu0, Lambda=L0, update_mu=um, update_Lambda=ul)
        ww = np.ones(len(x)) if w is None else w
        if ww.sum() < 2 * d + 2:
            return
        for i in range(2):
            r = guard(m.fit, x, w, batch_size=p['acts'][0].get('batch') if p['acts'] else None)
            mu = (ww[:, None] * x).sum(axis=0) / ww.sum() if um else mu0
            C_ = (ww[:, None] * (x - mu)).T.dot(x - mu) / ww.sum()
            if p['kind'] != 'normal':
                C_ = np.diag(np.maximum(np.diag(C_), m.var_floor))
            if np.linalg.cond(C_) > 1e6:
                return
            L = np.linalg.inv(C_) if ul else np.eye(d)
            self.near(m.mu, mu, mu, 'mean')
            self.near(m.Lambda if p['kind'] == 'normal' else np.diag(m.Lambda), L, L, 'precision')
            e = x - mu
            l = 0.5 * np.linalg.slogdet(L)[1] - 0.5 * d * math.log(2 * math.pi) - 0.5 * np.einsum(
                'ti,ij,tj->t', e, L, e)
            self.near(guard(m.log_prob, x), l, l, 'log-likelihoods')
            self.near(guard(m.log_prob, x, method='std'), l, l, 'log-likelihoods (std)')
            self.drawn(m, p['seed'], np.ones(1), mu[None], L[None])
            if p['kind'] != 'normal':
                from scipy.special import ndtr
                c = np.log(ndtr(e * np.sqrt(np.diag(L))) + 1e-10).sum(axis=1)
                self.below(guard(m.log_cdf, x), c)
            self.near(r[0], (ww * l).sum(), (ww * l).sum(), 'objective')
            guard(m.save, 'g.h5')
            m = guard(C.load, 'g.h5')
            o = [bool(m.update_mu), bool(m.update_Lambda)]
            check(o == [um, ul], 'wrong-option', lambda: 'options after loading: %s' % o)
            mu0 = m.mu


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    if not plan['recs'] or not plan['acts']:
        return None
    if plan['world'] == 'jobs' and plan.get('switches') is not None:
        plan['sched'] = dict(plan['sched'], switches=plan['switches'])
    r = Run(plan, ctx)
    if plan['kind'].startswith('norm'):
        r.normal()
    elif plan['world'] == 'queue':
        s = Sched(ctx, dict(plan['sched'], switches=plan['switches']), trace_files=FILES,
                  opcode=plan['opcode'], max_steps=800000)
        s.fail_threads = set(plan['fail_start'])
        s.run(lambda: r.play(s))
        for name, e in s.errors:
            if not isinstance(e, (SourceError, StopIteration)):
                raise Violation('worker-error', '%s: %r' % (name, e))
    else:
        r.play()
    ctx.ev('mixture', plan['kind'])
    ctx.state(plan['kind'], plan['world'], plan['init'], plan['comp'], plan['weights'], plan['floor'],
              plan['min_N'], tuple(plan['update']), tuple(r.hist), tuple(n for _, n, _ in plan['recs']),
              tuple((n, o.kind) for n, k, o in r.cl.history) if r.cl else ())
    if r.cl:
        return [[n, o.n_mut, o.n_read, o.nbytes] for n, k, o in r.cl.history if k == 0]
    return None


def shrink(plan):
    for k, v in (('weights', None), ('dim', 1), ('comp', 1), ('init', 'given'), ('floor', 1e-3),
                 ('min_N', 0), ('update', [True] * 3)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k, v in (('workers', 1), ('inner', 0), ('delay', 0), ('limit', 1), ('given', False), ('parts', 1),
                 ('slots', 1)):
        if k in plan and plan[k] > v:
            yield dict(plan, **{k: v})
    for i, a in enumerate(plan['acts']):
        for k, v in (('epochs', 1), ('batch', None), ('val', None)):
            if a.get(k, v) != v:
                q = copy.deepcopy(plan)
                q['acts'][i][k] = v
                yield q
