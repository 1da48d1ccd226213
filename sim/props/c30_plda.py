"""C30: PLDA models trained with EM in sessions that are stopped, saved, killed and continued, on
data in any order, hard or soft labels, against the evidence and the EM step by plain formulas."""
import copy
import math
import random

import numpy as np

from sim import sched, storage as st
from sim.cluster import Cluster
from sim.core import attempt, check, guard

RUNS = {'quick': 2500, 'thorough': 80000}
LISTS = ('faults', 'acts', 'sizes', 'switches')
STATE_RULE = 'model kind, options, labels, history of actions and faults, sizes of the classes'
KINDS = ['frplda', 'splda', 'plda']
FLAGS = {'frplda': ['mu', 'B', 'W'], 'splda': ['mu', 'V', 'W'], 'plda': ['mu', 'V', 'U', 'D']}
ACTS = ['fit', 'steps', 'save', 'average', 'adapt', 'score', 'sample']
MUST_REACH = ['world:jobs', 'world:direct', 'init:given', 'init:data', 'labels:hard', 'labels:soft',
              'weights', 'validation', 'evidence-grows', 'job-retried', 'fault:crash', 'fault:eio-write',
              'fault:eio-read', 'diagonal', 'floor', 'ml', 'md', 'ml+md', 'md-epochs'] + [
                  'kind:' + k for k in KINDS] + ['act:' + a for a in ACTS] + [
                      'fixed:%s-%s' % (k, f) for k in KINDS for f in FLAGS[k]] + [
                          'score:%s-%s' % (w, h) for w in ('nvsm', 'nvs1')
                          for h in ('book', 'savg', 'vavg', 'vavg-lnorm')] + ['score:weights']
REAL = ['FRPLDA, SPLDA, PLDA (fit, E and M steps, adaptation by averaging, saving)',
        'feature readers and writers that carry the data between jobs']
STUB = ['job scheduler', 'system calls below the buffers']
ASSUMPTIONS = ['results agree up to rounding, with a margin of 1000 times the effect of rounding the '
               'data; a run ends where its own reference becomes singular',
               'a killed job restarts from scratch on the same output path']


def setup():
    import hyperion.helpers.plda_factory  # noqa: F401
    import hyperion.io  # noqa: F401


def gen(rng, tier):
    world = rng.choice(['jobs', 'direct', 'direct'])
    kind = rng.choice(KINDS)
    d = rng.choice([1, 2, 3, 3, 4])
    M = rng.choice([3, 5, 8, 8, 12])
    plan = {'world': world, 'kind': kind, 'dim': d, 'y': rng.randint(1, min(d, M - 1)),
            'z': rng.randint(1, max(1, d - 1)), 'seed': rng.randint(0, 10 ** 6), 'faults': [],
            'io': st.gen_io(rng), 'switches': None, 'sched': sched.gen_cfg(rng, horizon=400),
            'sizes': [rng.choice([1, 2, 2, 3, 5, 5, 9]) for _ in range(M)],
            'labels': rng.choice(['hard', 'hard', 'soft']), 'weights': rng.random() < 0.2,
            'init': rng.choice(['given', 'data']), 'diag': rng.random() < 0.25,
            'near': rng.choice([0.3, 1, 3]), 'floor': rng.choice([1e-5, 1e-5, 0.3]),
            'update': [rng.random() > 0.15 for _ in range(4)]}
    acts = []
    for _ in range(rng.randint(1, 4)):
        a = {'do': rng.choice(['fit', 'fit', 'fit', 'fit', 'steps', 'save', 'average', 'adapt', 'score',
                               'score', 'sample'])}
        if a['do'] in ('score', 'sample'):
            a.update(seed=rng.randint(0, 10 ** 6), way=rng.choice(['nvsm', 'nvs1']), soft=rng.random() < 0.5,
                     how=rng.choice(['book', 'book', 'savg', 'vavg', 'vavg-lnorm']))
        if a['do'] in ('average', 'adapt'):
            a['w'] = [rng.choice([0, 0.3, 0.5, 1]) for _ in range(3)]
        if a['do'] in ('fit', 'steps', 'adapt'):
            a['epochs'] = rng.choice([1, 1, 2, 4])
            a['how'] = rng.choice(['ml+md', 'ml+md', 'ml', 'md'])
            a['md_epochs'] = rng.choice([None, None, None, [0], [1, 3]])
            a['val'] = rng.random() < 0.3
        acts.append(a)
    if acts[-1]['do'] not in ('fit', 'steps'):
        acts.append({'do': 'fit', 'epochs': rng.choice([1, 3]), 'how': 'ml+md', 'md_epochs': None,
                     'val': False})
    plan['acts'] = acts
    if world == 'jobs':
        plan.update(slots=1, order=rng.randint(0, 10 ** 6), fmt=rng.choice(['ark', 'ark', 'h5']))
    return plan


def inject(plan, extra, rng, tier):
    if plan['world'] != 'jobs' or not extra:
        return
    for _ in range(2 if tier == 'quick' else 6):
        q = copy.deepcopy(plan)
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, n_mut, n_read, nb = rng.choice(extra)
            kind = rng.choice(['crash', 'crash', 'crash', 'eio_write', 'eio_read'])
            f = {'job': name, 'attempt': rng.choice([0, 0, 0, 1]), 'kind': kind}
            top = n_read if kind == 'eio_read' else n_mut
            if not top:
                continue
            f['n'] = rng.randint(1, top)
            if kind == 'crash':
                f['keep'] = rng.choice([0, 0.3, 0.7, 1])
            elif kind == 'eio_read':
                f['times'] = rng.choice([1, 2, 1000])
            q['faults'].append(f)
        if q['faults']:
            q['isolate'] = True
            yield q


def on_death(plan, status):
    return None


class Singular(Exception):
    """The reference itself is not determined: nothing can be said."""


def inv(a):
    if not np.all(np.isfinite(a)) or np.linalg.cond(a) > 1e7:
        raise Singular()
    return np.linalg.inv(a)


def logdet(a):
    return np.linalg.slogdet(a)[1]


class Data(object):
    """Vectors and the share p[t, i] that class i has in vector t."""

    def __init__(self, plan, seed=0):
        r = np.random.RandomState(plan['seed'])
        d, M = plan['dim'], len(plan['sizes'])
        self.A = r.randn(d, d) * plan['near']
        self.E = r.randn(d, d) * 0.4 + 0.5 * np.eye(d)
        self.b = r.randn(d)
        q = np.random.RandomState(plan['seed'] + seed + 1)
        ids = np.repeat(np.arange(M), plan['sizes'])
        y = q.randn(M, d).dot(self.A)
        x = self.b + y[ids] + q.randn(len(ids), d).dot(self.E)
        o = q.permutation(len(ids))              # in no particular order
        self.x, self.ids = x[o].astype(np.float32).astype(float), ids[o]
        self.p = np.eye(M)[self.ids]
        if plan['labels'] == 'soft':
            self.p = 0.8 * self.p + 0.2 * q.dirichlet(np.ones(M), len(ids))
            self.p = self.p.astype(np.float32).astype(float)
        self.soft = plan['labels'] == 'soft'
        self.w = q.randint(1, 16, len(ids)) / 8. if plan['weights'] else None

    @property
    def share(self):
        return self.p if self.w is None else self.p * self.w[:, None]

    def args(self, val=False):
        s = '_val' if val else ''
        a = {'x' + s: self.x}
        a['ptheta' + s if self.soft else 'class_ids' + s] = self.p if self.soft else self.ids
        if self.w is not None:
            a['sample_weight' + s] = self.w
        return a


class Bag(object):
    def __init__(self, x, share):
        self.x, self.share = x, share


class Ref(object):
    """x = mu + y V (+ z U) + e for splda and plda, x = y + e for frplda."""

    def __init__(self, plan, mu, V, B, U, S):
        self.plan, self.kind = plan, plan['kind']
        self.mu, self.V, self.B, self.U, self.S = mu, V, B, U, S
        f = dict(zip(FLAGS[self.kind], plan['update']))
        self.up = f
        self.floored = False

    @classmethod
    def of(cls, plan, m):
        mu = np.array(m.mu, dtype=float)
        d = len(mu)
        if plan['kind'] == 'frplda':
            return cls(plan, mu, np.eye(d), inv(np.array(m.B, dtype=float)), None,
                       inv(np.array(m.W, dtype=float)))
        V = np.array(m.V, dtype=float)
        B = np.eye(len(V))
        if plan['kind'] == 'splda':
            return cls(plan, mu, V, B, None, inv(np.array(m.W, dtype=float)))
        return cls(plan, mu, V, B, np.array(m.U, dtype=float), np.diag(1 / np.array(m.D, dtype=float)))

    def copy(self):
        return copy.copy(self)

    # what the model says about vectors, free of rotations of the hidden variables
    def law(self):
        W = self.S if self.U is None else self.S + self.U.T.dot(self.U)
        return self.mu, self.V.T.dot(self.B).dot(self.V), W, self.S

    def noise(self):
        return self.law()[2]

    def posterior(self, D):
        """Means and covariances of y, evidence of the data."""
        p, x, d = D.share, D.x, D.x.shape[1]
        S = self.noise()
        W = inv(S)
        fr = self.kind == 'frplda'
        m0 = self.mu if fr else np.zeros(len(self.V))
        e = x - (0 if fr else self.mu)
        P0 = inv(self.B)
        WV = W.dot(self.V.T)
        ms, Cs = [], []
        t = p.sum(axis=1)
        ev = -0.5 * t.sum() * (d * math.log(2 * math.pi) + logdet(S)) - 0.5 * t.dot(
            np.einsum('ti,ij,tj->t', e, W, e))
        for i in range(p.shape[1]):
            L = P0 + p[:, i].sum() * self.V.dot(WV)
            g = P0.dot(m0) + p[:, i].dot(e).dot(WV)
            C = inv(L)
            ms.append(C.dot(g))
            Cs.append(C)
            ev += 0.5 * (logdet(P0) - m0.dot(P0).dot(m0) - logdet(L) + g.dot(C).dot(g))
        return np.stack(ms), np.stack(Cs), ev

    def ratio(self, x1, x2):
        mu, B, W, _ = self.law()
        d = len(mu)
        T = B + W
        J, I = np.block([[T, B], [B, T]]), np.block([[T, 0 * B], [0 * B, T]])
        out = np.empty((len(x1), len(x2)))
        Q = inv(I) - inv(J)
        for i in range(len(x1)):
            for j in range(len(x2)):
                e = np.r_[x1[i] - mu, x2[j] - mu]
                out[i, j] = 0.5 * (e.dot(Q).dot(e) + logdet(I) - logdet(J))
        return out

    def evidence(self, D):
        return self.posterior(D)[2]

    def ratio_sets(self, x1, p1, x2, p2):
        """Likelihood ratio of every class of x1 and every class of x2 being one."""
        def ev(x, p):
            return self.evidence(Bag(x, p[:, None]))
        out = np.empty((p1.shape[1], p2.shape[1]))
        for i in range(p1.shape[1]):
            for j in range(p2.shape[1]):
                out[i, j] = ev(np.concatenate([x1, x2]), np.concatenate([p1[:, i], p2[:, j]])) - ev(
                    x1, p1[:, i]) - ev(x2, p2[:, j])
        return out

    def step(self, D, ml, md):
        p, x = D.share, D.x
        m, C, ev = self.posterior(D)
        N, M = p.sum(axis=0), len(m)
        T = N.sum()
        up = self.up
        F = p.T.dot(x)
        xx = (p.sum(axis=1)[:, None] * x).T.dot(x)
        Rn = np.einsum('i,ijk->jk', N, C) + (N[:, None] * m).T.dot(m)       # sum over vectors
        if self.kind == 'frplda':
            if ml:
                if up['mu']:
                    self.mu = m.mean(axis=0)
                if up['B']:
                    e = m - self.mu
                    self.B = C.mean(axis=0) + e.T.dot(e) / M
                if up['W']:
                    c = F.T.dot(m)
                    self.S = (xx - c - c.T + Rn) / T
                    if self.plan['diag']:
                        self.S = np.diag(np.diag(self.S))
            self.settle()
            return ev
        # expectations of h = (y, z, 1) with every vector
        ny, nz = len(self.V), 0 if self.U is None else len(self.U)
        n = ny + nz + 1
        R, X = np.zeros((n, n)), np.zeros((n, x.shape[1]))
        if nz:
            Pz = inv(np.eye(nz) + self.U.dot(inv(self.S)).dot(self.U.T))
            G = Pz.dot(self.U).dot(inv(self.S))
            K = G.dot(self.V.T)
        for i in range(M):
            for t in np.nonzero(p[:, i])[0]:
                h = np.ones(n)
                h[:ny] = m[i]
                c = np.zeros((n, n))
                c[:ny, :ny] = C[i]
                if nz:
                    h[ny:-1] = G.dot(x[t] - self.mu) - K.dot(m[i])
                    c[ny:-1, ny:-1] = Pz + K.dot(C[i]).dot(K.T)
                    c[ny:-1, :ny] = -K.dot(C[i])
                    c[:ny, ny:-1] = c[ny:-1, :ny].T
                R += p[t, i] * (c + np.outer(h, h))
                X += p[t, i] * np.outer(h, x[t])
        if ml:
            A = np.vstack([self.V] + ([self.U] if nz else []) + [self.mu[None]])
            free = np.array([up['V']] * ny + [up.get('U')] * nz + [up['mu']], dtype=bool)
            if free.any():
                A[free] = inv(R[np.ix_(free, free)]).dot(
                    X[free] - R[np.ix_(free, ~free)].dot(A[~free]))
            self.V, self.U, self.mu = A[:ny], A[ny:-1] if nz else None, A[-1]
            if up['D' if nz else 'W']:
                c = X.T.dot(A)
                self.S = (xx - c - c.T + A.T.dot(R).dot(A)) / T
                if nz:
                    v = np.diag(self.S)
                    self.floored = self.floored or np.any(v < self.plan['floor'])
                    self.S = np.diag(np.maximum(v, self.plan['floor']))
                elif self.plan['diag']:
                    self.S = np.diag(np.diag(self.S))
        if md:
            # the best prior y ~ N(a, Cy), z | y ~ N(b + H y, Cz), moved into the parameters;
            # what is not to be updated keeps its part of the prior
            Ey, Ryy = m.sum(axis=0) / M, (C.sum(axis=0) + m.T.dot(m)) / M
            a = Ey if up['mu'] else 0 * Ey
            Cy = Ryy - np.outer(a, Ey) - np.outer(Ey, a) + np.outer(a, a)
            H, b, Cz = None, None, None
            if nz:
                y, z = slice(0, ny), slice(ny, n - 1)
                if up['V'] and up['mu']:
                    q = np.r_[0:ny, n - 1]
                    k = inv(R[np.ix_(q, q)]).dot(R[q, z])
                    H, b = k[:-1], k[-1]
                elif up['V']:
                    H, b = inv(R[y, y]).dot(R[y, z]), np.zeros(nz)
                else:
                    H, b = np.zeros((ny, nz)), (R[-1, z] / R[-1, -1] if up['mu'] else np.zeros(nz))
                k = np.vstack([H, b])
                q = np.r_[0:ny, n - 1]
                c = R[z, q].dot(k)
                Cz = (R[z, z] - c - c.T + k.T.dot(R[np.ix_(q, q)]).dot(k)) / T
                V1 = self.V + H.dot(self.U)
                self.mu = self.mu + a.dot(V1) + b.dot(self.U)
            else:
                V1 = self.V
                self.mu = self.mu + a.dot(V1)
            if up['V']:
                self.V = np.linalg.cholesky(Cy).T.dot(V1)
            if nz and up['U']:
                self.U = np.linalg.cholesky(Cz).T.dot(self.U)
        self.settle()
        return ev

    def settle(self):
        for v in self.law():
            if not np.all(np.isfinite(v)):
                raise Singular()
        inv(self.noise())
        if self.kind == 'frplda':
            inv(self.B)
        elif np.linalg.cond(self.V.dot(self.V.T)) > 1e8 or (
                self.U is not None and np.linalg.cond(self.U.dot(self.U.T)) > 1e8):
            raise Singular()

    def average(self, o, w):
        w_mu, w_B, w_W = w
        q = self.copy()
        q.mu = w_mu * o.mu + (1 - w_mu) * self.mu
        mu1, B1, W1, S1 = o.law()
        mu0, B0, W0, S0 = self.law()

        def top(A, n):
            e, v = np.linalg.eigh(A)
            if len(e) > n and e[-n] - e[-n - 1] < 1e-3 * e[-1]:
                raise Singular()
            return (v[:, -n:] * np.sqrt(np.maximum(e[-n:], 0))).T
        if w_B > 0:
            A = w_B * B1 + (1 - w_B) * B0
            if self.kind == 'frplda':
                q.B = A
            else:
                q.V = top(A, len(self.V))
        if w_W > 0:
            A = w_W * W1 + (1 - w_W) * W0
            if self.U is None:
                q.S = A
            else:
                q.U = top(A, len(self.U))
                v = np.diag(A - q.U.T.dot(q.U))
                q.floored = q.floored or np.any(v < self.plan['floor'])
                q.S = np.diag(np.maximum(v, self.plan['floor']))
        return q


class Run(object):
    lost = 0.

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.D, self.val = Data(plan), Data(plan, 77)
        self.cl = None
        self.n_job = 0
        self.hist = []
        k = plan['kind']
        ctx.probe('world:' + plan['world'])
        ctx.probe('kind:' + k)
        ctx.probe('labels:' + plan['labels'])
        if plan['weights']:
            ctx.probe('weights')
        for f, u in zip(FLAGS[k], plan['update']):
            if not u:
                ctx.probe('fixed:%s-%s' % (k, f))
        self.kw = {'update_' + f: u for f, u in zip(FLAGS[k], plan['update'])}
        self.opts = dict(self.kw)
        if k == 'plda':
            self.kw['floor_iD'] = plan['floor']
        else:
            self.kw['fullcov_W'] = not plan['diag']
            if plan['diag']:
                ctx.probe('diagonal')

    def cls(self):
        from hyperion.pdfs.plda import FRPLDA, PLDA, SPLDA
        return {'frplda': FRPLDA, 'splda': SPLDA, 'plda': PLDA}[self.plan['kind']]

    # ---- comparison
    def near(self, got, want, other, what):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        check(got.shape == want.shape, 'wrong-shape', lambda: '%s has shape %s, should be %s' % (
            what, got.shape, want.shape))
        if want.size == 0:
            return
        s = 1 + np.abs(want).max()
        tol = ((1e-6 if self.plan['world'] != 'jobs' else 1e-4) + 30 * self.lost) * s
        tol = tol + 1000 * np.abs(want - np.asarray(other)).max()
        err = np.abs(got - want)
        check(np.all(err <= tol), 'wrong-model', lambda: '%s is off by %g (margin %g): %s, should be '
              '%s' % (what, err.max(), tol, got.ravel()[:6], want.ravel()[:6]))

    def settled(self, ref, twin):
        far = max(np.abs(a - b).max() / (1 + np.abs(a).max()) for a, b in zip(ref.law(), twin.law()))
        jobs = self.plan['world'] == 'jobs'
        W = inv(ref.noise())
        # the residual alone is inverted, too
        lost = max(np.abs(W).max(), 1 / np.diag(ref.S).min()) * (np.abs(self.D.x).max() ** 2 + 1) * (1e-7 if jobs else 1e-13)
        if far > 1e-5 or lost > (1e-3 if jobs else 1e-6):
            raise Singular()
        self.lost = lost

    def same(self, m, ref, twin, what):
        self.settled(ref, twin)
        g = Ref.of(self.plan, m)
        for n, a, b, c in zip(('mean', 'covariance between classes', 'covariance within classes',
                               'residual'), g.law(), ref.law(), twin.law()):
            self.near(a, b, c, '%s %s' % (n, what))
        # ... and computes with them
        a, b = guard(m.compute_py_g_x, self.stats(m), return_cov=True)
        c = g.posterior(self.D)
        self.near(b, c[1], c[1], 'covariances of the class variables %s' % what)
        self.near(guard(m.compute_py_g_x, self.stats(m)), a, a, 'class variables alone %s' % what)
        self.near(a, c[0], c[0], 'class variables %s' % what)
        x = self.D.x[:4]
        self.near(guard(m.llr_1vs1, x, x[:3]), g.ratio(x, x[:3]), g.ratio(x, x[:3]), 'scores %s' % what)
        o = {k: bool(getattr(m, k)) for k in self.opts}
        check(o == self.opts, 'wrong-option', lambda: 'options %s are %s, were %s' % (
            what, o, self.opts))
        for k in ('floor_iD', 'fullcov_W'):
            if k in self.kw:
                check(getattr(m, k) == self.kw[k] or abs(getattr(m, k) - self.kw[k]) < 1e-9,
                      'wrong-option', lambda: '%s %s is %r' % (k, what, getattr(m, k)))

    def stats(self, m):
        if self.D.soft:
            return guard(m.compute_stats_soft, self.D.x, self.D.p, self.D.w)
        return guard(m.compute_stats_hard, self.D.x, self.D.ids, self.D.w)

    def twins(self, m, D=None):
        D = D or self.D
        ref = Ref.of(self.plan, m)
        r = np.random.RandomState(5)
        t = ref.copy()
        t.mu = t.mu * (1 + 1e-9 * r.randn(*t.mu.shape))
        D2 = copy.copy(D)
        D2.x = D.x * (1 + (1e-7 if self.plan['world'] == 'jobs' else 1e-10) * r.randn(*D.x.shape))
        return ref, t, D2

    # ---- the first model
    def start(self):
        p, d = self.plan, self.plan['dim']
        self.ctx.probe('init:' + p['init'])
        c = self.cls()
        kw = dict(self.kw, name='plda')
        if p['init'] == 'data':
            if p['kind'] != 'frplda':
                kw['y_dim'] = p['y']
            if p['kind'] == 'plda':
                kw['z_dim'] = p['z']
            if min(p['sizes']) == 0 or len(p['sizes']) <= max(p['y'], d if p['kind'] == 'frplda' else 0):
                raise Singular()
            S = self.within()
            e = np.linalg.eigvalsh(S)
            if e.min() < 1e-3 or p['weights']:
                raise Singular()
            if p['kind'] == 'plda' and p['z'] < d and e[-p['z']] - e[-p['z'] - 1] < 1e-3 * e[-1]:
                raise Singular()
            m = c(**kw)
            check(not guard(lambda: m.is_init), 'wrong-model', 'a model without parameters is initialised')
            N, F, S = guard(m.compute_stats_soft, self.D.x, self.D.p)
            guard(m.initialize, (N, F, S))
            # the order of the data and the names of the classes make no difference
            o = np.random.RandomState(p['seed']).permutation(len(self.D.x))
            k = np.random.RandomState(p['seed']).permutation(len(p['sizes']))
            q = c(**kw)
            if p['seed'] % 2:
                guard(q.fit, self.D.x[o], ptheta=self.D.p[o][:, k], epochs=0)
            else:
                guard(q.initialize, guard(q.compute_stats_soft, self.D.x[o], self.D.p[o][:, k]))
            a = Ref.of(p, m)
            a.settle()
            self.same(q, a, a, 'first of the shuffled data')
            return m
        r = np.random.RandomState(p['seed'] + 3)

        def pd():
            v = r.randn(d, d)
            return v.dot(v.T) / d + 0.5 * np.eye(d)
        mu = self.D.b + 0.3 * r.randn(d)
        if p['kind'] == 'frplda':
            a = dict(mu=mu, B=pd(), W=pd())
        elif p['kind'] == 'splda':
            a = dict(mu=mu, V=r.randn(p['y'], d), W=pd())
        else:
            a = dict(mu=mu, V=r.randn(p['y'], d), U=r.randn(p['z'], d),
                     D=1 / r.uniform(max(0.3, p['floor']), 2, d))
        if p['diag'] and 'W' in a:
            a['W'] = np.diag(np.diag(a['W']))
        self.arrays = [(v, v.copy()) for v in a.values()]
        m = c(**dict(kw, **a))
        check(guard(lambda: m.is_init), 'wrong-model', 'a model made of its parameters is not initialised')
        return m

    def within(self):
        N = self.D.p.sum(axis=0)
        F = self.D.p.T.dot(self.D.x)
        return (self.D.x.T.dot(self.D.x) - (F / N[:, None]).T.dot(F)) / N.sum()

    def play(self):
        try:
            m = self.start()
            for i, a in enumerate(self.plan['acts']):
                self.ctx.probe('act:' + a['do'])
                self.hist.append(a['do'] + a.get('how', ''))
                m = getattr(self, a['do'])(m, a)
        except Singular:
            self.hist.append('singular')
        except np.linalg.LinAlgError as e:
            # of the reference: those of the program come wrapped by guard()
            self.hist.append('singular')

    def save(self, m, a):
        ref = Ref.of(self.plan, m)
        guard(m.save, 'model.h5')
        q = guard(type(m).load, 'model.h5')
        check(guard(lambda: q.is_init), 'wrong-model', 'a loaded model is not initialised')
        t = Ref.of(self.plan, q)
        eps = 1e-6 * max(np.linalg.cond(ref.noise()), np.linalg.cond(ref.B))
        if eps > 1e-3:
            raise Singular()
        for n, v, w in zip(('mean', 'between', 'within', 'residual'), ref.law(), t.law()):
            check(np.abs(v - w).max() <= eps * (1 + np.abs(v).max()), 'wrong-model',
                  lambda: '%s is off by %g after loading' % (n, np.abs(v - w).max()))
        self.same(q, t, t, 'after loading')
        return q

    # ---- use
    def score(self, m, a):
        """Several vectors on either side."""
        r = np.random.RandomState(a['seed'])
        g = Ref.of(self.plan, m)
        self.settled(g, g)
        d = self.plan['dim']
        c1, c2 = r.randint(1, 4, 2)
        id1 = r.permutation(np.r_[np.arange(c1), r.randint(0, c1, r.randint(0, 4))])
        id2 = r.permutation(np.r_[np.arange(c2), r.randint(0, c2, r.randint(0, 4))])
        if a['way'] == 'nvs1':
            c2, id2 = len(id2), np.arange(len(id2))
        x1, x2 = self.D.b + r.randn(len(id1), d) * 2, self.D.b + r.randn(len(id2), d) * 2
        p1, p2 = np.eye(c1)[id1], np.eye(c2)[id2]
        keep = [v.copy() for v in (x1, x2, id1, id2)]
        how = a['how']
        self.ctx.probe('score:%s-%s' % (a['way'], how))
        if how == 'book':
            want = g.ratio_sets(x1, p1, x2, p2)
        elif how == 'savg':
            want = (p1 / p1.sum(0)).T.dot(g.ratio(x1, x2)).dot(p2 / p2.sum(0))
        else:
            y1, y2 = (p1 / p1.sum(0)).T.dot(x1), (p2 / p2.sum(0)).T.dot(x2)
            if how == 'vavg-lnorm':
                y1, y2 = [v / (np.sqrt((v ** 2).sum(1, keepdims=True)) + 1e-10) * math.sqrt(d)
                          for v in (y1, y2)]
            want = g.ratio(y1, y2)
        what = 'scores %s %s of %s and %s' % (a['way'], how, id1.tolist(), id2.tolist())
        if a['way'] == 'nvs1':
            got = guard(m.llr_Nvs1, x1, x2, ids1=id1, method=how)
        else:
            got = guard(m.llr_NvsM, x1, x2, ids1=id1, ids2=id2, method=how)
        self.near(got, want, want, what)
        if how != 'savg':
            # the same from statistics, which may be soft or weighted
            w1 = r.choice([1, 0.4, 2], len(id1)) if how == 'book' and a['soft'] else None
            D1 = guard(m.compute_stats_hard, x1, id1, w1)
            if w1 is not None:
                self.ctx.probe('score:weights')
                want = g.ratio_sets(x1, p1 * w1[:, None], x2, p2)
            if a['way'] == 'nvs1':
                got = guard(m.llr_Nvs1, D1, x2, method=how)
            else:
                got = guard(m.llr_NvsM, D1, guard(m.compute_stats_hard, x2, id2), method=how)
            self.near(got, want, want, what + ' from statistics')
        check(all(np.array_equal(v, k) for v, k in zip((x1, x2, id1, id2), keep)), 'input-changed',
              lambda: 'computing %s changes the vectors it is given' % what)
        if self.plan['kind'] != 'frplda':
            y = r.randn(3, len(g.V))
            x = self.D.b + r.randn(3, d)
            W = g.noise()
            e = x - g.mu - y.dot(g.V)
            v = -0.5 * (d * math.log(2 * math.pi) + logdet(W) + np.einsum('ti,ij,tj->t', e, inv(W), e))
            self.near(guard(m.log_probx_g_y, x, y), v, v, 'log-likelihood given the class')
            if self.plan['kind'] == 'plda':
                z = r.randn(3, len(g.U))
                e, q = e - z.dot(g.U), np.diag(g.S)
                v = -0.5 * (d * math.log(2 * math.pi) + np.log(q).sum() + (e ** 2 / q).sum(1))
                self.near(guard(m.log_probx_g_yz, x, y, z), v, v, 'log-likelihood given class and channel')
        return m

    def sample(self, m, a):
        """Vectors drawn from the model have its means and covariances, and come back with the seed."""
        g = Ref.of(self.plan, m)
        self.settled(g, g)
        d, n, k = self.plan['dim'], 3000, 2
        x = guard(m.sample, n, k, seed=a['seed'])
        y = guard(m.sample, n, k, rng=np.random.RandomState(a['seed']))
        check(np.array_equal(x, y), 'wrong-sample', 'the seed and a generator with it give different vectors')
        y = guard(m.sample, n, k, seed=a['seed'] + 1)
        check(x.shape == (n * k, d) and not np.any(x == y), 'wrong-sample', lambda: 'sample of shape %s, '
              'other seeds give %d same values' % (x.shape, (x == y).sum()))
        mu, B, W, _ = g.law()
        z = x.reshape(n, k * d)
        T = np.block([[B + W, B], [B, B + W]])
        s = np.sqrt(np.diag(T) / n)
        f = z.mean(0) - np.r_[mu, mu]
        check(np.all(np.abs(f) < 8 * s), 'wrong-sample', lambda: 'sample mean off by %s of its deviation' % (
            f / s))
        z = z - np.r_[mu, mu]
        C = z.T.dot(z) / n
        s = np.sqrt((np.outer(np.diag(T), np.diag(T)) + T ** 2) / n)
        check(np.all(np.abs(C - T) < 9 * s), 'wrong-sample', lambda: 'sample covariance of two vectors of '
              'a class: %s, should be %s' % (C.tolist(), T.tolist()))
        return m

    # ---- training
    def train(self, ref, twin, D2, a):
        """The reference after the epochs, evidences (of ref and twin) at their starts."""
        el, el2, ev, ev2 = [], [], [], []
        for e in range(a['epochs']):
            ml = a['how'] != 'md'
            md = a['how'] != 'ml' and (a['md_epochs'] is None or e in a['md_epochs'])
            ev.append(ref.evidence(self.val))
            ev2.append(twin.evidence(self.val))
            el.append(ref.step(self.D, ml, md))
            el2.append(twin.step(D2, ml, md))
            self.settled(ref, twin)
        self.ctx.probe(a['how'])
        if a['md_epochs'] and a['how'] != 'ml':
            self.ctx.probe('md-epochs')
        if ref.floored:
            self.ctx.probe('floor')
        return el, el2, ev, ev2

    def grows(self, before, m, ref):
        """The evidence of the training data, by plain formulas, has not become smaller."""
        if self.plan['kind'] == 'plda' and ref.floored:
            return
        self.ctx.probe('evidence-grows')
        after = Ref.of(self.plan, m).evidence(self.D)
        check(after >= before - (1e-6 + 30 * self.lost) * (1 + abs(before)), 'evidence-falls',
              lambda: 'the training data had evidence %.9g, after training %.9g' % (before, after))

    def flat(self, m):
        """The start has a full W where it has to become diagonal, or a D below the floor."""
        return self.plan['diag'] and self.plan['kind'] != 'plda'

    def fit(self, m, a):
        if self.plan['world'] == 'jobs':
            return self.job(m, a)
        ref, twin, D2 = self.twins(m)
        before = ref.evidence(self.D)
        el, el2, ev, ev2 = self.train(ref, twin, D2, a)
        kw = self.D.args()
        if a['val']:
            self.ctx.probe('validation')
            kw.update(self.val.args(True))
        r = guard(m.fit, epochs=a['epochs'], ml_md=a['how'], md_epochs=a['md_epochs'], **kw)
        self.same(m, ref, twin, 'after %d epochs' % a['epochs'])
        n = self.D.share.sum()
        self.near(r[0], el, el2, 'evidence')
        self.near(r[1], np.array(el) / n, np.array(el2) / n, 'evidence per vector')
        if a['val']:
            n = self.val.share.sum()
            self.near(r[2], ev, ev2, 'evidence of the validation data')
            self.near(r[3], np.array(ev) / n, np.array(ev2) / n, 'evidence per vector of the '
                      'validation data')
        if not self.flat(m):
            self.grows(before, m, ref)
        for v, v0 in getattr(self, 'arrays', ()):
            check(np.array_equal(v, v0), 'input-changed', 'training changes the arrays the first model '
                  'was made from')
        return m

    def steps(self, m, a):
        """E and M steps by hand; the classes are numbered and ordered anew for every one."""
        if self.plan['world'] == 'jobs':
            return self.job(m, a)
        for e in range(a['epochs']):
            b = dict(a, epochs=1, md_epochs=None)
            ref, twin, D2 = self.twins(m)
            before = ref.evidence(self.D)
            el, el2, _, _ = self.train(ref, twin, D2, b)
            r = np.random.RandomState(e)
            o, k = r.permutation(len(self.D.x)), r.permutation(self.D.p.shape[1])
            D = guard(m.compute_stats_soft, self.D.x[o], self.D.p[o][:, k],
                      None if self.D.w is None else self.D.w[o])
            s = guard(m.Estep, D)
            self.near(guard(m.elbo, s), el[0], el2[0], 'evidence of the statistics')
            y = guard(m.compute_py_g_x, D)
            if a['how'] != 'md':
                guard(m.MstepML, s)
            if a['how'] != 'ml':
                guard(m.MstepMD, s)
            self.same(m, ref, twin, 'after a step')
            check(np.shape(y)[0] == len(k), 'wrong-shape', 'a posterior mean for every class')
            if not self.flat(m):
                self.grows(before, m, ref)
        return m

    def other(self):
        """Another model of the same shape."""
        p = copy.copy(self.plan)
        p['seed'] += 13
        p['init'] = 'given'
        q = Run.__new__(Run)
        q.plan, q.ctx, q.kw = p, self.ctx, self.kw
        q.D = self.D
        return q.start()

    def average(self, m, a):
        o = self.other()
        if Ref.of(self.plan, o).V.shape != Ref.of(self.plan, m).V.shape:
            raise Singular()
        ref, twin, _ = self.twins(m)
        r = Ref.of(self.plan, o)
        ref, twin = ref.average(r, a['w']), twin.average(r, a['w'])
        ref.settle()
        guard(m.weighted_avg_model, o, *a['w'])
        self.same(m, ref, twin, 'after averaging')
        q = Ref.of(self.plan, o)
        check(all(np.array_equal(u, v) for u, v in zip(r.law(), q.law())), 'input-changed',
              'averaging changes the other model')
        return m

    def adapt(self, m, a):
        o = self.other()
        if Ref.of(self.plan, o).V.shape != Ref.of(self.plan, m).V.shape:
            raise Singular()
        ref, twin, D2 = self.twins(m)
        r = Ref.of(self.plan, o)
        el, el2, ev, ev2 = [], [], [], []
        for e in range(a['epochs']):
            ev.append(ref.evidence(self.val))
            ev2.append(twin.evidence(self.val))
            b = dict(a, epochs=1, md_epochs=None)
            if a['md_epochs'] is not None and e not in a['md_epochs']:
                if a['how'] == 'md':
                    el.append(ref.evidence(self.D))
                    el2.append(twin.evidence(self.D))
                    ref, twin = ref.average(r, a['w']), twin.average(r, a['w'])
                    continue
                b['how'] = 'ml'
            x, y, _, _ = self.train(ref, twin, D2, b)
            el += x
            el2 += y
            ref, twin = ref.average(r, a['w']), twin.average(r, a['w'])
            ref.settle()
            self.settled(ref, twin)
        w = a['w']
        kw = self.D.args()
        if a['val']:
            kw.update(self.val.args(True))
        f = guard(m.fit_adapt_weighted_avg_model, plda0=o, epochs=a['epochs'], ml_md=a['how'],
                  md_epochs=a['md_epochs'], w_mu=w[0], w_B=w[1], w_W=w[2], **kw)
        self.same(m, ref, twin, 'after adaptation')
        self.near(f[0], el, el2, 'evidence in adaptation')
        if a['val']:
            n = self.val.share.sum()
            self.near(f[2], ev, ev2, 'evidence of the validation data in adaptation')
            self.near(f[3], np.array(ev) / n, np.array(ev2) / n, 'evidence per vector of the '
                      'validation data in adaptation')
        return m

    # ---- a session: a job that loads model and data, trains and saves
    def job(self, m, a):
        from hyperion.io import DataWriterFactory as W, SequentialDataReaderFactory as R
        p, ctx, D = self.plan, self.ctx, self.D
        ext = p['fmt']
        if self.cl is None:
            self.cl = Cluster(ctx, p)
            names = ['u%d' % i for i in range(len(D.x))]
            with W.create('%s,scp:x.%s,x.scp' % (ext, ext)) as w:
                w.write(names, D.x)
            with W.create('%s,scp:p.%s,p.scp' % (ext, ext)) as w:
                w.write(names, D.p)
        c, e = self.cls(), self.n_job
        self.n_job += 1
        guard(m.save, 'm%d.h5' % e)
        m = guard(c.load, 'm%d.h5' % e)

        def body():
            q = c.load('m%d.h5' % e)
            with R.create('scp:x.scp') as r:
                x = np.asarray(r.read(0, squeeze=True)[1], dtype=float)
            kw = {}
            with R.create('scp:p.scp') as r:
                t = np.asarray(r.read(0, squeeze=True)[1], dtype=float)
            if D.soft:
                kw['ptheta'] = t
            else:
                kw['class_ids'] = np.argmax(t, axis=1)
            if D.w is not None:
                kw['sample_weight'] = D.w
            q.fit(x, epochs=a['epochs'], ml_md=a['how'], md_epochs=a['md_epochs'], **kw)
            q.save('n%d.h5' % e)
        ref, twin, D2 = self.twins(m)
        before = ref.evidence(D)
        self.train(ref, twin, D2, a)
        self.cl.run([('fit%d' % e, body)])
        m = guard(c.load, 'n%d.h5' % e)
        cond = max([np.linalg.cond(ref.noise()), np.linalg.cond(ref.B)])
        if cond > 300:
            raise Singular()
        self.same(m, ref, twin, 'after session %d' % e)
        if not self.flat(m):
            self.lost += 1e-6 * cond * len(D.x)
            self.grows(before, m, ref)
        return m


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    if not plan['sizes'] or not plan['acts']:
        return None
    r = Run(plan, ctx)
    r.play()
    ctx.ev('plda', plan['kind'])
    ctx.state(plan['kind'], plan['world'], plan['init'], plan['labels'], plan['weights'], plan['diag'],
              plan['dim'], plan['y'], plan['z'], tuple(plan['update']), tuple(r.hist),
              tuple(plan['sizes']), tuple((n, o.kind) for n, k, o in r.cl.history) if r.cl else ())
    if r.cl:
        return [[n, o.n_mut, o.n_read, o.nbytes] for n, k, o in r.cl.history if k == 0]
    return None


def shrink(plan):
    for k, v in (('weights', False), ('labels', 'hard'), ('init', 'given'), ('diag', False),
                 ('floor', 1e-5), ('update', [True] * 4)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k in ('y', 'z', 'dim'):
        if plan[k] > 1:
            q = dict(plan, **{k: plan[k] - 1})
            q['y'] = min(q['y'], q['dim'])
            yield q
    for i, a in enumerate(plan['acts']):
        for k, v in (('epochs', 1), ('md_epochs', None), ('val', False), ('how', 'ml+md')):
            if a.get(k, v) != v:
                q = copy.deepcopy(plan)
                q['acts'][i][k] = v
                yield q
    for i, n in enumerate(plan['sizes']):
        if n > 2:
            q = copy.deepcopy(plan)
            q['sizes'][i] = 2
            yield q
