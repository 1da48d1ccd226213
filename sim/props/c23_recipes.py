"""C23: a recipe of back-end training programs gives the same complete models whichever stage is
killed, fails, is retried, run twice or started with other random state.

Each stage is one of the repository's training programs, run with its command line as a simulated
process over shared files.  What it leaves behind is compared with what the vectors of its list,
taken through exactly the transforms it was given, determine."""
import copy
import hashlib
import os

import numpy as np

from sim import scripts
from sim.core import SimCrash, Violation, check, guard, in_repo
from sim.disk import Disk

RUNS = {'quick': 1100, 'thorough': 20000}
STATE_RULE = 'kinds of the stages, how they are chained, options, which failed and how'
KINDS = ['mvn', 'cw', 'pca', 'gauss', 'lda', 'nda', 'plda', 'gbe', 'svm', 'lr', 'qs', 'cwup',
         'gbeup']
MUST_REACH = ['fault:crash', 'fault:eio-read', 'fault:eio-write', 'fault:enospc', 'retried',
              'fault:stage-run-twice', 'fault:early-start', 'early-refused', 'early-complete',
              'failed-loudly', 'chain:2', 'chain:3', 'prior', 'map-balanced', 'map-plain', 'validation', 'class-numbers',
              'pruned', 'plda:splda', 'plda:frplda', 'plda:plda', 'not-appended', 'bare'] + [
                  'kind:' + k for k in KINDS]
REAL = ['train-mvn, -cw, -pca, -gaussianizer, -lda, -nda, -plda, -linear-gbe, -linear-svmc, '
        '-logistic-regression, -q-scoring-homo-gbe, -cw-up, -linear-gbe-up (as programs, from '
        'their command line)', 'VectorReader, VectorClassReader, TransformList and the models with '
        'their files', 'archive readers', 'scikit-learn, HDF5']
STUB = ['system calls below the buffers', 'single precision eigh of scipy (computed in double: '
        'the installed one is not repeatable)', 'the shell that starts the stages and retries them']
ASSUMPTIONS = ['stages run one at a time; a stage is started before its input is complete only '
               'after its writer died', 'models are compared up to single precision',
               'nothing is asked of data that do not determine the model (condition above 1e3)']
LISTS = ('stages',)
SCRIPT = {'mvn': 'train-mvn', 'cw': 'train-cw', 'pca': 'train-pca', 'gauss': 'train-gaussianizer',
          'lda': 'train-lda', 'nda': 'train-nda', 'plda': 'train-plda', 'gbe': 'train-linear-gbe',
          'svm': 'train-linear-svmc', 'lr': 'train-logistic-regression',
          'qs': 'train-q-scoring-homo-gbe', 'cwup': 'train-cw-up', 'gbeup': 'train-linear-gbe-up'}
TRANSFORMS = ('mvn', 'cw', 'pca', 'gauss', 'lda', 'nda', 'cwup')
CLASSES = ('lda', 'nda', 'plda', 'gbe', 'svm', 'lr', 'qs', 'gbeup')


def setup():
    from hyperion import transforms, classifiers, helpers, pdfs  # noqa: F401


# ---------------------------------------------------------------------------------- the plan
def gen(rng, tier):
    C = rng.randint(3, 5)
    p = {'seed': rng.randint(0, 10 ** 6), 'C': C, 'd': rng.randint(3, 6), 'spread':
         rng.choice([1, 2, 3]), 'counts': [rng.randint(6, 14) for _ in range(C)],
         'sep': rng.choice([' ', ' ', ',']), 'store': rng.choice(['ark', 'h5']), 'stages': []}
    up = rng.random() < 0.25
    p['up'] = up
    done = []                 # (id, dimension of its output, usable as preproc, depth, kind)
    n = rng.randint(1, 3 if tier == 'quick' else 5)
    for i in range(n):
        pre = [s for s in done if s[2]]
        src = rng.choice(pre) if pre and rng.random() < 0.85 else None
        dim = src[1] if src else p['d']
        if up:
            kind = rng.choice(['cwup', 'gbeup'] + ['qs'] * (src is None))
        else:
            kind = rng.choice([k for k in KINDS if k not in ('cwup', 'gbeup', 'qs')] + ['plda'])
        if n > 1 and i == 0 and not up:
            kind = rng.choice(['mvn', 'cw', 'cw', 'pca', 'gauss', 'lda', 'nda'])
        if n > 1 and i == 0 and up and rng.random() < 0.6:
            kind = 'cwup'
        if kind in ('lda', 'pca', 'nda', 'plda') and dim < 2:
            kind = 'mvn'
        adapt = [x for x in done if x[4] in ('gbe', 'gbeup', 'qs')]
        if adapt and rng.random() < 0.5:
            # adaptation of a back-end made before, with the same chain before it
            kind, src = adapt[-1][4], next((x for x in done if x[0] == adapt[-1][5]), None)
            dim = src[1] if src else p['d']
        elif n > 1 and i < n - 1 and rng.random() < 0.15 and not up:
            kind = 'gbe'
        s = {'id': i, 'kind': kind, 'up': src[0] if src else None, 'part': rng.random() < 0.3,
             'faults': [], 'twice': rng.random() < 0.15, 'np': rng.randint(0, 10 ** 6), 'opt': {},
             'early': False, 'keep_name': rng.random() < 0.3 and src is None}
        o = s['opt']
        if kind in CLASSES:
            if rng.random() < 0.2:
                o['min-spc'] = rng.randint(2, 8)
            if rng.random() < 0.3:
                o['max-spc'] = rng.randint(5, 10)
                o['spc-pruning-mode'] = rng.choice(['first', 'last', 'last', 'random'])
                if rng.random() < 0.5:
                    o['vcr-seed'] = rng.randint(0, 99)
        out = dim
        if kind == 'cw' or kind == 'cwup':
            s['no-lnorm'] = rng.random() < 0.5
        elif kind == 'pca':
            if rng.random() < 0.7:
                out = o['pca-dim'] = rng.randint(2, dim)
        elif kind == 'gauss':
            if rng.random() < 0.6:
                o['max-vectors'] = rng.randint(5, 30)
        elif kind == 'lda':
            if rng.random() < 0.8:
                out = o['lda-dim'] = rng.randint(1 if rng.random() < 0.1 else 2,
                                                 max(2, min(dim, C - 1)))
        elif kind == 'nda':
            o['k'] = rng.randint(1, 5)
            if rng.random() < 0.4:
                o['alpha'] = rng.choice([0.5, 1.0, 2.0])
            if rng.random() < 0.7:
                out = o['nda-dim'] = rng.randint(2, dim)
        elif kind == 'plda':
            t = rng.choice(['splda', 'splda', 'frplda', 'plda'])
            if t == 'frplda' and dim > C - 1:
                t = 'splda'
            o['plda-type'] = t
            o['y-dim'] = rng.randint(1, min(dim, C - 1))
            if t == 'plda':
                o['z-dim'] = max(1, rng.randint(1, max(1, dim // 2)))
            o['epochs'] = rng.randint(1, 6)
            o['ml-md'] = rng.choice(['ml+md', 'ml+md', 'ml', 'md'])
            if rng.random() < 0.2:
                o['md-epochs'] = sorted(rng.sample(range(6), rng.randint(1, 3)))
            fl = {'splda': ['diag-W', 'no-update-mu', 'no-update-V', 'no-update-w'],
                  'frplda': ['diag-W', 'no-update-mu', 'no-update-B', 'no-update-w'],
                  'plda': ['no-update-mu', 'no-update-V', 'no-update-U', 'no-update-d']}[t]
            if rng.random() < 0.4:
                s['flag'] = rng.choice(fl)
            s['val'] = rng.random() < 0.3
        elif kind in ('gbe', 'gbeup', 'qs'):
            if rng.random() < 0.5:
                s['flag'] = 'balance-class-weight'
            pr = [x for x in done if x[4] == kind and x[5] == s['up']]
            if pr and rng.random() < 0.75:
                s['prior'] = rng.choice(pr)[0]
                if kind == 'qs':
                    if rng.random() < 0.5:
                        o['prior-n'] = float(rng.randint(1, 20))
                elif rng.random() < 0.5:
                    o['prior-beta'] = float(rng.randint(1, 20))
                    o['prior-nu'] = float(rng.randint(4, 20))
            if kind == 'qs' and rng.random() < 0.3:
                o['post-n'] = float(rng.randint(1, 9))
            if kind != 'qs' and rng.random() < 0.2:
                o['post-beta'] = float(rng.randint(1, 20))
            if kind != 'qs' and rng.random() < 0.2:
                o['post-nu'] = float(rng.randint(4, 20))
        elif kind == 'svm':
            o.update({'c': rng.choice([0.01, 0.1, 1.0]), 'max-iter': 20000})
            if rng.random() < 0.4:
                s['flag'] = rng.choice(['balance-class-weight', 'no-use-bias'])
            if rng.random() < 0.3:
                o['bias-scaling'] = rng.choice([0.5, 10.0])
        elif kind == 'lr':
            o.update({'lambda-reg': rng.choice([1.0, 0.1, 0.01]), 'max-iter': 500})
            o['multi-class'] = rng.choice(['ovr', 'multinomial'])
            if rng.random() < 0.2:
                s['flag'] = 'no-use-bias'
        if kind in ('gbe', 'svm', 'lr', 'lda') and 'min-spc' not in o and rng.random() < 0.25:
            s['numbers'] = rng.sample(range(C), C)
        if kind in ('gbe', 'gbeup', 'qs') and 'min-spc' in o:
            del o['min-spc']
        s['save'] = 'list'
        if kind in TRANSFORMS:
            m = rng.random()
            s['save'] = 'bare' if m < 0.08 else 'alone' if m < 0.16 else 'list'
        usable = kind in TRANSFORMS and (s['save'] == 'list' or (
            s['save'] == 'alone' and dim == p['d']))
        if s['save'] == 'alone':
            depth = 1
        else:
            depth = (src[3] if src else 0) + 1
        done.append((i, out, usable, depth, kind, s['up']))
        p['stages'].append(s)
    p['io'] = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
               'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    return p


def inject(plan, extra, rng, tier):
    if not extra:
        return
    for v in range(3 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        hit = 0
        for i, s in enumerate(q['stages']):
            if str(s['id']) in extra and (rng.random() < 0.5 or (i == len(q['stages']) - 1 and
                                                                 not hit)):
                hit += 1
                mut, rd, nb = extra[str(s['id'])]
                k = rng.choice(['crash', 'crash', 'crash', 'eio_read', 'eio_write', 'enospc'])
                s['faults'] = [{'crash': {'kind': k, 'n': rng.randint(1, max(1, mut)),
                                          'keep': rng.choice([0, 0.5, 1])},
                                'eio_read': {'kind': k, 'n': rng.randint(1, max(1, rd)),
                                             'times': rng.choice([1, 10 ** 6])},
                                'eio_write': {'kind': k, 'n': rng.randint(1, max(1, mut))},
                                'enospc': {'kind': k, 'after': rng.randint(0, max(0, nb - 1))}}[k]]
                s['early'] = rng.random() < 0.6
        yield q


# ---------------------------------------------------------------------------------- reference
class Degenerate(Exception):
    pass


def cond(C):
    C = np.atleast_2d(C)
    w = np.linalg.eigvalsh((C + C.T) / 2)
    if w[0] <= 0 or w[-1] / w[0] > 1e3:
        raise Degenerate()


def apply(t, x):
    """One transform, from its parameters (independent of its predict)."""
    n = type(t).__name__
    if n == 'MVN':
        return (x - t.mu) / t.s
    if n in ('PCA', 'LDA', 'NDA', 'CentWhiten'):
        return (x - t.mu) @ t.T
    if n == 'LNorm':
        y = (x - t.mu) @ t.T
        return np.sqrt(y.shape[1]) * y / np.sqrt((y ** 2).sum(1))[:, None]
    if n == 'Gaussianizer':
        from scipy.stats import norm
        k = t.r.shape[0]
        out = np.zeros_like(x)
        for j in range(x.shape[1]):
            near = np.abs(t.r[1:, j][None] - x[:, j][:, None])
            if np.any((near > 0) & (near < 1e-4 * (np.abs(t.r).max() + 1e-3))):
                raise Degenerate()       # on which side of it is a matter of rounding
            below = (t.r[1:, j][None] < x[:, j][:, None]).sum(1)
            out[:, j] = norm.ppf((below + 1.0) / (k + 1))
        return out
    if n in ('CentWhitenUP', 'LNormUP'):
        d = x.shape[1] // 2
        y = (x[:, :d] - t.mu) @ t.T
        s = x[:, d:] @ (t.T ** 2)
        if n == 'LNormUP':
            q = (y ** 2).sum(1, keepdims=True) + 1e-10
            y, s = y / np.sqrt(q), s / q
        return np.hstack([y, s])
    raise KeyError(n)


def close(a, b, what, tol=1e-4):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, 'wrong-model', lambda: '%s has shape %s, should have %s' % (
        what, a.shape, b.shape))
    check(np.all(np.isfinite(a)), 'wrong-model', lambda: '%s is not finite' % what)
    scale = max(1e-3, float(np.abs(b).max()) if b.size else 0)
    check(np.all(np.abs(a - b) <= tol * scale), 'wrong-model', lambda: '%s is %s, its vectors give '
          '%s' % (what, np.round(a, 5).tolist(), np.round(b, 5).tolist()))


def sbsw(x, c):
    u = np.unique(c)
    mus = np.array([x[c == i].mean(0) for i in u])
    Sw = np.mean([np.cov(x[c == i].T, bias=True).reshape(x.shape[1], -1) for i in u], axis=0)
    mu = mus.mean(0)
    Sb = (mus.T @ mus) / len(u) - np.outer(mu, mu)
    return mu, Sb, Sw


def nsbsw(x, c, K, alpha):
    u = np.unique(c)
    d = np.zeros((len(u), len(x)))
    dl = np.zeros((len(u),) + x.shape)
    for k, i in enumerate(u):
        xi = x[c == i]
        for l in range(len(x)):
            q = np.sqrt(((xi - x[l]) ** 2).sum(1))
            o = np.argsort(q, kind='stable')
            if len(q) > K and q[o[K]] - q[o[K - 1]] < 1e-5 * (1e-3 + q[o[K]]):
                raise Degenerate()               # which vectors are nearest is not determined
            o = o[:K]
            d[k, l] = q[o[-1]]
            dl[k, l] = x[l] - xi[o].mean(0)
    d = d ** alpha
    Sb, Sw = np.zeros((x.shape[1],) * 2), np.zeros((x.shape[1],) * 2)
    for k, i in enumerate(u):
        idx = np.nonzero(c == i)[0]
        S, W = np.zeros_like(Sb), 0
        for l in idx:
            Sw += np.outer(dl[k, l], dl[k, l]) / len(idx)
            for m in range(len(u)):
                if m != k:
                    w = min(d[k, l], d[m, l]) / (d[k, l] + d[m, l])
                    S += w * np.outer(dl[m, l], dl[m, l])
                    W += w
        Sb += S / W
    mu = np.mean([x[c == i].mean(0) for i in u], axis=0)
    return mu, Sb / len(u), Sw / len(u)


def discriminant(m, mu, Sb, Sw, k, what):
    import scipy.linalg as la
    cond(Sw)
    w = la.eigh(Sb, Sw, eigvals_only=True)[::-1]
    k = k or len(w)
    close(m.mu, mu, what + ' mean')
    check(m.T.shape == (len(mu), k), 'wrong-model', lambda: '%s keeps %s directions' % (
        what, m.T.shape))
    close(m.T.T @ Sw @ m.T, np.eye(k), what + ' within-class covariance', 2e-3)
    D = m.T.T @ Sb @ m.T
    s = max(1e-3, abs(w[0]))
    close(D / s, np.diag(w[:k]) / s, what + ' between-class covariance', 3e-3)


def marginal(m, x, c):
    """Log-likelihood of labelled vectors under a PLDA model, from its definition."""
    n = type(m).__name__
    if n == 'FRPLDA':
        B, W = np.linalg.inv(m.B), np.linalg.inv(m.W)
    elif n == 'SPLDA':
        B, W = m.V.T @ m.V, np.linalg.inv(m.W)
    else:
        B, W = m.V.T @ m.V, m.U.T @ m.U + np.diag(1 / m.D)
    t, d = 0., x.shape[1]
    for k in np.unique(c):
        z = x[c == k] - m.mu
        q = len(z)
        S = np.kron(np.ones((q, q)), B) + np.kron(np.eye(q), W)
        v = z.ravel()
        t += -0.5 * (q * d * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + v @ np.linalg.solve(S, v))
    return t


# ---------------------------------------------------------------------------------- one recipe
class Recipe(object):
    def __init__(self, plan, ctx):
        self.p, self.ctx = plan, ctx
        self.info = {}
        self.by = {s['id']: s for s in plan['stages']}
        self.cwd = os.getcwd()

    # ---- input
    def prepare(self):
        from hyperion.io import DataWriterFactory
        p = self.p
        r = self.r = np.random.RandomState(p['seed'])
        C, d = p['C'], p['d']
        names = ['c%d' % i for i in r.permutation(20)[:C]]
        mus = r.randn(C, d) * p['spread']
        A = np.eye(d) + 0.3 * r.randn(d, d)
        self.vec, self.cls = {}, {}
        for k in range(C):
            for i in range(p['counts'][k]):
                u = 'u%d_%d' % (r.randint(100, 999), len(self.vec))
                v = mus[k] + r.randn(d) @ A
                if p['up']:
                    sc = 0.05 + 0.9 * r.rand() if r.rand() < 0.5 else 0.2
                    v = np.concatenate([v, sc * (0.2 + 0.7 * r.rand(d))])
                self.vec[u] = v.astype('float32')
                self.cls[u] = names[k]
        keys = list(self.vec)
        self.lists = {}
        for nm in ('all', 'part', 'val'):
            o = [keys[i] for i in r.permutation(len(keys))]
            if nm != 'all':
                keep = []
                for n in names:
                    us = [u for u in o if self.cls[u] == n]
                    keep += us[:max(5, int(0.7 * len(us)))]
                o = [u for u in o if u in set(keep)]
            self.lists[nm] = o
        order = [keys[i] for i in r.permutation(len(keys))]
        self.names = sorted(names)
        with Disk(self.ctx, self.ctx.root, p['io']):
            ext = p['store']
            with DataWriterFactory.create('%s,scp:v.%s,v.scp' % (ext, ext)) as w:
                for u in order:
                    w.write(u, self.vec[u])
            self.v = 'scp:v.scp' if ext == 'ark' else 'h5:v.h5'
            for nm, us in self.lists.items():
                with open(nm, 'w') as f:
                    for u in us:
                        f.write('%s%s%s\n' % (u, p['sep'], self.cls[u]))
            for s in p['stages']:
                if 'numbers' in s:
                    with open('numbers%d' % s['id'], 'w') as f:
                        for n, i in zip(self.names, s['numbers']):
                            f.write('%s %d\n' % (n, i))

    def out(self, i):
        return 'm%d.h5' % i

    def name(self, s):
        return {'plda': 'plda'}.get(s['kind'], s['kind']) + str(s['id'])

    def argv(self, s, out):
        a = ['--iv-file', self.v, '--train-list', 'part' if s['part'] else 'all', '--output-path', out]
        if s['up'] is not None:
            a += ['--preproc-file', self.out(s['up'])]
        if not s['keep_name']:
            a += ['--name', self.name(s)]
        if self.p['sep'] != ' ':
            a += ['--vlist-sep', self.p['sep']]
        for k, v in sorted(s['opt'].items()):
            a += ['--' + k] + (list(map(str, v)) if isinstance(v, list) else [str(v)])
        if s.get('flag'):
            a += ['--' + s['flag']]
        if s.get('no-lnorm'):
            a += ['--no-lnorm']
        if s.get('val'):
            a += ['--val-list', 'val']
        if 'numbers' in s:
            a += ['--class2int-file', 'numbers%d' % s['id']]
        if s.get('prior') is not None:
            a += ['--prior', self.out(s['prior'])]
        if s['save'] == 'bare':
            a += ['--no-save-tlist']
        elif s['save'] == 'alone':
            a += ['--no-append-tlist']
        return a

    # ---- processes
    def process(self, s, out, faults, seed):
        d = Disk(self.ctx, self.ctx.root, self.p['io'], faults)
        np.random.seed(seed)
        err = None
        try:
            with d:
                try:
                    scripts.main(SCRIPT[s['kind']] + '.py', self.argv(s, out))
                except SystemExit as e:
                    if e.code not in (None, 0):
                        raise RuntimeError('the program refuses its options: %s' % self.argv(s, out))
                if d.crashed:
                    raise SimCrash()
            st = 'ok'
        except SimCrash:
            st = 'killed'
        except Violation:
            raise
        except Exception as e:
            st, err = 'failed', e
        self.ctx.ev('process', s['kind'], st)
        return st, d, err

    def files(self):
        f = {}
        for n in sorted(os.listdir('.')):
            if os.path.isfile(n):
                f[n] = hashlib.md5(open(n, 'rb').read()).hexdigest()
        return f

    def usable(self, s):
        """Whether everything the stage takes is there (the shrinker drops stages)."""
        return all(i is None or i in self.done for i in (s['up'], s.get('prior')))

    # ---- what a stage should leave
    def data(self, s, lst=None):
        """Vectors and class numbers of the stage's list after its chain of transforms."""
        from hyperion.transforms import TransformList
        us = self.lists[lst or ('part' if s['part'] else 'all')]
        o = s['opt']
        if s['kind'] in CLASSES:
            n = lambda us, k: sum(self.cls[u] == k for u in us)
            if 'min-spc' in o:
                us = [u for u in us if n(us, self.cls[u]) >= o['min-spc']]
            if 'max-spc' in o:
                mx, mode = o['max-spc'], o['spc-pruning-mode']
                if mode == 'random':
                    from hyperion.helpers import VectorClassReader as V
                    from hyperion.utils import Utt2Info
                    u2c = guard(V._filter_by_spc, Utt2Info.create(us, [self.cls[u] for u in us]), 1,
                                mx, 'random', np.random.RandomState(o.get('vcr-seed', 1024)))
                    us = [str(u) for u in u2c.key]
                else:
                    keep = []
                    for k in self.names:
                        q = [u for u in us if self.cls[u] == k]
                        keep += q[:mx] if mode == 'last' else q[max(0, len(q) - mx):]
                    us = [u for u in us if u in set(keep)]
        x = np.array([self.vec[u] for u in us], dtype='float64')
        if len(us) < 4:
            raise Degenerate()
        have = sorted({self.cls[u] for u in us})
        num = {k: i for i, k in enumerate(have)}
        if 'numbers' in s:
            num = dict(zip(self.names, s['numbers']))
        c = np.array([num[self.cls[u]] for u in us])
        if s['kind'] in CLASSES and (len(have) < 3 or min(np.bincount(c)) < 3):
            raise Degenerate()
        if s['up'] is not None:
            for t in self.chain[s['up']]:
                x = apply(t, x)
        return x, c

    def load(self, s, out):
        """The chain of a finished transform stage, or its model."""
        from hyperion import transforms as T
        from hyperion import classifiers as K
        from hyperion.classifiers.linear_svmc import LinearSVMC
        from hyperion.classifiers.linear_gbe_up import LinearGBEUP
        from hyperion.classifiers.q_scoring_homo_gbe import QScoringHomoGBE
        from hyperion.classifiers.logistic_regression import LogisticRegression
        from hyperion.classifiers.linear_gbe import LinearGBE
        from hyperion.helpers import PLDAFactory
        k = s['kind']
        if k in TRANSFORMS:
            if s['save'] != 'bare':
                return list(T.TransformList.load(out).transforms)
            cl = {'mvn': T.MVN, 'pca': T.PCA, 'gauss': T.Gaussianizer, 'lda': T.LDA, 'nda': T.NDA,
                  'cw': T.CentWhiten if s.get('no-lnorm') else T.LNorm,
                  'cwup': T.CentWhitenUP if s.get('no-lnorm') else T.LNormUP}[k]
            return [cl.load(out)]
        if k == 'plda':
            return PLDAFactory.load_plda(s['opt']['plda-type'], out)
        return {'gbe': LinearGBE, 'gbeup': LinearGBEUP, 'svm': LinearSVMC, 'lr': LogisticRegression,
                'qs': QScoringHomoGBE}[k].load(out)

    def verify(self, s, out):
        """A stage that says it succeeded left the model its data determine."""
        k = s['kind']
        m = guard(self.load, s, out)
        what = '%s %s' % (SCRIPT[k], self.argv(s, out)[6:])
        if k in TRANSFORMS:
            up = self.chain[s['up']] if s['up'] is not None and s['save'] == 'list' else []
            names = [type(t).__name__ for t in m]
            mine = {'mvn': 'MVN', 'pca': 'PCA', 'gauss': 'Gaussianizer', 'lda': 'LDA', 'nda': 'NDA',
                    'cw': 'CentWhiten' if s.get('no-lnorm') else 'LNorm',
                    'cwup': 'CentWhitenUP' if s.get('no-lnorm') else 'LNormUP'}[k]
            want = [type(t).__name__ for t in up] + [mine]
            check(names == want, 'wrong-chain', lambda: '%s leaves the chain %s, should be %s' % (
                what, names, want))
            for a, b in zip(m, up):
                for q in ('mu', 'T', 's', 'r'):
                    if hasattr(b, q):
                        check(np.array_equal(getattr(a, q), getattr(b, q)), 'wrong-chain', lambda:
                              '%s changes the transform %s it was given' % (what, type(b).__name__))
            t = m[-1]
        x, c = self.data(s)
        o = s['opt']
        if k == 'mvn':
            close(t.mu, x.mean(0), what + ' mean')
            close(t.s, x.std(0), what + ' deviation')
        elif k in ('cw', 'cwup'):
            if k == 'cwup':
                x = x[:, :x.shape[1] // 2]
            S = np.atleast_2d(np.cov(x.T, bias=True))
            cond(S)
            close(t.mu, x.mean(0), what + ' mean')
            close(t.T.T @ S @ t.T, np.eye(x.shape[1]), what + ' whitened covariance', 2e-3)
        elif k == 'pca':
            S = np.atleast_2d(np.cov(x.T, bias=True))
            w = np.linalg.eigvalsh(S)[::-1]
            q = o.get('pca-dim', len(w))
            close(t.mu, x.mean(0), what + ' mean')
            close(t.T.T @ t.T, np.eye(q), what + ' directions', 1e-4)
            close(t.T.T @ S @ t.T, np.diag(w[:q]), what + ' variances', 1e-3)
        elif k == 'gauss':
            r = np.sort(x, axis=0)
            n = o.get('max-vectors')
            if n is not None and len(r) > n:
                r = r[np.round(np.linspace(0, len(r) - 1, n)).astype(int)]
            close(t.r[1:], r, what + ' background')
        elif k == 'lda':
            mu, Sb, Sw = sbsw(x, c)
            discriminant(t, mu, Sb, Sw, o.get('lda-dim'), what)
        elif k == 'nda':
            mu, Sb, Sw = nsbsw(x, c, o['k'], o.get('alpha', 1))
            discriminant(t, mu, Sb, Sw, o.get('nda-dim'), what)
        elif k == 'plda':
            self.verify_plda(s, m, x, c, out, what)
        elif k in ('gbe', 'gbeup'):
            self.verify_gbe(s, m, x, c, what)
        elif k == 'qs':
            self.verify_qs(s, m, x, c, what)
        elif k == 'svm':
            self.verify_svm(s, m, x, c, what)
        elif k == 'lr':
            self.verify_lr(s, m, x, c, what)
        return m

    def plda_args(self, s):
        o = s['opt']
        a = {'plda_type': o['plda-type'], 'y_dim': o['y-dim'], 'z_dim': o.get('z-dim', 400),
             'name': 'x'}
        fl = s.get('flag')
        if fl == 'diag-W':
            a['fullcov_W'] = False
        elif fl:
            a['update_' + {'w': 'W', 'd': 'D'}.get(fl[10:], fl[10:])] = False
        return a

    def verify_plda(self, s, m, x, c, out, what):
        from hyperion.helpers import PLDAFactory as F
        o = s['opt']
        mu, Sb, Sw = sbsw(x, c)
        cond(Sw)
        n = o['epochs']
        csv = np.loadtxt(os.path.splitext(out)[0] + '.csv', delimiter=',', ndmin=2)
        check(csv.shape == (n, 5 if s.get('val') else 3), 'wrong-log', lambda: '%s logs %s' % (
            what, csv.shape))
        check(list(csv[:, 0]) == list(range(n)), 'wrong-log', lambda: '%s numbers its epochs %s' % (
            what, csv[:, 0]))
        e = csv[:, 1]
        tol = 1e-6 * (1 + np.abs(e).max())
        if not np.all(np.isfinite(e)) or np.abs(e).max() > 1e6:
            raise Degenerate()
        close(csv[:, 2] * len(x), e, what + ' objective per vector', 1e-6)
        xv, cv = self.data(s, 'val') if s.get('val') else (None, None)
        fits = []
        for q in sorted({0 if n < 2 else self.p['seed'] % n, n}):
            if q == 0:
                continue
            a = self.plda_args(s)
            f = F.create_plda(a.pop('plda_type'), **{k: v for k, v in a.items()
                                                    if not (k == 'z_dim' and o['plda-type'] != 'plda')
                                                    and not (k == 'y_dim' and
                                                             o['plda-type'] == 'frplda')})
            guard(f.fit, x, c, epochs=q, ml_md=o['ml-md'], md_epochs=o.get('md-epochs'))
            fits.append(f)
            if q < n:
                check(abs(marginal(f, x, c) - e[q]) <= 10 * tol, 'wrong-log', lambda: '%s logs the '
                      'objective %r for epoch %d, the likelihood of its vectors is %r' % (
                          what, e[q], q, marginal(f, x, c)))
                if s.get('val'):
                    check(abs(marginal(f, xv, cv) - csv[q, 3]) <= 10 * tol, 'wrong-log', lambda:
                          '%s logs the validation objective %r for epoch %d, the likelihood of its '
                          'vectors is %r' % (what, csv[q, 3], q, marginal(f, xv, cv)))
        if s.get('flag') is None or s['flag'] != 'diag-W':
            check(np.all(np.diff(e) >= -tol), 'worse', lambda: '%s: the objective drops: %s' % (
                what, e.tolist()))
        f = fits[-1]
        for q in ('mu', 'V', 'U', 'D', 'W', 'B'):
            if getattr(f, q, None) is not None and hasattr(m, q):
                a, b = getattr(m, q), getattr(f, q)
                if q in 'VU':
                    a, b = np.dot(a.T, a), np.dot(b.T, b)    # the sign of a direction is free
                close(a, b, '%s parameter %s' % (what, q), 1e-3)
        for g in fits[:-1]:
            fl = s.get('flag', '') or ''
            if fl.startswith('no-update-'):
                q = {'w': 'W', 'd': 'D'}.get(fl[10:], fl[10:])
                if o['ml-md'] == 'ml':
                    a, b = getattr(m, q), getattr(g, q)
                    if q in 'VU':
                        a, b = np.dot(a.T, a), np.dot(b.T, b)
                    close(a, b, '%s fixed parameter %s' % (what, q), 1e-5)
        lf = marginal(m, x, c)
        if s.get('flag') != 'diag-W':
            check(lf >= e[-1] - 1e-3 * (1 + abs(e[-1])), 'worse', lambda: '%s: the model it saves '
                  'has likelihood %r, the last epoch started from %r' % (what, lf, e[-1]))

    def verify_gbe(self, s, m, x, c, what):
        d = x.shape[1]
        bal = s.get('flag') == 'balance-class-weight'
        if s['kind'] == 'gbeup':
            d //= 2
            xs, x = x[:, d:], x[:, :d]
        K = c.max() + 1
        N = np.bincount(c).astype(float)
        xb = np.array([x[c == k].mean(0) for k in range(K)])
        S = [(x[c == k] - xb[k]).T @ (x[c == k] - xb[k]) for k in range(K)]
        mu, rb, rn = xb, N, N.sum()
        if s.get('prior') is not None:
            pr = self.chain[s['prior']]
            if pr.mu.shape != (K, d):
                raise Degenerate()
            beta = np.full(K, s['opt'].get('prior-beta', 16.))
            nu = K * s['opt'].get('prior-nu', 16.)
            S0 = np.linalg.inv(pr.W)
            rb, rn = N + beta, N.sum() + nu
            al = (N / (N + beta))[:, None]
            mu = (1 - al) * pr.mu + al * xb
            for k in range(K):
                g = xb[k] - pr.mu[k]
                S[k] = S[k] + N[k] * beta[k] / (N[k] + beta[k]) * np.outer(g, g)
            if bal:
                W = sum((S[k] + nu / K * S0) / (N[k] + nu / K) for k in range(K)) / K
            else:
                W = (nu * S0 + sum(S)) / (nu + N.sum())
        else:
            W = sum(S[k] / N[k] for k in range(K)) / K if bal else sum(S) / N.sum()
        if s['kind'] == 'gbeup':
            v = xs.mean(0)
            f = np.sqrt(v) * 1.1
            w, U = np.linalg.eigh(W / np.outer(f, f))
            W = (U * np.maximum(w, 1)) @ U.T * np.outer(f, f) - np.diag(v)
        cond(W)
        if 'post-beta' in s['opt']:
            rb = np.full(K, s['opt']['post-beta'])
        if 'post-nu' in s['opt']:
            rn = K * s['opt']['post-nu']
        close(m.mu, mu, what + ' means')
        close(np.linalg.inv(m.W), W, what + ' covariance', 2e-3)
        close(m.beta, rb, what + ' relevance of the means', 1e-5)
        close(m.nu, rn, what + ' relevance of the covariance', 1e-5)

    def verify_qs(self, s, m, x, c, what):
        d = x.shape[1] // 2
        K = c.max() + 1
        p, mx = 1 / x[:, d:], x[:, :d]
        N = np.bincount(c).astype(float)
        eta = np.array([(p * mx)[c == k].sum(0) for k in range(K)])
        prec = np.array([1 + (p - 1)[c == k].sum(0) for k in range(K)])
        W = 1 + (p - 1).sum(0) / K
        if s.get('prior') is not None:
            pr = self.chain[s['prior']]
            if pr.mu.shape != (K, d):
                raise Degenerate()
            pW, pN = pr.W, pr.N
            if 'prior-n' in s['opt']:
                pW = 1 + s['opt']['prior-n'] / pN.mean() * (pW - 1)
                pN = np.full(K, s['opt']['prior-n'])
            eta, prec, N = eta + pW * pr.mu, prec + pW - 1, N + pN
            if s.get('flag') == 'balance-class-weight':
                W = W + pW - 1
        mu = eta / prec
        if 'post-n' in s['opt']:
            W = 1 + s['opt']['post-n'] / N.mean() * (W - 1)
            N = np.full(K, s['opt']['post-n'])
        close(m.mu, mu, what + ' means', 1e-3)
        close(m.W, W, what + ' precision', 1e-3)
        close(m.N, N, what + ' counts', 1e-4)

    def verify_svm(self, s, m, x, c, what):
        from sklearn.svm import LinearSVC
        o = s['opt']
        K = c.max() + 1
        N = np.bincount(c)
        w = np.ones(len(c))
        if s.get('flag') == 'balance-class-weight':
            w = (len(c) / (K * N.astype(float)))[c]
        bias, bs = s.get('flag') != 'no-use-bias', o.get('bias-scaling', 1.0)
        ref = LinearSVC(C=o['c'], tol=1e-7, max_iter=200000, fit_intercept=bias, intercept_scaling=bs,
                        class_weight='balanced' if s.get('flag') == 'balance-class-weight' else None,
                        random_state=0).fit(x, c)

        def obj(A, b, k):
            y = np.where(c == k, 1, -1)
            return 0.5 * (A @ A + (b / bs) ** 2) + o['c'] * (w * np.maximum(
                0, 1 - y * (x @ A + b)) ** 2).sum()

        check(m.A.shape == (x.shape[1], K), 'wrong-model', lambda: '%s: shape %s' % (what, m.A.shape))
        b = np.zeros(K) + np.asarray(m.b)
        br = np.zeros(K) + ref.intercept_
        check(bias or not np.any(b), 'wrong-model', lambda: '%s has a bias' % what)
        for k in range(K):
            a, r = obj(m.A[:, k], b[k], k), obj(ref.coef_[k], br[k], k)
            check(a <= r * 1.01 + 1e-5, 'wrong-model', lambda: '%s: the objective of class %d is %r, '
                  'its vectors allow %r' % (what, k, a, r))

    def verify_lr(self, s, m, x, c, what):
        from scipy.optimize import minimize
        o = s['opt']
        K = c.max() + 1
        N = np.bincount(c)
        w = (1. / K / N)[c]
        Ci = 1 / o['lambda-reg']
        bias = s.get('flag') != 'no-use-bias'
        pr = 1. / K
        check(m.A.shape == (x.shape[1], K), 'wrong-model', lambda: '%s: shape %s' % (what, m.A.shape))
        b = np.zeros(K) + np.asarray(m.b)
        d = x.shape[1]
        if o['multi-class'] == 'multinomial':
            b = b + np.log(pr)

            def obj(th):
                A, q = th[:d * K].reshape(d, K), th[d * K:]
                z = x @ A + (q if bias else 0)
                z = z - z.max(1, keepdims=True)
                l = z[np.arange(len(c)), c] - np.log(np.exp(z).sum(1))
                P = np.exp(z) / np.exp(z).sum(1, keepdims=True)
                P[np.arange(len(c)), c] -= 1
                P = P * (w * Ci)[:, None]
                g = np.concatenate([(A + x.T @ P).ravel(), P.sum(0) * bias])
                return 0.5 * (A ** 2).sum() - Ci * (w * l).sum(), g

            f = minimize(obj, np.zeros(d * K + K), jac=True, method='L-BFGS-B',
                         options={'maxiter': 5000, 'ftol': 1e-13, 'gtol': 1e-9}).fun
            a = obj(np.concatenate([m.A.ravel(), b * bias]))[0]
            pairs = [(a, f)]
        else:
            b = b + np.log(pr / (1 - pr))
            pairs = []
            for k in range(K):
                y = np.where(c == k, 1., -1.)

                def obj(th):
                    z = y * (x @ th[:d] + (th[d] if bias else 0))
                    sg = -y * w * Ci / (1 + np.exp(np.minimum(z, 500)))
                    return (0.5 * th[:d] @ th[:d] + Ci * (w * np.logaddexp(0, -z)).sum(),
                            np.concatenate([th[:d] + x.T @ sg, [sg.sum() * bias]]))

                f = minimize(obj, np.zeros(d + 1), jac=True, method='L-BFGS-B',
                             options={'maxiter': 5000, 'ftol': 1e-13, 'gtol': 1e-9}).fun
                pairs.append((obj(np.concatenate([m.A[:, k], [b[k] * bias]]))[0], f))
        for a, f in pairs:
            check(a <= f * (1 + 3e-3) + 1e-4, 'wrong-model', lambda: '%s: its objective is %r, its '
                  'vectors allow %r' % (what, a, f))
        if not bias:
            check(np.abs(b).max() < 1e-5, 'wrong-model', lambda: '%s has the bias %s' % (what, b))

    # ---- the run
    def determined(self, s):
        """Whether the data of the stage determine a model at all."""
        try:
            x, c = self.data(s)
            k, o = s['kind'], s['opt']
            if s.get('val'):
                self.data(s, 'val')
            if k in ('lda', 'plda'):
                mu, Sb, Sw = sbsw(x, c)
                cond(Sw)
                if o.get('plda-type') == 'frplda':
                    cond(Sb)
                if o.get('y-dim', 0) > len(np.unique(c)) - 1:
                    raise Degenerate()
            elif k == 'nda':
                if min(np.bincount(c)) < o['k'] + 1:
                    raise Degenerate()
                cond(nsbsw(x, c, o['k'], o.get('alpha', 1))[2])
            elif k in ('cw', 'cwup'):
                y = x if k == 'cw' else x[:, :x.shape[1] // 2]
                cond(np.cov(y.T, bias=True))
                if len(y) <= y.shape[1] + 1:
                    raise Degenerate()
            elif k == 'gbe':
                cond(sbsw(x, c)[2])
            elif k == 'gbeup':
                cond(sbsw(x[:, :x.shape[1] // 2], c)[2])
            if s.get('prior') is not None:
                d = x.shape[1] // (2 if k in ('qs', 'gbeup') else 1)
                if self.chain[s['prior']].mu.shape != (c.max() + 1, d):
                    raise Degenerate()
            if 'numbers' in s and len(np.unique(c)) < c.max() + 1:
                raise Degenerate()
            return True
        except Degenerate:
            return False

    def same(self, a, b):
        """Same model (loaded), to the bit."""
        if isinstance(a, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        for q in ('mu', 'T', 's', 'r', 'V', 'U', 'D', 'W', 'B', 'A', 'b', 'N', 'beta', 'nu'):
            x, y = getattr(a, q, None), getattr(b, q, None)
            if (x is None) != (y is None):
                return False
            if x is not None and not np.array_equal(np.asarray(x), np.asarray(y)):
                return False
        return type(a) is type(b)

    def run(self):
        p, ctx = self.p, self.ctx
        self.prepare()
        self.done, self.chain, tags = set(), {}, []
        for s in p['stages']:
            if not self.usable(s):
                continue
            ok = self.stage(s)
            tags.append([s['kind'], s['up'], sorted(s['opt']), s.get('flag'), ok,
                         s['faults'][0]['kind'] if s['faults'] else None])
        ctx.state(tags)
        return self.info

    def stage(self, s):
        p, ctx = self.p, self.ctx
        out = self.out(s['id'])
        if not self.determined(s):
            return 'undetermined'
        own = {out, os.path.splitext(out)[0] + '.csv'} if s['kind'] == 'plda' else {out}
        before = self.files()
        st, d, err = self.process(s, out, s['faults'], s['np'])
        self.info[str(s['id'])] = (d.n_mut, d.n_read, d.bytes_written)
        self.unchanged(before, own, s)
        if st == 'failed':
            if not (s['faults'] and (d.failed or d.crashed)):
                if in_repo(err):
                    guard(_raise, err)
                raise Violation('refused', '%s: %r' % (self.argv(s, out), err))
            ctx.probe('failed-loudly')
        if st != 'ok':
            if s['early']:
                self.early(s)
            ctx.probe('retried')
            st, d, err = self.process(s, out, [], s['np'] + 1)
            self.unchanged(before, own, s)
            if st == 'failed':
                if in_repo(err):
                    guard(_raise, err)
                raise Violation('retry-failed', '%s: %r' % (self.argv(s, out), err))
        try:
            m = self.verify(s, out)
        except Degenerate:
            return 'undetermined'
        if s['twice']:
            ctx.fault('stage-run-twice')
            st, d, err = self.process(s, out, [], s['np'] + 7)
            check(st == 'ok', 'retry-failed', lambda: 'second run of %s: %r' % (self.argv(s, out), err))
            m2 = guard(self.load, s, out)
            check(self.same(m, m2), 'not-repeatable', lambda: '%s leaves another model when it is '
                  'run again' % self.argv(s, out))
        self.done.add(s['id'])
        self.chain[s['id']] = m
        self.probe(s)
        return 'ok'

    def probe(self, s):
        ctx = self.ctx
        ctx.probe('kind:' + s['kind'])
        if s['kind'] == 'plda':
            ctx.probe('plda:' + s['opt']['plda-type'])
        n, i = 1, s['up']
        while i is not None:
            n, i = n + 1, self.by[i]['up']
        if n > 1:
            ctx.probe('chain:%d' % n)
        bal = s.get('flag') == 'balance-class-weight'
        for k, v in (('prior', s.get('prior') is not None), ('validation', s.get('val')),
                     ('map-balanced', s.get('prior') is not None and bal),
                     ('map-plain', s.get('prior') is not None and not bal),
                     ('class-numbers', 'numbers' in s), ('pruned', 'max-spc' in s['opt']),
                     ('not-appended', s['save'] == 'alone'), ('bare', s['save'] == 'bare')):
            if v:
                ctx.probe(k)

    def unchanged(self, before, own, s):
        after = self.files()
        # a temporary file that a killed process leaves behind is no change to what was there
        bad = [n for n in before if n not in own and before[n] != after.get(n)]
        check(not bad, 'other-file-changed', lambda: '%s changes %s' % (self.argv(s, self.out(s['id'])),
                                                                      sorted(bad)))

    def early(self, s):
        """A later stage is started on what a dead stage left behind: it must refuse it, or find it
        complete."""
        ctx = self.ctx
        for t in self.p['stages']:
            if s['id'] not in (t['up'], t.get('prior')):
                continue
            if not all(i in self.done or i == s['id'] or i is None
                       for i in (t['up'], t.get('prior'))):
                continue
            ctx.fault('early-start')
            st, d, err = self.process(t, 'early.h5', [], t['np'] + 3)
            if st == 'failed':
                ctx.probe('early-refused')
            else:
                # what it read must have been the complete model
                try:
                    m = self.verify(s, self.out(s['id']))
                    self.chain[s['id']] = m
                    try:
                        if self.determined(t):
                            self.verify(t, 'early.h5')
                    finally:
                        del self.chain[s['id']]
                except Degenerate:
                    pass
                ctx.probe('early-complete')
            for n in ('early.h5', 'early.csv'):
                if os.path.exists(n):
                    os.remove(n)
            return


def _raise(e):
    raise e


def run(plan, ctx):
    return Recipe(plan, ctx).run()
