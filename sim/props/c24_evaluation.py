"""C24: evaluation programs give every vector and every trial exactly the value their model defines,
whatever else is evaluated along with it and whichever of their processes died or was retried.

Classifiers, PLDA in all its scoring modes, cosine scoring, score normalization, calibration,
clustering and the conversions of score files, run as programs (where there is one) on shared
files.  The reference is the definition of each model, computed trial by trial."""
import copy
import os

import numpy as np

from sim import scripts
from sim.core import SimCrash, Violation, check, guard, in_repo
from sim.disk import Disk
from sim.props import c23_recipes as R

RUNS = {'quick': 1600, 'thorough': 16000}
STATE_RULE = 'kinds of the jobs, their options, how they are split and what happened to each part'
CLASSIF = ('gbe', 'gbeup', 'svm', 'lr', 'qs')
KINDS = list(CLASSIF) + ['plda', 'cos', 'norm', 'normlib', 'lre', 'vec2scr', 'cal', 'ucal', 'ahc',
                         'nap', 'eer']
SETS = ['enroll-test', 'enroll-coh', 'coh-test', 'coh-coh']
NORMS = ['t-norm', 'z-norm', 's-norm', 'zt-norm', 'adaptive']
MUST_REACH = ['set:' + n for n in SETS] + ['kind:' + k for k in KINDS] + ['norm:' + n for n in NORMS] + [
    'fault:crash', 'fault:eio-read', 'fault:eio-write', 'fault:enospc', 'retried', 'failed-loudly',
    'leftover-refused', 'leftover-complete', 'split', 'vector-scores', 'preproc', 'cohort-missing',
    'pool:1vs1', 'pool:book', 'pool:vavg', 'pool:vavg-lnorm', 'pool:savg', 'plda:splda',
    'plda:frplda', 'plda:plda', 'eval:linear', 'eval:llk', 'eval:predictive', 'eval:normalize',
    'eval:bin-logpost', 'eval:bin-post', 'eval:cat-logpost', 'eval:cat-post', 'eval:log-post',
    'eval:post', 'fmt:h5', 'fmt:txt', 'score-missing', 'adaptive-missing']
REAL = ['eval-linear-gbe, -linear-gbe-up, -linear-svmc, -logistic-regression, -q-scoring-homo-gbe, '
        '-plda-1vs1, -plda-nvs1, -cos-1vs1, -score-norm, -2class-performance, scores2lre_format, '
        'vectors2scores (as programs, from their command line)', 'the models, their files and the '
        'score normalizations, GaussCalibration, UnsupGaussCalibration, AHC, NAP', 'trial readers, '
        'TrialScores and TrialNdx', 'HDF5']
STUB = ['system calls below the buffers', 'the shell that starts the programs and retries them',
        'single precision eigh of scipy (computed in double: the installed one is not repeatable)']
ASSUMPTIONS = ['values are compared up to the precision of the files that hold them',
               'a text score file cut inside a line is told by its writer having died, not by itself']
LISTS = ('jobs',)
SCRIPT = {'gbe': 'eval-linear-gbe', 'gbeup': 'eval-linear-gbe-up', 'svm': 'eval-linear-svmc',
          'lr': 'eval-logistic-regression', 'qs': 'eval-q-scoring-homo-gbe', 'cos': 'eval-cos-1vs1',
          'norm': 'eval-score-norm', 'lre': 'scores2lre_format', 'vec2scr': 'vectors2scores',
          'eer': 'eval-2class-performance'}


def setup():
    from hyperion import transforms, classifiers, helpers, pdfs  # noqa: F401
    from hyperion import score_norm, calibration, clustering     # noqa: F401


# ---------------------------------------------------------------------------------- the plan
def gen(rng, tier):
    p = {'seed': rng.randint(0, 10 ** 6), 'd': rng.randint(1, 5), 'K': rng.randint(2, 5),
         'S': rng.randint(1, 8), 'M': rng.randint(1, 5), 'coh': rng.randint(2, 8), 'store':
         rng.choice(['ark', 'h5']), 'jobs': []}
    for i in range(rng.randint(1, 3 if tier == 'quick' else 6)):
        k = rng.choice(KINDS + ['plda', 'plda', 'norm', 'norm', 'normlib'])
        j = {'id': i, 'kind': k, 'seed': rng.randint(0, 10 ** 6), 'fmt': rng.choice(['h5', 'txt']),
             'faults': [], 'fpart': 0, 'np': rng.randint(0, 10 ** 6)}
        if k in CLASSIF:
            j['nparts'] = rng.choice([1, 1, 2, 3])
            j['pre'] = rng.random() < 0.4
            j['vec'] = rng.random() < 0.4
            j['type'] = {'gbe': rng.choice(['linear', 'llk', 'predictive']), 'gbeup': 'linear',
                         'svm': rng.choice(['logit', 'bin-logpost', 'bin-post', 'cat-logpost',
                                            'cat-post']),
                         'lr': rng.choice(['logit', 'log-post', 'post']), 'qs': ''}[k]
            if k in ('gbe', 'gbeup', 'qs'):
                j['normalize'] = rng.random() < 0.4
            j['name'] = rng.choice([None, 'back-end'])
        elif k in ('plda', 'cos'):
            j['grid'] = [rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
            j['pre'] = rng.random() < 0.4
            j['density'] = rng.choice([1, 0.6])
            j['ndx'] = rng.choice(['h5', 'txt'])
            j['set'] = rng.choice(SETS + ['enroll-test'] * 4)
            if k == 'plda':
                j['type'] = rng.choice(['splda', 'frplda', 'plda'])
                j['pool'] = rng.choice(['1vs1', 'book', 'vavg', 'vavg-lnorm', 'savg'])
                if j['set'].startswith('coh'):
                    j['pool'] = '1vs1'
        elif k in ('norm', 'normlib'):
            j['type'] = rng.choice(NORMS + (['tz-norm', 'adaptive', 'adaptive'] if k == 'normlib' else []))
            j['nbest'] = rng.randint(1, 8)
            j['fmts'] = [rng.choice(['h5', 'txt']) for _ in range(4)]
            j['extra'] = rng.random() < 0.5
            j['flat'] = rng.random() < 0.1
            j['hole'] = k == 'norm' and rng.random() < 0.2
            j['discard'] = rng.choice([0, 0, 1]) if k == 'normlib' else 0
        elif k == 'lre':
            j['list'] = rng.choice([None, 'list', 'ext'])
            j['classes'] = rng.random() < 0.5
            j['density'] = rng.choice([1, 0.7])
        elif k == 'ahc':
            j['method'] = rng.choice(['average', 'single', 'complete'])
            j['metric'] = rng.choice(['llr', 'prob'])
            j['all'] = rng.random() < 0.5
        elif k == 'cal':
            j['weights'] = rng.random() < 0.5
        p['jobs'].append(j)
    p['io'] = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
               'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    return p


def inject(plan, extra, rng, tier):
    if not extra:
        return
    for v in range(2 if tier == 'quick' else 6):
        q = copy.deepcopy(plan)
        hit = 0
        for i, s in enumerate(q['jobs']):
            if str(s['id']) in extra and (rng.random() < 0.5 or (i == len(q['jobs']) - 1 and
                                                                 not hit)):
                hit += 1
                part = rng.randint(0, len(extra[str(s['id'])]) - 1)
                mut, rd, nb = extra[str(s['id'])][part]
                k = rng.choice(['crash', 'crash', 'eio_read', 'eio_write', 'eio_write', 'enospc'])
                s['fpart'] = part
                s['faults'] = [{'crash': {'kind': k, 'n': rng.randint(1, max(1, mut)),
                                          'keep': rng.choice([0, 0.5, 1])},
                                'eio_read': {'kind': k, 'n': rng.randint(1, max(1, rd)),
                                             'times': rng.choice([1, 10 ** 6])},
                                'eio_write': {'kind': k, 'n': rng.randint(1, max(1, mut))},
                                'enospc': {'kind': k, 'after': rng.randint(0, max(0, nb - 1))}}[k]]
        yield q


# ---------------------------------------------------------------------------------- definitions
def spd(r, d):
    A = r.randn(d, d)
    return A @ A.T / d + 0.5 * np.eye(d)


def f32(x):
    return np.asarray(x, dtype='float32').astype('float64')


def lse(x):
    m = x.max(1, keepdims=True)
    return m + np.log(np.exp(x - m).sum(1, keepdims=True))


def gauss(x, mu, S):
    d = x - mu
    return -0.5 * (len(mu) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + d @ np.linalg.solve(S, d))


def lnorm(x):
    return x * np.sqrt(x.shape[-1] / (x ** 2).sum(-1, keepdims=True))


class PLDA(object):
    """A PLDA model by its definition, for R.marginal."""

    def __init__(self, kind, r, d):
        self.kind = kind
        self.mu = f32(r.randn(d) * 0.3)
        y = r.randint(1, d + 1)
        if kind == 'FRPLDA':
            self.B, self.W = f32(spd(r, d)), f32(spd(r, d))
        elif kind == 'SPLDA':
            self.V, self.W = f32(r.randn(y, d)), f32(spd(r, d))
        else:
            self.V, self.U = f32(r.randn(y, d)), f32(r.randn(r.randint(1, d + 1), d) * 0.5)
            self.D = f32(0.5 + r.rand(d))

    def real(self):
        from hyperion import pdfs
        C = getattr(pdfs, self.kind)
        if self.kind == 'FRPLDA':
            return C(mu=self.mu, B=self.B, W=self.W)
        if self.kind == 'SPLDA':
            return C(y_dim=len(self.V), mu=self.mu, V=self.V, W=self.W)
        return C(y_dim=len(self.V), z_dim=len(self.U), mu=self.mu, V=self.V, U=self.U, D=self.D)

    def llk(self, x):
        B, W = self.parts()
        z = x - self.mu
        q, d = z.shape
        S = np.kron(np.ones((q, q)), B) + np.kron(np.eye(q), W)
        return gauss(z.ravel(), np.zeros(q * d), S)

    def parts(self):
        if self.kind == 'FRPLDA':
            return np.linalg.inv(self.B), np.linalg.inv(self.W)
        B = self.V.T @ self.V
        if self.kind == 'SPLDA':
            return B, np.linalg.inv(self.W)
        return B, self.U.T @ self.U + np.diag(1 / self.D)

    def llr(self, a, b):
        return self.llk(np.vstack([a, b])) - self.llk(a) - self.llk(b)


# ---------------------------------------------------------------------------------- one run
class Run(object):
    def __init__(self, plan, ctx):
        self.p, self.ctx, self.info = plan, ctx, {}

    def prepare(self):
        from hyperion.io import DataWriterFactory
        from hyperion.io.hyp_data_writer import HypDataWriter
        from hyperion.utils import Utt2Info
        from sim import models as M
        p = self.p
        r = np.random.RandomState(p['seed'])
        d = p['d']
        self.classes = ['c%d' % i for i in r.permutation(50)[:p['K']]]
        self.segs = ['s%d' % i for i in r.permutation(50)[:p['S']]]
        self.models = ['m%d' % i for i in r.permutation(50)[:p['M']]]
        self.enr = [('e%d' % i, m) for i, m in enumerate(self.models * 3)
                    if i < p['M'] or r.rand() < 0.5]
        self.enr = [self.enr[i] for i in r.permutation(len(self.enr))]
        self.x = {k: r.randn(d).astype('float32') for k in self.segs + [e[0] for e in self.enr]}
        self.up = {k: (0.1 + 0.8 * r.rand(d)).astype('float32') for k in self.segs}
        with Disk(self.ctx, self.ctx.root, p['io']):
            ext = p['store']
            with DataWriterFactory.create('%s,scp:v.%s,v.scp' % (ext, ext)) as w:
                for k in self.x:
                    w.write(k, self.x[k])
            self.v = 'scp:v.scp' if ext == 'ark' else 'h5:v.h5'
            keys = [self.segs[i] for i in r.permutation(p['S'])]
            for n, f in (('x.h5', lambda k: self.x[k]), ('up.h5', lambda k: np.concatenate(
                    [self.x[k], self.up[k]]))):
                w = HypDataWriter(n)
                w.write(keys, '', [f(k) for k in keys])
                w.close()
            self.text('classes', ['%s %d' % (c, i) for i, c in enumerate(self.classes)])
            self.text('tests', self.segs)
            Utt2Info.create([e[0] for e in self.enr], [e[1] for e in self.enr]).save('enroll')
            ones, rest = {}, []
            for e in self.enr:
                ones.setdefault(e[1], e)
            self.one = [e for e in self.enr if ones[e[1]] == e]
            Utt2Info.create([e[0] for e in self.one], [e[1] for e in self.one]).save('enroll1')
            from hyperion.transforms import CentWhiten, TransformList
            T, mu = f32(r.randn(d, d) + 2 * np.eye(d)), f32(r.randn(d))
            t = CentWhiten(mu=mu, T=T, name='cw')
            self.pre = lambda x: (x - mu) @ T
            TransformList(t).save('pre.h5')

    def text(self, name, lines):
        with open(name, 'w') as f:
            f.write(''.join(l + '\n' for l in lines))

    # ---- processes
    def process(self, body, faults, seed):
        d = Disk(self.ctx, self.ctx.root, self.p['io'], faults)
        np.random.seed(seed)
        err = None
        try:
            with d:
                try:
                    body()
                except SystemExit as e:
                    if e.code not in (None, 0):
                        raise RuntimeError('the program refuses its options')
                if d.crashed:
                    raise SimCrash()
            st = 'ok'
        except SimCrash:
            st = 'killed'
        except Violation:
            raise
        except Exception as e:
            st, err = 'failed', e
        self.ctx.ev('process', st)
        return st, d, err

    def job(self, j, body, leftover, verify, own, part=0):
        """One process of a job with its faults; retried until it succeeds.  leftover() reads what
        a dead process left (and returns whether it could), verify() what a finished one left."""
        ctx = self.ctx
        before = self.files()
        faults = j['faults'] if j['fpart'] == part else []
        st, d, err = self.process(body, faults, j['np'])
        self.info.setdefault(str(j['id']), []).append((d.n_mut, d.n_read, d.bytes_written))
        if st == 'failed':
            if not (faults and (d.failed or d.crashed)):
                self.refused(j, err)
            ctx.probe('failed-loudly')
        if st != 'ok':
            if leftover is not None and os.path.exists(own[0]):
                ctx.probe('leftover-complete' if leftover() else 'leftover-refused')
            ctx.probe('retried')
            st2, d, err = self.process(body, [], j['np'] + 1)
            if st2 == 'failed':
                self.refused(j, err)
        verify()
        after = self.files()
        # a temporary file that a killed process leaves behind is no change to what was there
        bad = [n for n in before if n not in own and before[n] != after.get(n)]
        check(not bad, 'other-file-changed', lambda: '%s changes %s' % (j['kind'], sorted(bad)))
        return st

    def refused(self, j, err):
        if in_repo(err):
            guard(_raise, err)
        raise Violation('refused', '%s: %r' % (j, err))

    def files(self):
        return R.Recipe.files(self)

    def near(self, a, b, tol=2e-5, txt=False):
        return abs(a - b) <= tol * max(1, abs(b)) + (0.51e-6 if txt else 0)

    # ---- score files
    def read(self, out):
        from hyperion.utils import TrialScores
        s = guard(TrialScores.load, out)
        return {(str(m), str(g)): float(s.scores[i, k]) for i, m in enumerate(s.model_set)
                for k, g in enumerate(s.seg_set) if s.score_mask[i, k]}

    def compare(self, got, want, what, txt, tol=2e-5):
        check(set(got) == set(want), 'wrong-trials', lambda: '%s has scores for %s, should for %s' % (
            what, sorted(got), sorted(want)))
        for k, v in want.items():
            check(self.near(got[k], v, tol, txt), 'wrong-score', lambda: '%s gives %s the value %r, its '
                  'model %r' % (what, k, got[k], v))

    def leftover(self, out, want, txt, tol=2e-5):
        """What a dead process left must not look like a complete score file with other values."""
        from hyperion.utils import TrialScores
        if txt:
            return False
        try:
            s = TrialScores.load(out)
            got = {(str(m), str(g)): float(s.scores[i, k]) for i, m in enumerate(s.model_set)
                   for k, g in enumerate(s.seg_set) if s.score_mask[i, k]}
        except Exception:
            return False
        for k, v in got.items():
            check(k in want and self.near(v, want[k], tol), 'wrong-score', lambda: 'a failed job leaves '
                  'the score %r for %s in %s, it should be %r' % (v, k, out, want.get(k)))
        return set(got) == set(want)

    def cut(self, l, i, n):
        return l[i * len(l) // n:(i + 1) * len(l) // n]

    # ---- classifiers
    def classifier(self, j):
        from hyperion.classifiers.linear_gbe import LinearGBE
        from hyperion.classifiers.linear_gbe_up import LinearGBEUP
        from hyperion.classifiers.linear_svmc import LinearSVMC
        from hyperion.classifiers.logistic_regression import LogisticRegression
        from hyperion.classifiers.q_scoring_homo_gbe import QScoringHomoGBE
        p = self.p
        K, d, k = p['K'], p['d'], j['kind']
        r = np.random.RandomState(j['seed'])
        mu, W = f32(r.randn(K, d)), f32(spd(r, d))
        if k in ('gbe', 'gbeup'):
            beta, nu = f32(1 + 9 * r.rand(K)), float(f32(d + 2 + 30 * r.rand()))
            m = (LinearGBE if k == 'gbe' else LinearGBEUP)(mu=mu, W=W, beta=beta, nu=nu, name=j['name'])
        elif k == 'qs':
            w = f32(1 + 5 * r.rand(d))
            m = QScoringHomoGBE(mu=mu, W=w, N=np.ones(K), name=j['name'])
        else:
            A, b = f32(r.randn(d, K)), f32(r.randn(K))
            if K == 2 and k == 'lr':
                pass
            m = (LinearSVMC if k == 'svm' else LogisticRegression)(A=A, b=b, name=j['name'])

        def score(seg):
            x = self.x[seg].astype('float64')
            u = self.up[seg].astype('float64')
            if j['pre'] and k not in ('gbeup', 'qs'):
                x = self.pre(x)
            if k == 'gbe':
                if j['type'] == 'linear':
                    s = [mu[i] @ W @ x - 0.5 * mu[i] @ W @ mu[i] for i in range(K)]
                elif j['type'] == 'llk':
                    s = [gauss(x, mu[i], np.linalg.inv(W)) for i in range(K)]
                else:
                    from scipy.stats import multivariate_t as mt
                    df = nu + 1 - d
                    s = [float(mt.logpdf(x, mu[i], np.linalg.inv(W) * nu * (beta[i] + 1) /
                                         (beta[i] * df), df)) for i in range(K)]
            elif k == 'gbeup':
                Wi = np.linalg.inv(np.linalg.inv(W) + np.diag(u))
                s = [mu[i] @ Wi @ x - 0.5 * mu[i] @ Wi @ mu[i] for i in range(K)]
            elif k == 'qs':
                # log of the integral of q_class(y) q_vector(y) / p(y), p standard normal
                P = 1 / u
                L = w + P - 1
                s = [0.5 * (np.log(w) + np.log(P) - np.log(L) - w * mu[i] ** 2 - P * x ** 2 +
                            (w * mu[i] + P * x) ** 2 / L).sum() for i in range(K)]
            else:
                s = x @ A + b
            s = np.array(s, dtype='float64')[None]
            t = j['type']
            if j.get('normalize') or t in ('cat-logpost', 'log-post'):
                s = s - lse(s)
                if t == 'log-post':
                    s = np.log(np.exp(s) + 1e-10)      # floored by definition
            elif t in ('cat-post', 'post'):
                s = np.exp(s - lse(s))
            elif t == 'bin-logpost':
                s = -np.logaddexp(0, -s)
            elif t == 'bin-post':
                s = 1 / (1 + np.exp(-s))
            return s[0]

        model = 'model%d.h5' % j['id']
        with Disk(self.ctx, self.ctx.root, p['io']):
            m.save(model)
        ref = {s: score(s) for s in self.segs}
        n = min(j['nparts'], len(self.segs))
        if n > 1:
            self.ctx.probe('split')
        if j['pre'] and k not in ('gbeup', 'qs'):
            self.ctx.probe('preproc')
        for t in (j['type'], 'normalize' if j.get('normalize') else None):
            if t:
                self.ctx.probe('eval:' + t)
        tol = 1e-4
        sts = []
        for q in range(n):
            segs = self.cut(self.segs, q, n)
            out = 'out%d.%d.%s' % (j['id'], q, j['fmt'])
            vec = 'vec%d.%d.h5' % (j['id'], q)
            a = ['--iv-file', 'x.h5' if k not in ('gbeup', 'qs') else 'up.h5', '--class2int-file',
                 'classes', '--test-file', 'tests', '--model-file', model, '--score-file', out,
                 '--num-seg-parts', str(n), '--seg-part-idx', str(q + 1)]
            if j['pre'] and k not in ('gbeup', 'qs'):
                a += ['--preproc-file', 'pre.h5']
            if j['vec']:
                a += ['--vector-score-file', vec]
            if j.get('normalize'):
                a += ['--normalize']
            if k == 'gbe':
                a += ['--eval-method', j['type']]
            if k in ('svm', 'lr'):
                a += ['--eval-type', j['type']]
            want = {(c, s): ref[s][i] for s in segs for i, c in enumerate(self.classes)}

            def verify():
                self.compare(self.read(out), want, '%s %s' % (SCRIPT[k], a[10:]), j['fmt'] == 'txt',
                             tol)
                if j['vec']:
                    from hyperion.io.hyp_data_reader import HypDataReader
                    self.ctx.probe('vector-scores')
                    y = guard(HypDataReader(vec).read, segs, '', True)
                    w = np.array([ref[s] for s in segs])
                    check(y.shape == w.shape and np.all(np.abs(y - w) <= tol * np.maximum(
                        1, np.abs(w))), 'wrong-score', lambda: '%s: vector scores %s, should be %s' % (
                            a, y.tolist(), w.tolist()))

            sts.append(self.job(j, lambda: scripts.main(SCRIPT[k] + '.py', a),
                                lambda: self.leftover(out, want, j['fmt'] == 'txt', tol), verify,
                                [out, vec], q))
        return sts

    # ---- trials
    def trials(self, j):
        from hyperion.utils import TrialNdx
        p, k = self.p, j['kind']
        r = np.random.RandomState(j['seed'])
        many = k == 'plda' and j['pool'] != '1vs1'
        enr = self.enr if many else self.one
        mask = r.rand(p['M'], p['S']) < j['density']
        for i in range(p['M']):
            mask[i, r.randint(p['S'])] = True
        for i in range(p['S']):
            mask[r.randint(p['M']), i] = True
        ndx = 'ndx%d.%s' % (j['id'], j['ndx'])
        pre = self.pre if j['pre'] else (lambda x: x)
        x = {u: pre(self.x[u].astype('float64')) for u in self.x}
        if k == 'plda':
            m = PLDA({'splda': 'SPLDA', 'frplda': 'FRPLDA', 'plda': 'PLDA'}[j['type']], r, p['d'])
            self.ctx.probe('plda:' + j['type'])
            self.ctx.probe('pool:' + j['pool'])
        with Disk(self.ctx, self.ctx.root, p['io']):
            TrialNdx(list(self.models), list(self.segs), mask).save(ndx)
            if k == 'plda':
                m.real().save('model%d.h5' % j['id'])
        ms, ss = self.models, self.segs
        if j['ndx'] == 'txt':
            ms, ss = sorted(ms), sorted(ss)
        # cohorts are read from lists in place of the models or of the segments of the trials
        self.ctx.probe('set:' + j['set'])
        u = [e[0] for e in self.enr]
        coh = [[u[i] for i in r.permutation(len(u))[:r.randint(1, 5)]] for _ in range(2)]
        if j['set'].startswith('coh'):
            ms, enr = coh[0], [(c, c) for c in coh[0]]
        if j['set'].endswith('coh'):
            ss = coh[1]
        efile = 'enroll' if many else 'enroll1'
        with Disk(self.ctx, self.ctx.root, p['io']):
            for i in (0, 1):
                self.text('coh%d.%d' % (j['id'], i), ['%s %s' % (c, c if i == 0 else 'any')
                                                      for c in coh[i]])
        ref = {}
        for i, a in enumerate(ms):
            e = np.array([x[u] for u, n in enr if n == a])
            for q, b in enumerate(ss):
                t = x[b][None]
                if k == 'cos':
                    v = (lnorm(e) @ lnorm(t).T)[0, 0]
                elif j['pool'] in ('1vs1', 'book'):
                    v = m.llr(e, t)
                elif j['pool'] == 'vavg':
                    v = m.llr(e.mean(0)[None], t)
                elif j['pool'] == 'vavg-lnorm':
                    v = m.llr(lnorm(e.mean(0)[None]), lnorm(t))
                else:
                    v = np.mean([m.llr(y[None], t) for y in e])
                ref[(a, b)] = v
        g = [min(j['grid'][0], len(ms)), min(j['grid'][1], len(ss))]
        if g != [1, 1]:
            self.ctx.probe('split')
        if j['pre']:
            self.ctx.probe('preproc')
        sts = []
        for q in range(g[0] * g[1]):
            a, b = q // g[1], q % g[1]
            out = 'out%d.%d.%s' % (j['id'], q, j['fmt'])
            arg = ['--iv-file', self.v, '--score-file', out, '--eval-set', j['set'], '--enroll-file',
                   'coh%d.0' % j['id'] if j['set'].startswith('coh') else efile,
                   '--num-model-parts', str(g[0]), '--model-part-idx', str(a + 1),
                   '--num-seg-parts', str(g[1]), '--seg-part-idx', str(b + 1)]
            if j['set'] != 'coh-coh':
                arg += ['--ndx-file', ndx]
            if j['set'].endswith('coh'):
                arg += ['--test-file', 'coh%d.1' % j['id']]
            if k == 'plda':
                arg += ['--model-file', 'model%d.h5' % j['id'], '--plda-type', j['type']]
                if many:
                    arg += ['--pool-method', j['pool']]
            if j['pre']:
                arg += ['--preproc-file', 'pre.h5']
            want = {(u, v): ref[(u, v)] for u in self.cut(ms, a, g[0]) for v in self.cut(ss, b, g[1])}
            prog = SCRIPT.get(k) or ('eval-plda-nvs1' if many else 'eval-plda-1vs1')
            tol = 3e-4
            sts.append(self.job(
                j, lambda: scripts.main(prog + '.py', arg),
                lambda: self.leftover(out, want, j['fmt'] == 'txt', tol),
                lambda: self.compare(self.read(out), want, '%s %s' % (prog, arg), j['fmt'] == 'txt',
                                     tol), [out], q))
        return sts

    # ---- score normalization
    def norm(self, j):
        from hyperion.utils import TrialScores
        import hyperion.score_norm as N
        p, k, t = self.p, j['kind'], j['type']
        r = np.random.RandomState(j['seed'])
        self.ctx.probe('norm:' + t if t in NORMS else 'norm:other')
        M, S, C = p['M'], p['S'], p['coh']
        zc = ['z%d' % i for i in range(C)]
        tc = zc if t == 'adaptive' else ['t%d' % i for i in range(r.randint(2, 8))]
        X, E, T, Q = (f32(r.randn(*s) + r.randn()) for s in
                      ((M, S), (M, C), (len(tc), S), (len(tc), C)))
        if j['flat']:
            E[0], T[:, 0] = E[0, 0], T[0, 0]
        if j['fmts'] != ['h5'] * 4:
            X, E, T, Q = (np.round(x, 6) for x in (X, E, T, Q))
        me = mt = mq = None
        if k == 'normlib' and r.rand() < 0.6:
            def mk(a):
                m = r.rand(*a.shape) < 0.7
                m[:, 0] = m[:, -1] = True
                m[0] = m[-1] = True
                return m
            me, mt, mq = mk(E), mk(T), mk(Q)
            if t == 'adaptive':
                # with the scores of many cohorts well below zero, too
                E, T = E - f32(r.choice([0., 4.])), T - f32(r.choice([0., 4.]))
                self.ctx.probe('adaptive-missing')

        def st(x, m, ax):
            mu, sd = [], []
            for v, w in zip(x if ax else x.T, (m if ax else m.T) if m is not None else
                            [None] * (len(x) if ax else x.shape[1])):
                v = v if w is None else v[w]
                mu.append(v.mean())
                sd.append(max(v.std(), 1e-5))
            return np.array(mu), np.array(sd)

        def z(x, e, m=None):
            mu, sd = st(e, m, 1)
            return (x - mu[:, None]) / sd[:, None]

        def tn(x, c, m=None):
            mu, sd = st(c, m, 0)
            return (x - mu[None]) / sd[None]

        if t == 't-norm':
            W = tn(X, T, mt)
        elif t == 'z-norm':
            W = z(X, E, me)
        elif t == 's-norm':
            W = (z(X, E, me) + tn(X, T, mt)) / np.sqrt(2)
        elif t == 'zt-norm':
            W = tn(z(X, E, me), z(T, Q, mq), mt)
        elif t == 'tz-norm':
            W = z(tn(X, T, mt), tn(E, Q, mq), me)
        else:
            n = min(j['nbest'], C - j['discard'])
            W = np.zeros((M, S))
            for a in range(M):
                for b in range(S):
                    o = np.argsort(-T[:, b], kind='stable')
                    q = np.argsort(-E[a], kind='stable')
                    if me is not None:          # only scores that are there are ranked ...
                        o, q = o[mt[o, b]], q[me[a, q]]
                    o, q = (x[j['discard']:j['discard'] + n] for x in (o, q))
                    if me is not None:          # ... and averaged
                        o, q = o[me[a, o]], q[mt[q, b]]
                        if min(len(o), len(q)) < 2 or min(E[a, o].std(), T[q, b].std()) < 1e-3:
                            W[a, b] = np.nan    # too few of them for a value
                            continue
                    W[a, b] = ((X[a, b] - E[a, o].mean()) / max(E[a, o].std(), 1e-5) +
                               (X[a, b] - T[q, b].mean()) / max(T[q, b].std(), 1e-5)) / np.sqrt(2)
            if j['flat']:
                return 'undetermined'           # equal scores: which are best is not determined
        if k == 'normlib':
            keep = [x.copy() for x in (X, E, T, Q)]
            a = {'t-norm': lambda: N.TNorm().predict(X, T, mt), 'z-norm': lambda: N.ZNorm().predict(
                X, E, me), 's-norm': lambda: N.SNorm().predict(X, T, E, mt, me),
                'zt-norm': lambda: N.ZTNorm().predict(X, T, E, Q, mt, me, mq),
                'tz-norm': lambda: N.TZNorm().predict(X, T, E, Q, mt, me, mq),
                'adaptive': lambda: N.AdaptSNorm(nbest=j['nbest'], nbest_discard=j['discard']).predict(
                    X, T, E, mt, me)}[t]
            with np.errstate(all='ignore'):
                Y = guard(a)
            check(Y.shape == W.shape and np.all((np.abs(Y - W) <= 1e-6 * np.maximum(1, np.abs(W))) |
                                                np.isnan(W)),
                  'wrong-score', lambda: '%s gives %s, its definition %s' % (t, Y.tolist(), W.tolist()))
            check(all(np.array_equal(x, y) for x, y in zip(keep, (X, E, T, Q))), 'input-changed',
                  lambda: '%s changes the scores it is given' % t)
            return 'ok'
        names = ['%s%d.%s' % (n, j['id'], f) for n, f in zip(('trl', 'ec', 'ct', 'cc'), j['fmts'])]
        need = {'t-norm': [2], 'z-norm': [1], 's-norm': [1, 2], 'zt-norm': [1, 2, 3],
                'adaptive': [1, 2]}[t]
        hole = r.choice(need) if j['hole'] else None
        rows = (self.models, self.models, tc, tc)
        cols = (self.segs, zc, self.segs, zc)
        with Disk(self.ctx, self.ctx.root, p['io']):
            for q, v in enumerate((X, E, T, Q)):
                R_, C_ = list(rows[q]), list(cols[q])
                mk = np.ones(v.shape, dtype=bool)
                if q == hole:
                    mk[r.randint(v.shape[0]), r.randint(v.shape[1])] = False
                v = np.where(mk, v, 0)
                if j['extra'] and q in (1, 2, 3):
                    # other models (segments) scored against the cohort along with ours
                    if q == 1:
                        R_ = R_ + ['other']
                        v = np.vstack([v, r.randn(1, v.shape[1]) + 5])
                        mk = np.vstack([mk, np.ones((1, mk.shape[1]), dtype=bool)])
                    elif q == 2:
                        C_ = C_ + ['other']
                        v = np.hstack([v, r.randn(v.shape[0], 1) + 5])
                        mk = np.hstack([mk, np.ones((mk.shape[0], 1), dtype=bool)])
                a, b = r.permutation(len(R_)), r.permutation(len(C_))
                TrialScores([R_[i] for i in a], [C_[i] for i in b], v[a][:, b], mk[a][:, b]).save(
                    names[q])
        if hole is not None and (M * S == 0 or min(E.shape + T.shape) < 2):
            return 'undetermined'
        out = 'out%d.%s' % (j['id'], j['fmt'])
        arg = ['--score-file', names[0], '--output-file', out, '--norm-type',
               's-norm' if t == 'adaptive' else t]
        if t == 'adaptive':
            arg += ['--adapt-coh', str(j['nbest'])]
        for q in need:
            arg += [['', '--enr-coh-file', '--coh-test-file', '--coh-coh-file'][q], names[q]]
        if hole is not None:
            # a text file does not even name a cohort segment none of whose scores it has
            st_, d, err = self.process(lambda: scripts.main('eval-score-norm.py', arg), [], j['np'])
            self.ctx.probe('cohort-missing')
            check(st_ == 'failed', 'missing-accepted', lambda: '%s normalizes although a cohort score of '
                  '%s is missing' % (arg, names[hole]))
            return 'refused'
        want = {(a, b): W[x, y] for x, a in enumerate(self.models) for y, b in enumerate(self.segs)}
        # the scores of a text file have six decimals, the deviation of few of them may be small
        tol = 1e-3 if j['flat'] else 1e-4
        sd = min(st(E, None, 1)[1].min(), st(T, None, 0)[1].min())
        if sd < 1e-3 and not j['flat']:
            return 'undetermined'
        return self.job(j, lambda: scripts.main('eval-score-norm.py', arg),
                        lambda: self.leftover(out, want, j['fmt'] == 'txt', tol),
                        lambda: self.compare(self.read(out), want, 'eval-score-norm %s' % arg,
                                             j['fmt'] == 'txt', tol), [out])

    # ---- conversions
    def lre(self, j):
        from hyperion.utils import TrialScores
        p = self.p
        r = np.random.RandomState(j['seed'])
        src = 'in%d.%s' % (j['id'], j['fmt'])
        X = np.round(r.randn(p['K'], p['S']) * 5, 5)
        mk = r.rand(p['K'], p['S']) < j['density']
        mk[0], mk[:, 0] = True, True
        C, S = list(self.classes), list(self.segs)
        with Disk(self.ctx, self.ctx.root, p['io']):
            TrialScores(C, S, np.where(mk, X, 0), mk).save(src)
            cs = [C[i] for i in r.permutation(len(C))]
            ss = [S[i] for i in r.permutation(len(S))][:max(1, len(S) - r.randint(2))]
            self.text('cls%d' % j['id'], ['%s x' % c for c in cs])
            ext = [r.choice(['.wav', '.sph']) if j['list'] == 'ext' else '' for _ in ss]
            self.text('lst%d' % j['id'], ['segmentid'] + [s + e for s, e in zip(ss, ext)])
        if not mk.all():
            self.ctx.probe('score-missing')
        out = 'out%d.tsv' % j['id']
        arg = ['--input-file', src, '--output-file', out]
        if j['classes']:
            arg += ['--class-file', 'cls%d' % j['id']]
        if j['list']:
            arg += ['--test-list', 'lst%d' % j['id']]
        if j['list'] == 'ext':
            arg += ['--add-ext']
        val = {(c, s): X[a, b] if mk[a, b] else -100 for a, c in enumerate(C) for b, s in enumerate(S)}

        def verify():
            # rows and columns in the order of the lists, of the score file without them
            c = cs if j['classes'] else sorted(C) if j['fmt'] == 'txt' else C
            s = ss if j['list'] else sorted(S) if j['fmt'] == 'txt' else S
            e = ext if j['list'] else [''] * len(s)
            rows = [l.rstrip('\n').split('\t') for l in open(out)]
            check(rows and rows[0][0] == 'segmentid' and sorted(rows[0][1:]) == sorted(c),
                  'wrong-format', lambda: 'heading %s' % rows[:1])
            if j['classes']:
                check(rows[0][1:] == c, 'wrong-format', lambda: 'columns %s, the class file has %s' % (
                    rows[0][1:], c))
            check(sorted(x[0] for x in rows[1:]) == sorted(a + b for a, b in zip(s, e)), 'wrong-trials',
                  lambda: 'segments %s, should be %s' % ([x[0] for x in rows[1:]], s))
            base = {a + b: a for a, b in zip(s, e)}
            for x in rows[1:]:
                check(len(x) == len(c) + 1, 'wrong-format', lambda: 'row %s' % x)
                for n, v in zip(rows[0][1:], x[1:]):
                    w = val[(n, base[x[0]])]
                    check(abs(float(v) - w) <= 2e-6 * max(1, abs(w)), 'wrong-score', lambda:
                          '%s gives %s for %s the value %s, the scores have %r' % (arg, x[0], n, v, w))

        return self.job(j, lambda: scripts.main('scores2lre_format.py', arg), None, verify, [out])

    def vec2scr(self, j):
        from hyperion.io import DataWriterFactory
        p = self.p
        r = np.random.RandomState(j['seed'])
        X = {s: r.randn(p['K']).astype('float32') for s in self.segs}
        ext = p['store']
        with Disk(self.ctx, self.ctx.root, p['io']):
            with DataWriterFactory.create('%s,scp:vs%d.%s,vs%d.scp' % (ext, j['id'], ext, j['id'])) as w:
                for s in self.segs:
                    w.write(s, X[s])
        out = 'out%d.%s' % (j['id'], j['fmt'])
        src = '%s:vs%d.%s' % (ext, j['id'], ext) if r.rand() < 0.5 else 'scp:vs%d.scp' % j['id']
        arg = ['--input-file', src, '--output-file', out, '--class-file', 'classes']
        want = {(c, s): float(X[s][i]) for s in self.segs for i, c in enumerate(self.classes)}
        return self.job(j, lambda: scripts.main('vectors2scores.py', arg),
                        lambda: self.leftover(out, want, j['fmt'] == 'txt'),
                        lambda: self.compare(self.read(out), want, 'vectors2scores %s' % arg,
                                             j['fmt'] == 'txt'), [out])

    def eer(self, j):
        from hyperion.utils import TrialScores, TrialKey
        p = self.p
        r = np.random.RandomState(j['seed'])
        M, S = p['M'] + 1, p['S'] + 1
        ms, ss = ['m%d' % i for i in range(M)], ['t%d' % i for i in range(S)]
        tar = r.rand(M, S) < 0.4
        tar[0, 0], tar[M - 1, S - 1] = True, False
        use = r.rand(M, S) < 0.8
        use[0, 0] = use[M - 1, S - 1] = True
        X = np.round(r.randn(M, S) + tar, 4)
        src, key = 'in%d.%s' % (j['id'], j['fmt']), 'key%d.%s' % (j['id'], r.choice(['h5', 'txt']))
        with Disk(self.ctx, self.ctx.root, p['io']):
            a, b = r.permutation(M), r.permutation(S)
            TrialScores([ms[i] for i in a], [ss[i] for i in b], X[a][:, b]).save(src)
            TrialKey(ms, ss, tar & use, ~tar & use).save(key)
        t, n = np.sort(X[tar & use]), np.sort(X[~tar & use])
        out = r.choice(['', 'res/']) + 'perf%d' % j['id']
        arg = ['--score-file', src, '--key-file', key, '--output-path', out]

        def verify():
            rows = dict(l.split() for l in open(out + '.res'))
            check(int(rows['NTAR']) == len(t) and int(rows['NNON']) == len(n), 'wrong-trials', lambda:
                  '%s counts %s targets and %s non-targets, the key has %d and %d' % (
                      arg, rows['NTAR'], rows['NNON'], len(t), len(n)))
            e = hull_eer(t, n)
            check(abs(float(rows['EER']) - e) <= 1e-4, 'wrong-score', lambda: '%s reports EER %s, it is '
                  '%r' % (arg, rows['EER'], e))

        return self.job(j, lambda: scripts.main('eval-2class-performance.py', arg), None, verify,
                        [out + '.res'])

    # ---- models of scores, saved and used in different processes
    def stored(self, j, fit, load, use, want_params):
        """fit() gives a model that is saved by one process and used by another."""
        out = 'model%d.h5' % j['id']

        def body():
            fit().save('./' + out)

        def verify():
            m = guard(load, out)
            want_params(m)
            use(m)

        return self.job(j, body, None, verify, [out])

    def cal(self, j):
        from hyperion.calibration.gauss_calibration import GaussCalibration as G
        r = np.random.RandomState(j['seed'])
        n = r.randint(4, 30)
        y = (np.arange(n) < r.randint(2, n - 1)).astype(int)
        x = r.randn(n) + 2 * y
        o = r.permutation(n)
        x, y = x[o], y[o]
        w = r.randint(1, 4, n).astype(float) if j['weights'] else np.ones(n)

        def fit():
            g = G(name=r.choice([None, 'cal']))
            g.fit(x, y, w if j['weights'] else None)
            return g

        a = np.average(x[y == 1], weights=w[y == 1])
        b = np.average(x[y == 0], weights=w[y == 0])
        s = (w * (x - np.where(y == 1, a, b)) ** 2).sum() / w.sum()
        pr = w[y == 1].sum() / w.sum()

        def params(g):
            for q, v in (('mu1', a), ('mu2', b), ('sigma2', s), ('prior', pr)):
                check(self.near(float(getattr(g, q)), v, 1e-5), 'wrong-model', lambda: 'calibration %s is '
                      '%r, its scores give %r' % (q, float(getattr(g, q)), v))

        def use(g):
            t = np.linspace(-3, 5, 7)
            v = guard(g.predict, t)
            e = ((t - b) ** 2 - (t - a) ** 2) / (2 * s)
            check(np.all(np.abs(v - e) <= 1e-4 * np.maximum(1, np.abs(e))), 'wrong-score', lambda:
                  'calibrated scores %s, should be %s' % (np.asarray(v).tolist(), e.tolist()))

        return self.stored(j, fit, G.load, use, params)

    def ucal(self, j):
        from hyperion.calibration.unsup_gauss_calibration import UnsupGaussCalibration as G
        r = np.random.RandomState(j['seed'])
        x = np.concatenate([r.randn(r.randint(20, 60)), 6 + r.randn(r.randint(10, 40))])
        x = x[r.permutation(len(x))]

        def em():
            m, s, q = np.array([x.max(), x.mean()]), x.var(), np.array([.5, .5])
            for _ in range(20):
                l = np.log(q)[:, None] - 0.5 * (x[None] - m[:, None]) ** 2 / s
                z = np.exp(l - np.logaddexp(l[0], l[1]))
                N = z.sum(1)
                m = (z * x).sum(1) / N
                s = (z * (x[None] - m[:, None]) ** 2).sum() / len(x)
                q = N / len(x)
            return m, s, q

        m, s, q = em()
        fitted = []

        def fit():
            g = G(name=r.choice([None, 'cal']))
            g.fit(x.copy())
            fitted.append(g)
            return g

        def params(g):
            for n in ('mu1', 'mu2', 'sigma2', 'prior'):
                a, b = np.ravel(getattr(g, n)), np.ravel(getattr(fitted[-1], n))
                check(a.shape == (1,) and self.near(a[0], b[0], 1e-5), 'wrong-model', lambda:
                      'unsupervised calibration: %s is %s after loading, was %s' % (n, a, b))

        def use(g):
            t = np.linspace(-2, 8, 5)
            v = np.asarray(guard(g.predict, t))
            a, b, s_ = float(g.mu1), float(g.mu2), float(np.ravel(g.sigma2)[0])
            e = ((t - b) ** 2 - (t - a) ** 2) / (2 * s_)
            check(v.shape == t.shape and np.all(np.abs(v - e) <= 1e-4 * np.maximum(1, np.abs(e))),
                  'wrong-score', lambda: 'calibrated scores %s, should be %s' % (v.tolist(), e.tolist()))

            def llk(m, s, q):
                return np.log(sum(q[k] * np.exp(-0.5 * (x - m[k]) ** 2 / s) / np.sqrt(2 * np.pi * s)
                                  for k in (0, 1))).sum()
            got = llk([a, b], s_, [float(g.prior), 1 - float(g.prior)])
            ini = llk([x.max(), x.mean()], x.var(), [.5, .5])
            check(got >= ini - 1e-6, 'worse', lambda: 'unsupervised calibration has likelihood %r, it '
                  'started from %r' % (got, ini))

        return self.stored(j, fit, G.load, use, params)

    def nap(self, j):
        from hyperion.transforms import NAP
        p = self.p
        r = np.random.RandomState(j['seed'])
        d, K = p['d'] + 1, p['K']
        c = np.concatenate([np.repeat(np.arange(K), 3), r.randint(0, K, 10)])
        c = c[r.permutation(len(c))]
        x = r.randn(K, d)[c] * 2 + r.randn(len(c), d) @ (np.diag(1 + np.arange(d)) + 0.2 * r.randn(d, d))
        u = r.randint(1, d)
        keep = x.copy()

        def fit():
            t = NAP(name=r.choice([None, 'nap']))
            t.fit(x, u, c)
            return t

        xc = x - np.array([keep[c == k].mean(0) for k in range(K)])[c]
        S = sum(xc[c == k].T @ xc[c == k] / (c == k).sum() for k in range(K)) / K
        w, V = np.linalg.eigh(S)

        def params(t):
            P = V[:, -u:] @ V[:, -u:].T
            if w[-u] - w[-u - 1] < 0.05 * w[-1]:
                return
            check(np.allclose(t.U.T @ t.U, P, atol=1e-4), 'wrong-model', lambda: 'NAP removes %s, the '
                  'within-class directions are %s' % (t.U.tolist(), V[:, -u:].T.tolist()))

        def use(t):
            y = guard(t.predict, keep)
            check(np.allclose(y @ t.U.T, 0, atol=1e-4) and np.allclose(
                y, keep - keep @ t.U.T @ t.U, atol=1e-4), 'wrong-score', lambda: 'NAP leaves nuisance')

        return self.stored(j, fit, NAP.load, use, params)

    def ahc(self, j):
        from hyperion.clustering.ahc import AHC
        r = np.random.RandomState(j['seed'])
        n = r.randint(2, 9)
        X = r.rand(n, n) if j['metric'] == 'prob' else r.randn(n, n) * 3
        X = (X + X.T) / 2
        keep = X.copy()
        mask = None
        link = {'average': np.mean, 'single': np.max, 'complete': np.min}[j['method']]
        g = [[i] for i in range(n)]
        parts, merges = [list(map(tuple, g))], []
        while len(g) > 1:
            b = max(((link([X[a, c] for a in g[i] for c in g[k]]), i, k)
                     for i in range(len(g)) for k in range(i + 1, len(g))), key=lambda v: v[0])
            merges.append(b[0])
            g = [q for i, q in enumerate(g) if i not in b[1:]] + [sorted(g[b[1]] + g[b[2]])]
            parts.append([tuple(q) for q in g])
        m = AHC(method=j['method'], metric=j['metric'])
        guard(m.fit, X, mask)
        check(np.array_equal(X, keep), 'input-changed', lambda: 'AHC changes the scores it is given')
        if j['all']:
            guard(m.compute_flat_clusters)
        order = list(r.permutation(n + 2))
        for k in order + order:
            f = guard(m.get_flat_clusters, k + 1, 'num_clusters')
            got = sorted(tuple(np.nonzero(f == i)[0]) for i in np.unique(f))
            want = sorted(parts[max(0, n - k - 1)])
            check(got == want, 'wrong-clusters', lambda: '%d clusters of %s: %s, should be %s' % (
                k + 1, X.tolist(), got, want))
        for q in range(n):
            thr = (merges[q - 1] + merges[q]) / 2 if 0 < q < len(merges) else (
                merges[0] + 1 if q == 0 else merges[-1] - 1)
            want = sorted(parts[sum(v >= thr for v in merges)])
            f = guard(m.get_flat_clusters, thr)
            got = sorted(tuple(np.nonzero(f == i)[0]) for i in np.unique(f))
            check(got == want, 'wrong-clusters', lambda: 'clusters at threshold %r of %s: %s, should be '
                  '%s' % (thr, X.tolist(), got, want))
        lab = r.randint(0, 3, n)
        im = guard(m.evaluate_impurity_det, lab)
        for k in range(n):
            f = np.zeros(n, dtype=int)
            for i, q in enumerate(parts[k]):
                f[list(q)] = i
            from sklearn.metrics import homogeneity_score as H, completeness_score as Cs
            check(abs(im[0][k] - (1 - H(lab, f))) < 1e-6 and abs(im[1][k] - (1 - Cs(lab, f))) < 1e-6,
                  'wrong-clusters', lambda: 'impurities %s %s after %d merges' % (im[0], im[1], k))
        return 'ok'

    def run(self):
        self.prepare()
        tags = []
        for j in self.p['jobs']:
            k = j['kind']
            f = self.classifier if k in CLASSIF else self.trials if k in ('plda', 'cos') else \
                self.norm if k in ('norm', 'normlib') else getattr(self, k)
            st = f(j)
            self.ctx.probe('kind:' + k)
            if k not in ('cal', 'ucal', 'nap', 'ahc', 'normlib'):
                self.ctx.probe('fmt:' + j['fmt'])
            tags.append([k, j.get('type'), j.get('pool'), j['fmt'], st,
                         j['faults'][0]['kind'] if j['faults'] else None, j.get('pre'),
                         j.get('normalize'), j.get('grid'), j.get('nparts')])
        self.ctx.state(tags)
        return self.info


def hull_eer(t, n):
    """EER where the diagonal crosses the convex hull of the error rates over all thresholds."""
    thr = np.concatenate([np.unique(np.concatenate([t, n])), [np.inf]])
    pts = sorted({(float((n >= h).mean()), float((t < h).mean())) for h in thr} | {(1., 0.)})
    hull = []
    for q in pts:
        while len(hull) > 1 and (hull[-1][0] - hull[-2][0]) * (q[1] - hull[-2][1]) - (
                hull[-1][1] - hull[-2][1]) * (q[0] - hull[-2][0]) <= 0:
            hull.pop()
        hull.append(q)
    for a, b in zip(hull[:-1], hull[1:]):
        if a[1] - a[0] >= 0 >= b[1] - b[0]:
            x, y = a[1] - a[0], b[1] - b[0]
            w = x / (x - y) if x != y else 0
            return a[0] + w * (b[0] - a[0])
    return min(hull, key=lambda q: abs(q[0] - q[1]))[0]


def _raise(e):
    raise e


def run(plan, ctx):
    return Run(plan, ctx).run()
