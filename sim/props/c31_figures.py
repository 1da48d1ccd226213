"""C31: the figures that measure a system are those of its trials.

Jobs write the scores of parts of the trials, are killed, fail on I/O and are retried; another
process joins the parts, reads the key and computes error rates, costs and confusions, in a drawn
order and from the same arrays.  The reference counts the errors at every threshold."""
import numpy as np

from sim import scripts, training
from sim.core import Violation, check, guard
from sim.disk import Disk
from sim.props import c24_evaluation as E

RUNS = {'quick': 2500, 'thorough': 50000}
STATE_RULE = 'kinds, formats, grids and operations of the jobs, ties in the scores, outcomes'
DET = ['eer', 'prbep', 'min', 'act', 'fast', 'roc', 'hull', 'filter', 'area', 'cllr', 'mincllr',
       'optllr', 'prior']
CLS = ['acc', 'conf', 'xconf', 'write', 'print', 'netacc', 'netacc']
MUST_REACH = ['op:' + o for o in DET + CLS] + [
    'fault:crash', 'fault:eio-read', 'fault:eio-write', 'fault:enospc', 'retried', 'failed-loudly',
    'parts', 'ties', 'separated', 'all-equal', 'reversed', 'one-target', 'prior-scalar', 'prior-list',
    'same-prior-twice', 'text-labels', 'number-labels', 'weights', 'classes-given', 'classes-left-out', 'report',
    'net:class', 'net:onehot', 'net:bin', 'net:logit']
REAL = ['hyperion.metrics (error rates, costs, Cllr, accuracy, confusion matrices)',
        'TrialScores, TrialKey, TrialNdx, Utt2Info', 'eval-2class-performance (as a program)',
        'the accuracies of hyperion.torch.metrics', 'scikit-learn, HDF5']
STUB = ['PyTorch (a stand-in with numpy arrays)', 'system calls below the buffers', 'the shell that starts the programs and retries them']
ASSUMPTIONS = ['no score is as close to a decision threshold as rounding errors',
               'figures are compared to 1e-9, those after the monotonic mapping of the scores to 2e-6 '
               '(the mapping adds a slope of 1e-6 of its own)']
LISTS = ('jobs', 'ops')


def setup():
    import matplotlib
    matplotlib.use('Agg')
    training.setup()
    from hyperion import utils, metrics  # noqa: F401
    from hyperion.metrics import cllr, roc  # noqa: F401


def gen(rng, tier):
    p = {'seed': rng.randint(0, 10 ** 6), 'jobs': [], 'ops': []}
    for i in range(rng.randint(1, 2 if tier == 'quick' else 4)):
        k = rng.choice(['detect', 'detect', 'classify'])
        j = {'id': i, 'kind': k, 'seed': rng.randint(0, 10 ** 6), 'np': rng.randint(0, 10 ** 6),
             'faults': [], 'fpart': 0, 'fmt': rng.choice(['txt', 'h5'])}
        if k == 'detect':
            j.update(M=rng.randint(1, 5), S=rng.randint(2, 8), mp=rng.randint(1, 2),
                     sp=rng.randint(1, 3), out=rng.choice(['txt', 'h5']), key=rng.choice(['txt', 'h5']),
                     how=rng.choice(['plain', 'plain', 'plain', 'ties', 'ties', 'two', 'sep', 'rev',
                                     'equal', 'big']),
                     ptar=rng.choice([0.1, 0.3, 0.5, 0.8]), report=rng.random() < 0.3)
        else:
            j.update(n=rng.randint(1, 25), ct=rng.randint(1, 5), cp=rng.randint(1, 5),
                     lab=rng.choice(['int', 'text', 'words']))
        p['jobs'].append(j)
        for _ in range(rng.randint(3, 8)):
            p['ops'].append({'job': i, 'op': rng.choice(DET if k == 'detect' else CLS),
                             'a': rng.randint(0, 10 ** 6)})
    p['io'] = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
               'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    return p


inject = E.inject


# ---------------------------------------------------------------------------------- definitions
def rates(t, n):
    """Misses and false alarms at every threshold, from accepting everything on."""
    thr = np.concatenate([np.unique(np.concatenate([t, n])), [np.inf]])
    return [(int((t < h).sum()), int((n >= h).sum())) for h in thr]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(t, n):
    """Corners of the lower convex hull of (false alarms, misses), in integers, no three on a line;
    first the one that accepts nothing."""
    h = []
    low = {}
    for m, f in rates(t, n):
        low[f] = min(m, low.get(f, m))
    for q in sorted(low.items()):
        while len(h) > 1 and cross(h[-2], h[-1], q) <= 0:
            h.pop()
        h.append(q)
    # horizontal and vertical ends belong to it: (0, all missed) ... (all accepted, 0)
    pts = [(0, len(t))] + [q for q in h if q not in ((0, len(t)), (len(n), 0))] + [(len(n), 0)]
    return pts


def crossing(t, n, sx, sy):
    """Where the hull with its axes scaled by sx and sy meets the diagonal."""
    h = [(f * sx, m * sy) for f, m in hull(t, n)]
    for a, b in zip(h[:-1], h[1:]):
        u, v = a[1] - a[0], b[1] - b[0]
        if u >= 0 >= v:
            w = u / (u - v) if u != v else 0
            return a[0] + w * (b[0] - a[0])
    raise AssertionError


def on_hull(f, m, h):
    """Whether the point is on the polyline."""
    for a, b in zip(h[:-1], h[1:]):
        if cross(a, b, (f, m)) == 0 and a[0] <= f <= b[0] and b[1] <= m <= a[1]:
            return True
    return False


def softplus(x):
    return np.logaddexp(0, x)


def pool(groups):
    """Isotonic fit of (targets, total) in order: [(targets, total, first, last)]."""
    out = []
    for i, (a, b) in enumerate(groups):
        out.append([a, b, i, i])
        while len(out) > 1 and out[-2][0] * out[-1][1] >= out[-1][0] * out[-2][1]:
            q = out.pop()
            out[-1] = [out[-1][0] + q[0], out[-1][1] + q[1], out[-1][2], q[3]]
    return out


def opt_llr(t, n, laplace):
    """Log-likelihood ratio of every distinct score after the best monotonic mapping."""
    u = np.unique(np.concatenate([t, n]))
    g = [(int((t == s).sum()), int((t == s).sum() + (n == s).sum())) for s in u]
    k = 1 if laplace else 0
    # one target and one non-target below and above everything, the target first each time
    g2 = [(1, 1), (0, 1)] * k + g + [(1, 1), (0, 1)] * k
    v = np.zeros(len(g2))
    with np.errstate(divide='ignore'):
        for a, b, i, l in pool(g2):
            v[i:l + 1] = np.log(a / (b - a)) if 0 < a < b else (np.inf if a else -np.inf)
    v = v[2 * k:len(v) - 2 * k] - np.log(len(t) / len(n))
    return dict(zip(u, v))


class Run(E.Run):
    def prepare(self):
        self.probe = self.ctx.probe

    def close(self, got, want, kind, what, tol=1e-9):
        got = np.asarray(got, dtype='float64')
        want = np.asarray(want, dtype='float64')
        check(got.shape == want.shape, kind, lambda: '%s: shape %s, should be %s' % (
            what(), got.shape, want.shape))
        same = (got == want) | (np.abs(got - want) <= tol * np.maximum(1, np.abs(want)))
        check(bool(np.all(same)), kind, lambda: '%s: %s, should be %s' % (
            what(), got.tolist(), want.tolist()))

    # ---- detection
    def trials(self, j):
        r = np.random.RandomState(j['seed'])
        M, S = j['M'], j['S']
        ms, ss = ['m%d' % i for i in range(M)], ['t%d' % i for i in range(S)]
        tar = r.rand(M, S) < j['ptar']
        use = r.rand(M, S) < 0.85
        use[0, 0] = use[M - 1, S - 1] = True
        use[:, ~use.any(0)] = True            # every model and segment is in some trial
        use[~use.any(1)] = True
        tar[0, 0], tar[M - 1, S - 1] = True, False
        how = j['how']
        X = {'plain': lambda: r.randn(M, S) * 3 + tar * 2, 'ties': lambda: np.round(
            r.randn(M, S) + tar), 'two': lambda: (r.rand(M, S) < 0.3 + 0.4 * tar) * 1.5,
            'sep': lambda: r.rand(M, S) + 2 * tar, 'rev': lambda: r.rand(M, S) - 2 * tar,
            'equal': lambda: np.full((M, S), 0.75), 'big': lambda: (r.randn(M, S) + tar) * 300}[how]()
        X = np.round(X, 4) + 0.00003          # kept by the text format, on no usual threshold
        return ms, ss, tar, use, X

    def detect(self, j):
        from hyperion.utils import TrialScores, TrialKey
        ms, ss, tar, use, X = self.trials(j)
        M, S = len(ms), len(ss)
        r = np.random.RandomState(j['seed'] + 1)
        key = 'key%d.%s' % (j['id'], j['key'])
        with Disk(self.ctx, self.ctx.root, self.p['io']):
            a, b = r.permutation(M), r.permutation(S)
            TrialKey([ms[i] for i in a], [ss[i] for i in b], (tar & use)[a][:, b],
                     (~tar & use)[a][:, b]).save(key)
        part, outs, sts = 0, [], []
        mi, si = np.array_split(np.arange(M), min(j['mp'], M)), np.array_split(
            np.arange(S), min(j['sp'], S))
        for a in mi:
            for b in si:
                out = 's%d.%d.%s' % (j['id'], part, j['fmt'])
                want = {(ms[i], ss[k]): X[i, k] for i in a for k in b if use[i, k]}
                p1, p2 = r.permutation(a), r.permutation(b)

                def body():
                    TrialScores([ms[i] for i in p1], [ss[k] for k in p2], X[np.ix_(p1, p2)],
                                use[np.ix_(p1, p2)]).save(out)

                def verify():
                    self.compare(self.read(out), want, out, j['fmt'] == 'txt')
                sts.append(self.job(j, body, lambda: self.leftover(out, want, j['fmt'] == 'txt'),
                                    verify, [out], part))
                if want or j['fmt'] == 'h5':
                    outs.append(out)
                part += 1
        if part > 1:
            self.probe('parts')
        outs = [outs[i] for i in r.permutation(len(outs))]
        allf = 'all%d.%s' % (j['id'], j['out'])
        want = {(ms[i], ss[k]): X[i, k] for i in range(M) for k in range(S) if use[i, k]}

        def join():
            s = [TrialScores.load(o) for o in outs]
            TrialScores.merge(s).save(allf)
        sts.append(self.job(j, join, lambda: self.leftover(allf, want, j['out'] == 'txt'),
                            lambda: self.compare(self.read(allf), want, allf, True), [allf], part))
        got = {}

        def load():
            s, k = TrialScores.load(allf), TrialKey.load(key)
            got['t'], got['n'] = s.get_tar_non(k)
        sts.append(self.job(j, load, None, lambda: None, [], part + 1))
        t0, n0 = X[tar & use], X[~tar & use]
        for g, w, q in ((got['t'], t0, 'targets'), (got['n'], n0, 'non-targets')):
            check(len(g) == len(w) and np.allclose(np.sort(g), np.sort(w), atol=1e-5), 'wrong-trials',
                  lambda: 'scores of %s: %s, should be %s' % (q, np.sort(g).tolist(),
                                                             np.sort(w).tolist()))
        # single precision may have stored them: equal scores stay equal, the order stays
        t, n = np.asarray(got['t'], dtype='float64'), np.asarray(got['n'], dtype='float64')
        u = np.concatenate([t, n])
        if len(np.unique(u)) < len(u):
            self.probe('ties')
        for c, q in ((t.min() > n.max(), 'separated'), (t.max() < n.min(), 'reversed'),
                     (len(np.unique(u)) == 1, 'all-equal'), (len(t) == 1, 'one-target')):
            if c:
                self.probe(q)
        for o in self.p['ops']:
            if o['job'] == j['id'] and o['op'] in DET:
                keep = t.copy(), n.copy()
                self.figure(o, t, n, np.random.RandomState(o['a']))
                self.probe('op:' + o['op'])
                check(np.array_equal(t, keep[0]) and np.array_equal(n, keep[1]), 'input-changed',
                      lambda: '%s changes the scores it is given' % o['op'])
        if j['report']:
            self.probe('report')
            out = 'perf%d' % j['id']
            arg = ['--score-file', allf, '--key-file', key, '--output-path', out]

            def verify():
                rows = dict(l.split() for l in open(out + '.res'))
                check(int(rows['NTAR']) == len(t) and int(rows['NNON']) == len(n) and abs(
                    float(rows['EER']) - crossing(t, n, 1 / len(n), 1 / len(t))) <= 0.51e-4,
                    'wrong-report', lambda: '%s: %s for targets %s and non-targets %s' % (
                        arg, rows, t.tolist(), n.tolist()))
            sts.append(self.job(j, lambda: scripts.main('eval-2class-performance.py', arg), None,
                                verify, [out + '.res'], part + 2))
        return sts

    def priors(self, r, n=None):
        p = np.array([0.001, 0.01, 0.05, 0.1, 0.25, 0.5, 0.7, 0.9, 0.99])
        k = r.randint(0, 5)
        if k == 0:
            self.probe('prior-scalar')
            return float(r.choice(p))
        self.probe('prior-list')
        q = np.sort(r.choice(p, k))
        if len(np.unique(q)) < len(q):
            self.probe('same-prior-twice')
        return q if r.rand() < 0.7 else [float(v) for v in q]

    def min_dcf(self, t, n, p, norm):
        R = np.array(rates(t, n), dtype='float64')
        pm, pf = R[:, 0] / len(t), R[:, 1] / len(n)
        d = np.array([np.min(q * pm + (1 - q) * pf) / (min(q, 1 - q) if norm else 1)
                      for q in np.atleast_1d(p)])
        return d if np.ndim(p) else d[0]

    def act_dcf(self, t, n, p, norm):
        out = []
        for q in np.atleast_1d(p):
            h = np.log((1 - q) / q)
            pm, pf = (t < h).mean(), (n >= h).mean()
            out.append([(q * pm + (1 - q) * pf) / (min(q, 1 - q) if norm else 1), pm, pf])
        out = np.array(out)
        return out

    def figure(self, o, t, n, r):
        from hyperion import metrics as m
        from hyperion.metrics import roc, utils as mu
        from hyperion.metrics.cllr import compute_cllr, compute_min_cllr
        k = o['op']
        T, N = len(t), len(n)
        say = lambda w: lambda: '%s of targets %s and non-targets %s' % (w, t.tolist(), n.tolist())
        if k == 'eer':
            self.close(guard(m.compute_eer, t, n), crossing(t, n, 1 / N, 1 / T), 'wrong-eer', say('EER'))
        elif k == 'prbep':
            self.close(guard(m.compute_prbep, t, n), crossing(t, n, 1, 1), 'wrong-prbep', say('PRBEP'))
        elif k == 'min':
            p, norm = self.priors(r), bool(r.rand() < 0.7)
            d, pm, pf = guard(m.compute_min_dcf, t, n, p, norm)
            want = self.min_dcf(t, n, p, norm)
            self.close(d, want, 'wrong-cost', say('least cost at %s (%s)' % (p, norm)))
            q = np.asarray(p)
            self.close((q * pm + (1 - q) * pf) / (np.minimum(q, 1 - q) if norm else 1), want,
                       'wrong-cost', say('error rates of the least cost at %s' % p))
        elif k == 'act':
            p, norm = self.priors(r), bool(r.rand() < 0.7)
            d, pm, pf = guard(m.compute_act_dcf, t, n, p, norm)
            want = self.act_dcf(t, n, p, norm)
            for g, i, w in ((d, 0, 'cost'), (pm, 1, 'misses'), (pf, 2, 'false alarms')):
                self.close(np.atleast_1d(g), want[:, i], 'wrong-cost', say(
                    '%s of the decisions at %s (%s)' % (w, p, norm)))
        elif k == 'fast':
            p, norm = self.priors(r), bool(r.rand() < 0.7)
            a, b, e, q = guard(m.fast_eval_dcf_eer, t, n, p, norm)
            self.close(a, self.min_dcf(t, n, p, norm), 'wrong-cost', say('least cost at %s' % p))
            self.close(np.atleast_1d(b), self.act_dcf(t, n, p, norm)[:, 0], 'wrong-cost', say(
                'cost of the decisions at %s' % p))
            self.close([e, q], [crossing(t, n, 1 / N, 1 / T), crossing(t, n, 1, 1)], 'wrong-eer',
                       say('EER and PRBEP'))
        elif k == 'roc':
            pm, pf = guard(roc.compute_roc, t, n)
            pts = [(int(round(a * T)), int(round(b * N))) for a, b in zip(pm, pf)]
            self.close(pm * T, [q[0] for q in pts], 'wrong-roc', say('misses of the ROC'))
            self.close(pf * N, [q[1] for q in pts], 'wrong-roc', say('false alarms of the ROC'))
            check(pts[0] == (0, N) and pts[-1] == (T, 0) and set(rates(t, n)) <= set(pts) and all(
                b[0] - a[0] + a[1] - b[1] == 1 and b[0] >= a[0] and b[1] <= a[1]
                for a, b in zip(pts[:-1], pts[1:])), 'wrong-roc', lambda: '%s: %s' % (
                    say('ROC')(), pts))
        elif k in ('hull', 'area'):
            pm, pf = guard(roc.compute_rocch, t, n)
            h = hull(t, n)
            pts = [(int(round(b * N)), int(round(a * T))) for a, b in zip(pm, pf)][::-1]
            self.close(pm[::-1] * T, [q[1] for q in pts], 'wrong-roc', say('misses of the hull'))
            self.close(pf[::-1] * N, [q[0] for q in pts], 'wrong-roc', say('false alarms of the hull'))
            check(pts[0] == h[0] and pts[-1] == h[-1] and set(h) <= set(pts) and all(
                on_hull(q[0], q[1], h) for q in pts) and all(
                    b[0] >= a[0] and b[1] <= a[1] for a, b in zip(pts[:-1], pts[1:])), 'wrong-roc',
                lambda: '%s: %s, should be %s' % (say('hull')(), pts, h))
            if k == 'area':
                A = sum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(h[:-1], h[1:])) / (T * N)
                self.close(guard(roc.compute_area_under_rocch, pm, pf), A, 'wrong-area',
                           say('area under the hull'))
        elif k == 'filter':
            pm, pf = guard(roc.compute_roc if r.rand() < 0.7 else roc.compute_rocch, t, n)
            a, b = pm.copy(), pf.copy()
            qm, qf = guard(roc.filter_roc, a, b)
            check(np.array_equal(a, pm) and np.array_equal(b, pf), 'input-changed',
                  lambda: 'filter_roc changes the curve it is given')
            self.thinned(list(zip(pm, pf)), list(zip(qm, qf)), say)
        elif k == 'cllr':
            want = (softplus(-t).mean() + softplus(n).mean()) / 2 / np.log(2)
            self.close(guard(compute_cllr, t, n), want, 'wrong-cllr', say('Cllr'))
        elif k == 'mincllr':
            v = opt_llr(t, n, False)
            want = (softplus(-np.array([v[s] for s in t])).mean() + softplus(
                np.array([v[s] for s in n])).mean()) / 2 / np.log(2)
            with np.errstate(all='ignore'):
                self.close(guard(compute_min_cllr, t, n), want, 'wrong-cllr', say('least Cllr'), 2e-6)
        elif k == 'optllr':
            raw = bool(r.rand() < 0.5)
            v = opt_llr(t, n, not raw)
            with np.errstate(all='ignore'):
                a, b = guard(mu.opt_loglr, t, n, 'raw' if raw else 'laplace')
            self.close(a, [v[s] for s in t], 'wrong-llr', say('calibrated targets'), 2e-6)
            self.close(b, [v[s] for s in n], 'wrong-llr', say('calibrated non-targets'), 2e-6)
            s, l = np.concatenate([t, n]), np.concatenate([a, b])
            i = np.argsort(s, kind='stable')
            s, l = s[i], l[i]
            check(all(l[q + 1] >= l[q] and (s[q + 1] == s[q]) == (l[q + 1] == l[q]) or
                      l[q + 1] == l[q] and np.isinf(l[q]) for q in range(len(s) - 1)), 'wrong-llr', lambda: '%s: not a function of the '
                  'score that grows with it: %s' % (say('calibrated scores')(), list(zip(s, l))))
        else:
            p, cm, cf = r.choice([0.01, 0.1, 0.5, 0.9]), r.choice([1., 10., 0.5]), r.choice([1., 5.])
            e = guard(m.effective_prior, p, cm, cf)
            self.close(e, p * cm / (p * cm + (1 - p) * cf), 'wrong-prior', lambda: 'effective prior '
                       'of %s' % ((p, cm, cf),))
            # the same decisions cost the same up to a factor
            R = np.array(rates(t, n), dtype='float64')
            pm, pf = R[:, 0] / T, R[:, 1] / N
            self.close(guard(m.compute_dcf, pm, pf, e, False) * (p * cm + (1 - p) * cf),
                       p * cm * pm + (1 - p) * cf * pf, 'wrong-cost', say('costs at %s' % ((p, cm, cf),)))

    def thinned(self, full, few, say):
        """few has corners of the curve full and leaves out nothing but points between them on a
        horizontal or vertical stretch."""
        i = 0
        bad = lambda: '%s: curve %s thinned to %s' % (say('ROC')(), full, few)
        check(bool(few) and few[0] == full[0] and few[-1] == full[-1], 'wrong-roc', bad)
        for a, b in zip(few[:-1], few[1:]):
            if a == b:
                continue
            k = next((q for q in range(i, len(full)) if full[q] == b), None)
            check(k is not None, 'wrong-roc', bad)
            # the first a from i on
            s = next((q for q in range(i, k + 1) if full[q] == a), None)
            check(s is not None, 'wrong-roc', bad)
            mid = full[s:k + 1]
            check(k - s <= 1 or a[0] == b[0] and all(q[0] == a[0] for q in mid) or a[1] == b[1] and
                  all(q[1] == a[1] for q in mid), 'wrong-roc', bad)
            i = k

    # ---- classification
    def classify(self, j):
        from hyperion.utils import Utt2Info
        r = np.random.RandomState(j['seed'])
        n = j['n']
        if j['lab'] == 'int':
            self.probe('number-labels')
            names = [int(v) for v in r.permutation(12)[:10] - r.choice([0, 0, 5])]
        else:
            self.probe('text-labels')
            names = ['c%d' % i for i in r.permutation(10)] if j['lab'] == 'text' else list(
                r.permutation(['es', 'eng', 'q', 'cantonese', 'TEST_a', 'a', 'b c'[:1] + '-x', 'NA',
                               'TRAIN_a', 'zz']))
            names = [str(v) for v in names]
        ct, cp = names[:j['ct']], names[r.randint(0, 3):][:j['cp']]
        keys = ['u%d' % i for i in range(n)]
        y, z = [ct[i] for i in r.randint(0, len(ct), n)], [cp[i] for i in r.randint(0, len(cp), n)]
        z = [a if r.rand() < 0.4 and a in cp else b for a, b in zip(y, z)]
        o1, o2 = r.permutation(n), r.permutation(n)
        out, sts = [], []
        for part, (nm, lab, o) in enumerate((('true', y, o1), ('pred', z, o2))):
            f = '%s%d' % (nm, j['id'])
            rows = [(keys[i], str(lab[i])) for i in o]

            def body():
                Utt2Info.create([q[0] for q in rows], [q[1] for q in rows]).save(f)

            def verify():
                check([tuple(l.split()) for l in open(f)] == rows, 'wrong-list', lambda: 'labels in %s' % f)
            sts.append(self.job(j, body, None, verify, [f], part))
            out.append(f)
        got = {}

        def load():
            u, v = Utt2Info.load(out[0], sep=' '), Utt2Info.load(out[1], sep=' ')
            got['y'], got['z'] = [u[k] for k in keys], [v[k] for k in keys]
        sts.append(self.job(j, load, None, lambda: None, [], 2))
        check(got['y'] == [str(q) for q in y] and got['z'] == [str(q) for q in z], 'wrong-list',
              lambda: 'labels %s, should be %s and %s' % (got, y, z))
        for o in self.p['ops']:
            if o['job'] == j['id'] and o['op'] in CLS:
                self.confusion(o, j, y, z, ct, cp, np.random.RandomState(o['a']), sts)
                self.probe('op:' + o['op'])
        return sts

    def counts(self, y, z, rows, cols, w, norm):
        C = np.zeros((len(rows), len(cols)))
        for a, b, q in zip(y, z, w):
            if a in rows and b in cols:
                C[rows.index(a), cols.index(b)] += q
        if norm:
            with np.errstate(all='ignore'):
                C = C / C.sum(1, keepdims=True)
        return C

    def same(self, got, want, what):
        got, want = np.asarray(got, dtype='float64'), np.asarray(want)
        check(got.shape == want.shape and np.array_equal(np.isnan(got), np.isnan(want)) and np.all(
            np.abs(np.nan_to_num(got - want)) < 1e-9), 'wrong-confusion', lambda: '%s: %s, should be '
              '%s' % (what(), got.tolist(), want.tolist()))

    def confusion(self, o, j, y, z, ct, cp, r, sts):
        from hyperion import metrics as m
        k, n = o['op'], len(y)
        Y, Z = np.array(y), np.array(z)
        keep = Y.copy(), Z.copy()
        norm = bool(r.rand() < 0.5)
        w = r.randint(1, 5, n) * r.choice([1, 0.03]) if r.rand() < 0.4 else None
        if w is not None:
            self.probe('weights')
        ww = np.ones(n) if w is None else w
        opts = {'normalize': norm, 'sample_weight': w}
        if w is None and norm and r.rand() < 0.5:
            opts = {}                           # what is left out: normalised, without weights
        what = lambda: '%s of %s as %s (normalised %s, weights %s)' % (k, y, z, norm, w)
        form = (lambda a: a) if r.rand() < 0.6 else (lambda a: a.tolist())
        if k == 'netacc':
            self.netacc(r)
        elif k == 'acc':
            hit = float(sum(q for a, b, q in zip(y, z, ww) if a == b))
            a = guard(m.compute_accuracy, form(Y), form(Z), **opts)
            self.same(a, hit / ww.sum() if norm else hit, what)
        elif k in ('conf', 'write', 'print'):
            cls = sorted(set(y) | set(z))
            given = None
            if r.rand() < 0.4:
                self.probe('classes-given')
                cls = [cls[i] for i in r.permutation(len(cls))]
                if k == 'conf' and len(cls) > 1 and set(cls[:-1]) & set(y):
                    cls = cls[:-1] if r.rand() < 0.5 else cls
                given = np.array(cls)
            with np.errstate(all='ignore'):
                C = guard(m.compute_confusion_matrix, form(Y), form(Z), given, **opts)
            W = self.counts(y, z, cls, cls, ww, norm)
            self.same(C, W, what)
            if k != 'conf':
                self.table(o, j, C, W, [str(q) for q in cls], [str(q) for q in cls], sts)
        else:
            rows, cols = sorted(set(y)), sorted(set(z))
            a = b = None
            if r.rand() < 0.5:
                self.probe('classes-given')
                rows = [rows[i] for i in r.permutation(len(rows))]
                cols = [cols[i] for i in r.permutation(len(cols))]
                extra = [c for c in cp if c not in cols]
                if extra and r.rand() < 0.5:
                    cols.append(extra[0])
                for c in (rows, cols):
                    if len(c) > 1 and r.rand() < 0.3:
                        self.probe('classes-left-out')
                        c.pop()
                a, b = form(np.array(cols)), form(np.array(rows))
            kept = None if a is None else (list(a), list(b))
            with np.errstate(all='ignore'):
                C = guard(m.compute_xlabel_confusion_matrix, form(Y), form(Z), a, b, **opts)
            check(a is None or (list(a), list(b)) == kept, 'input-changed',
                  lambda: '%s changes the classes it is given' % what())
            self.same(C, self.counts(y, z, rows, cols, ww, norm), what)
        check(np.array_equal(Y, keep[0]) and np.array_equal(Z, keep[1]), 'input-changed',
              lambda: '%s changes the labels it is given' % what())

    def netacc(self, r):
        """Accuracies of the outputs of a network."""
        import torch
        import hyperion.torch.metrics as m
        n, c = r.randint(1, 7), r.randint(1, 4)
        kind = r.choice(['class', 'onehot', 'bin', 'logit'])
        self.probe('net:' + kind)
        x = np.round(r.randn(n, c) if kind in ('class', 'onehot', 'logit') else r.rand(n, c), 4) + 3e-5
        red = r.choice(['mean', 'mean', 'sum', 'none'])
        w = None
        if r.rand() < 0.5:
            w = r.uniform(0.2, 2, (n, c) if kind in ('bin', 'logit') and r.rand() < 0.4 else (n,))
        thr = None
        if kind in ('class', 'onehot'):
            t = r.randint(0, c, n)
            ok = (x.argmax(1) == t).astype(float)
            if kind == 'onehot':
                t = np.eye(c)[t]
            f, g, kw = m.CategoricalAccuracy, m.categorical_accuracy, {}
            W = np.ones(n) if w is None else w
        else:
            t = (r.rand(n, c) < 0.5).astype(float)
            thr = round(r.uniform(-1, 1), 3) if r.rand() < 0.5 else None
            kw = {} if thr is None else {'thr': thr}
            # probabilities decide at a half, logits at zero
            ok = ((x > (thr if thr is not None else 0.5 if kind == 'bin' else 0)) == t).astype(float)
            f, g = ((m.BinaryAccuracy, m.binary_accuracy) if kind == 'bin' else
                    (m.BinaryAccuracyWithLogits, m.binary_accuracy_with_logits))
            W = np.ones((n, c)) if w is None else w if w.ndim == 2 else np.repeat(w[:, None], c, 1)
        want = {'none': lambda: ok, 'sum': lambda: (ok * W).sum(),
                'mean': lambda: (ok * W).sum() / W.sum()}[red]()
        kw['reduction'] = str(red)
        T = [torch.tensor(v) for v in (x, t)]
        kw['weight'] = None if w is None else torch.tensor(w)
        keep = [v.copy() for v in (x, t)] + [None if w is None else w.copy()]
        if red == 'none':
            kw.pop('weight')
        call = f(**kw).forward if r.rand() < 0.6 else (lambda *a: g(*a, **kw))
        try:
            got = guard(call, *T)
        except Violation as e:
            if any(w in str(e) for w in ("'Tensor'", "module 'torch", 'Tensor.')):
                return                          # more than the stand-in for PyTorch can do
            raise
        got = np.asarray(getattr(got, 'data', got), dtype=float)
        say = lambda: '%s of outputs %s for %s (threshold %s, weights %s, %s): %s, should be %s' % (
            kind, x.tolist(), t.tolist(), thr, w, red, got.tolist(), want.tolist())
        check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-5 * n * c), 'wrong-accuracy', say)
        check(all(np.array_equal(a.data, b) for a, b in zip(T + ([kw['weight']] if kw.get('weight') is not
                                                                 None else []), keep)),
              'input-changed', lambda: '%s accuracy changes what it is given' % kind)

    def table(self, o, j, C, W, rows, cols, sts):
        import contextlib
        import io
        from hyperion import metrics as m
        f = 'conf%d' % j['id']
        labels = [rows] if rows == cols and o['a'] % 2 else [rows, cols]    # one list names both

        def body():
            with open(f, 'w') as s:
                m.write_confusion_matrix(s, C, *labels)
            if o['op'] == 'print':
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    m.print_confusion_matrix(C, *labels)
                check(b.getvalue() == open(f).read(), 'wrong-table', lambda: 'printed %r' % b.getvalue())

        def verify():
            L = [l.split() for l in open(f)]
            check(L[:1] == [cols] and [l[0] for l in L[1:]] == rows and all(
                len(l) == len(cols) + 1 for l in L[1:]), 'wrong-table', lambda: 'table %s' % L)
            for l, v in zip(L[1:], W):
                for s, q in zip(l[1:], v):
                    check(np.isnan(q) and s == 'nan' or abs(float(s) - q) <= 0.00501, 'wrong-table',
                          lambda: 'table %s of %s' % (L, W.tolist()))
        sts.append(self.job(j, body, None, verify, [f], 3))

    def run(self):
        self.prepare()
        tags = []
        for j in self.p['jobs']:
            sts = getattr(self, j['kind'])(j)
            tags.append([j['kind'], j['fmt'], j.get('how'), j.get('mp'), j.get('sp'), j.get('lab'), sts,
                         sorted({o['op'] for o in self.p['ops'] if o['job'] == j['id']})])
        self.ctx.state(tags)
        return self.info


def run(plan, ctx):
    return Run(plan, ctx).run()
