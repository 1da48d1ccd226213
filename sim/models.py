"""Models, transforms and distributions that can be saved: generators, builders and
comparison.  Parameters are drawn exactly representable in single precision, because that
is what the files hold."""
import json

import numpy as np

F32 = np.float32


def _f(x):
    return np.asarray(x, dtype=F32).astype(float)


def _spd(r, d):
    a = r.randn(d, d)
    m = _f(np.round((a.dot(a.T) / d + np.eye(d)) * 64) / 64)
    return _f((m + m.T) / 2)


def _pos(r, *s):
    return _f(np.round(r.uniform(0.5, 2, s) * 256) / 256)


def _mat(r, *s):
    return _f(np.round(r.randn(*s) * 256) / 256)


def _pi(r, k):
    w = np.ones(k)
    for _ in range(5):
        w[r.randint(k)] += 1
    n = 1 << 10
    c = np.floor(w / w.sum() * n)
    c[0] += n - c.sum()
    return c / n


def _get(mod, cls):
    import importlib
    return getattr(importlib.import_module('hyperion.' + mod), cls)


def _b(s, k):
    return bool((s['flags'] >> k) & 1)


def _x(r, n, d):
    return r.randn(n, d)


# name -> (module, class, build(spec, r, d) -> kwargs, parameter names, output(model, r, d))
def _pred(m, r, d):
    return m.predict(_x(r, 5, d))


def _lp(m, r, d):
    return m.log_prob(_x(r, 5, d))


def _llr(m, r, d):
    return m.llr_1vs1(_x(r, 3, d), _x(r, 4, d))


def _scores(m, r, d):
    return m.predict(r.randn(6))


def _cls(m, r, d):
    return m.predict(_x(r, 5, d))


def _up(m, r, d):
    return m.predict(np.hstack((_x(r, 5, d), r.uniform(0.5, 2, (5, d)))))


MODELS = {
    'centwhiten': ('transforms.cent_whiten', 'CentWhiten', lambda s, r, d: dict(
        mu=_mat(r, d), T=_mat(r, d, d), update_mu=_b(s, 0), update_T=_b(s, 1)), ('mu', 'T'), _pred),
    'lnorm': ('transforms.lnorm', 'LNorm', lambda s, r, d: dict(
        mu=_mat(r, d), T=_mat(r, d, d), update_mu=_b(s, 0), update_T=_b(s, 1)), ('mu', 'T'), _pred),
    'pca': ('transforms.pca', 'PCA', lambda s, r, d: dict(
        mu=_mat(r, d), T=_mat(r, d, max(1, d - 1)), update_mu=_b(s, 0), update_T=_b(s, 1),
        pca_dim=max(1, d - 1)), ('mu', 'T'), _pred),
    'lda': ('transforms.lda', 'LDA', lambda s, r, d: dict(
        mu=_mat(r, d), T=_mat(r, d, max(1, d - 1)), update_mu=_b(s, 0), update_T=_b(s, 1)),
        ('mu', 'T'), _pred),
    'nda': ('transforms.nda', 'NDA', lambda s, r, d: dict(mu=_mat(r, d), T=_mat(r, d, d)),
            ('mu', 'T'), _pred),
    'nap': ('transforms.nap', 'NAP', lambda s, r, d: dict(U=_mat(r, 2, d)), ('U',), _pred),
    'mvn': ('transforms.mvn', 'MVN', lambda s, r, d: dict(mu=_mat(r, d), s=_pos(r, d)),
            ('mu', 's'), _pred),
    'gaussianizer': ('transforms.gaussianizer', 'Gaussianizer', lambda s, r, d: dict(
        r=np.sort(_mat(r, 9, d), axis=0), max_vectors=s['flags'] + 5), ('r',), _pred),
    'sbsw': ('transforms.sb_sw', 'SbSw', lambda s, r, d: dict(
        Sb=_spd(r, d), Sw=_spd(r, d), mu=_mat(r, d), num_classes=3), ('Sb', 'Sw', 'mu'), None),
    'gausscal': ('calibration.gauss_calibration', 'GaussCalibration', lambda s, r, d: dict(
        mu1=_f(1.5), mu2=_f(-2.25), sigma2=_f(0.5 + s['flags'] / 8.), prior=0.25 + s['flags'] / 16.),
        ('mu1', 'mu2', 'sigma2', 'prior'), _scores),
    'unsupcal': ('calibration.unsup_gauss_calibration', 'UnsupGaussCalibration',
        lambda s, r, d: dict(mu1=_f(1.5), mu2=_f(-2.25), sigma2=_f(0.5 + s['flags'] / 8.),
        prior=0.25 + s['flags'] / 16.), ('mu1', 'mu2', 'sigma2', 'prior'), _scores),
    'cwup': ('transforms.cent_whiten_up', 'CentWhitenUP', lambda s, r, d: dict(
        mu=_mat(r, d), T=_mat(r, d, d), update_mu=_b(s, 0), update_T=_b(s, 1)), ('mu', 'T'), _up),
    'lnormup': ('transforms.lnorm_up', 'LNormUP', lambda s, r, d: dict(
        mu=_mat(r, d), T=_mat(r, d, d), update_mu=_b(s, 0), update_T=_b(s, 1)), ('mu', 'T'), _up),
    'qgbe': ('classifiers.q_scoring_homo_gbe', 'QScoringHomoGBE', lambda s, r, d: dict(
        mu=_mat(r, 3, d), W=1 + _pos(r, d), N=_pos(r, 3), balance_class_weight=_b(s, 0),
        prior_N=[None, 2.5][s['flags'] & 1]), ('mu', 'W', 'N'), _up),
    'lgbe': ('classifiers.linear_gbe', 'LinearGBE', lambda s, r, d: dict(
        mu=_mat(r, 3, d), W=_spd(r, d), update_mu=_b(s, 0), update_W=_b(s, 1),
        balance_class_weight=_b(s, 2), beta=_pos(r, 3), nu=_f(7.), prior_beta=2.5, prior_nu=3.),
        ('mu', 'W', 'beta', 'nu'), _cls),
    'lgbeup': ('classifiers.linear_gbe_up', 'LinearGBEUP', lambda s, r, d: dict(
        mu=_mat(r, 3, d), W=_spd(r, d), update_mu=_b(s, 0), update_W=_b(s, 1),
        balance_class_weight=_b(s, 2), beta=_pos(r, 3), nu=_f(7.)), ('mu', 'W', 'beta', 'nu'),
        None),
    'lr': ('classifiers.logistic_regression', 'LogisticRegression', lambda s, r, d: dict(
        A=_mat(r, d, 3), b=_mat(r, 3), use_bias=True, bias_scaling=1 + s['flags'] % 3),
        ('A', 'b'), _cls),
    'svmc': ('classifiers.linear_svmc', 'LinearSVMC', lambda s, r, d: dict(
        A=_mat(r, d, 3), b=_mat(r, 3), bias_scaling=1 + s['flags'] % 3,
        balance_class_weight=_b(s, 1)), ('A', 'b'), _cls),
    'blr': ('classifiers.binary_logistic_regression', 'BinaryLogisticRegression',
            lambda s, r, d: dict(A=_mat(r, d, 1), b=_mat(r, 1), prior=0.25), ('A', 'b'), _cls),
    'normal': ('pdfs.core.normal', 'Normal', lambda s, r, d: dict(
        x_dim=d, mu=_mat(r, d), Lambda=_spd(r, d), var_floor=1e-4, update_mu=_b(s, 0),
        update_Lambda=_b(s, 1)), ('mu', 'Lambda'), _lp),
    'normdiag': ('pdfs.core.normal_diag_cov', 'NormalDiagCov', lambda s, r, d: dict(
        x_dim=d, mu=_mat(r, d), Lambda=_pos(r, d), var_floor=1e-4, update_mu=_b(s, 0),
        update_Lambda=_b(s, 1)), ('mu', 'Lambda'), _lp),
    'gmm': ('pdfs.mixtures.gmm', 'GMM', lambda s, r, d: dict(
        x_dim=d, pi=_pi(r, 3), mu=_mat(r, 3, d), Lambda=np.stack([_spd(r, d) for _ in range(3)]),
        update_pi=_b(s, 0), update_mu=_b(s, 1), update_Lambda=_b(s, 2), min_N=s['flags'] % 4),
        ('pi', 'mu', 'Lambda'), _lp),
    'gmmdiag': ('pdfs.mixtures.gmm_diag_cov', 'GMMDiagCov', lambda s, r, d: dict(
        x_dim=d, pi=_pi(r, 4), mu=_mat(r, 4, d), Lambda=_pos(r, 4, d), update_pi=_b(s, 0),
        update_mu=_b(s, 1), update_Lambda=_b(s, 2), min_N=s['flags'] % 4),
        ('pi', 'mu', 'Lambda'), _lp),
    'gmmtied': ('pdfs.mixtures.gmm_tied_diag_cov', 'GMMTiedDiagCov', lambda s, r, d: dict(
        x_dim=d, pi=_pi(r, 4), mu=_mat(r, 4, d), Lambda=_pos(r, d), update_pi=_b(s, 0)),
        ('pi', 'mu', 'Lambda'), _lp),
    'jfa': ('pdfs.jfa.jfa_total', 'JFATotal', lambda s, r, d: dict(
        K=2, T=_mat(r, 3, 2 * d), x_dim=d), ('T',), None),
    'frplda': ('pdfs.plda.frplda', 'FRPLDA', lambda s, r, d: dict(
        mu=_mat(r, d), B=_spd(r, d), W=_spd(r, d), update_mu=_b(s, 0), update_B=_b(s, 1),
        update_W=_b(s, 2)), ('mu', 'B', 'W'), _llr),
    'splda': ('pdfs.plda.splda', 'SPLDA', lambda s, r, d: dict(
        mu=_mat(r, d), V=_mat(r, 2, d), W=_spd(r, d), update_mu=_b(s, 0), update_V=_b(s, 1),
        update_W=_b(s, 2)), ('mu', 'V', 'W'), _llr),
    'plda': ('pdfs.plda.plda', 'PLDA', lambda s, r, d: dict(
        mu=_mat(r, d), V=_mat(r, 2, d), U=_mat(r, 1, d), D=_pos(r, d), update_mu=_b(s, 0),
        update_V=_b(s, 1), update_D=_b(s, 2), floor_iD=2e-5), ('mu', 'V', 'U', 'D'), _llr),
}
CHAIN = ['centwhiten', 'lnorm', 'pca', 'lda', 'nda', 'nap', 'mvn', 'gaussianizer']
NAMES = sorted(MODELS) + ['chain']


def gen(rng, kinds=None):
    kind = rng.choice(kinds or (NAMES + ['chain', 'chain']))
    s = {'kind': kind, 'dim': rng.randint(2, 6), 'seed': rng.randint(0, 10 ** 6),
         'flags': rng.randint(0, 7), 'name': rng.choice([None, None, 'm', 'sys-1', 'a/b'])}
    if kind == 'chain':
        pool = rng.sample(CHAIN, rng.choice([1, 2, len(CHAIN)]))
        s['parts'] = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        s['name'] = rng.choice([None, 'back-end'])
        s['appended'] = rng.choice([0, 1, 2])
    return s


def _one(s, r, d, name):
    mod, cls, kw, params, out = MODELS[s['kind']]
    return _get(mod, cls)(name=name, **kw(s, r, d))


def build(s):
    r = np.random.RandomState(s['seed'])
    d = s['dim']
    if s['kind'] != 'chain':
        return _one(s, r, d, s['name'])
    parts = []
    for i, k in enumerate(s['parts']):
        p = _one({'kind': k, 'flags': s['flags']}, r, d, 't%d' % i)
        parts.append(p)
        if k in ('pca', 'lda'):
            d = max(1, d - 1)
    n = max(1, len(parts) - s.get('appended', 0))
    chain = _get('transforms.transform_list', 'TransformList')(parts[:n], name=s['name'])
    for p in parts[n:]:
        chain.append(p)
    return chain


def cls_of(s):
    if s['kind'] == 'chain':
        return _get('transforms.transform_list', 'TransformList')
    return _get(*MODELS[s['kind']][:2])


def config(m):
    def js(o):
        if type(o).__module__ == np.__name__:
            return o.item() if np.ndim(o) == 0 else np.asarray(o).tolist()
        return str(o)
    return json.loads(json.dumps(m.get_config(), default=js))


def _params(m, kind):
    return {p: np.asarray(getattr(m, p), dtype=float) for p in MODELS[kind][3]}


def diff(s, a, b, conf=True):
    """First difference between the saved model a and the loaded one b, or None."""
    ca, cb = config(a), config(b)
    if conf and ca != cb:
        return 'configuration %s loads as %s' % (ca, cb)
    if s['kind'] == 'chain':
        if len(a.transforms) != len(b.transforms):
            return '%d transforms load as %d' % (len(a.transforms), len(b.transforms))
        todo = list(zip(s['parts'], a.transforms, b.transforms))
    else:
        todo = [(s['kind'], a, b)]
    for kind, x, y in todo:
        if type(x) is not type(y):
            return '%s loads as %s' % (type(x).__name__, type(y).__name__)
        px, py = _params(x, kind), _params(y, kind)
        for p in px:
            if px[p].shape != py[p].shape or not np.array_equal(px[p], py[p]):
                return 'parameter %s of %s' % (p, type(x).__name__)
    oa, ob = output(s, a), output(s, b)
    if oa is None:
        return None
    if oa.shape != ob.shape or not np.allclose(oa, ob, rtol=1e-6, atol=1e-9, equal_nan=True):
        return 'outputs of the loaded %s differ' % s['kind']
    return None


def output(s, m):
    r = np.random.RandomState(s['seed'] + 1)
    f = _pred if s['kind'] == 'chain' else MODELS[s['kind']][4]
    if f is None:
        return None
    o = f(m, r, s['dim'])
    if isinstance(o, tuple):
        o = o[0]
    return np.asarray(o, dtype=float)
