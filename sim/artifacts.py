"""Lists and trial files: generators, builders, saving, loading and the reference reading of
their files.  A spec is plain JSON; rows(spec) is the reference content, content(kind, obj)
reads the same structure out of the repository's object."""
import os

import numpy as np

from .core import attempt, check, guard

WORDS = ['NA', 'None', 'nan', 'true', '1', '007', '1e5', 'null', 'inf', '-1', '0x10', 'N/A', '']


def _u():
    import hyperion.utils as u
    return u


def ids(rng, n, pre, odd=0.3, sorted_=False):
    out = []
    while len(out) < n:
        if rng.random() < odd:
            k = rng.choice(WORDS[:-1]) if rng.random() < 0.5 else str(rng.randint(0, 400))
        else:
            k = '%s%s%d' % (pre, rng.choice(['', '-', '_', '.']), rng.randint(0, 60))
        if k not in out:
            out.append(k)
    return sorted(out) if sorted_ else out


# --------------------------------------------------------------------------- data lists
def gen_scp(rng, n=None):
    n = n or rng.randint(1, 8)
    keys = ids(rng, n, 'utt')
    if rng.random() < 0.25 and n > 2:
        keys[-1] = keys[0]                       # the same key may be listed twice
    off = rng.random() < 0.6
    rg = rng.random() < 0.4
    rows = []
    for k in keys:
        r = [0, 0]
        if rg and rng.random() < 0.7:
            r = [rng.choice([0, 1, 5, 100]), rng.choice([0, 1, 7, 250])]
        rows.append([k, rng.choice(['/d/a%d.ark', 'b/x y%d.ark', 'f%d.h5', './q%d.wav']) % rng.randint(
            0, 9), rng.choice([0, 5, 17, 123456, 5000000000]) if off else None, r])
    return {'rows': rows, 'off': off, 'rg': rg}


def build_scp(s):
    r = s['rows']
    return _u().SCPList([x[0] for x in r], [x[1] for x in r],
                        [x[2] for x in r] if s['off'] else None,
                        np.array([x[3] for x in r], dtype=np.int64) if s['rg'] else None)


def content_scp(o, s=None):
    n = len(o)
    off = o.offset if o.offset is not None else [None] * n
    rg = o.range_spec if o.range_spec is not None else [[0, 0]] * n
    assert len(o.key) == len(o.file_path) == len(off) == len(rg)
    return [[str(k), str(p), None if f is None else int(f), [int(a) for a in r]]
            for k, p, f, r in zip(o.key, o.file_path, off, rg)]


# --------------------------------------------------------------------------- labels
def gen_u2i(rng, n=None, fields=None):
    n = n or rng.randint(1, 9)
    keys = ids(rng, n, 'utt')
    f = fields or rng.choice([1, 1, 1, 2, 3])
    pool = [['s%d' % i for i in range(4)], WORDS[:-1], ['0', '1', '2', '10']][rng.choice([0, 0, 1, 2])]
    return {'rows': [[k] + [rng.choice(pool) for _ in range(f)] for k in keys], 'f': f}


def build_u2i(s):
    r = s['rows']
    if s['f'] == 1:
        return _u().Utt2Info.create([x[0] for x in r], [x[1] for x in r])
    return _u().Utt2Info.create([x[0] for x in r], [x[1:] for x in r])


def content_u2i(o, s=None):
    inf = o.info
    return [[str(k)] + ([str(i)] if np.ndim(i) == 0 else [str(j) for j in i])
            for k, i in zip(o.key, inf)]


def load_u2i(s, path):
    U = _u().Utt2Info
    if s['f'] == 1:
        return U.load(path)
    return U.load(path, dtype={i: str for i in range(s['f'] + 1)})


# --------------------------------------------------------------------------- segments, rttm
def gen_seg(rng, n=None):
    files = ids(rng, rng.randint(1, 4), 'f')
    n = n or rng.randint(1, 9)
    segs = ids(rng, n, 'seg')
    rows = []
    for s in segs:
        t0 = rng.randint(0, 60000)
        rows.append([s, rng.choice(files), t0, t0 + rng.choice([0, 1, 250, 3000])])
    if rng.random() < 0.5:
        rows.sort(key=lambda r: (r[1], r[2]))
    return {'rows': rows, 'byfile': rng.random() < 0.6}


def build_seg(s):
    r = s['rows']
    return _u().SegmentList.create([x[0] for x in r], [x[1] for x in r], [x[2] / 1000. for x in r],
                                   [x[3] / 1000. for x in r], index_by_file=s['byfile'])


def _ms(t):
    t = float(t)
    return 'nan' if np.isnan(t) else int(round(t * 1000))


def content_seg(o, s=None):
    return [[str(a), str(b), _ms(c), _ms(d)] for a, b, c, d in
            zip(o.segment_id, o.file_id, o.tbeg, o.tend)]


def gen_rttm(rng, n=None):
    s = gen_seg(rng, n)
    s['rows'].sort(key=lambda r: (r[1], r[2]))
    rows = []
    spk = [['spk%d' % i for i in range(3)], ['1', '2', '10'], ['NA', 'None', 'null']][
        rng.choice([0, 0, 1, 2])]
    for _, f, a, b in s['rows']:
        rows.append([f, 1, a, b - a, rng.choice(spk)])
    return {'rows': rows, 'byfile': s['byfile']}


def build_rttm(s):
    r = s['rows']
    return _u().RTTM.create_spkdiar([x[0] for x in r], [x[2] / 1000. for x in r],
                                    [x[3] / 1000. for x in r], [x[4] for x in r],
                                    chnl=[x[1] for x in r], index_by_file=s['byfile'])


def content_rttm(o, s=None):
    d = o.segments
    out = []
    for st, f, c, a, b, nm, o1, o2, o3, o4 in zip(
            d['segment_type'], d['file_id'], d['chnl'], d['tbeg'], d['tdur'], d['name'],
            d['ortho'], d['stype'], d['conf'], d['slat']):
        rest = [x for x in (o1, o2, o3, o4) if not (x == '<NA>' or x != x)]
        out.append([str(f), c if c != c else int(c), _ms(a), _ms(b), str(nm)] +
                   ([] if st == 'SPEAKER' and not rest else [str(st)] + [str(x) for x in rest]))
    return out


# --------------------------------------------------------------------------- folds
def gen_fold(rng, n=None):
    n = n or rng.randint(2, 8)
    k = rng.randint(1, min(3, n))
    f = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(f)
    return {'rows': [[a, b] for a, b in zip(ids(rng, n, 'u'), f)]}


def build_fold(s):
    from hyperion.utils.fold_list import FoldList
    return FoldList([x[1] for x in s['rows']], [x[0] for x in s['rows']])


def content_fold(o, s=None):
    return [[str(k), int(f)] for k, f in zip(o.key, o.fold)]


def build_tve(s):
    from hyperion.utils.train_val_eval_list import TrainValEvalList
    return TrainValEvalList([x[0] for x in s['rows']], [x[1] for x in s['rows']], s['names'])


def gen_tve(rng, n=None):
    s = gen_fold(rng, n)
    s['names'] = rng.choice([None, ['train', 'val', 'eval'], ['a', 'b-1', 'c 2']])
    return s


def content_tve(o, s=None):
    return [[str(k), int(f), '' if o.part_names is None else str(o.part_names[f])]
            for k, f in zip(o.key, o.part)]


# --------------------------------------------------------------------------- trials
def gen_trials(rng, kind, txt, n=None):
    nm, ns = rng.randint(1, 5), rng.randint(1, 6)
    srt = rng.random() < 0.5
    s = {'models': ids(rng, nm, 'mod', 0.2, srt), 'segs': ids(rng, ns, 'seg', 0.2, srt),
         'seed': rng.randint(0, 10 ** 6), 'dens': rng.choice([0.2, 0.5, 0.8, 1.0]),
         'conds': [rng.randint(0, 2) for _ in range(3)] if kind == 'key' and not txt else [0] * 3,
         'names': rng.random() < 0.5, 'style': rng.choice(['norm', 'grid', 'big', 'small'])}
    return s


def trial_arrays(s):
    r = np.random.RandomState(s['seed'])
    sh = (len(s['models']), len(s['segs']))
    mask = r.rand(*sh) < s['dens']
    tar = mask & (r.rand(*sh) < 0.4)
    if not mask.any():
        mask[0, 0] = True
        tar[0, 0] = True
    scr = r.randn(*sh) * {'norm': 3, 'grid': 1, 'big': 1e5, 'small': 1e-3}[s['style']]
    if s['style'] == 'grid':
        scr = np.round(scr * 8) / 8
    return mask, tar, mask & ~tar, scr


def build_ndx(s):
    return _u().TrialNdx(list(s['models']), list(s['segs']), trial_arrays(s)[0])


def _cond(s):
    r = np.random.RandomState(s['seed'] + 7)
    m, g = len(s['models']), len(s['segs'])
    a, b, c = s['conds']
    kw = {}
    for nm, k, sh in (('model', a, (a, m)), ('seg', b, (b, g)), ('trial', c, (c, m, g))):
        if k:
            kw[nm + '_cond'] = r.rand(*sh) < 0.5
            if s['names']:
                kw[nm + '_cond_name'] = np.array(['%s%d' % (nm, i) for i in range(k)])
    return kw


def build_key(s):
    _, tar, non, _ = trial_arrays(s)
    return _u().TrialKey(list(s['models']), list(s['segs']), tar, non, **_cond(s))


def build_scr(s):
    mask, _, _, scr = trial_arrays(s)
    return _u().TrialScores(list(s['models']), list(s['segs']), np.where(mask, scr, 0), mask)


def content_ndx(o, s=None):
    m, g = np.nonzero(np.asarray(o.trial_mask))
    return {(str(o.model_set[i]), str(o.seg_set[j])): 1 for i, j in zip(m, g)}


def content_key(o, s=None):
    d = {}
    for v, a in (('tar', o.tar), ('non', o.non)):
        for i, j in zip(*np.nonzero(np.asarray(a))):
            k = (str(o.model_set[i]), str(o.seg_set[j]))
            d[k] = v if k not in d else 'both'
    for nm in ('model', 'seg', 'trial'):
        c = getattr(o, nm + '_cond')
        if c is None:
            continue
        c = np.asarray(c)
        names = getattr(o, nm + '_cond_name')
        for q in range(c.shape[0]):
            lab = (nm, q if names is None else str(names[q]))
            for ix in zip(*np.nonzero(c[q])):
                if nm == 'model':
                    d[lab + (str(o.model_set[ix[0]]),)] = 1
                elif nm == 'seg':
                    d[lab + (str(o.seg_set[ix[0]]),)] = 1
                else:
                    d[lab + (str(o.model_set[ix[0]]), str(o.seg_set[ix[1]]))] = 1
        d[('conditions', nm)] = c.shape[0]
    return d


def content_scr(o, s=None):
    return {(str(o.model_set[i]), str(o.seg_set[j])): float(o.scores[i, j])
            for i, j in zip(*np.nonzero(np.asarray(o.score_mask)))}


class Kind(object):
    def __init__(self, name, ext, gen, build, content, load, h5=False, trial=False):
        self.name, self.ext, self.gen, self.build, self.content = name, ext, gen, build, content
        self._load, self.h5, self.trial = load, h5, trial

    def load(self, s, path):
        return self._load(s, path)

    def save(self, o, path):
        o.save(path)


def _ld(cls):
    return lambda s, p: getattr(_u(), cls).load(p)


def _fold_load(s, p):
    from hyperion.utils.fold_list import FoldList
    return FoldList.load(p)


def _tve_load(s, p):
    from hyperion.utils.train_val_eval_list import TrainValEvalList
    return TrainValEvalList.load(p)


KINDS = {k.name: k for k in [
    Kind('scp', 'scp', gen_scp, build_scp, content_scp, _ld('SCPList')),
    Kind('u2i', 'utt2spk', gen_u2i, build_u2i, content_u2i, load_u2i),
    Kind('seg', 'segments', gen_seg, build_seg, content_seg,
         lambda s, p: _u().SegmentList.load(p, index_by_file=s['byfile'])),
    Kind('rttm', 'rttm', gen_rttm, build_rttm, content_rttm,
         lambda s, p: _u().RTTM.load(p, index_by_file=s['byfile'])),
    Kind('fold', 'folds', gen_fold, build_fold, content_fold, _fold_load),
    Kind('tve', 'parts', gen_tve, build_tve, content_tve, _tve_load),
    Kind('ndx_txt', 'txt', lambda r, n=None: gen_trials(r, 'ndx', True), build_ndx, content_ndx,
         _ld('TrialNdx'), trial=True),
    Kind('ndx_h5', 'h5', lambda r, n=None: gen_trials(r, 'ndx', False), build_ndx, content_ndx,
         _ld('TrialNdx'), h5=True, trial=True),
    Kind('key_txt', 'txt', lambda r, n=None: gen_trials(r, 'key', True), build_key, content_key,
         _ld('TrialKey'), trial=True),
    Kind('key_h5', 'h5', lambda r, n=None: gen_trials(r, 'key', False), build_key, content_key,
         _ld('TrialKey'), h5=True, trial=True),
    Kind('scr_txt', 'txt', lambda r, n=None: gen_trials(r, 'scr', True), build_scr, content_scr,
         _ld('TrialScores'), trial=True),
    Kind('scr_h5', 'h5', lambda r, n=None: gen_trials(r, 'scr', False), build_scr, content_scr,
         _ld('TrialScores'), h5=True, trial=True),
]}
LISTS = ['scp', 'u2i', 'seg', 'rttm', 'fold', 'tve']


def sets_of(o):
    return [str(x) for x in o.model_set], [str(x) for x in o.seg_set]


def reference(kind, s):
    """Content the saved object must have, straight from the spec."""
    if kind == 'tve':
        return [[k, p, s['names'][p] if s['names'] else ''] for k, p in s['rows']]
    if not KINDS[kind].trial:
        return s['rows']
    mask, tar, non, scr = trial_arrays(s)
    d = {}
    for i, m in enumerate(s['models']):
        for j, g in enumerate(s['segs']):
            if mask[i, j]:
                d[(m, g)] = (1 if kind.startswith('ndx') else float(scr[i, j])
                             if kind.startswith('scr') else 'tar' if tar[i, j] else 'non')
    if kind == 'key_h5':
        for nm, c in _cond(s).items():
            if nm.endswith('_name'):
                continue
            nm = nm[:-5]
            names = _cond(s).get(nm + '_cond_name')
            for q in range(c.shape[0]):
                lab = (nm, q if names is None else str(names[q]))
                for ix in zip(*np.nonzero(c[q])):
                    lst = {'model': (s['models'],), 'seg': (s['segs'],),
                           'trial': (s['models'], s['segs'])}[nm]
                    d[lab + tuple(l[i] for l, i in zip(lst, ix))] = 1
            d[('conditions', nm)] = c.shape[0]
    return d


def same_row(a, b):
    return a == b


def diff(kind, got, ref):
    """None or what differs between the content of a loaded object and the reference."""
    if isinstance(ref, list):
        if len(got) != len(ref):
            return '%d entries, saved %d' % (len(got), len(ref))
        for i, (g, r) in enumerate(zip(got, ref)):
            if g != r:
                return 'entry %d is %s, saved %s' % (i, g, r)
        return None
    for k in ref:
        if k not in got:
            return 'trial %s is missing' % (k,)
        if not same_val(kind, got[k], ref[k]):
            return 'trial %s has %r, saved %r' % (k, got[k], ref[k])
    for k in got:
        if k not in ref:
            return 'trial %s was never saved' % (k,)
    return None


def same_val(kind, g, r):
    if isinstance(r, float):
        tol = 0.5000001e-6 + 1e-15 * abs(r) if kind == 'scr_txt' else 0.0
        return abs(g - r) <= tol
    return g == r


def order_diff(kind, s, o):
    """Order of models and segments of a loaded trial file."""
    m, g = sets_of(o)
    if kind.endswith('_h5'):
        if m != list(s['models']) or g != list(s['segs']):
            return 'models %s segments %s, saved %s %s' % (m, g, s['models'], s['segs'])
    return None


def text_lines(kind, s):
    """Reference lines of the text file (used to know which entries a cut file still holds)."""
    if kind == 'scp':
        out = []
        for k, p, o, (a, n) in s['rows']:
            r = '' if a == 0 and n == 0 else '[%d:]' % a if n == 0 else '[%d:%d]' % (a, a + n)
            out.append('%s %s%s%s' % (k, p, '' if o is None else ':%d' % o, r))
        return out
    return None


def check_partial(kind, s, obj, n_full, ref_rows, where):
    """A list loaded from a file that holds its first n_full lines and possibly a cut line."""
    got = KINDS[kind].content(obj, s)
    check(len(got) <= n_full + 1, 'entries-invented', lambda: '%s %s: %d entries from a file with '
          '%d complete lines' % (where, kind, len(got), n_full))
    for i in range(min(n_full, len(got))):
        check(got[i] == ref_rows[i], 'entry-altered', lambda: '%s %s: entry %d is %s, saved %s' % (
            where, kind, i, got[i], ref_rows[i]))
    check(len(got) >= n_full, 'entries-lost', lambda: '%s %s: %d entries from a file with %d '
          'complete lines' % (where, kind, len(got), n_full))
