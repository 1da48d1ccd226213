"""Feature archives: plan generation, writing, reading and the reference model (a list of
(key, array) per archive).  Shared by C01-C06 and C08."""
import os

import numpy as np

from .core import HarnessError, Violation, attempt, check, guard

F32 = np.float32
METHODS = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto',
           '1byte-unsigned-integer', '1byte-0-1']
ALPH = 'abcdefgXYZ0123456789_-.=+#@%'


# --------------------------------------------------------------------------- plans
def gen_key(rng, used, h5):
    for _ in range(100):
        m = rng.random()
        if m < 0.4:
            k = 'utt%d' % rng.randint(0, 120)
        elif m < 0.5:
            k = 'spk%d/utt-%d' % (rng.randint(0, 9), rng.randint(0, 99))
        elif m < 0.6:
            k = rng.choice('abcdefg')
        elif m < 0.65:
            k = 'k' * rng.randint(20, 90) + str(rng.randint(0, 9))
        elif m < 0.69:
            k = rng.choice(['se\u00f1al', '\u8bf4\u8bdd', 'p\u0159\u00edklad-', 'x\U0001d11e_']) + \
                str(rng.randint(0, 9))
        else:
            k = rng.choice('abcdefgXYZ') + ''.join(rng.choice(ALPH)
                                                   for _ in range(rng.randint(0, 12)))
        if k not in used:
            used.add(k)
            return k
    raise HarnessError('no key')


def gen_rec(rng, key, arc, uniform=None, big=False):
    comp = arc['compress']
    text = arc['fmt'] == 'ark_t'
    if uniform:
        rec = dict(uniform)
        rec['key'] = key
        rec['seed'] = rng.randint(0, 10 ** 6)
        return rec
    kind = 'mat' if comp or rng.random() < 0.75 else 'vec'
    m = rng.random()
    top = 60 if big else 24
    rows = rng.choice([1, 2, 3, 4, 5, 7, 8, 9]) if m < 0.5 else rng.randint(1, top)
    cols = rng.choice([1, 2, 3, 4, 8]) if rng.random() < 0.6 else rng.randint(1, top)
    if not comp and not text and rng.random() < 0.03:
        rows = 0
    style = rng.choice(['norm', 'norm', 'norm', 'int', 'offset', 'tiny', 'const', 'wide', 'skew',
                        'byte', 'unit'] + ([] if comp else ['special']))
    if comp == '2byte-signed-integer':
        style = rng.choice(['int', 'int16', 'norm', 'offset'])
    elif comp == '1byte-unsigned-integer':
        style = rng.choice(['byte', 'norm', 'int'])
    elif comp == '1byte-0-1':
        style = rng.choice(['unit', 'norm'])
    form = rng.choice(['f32', 'f32', 'f64', 'fortran', 'strided'])
    if arc['fmt'] != 'h5' and rng.random() < 0.15:
        form = rng.choice(['kmat32', 'kmat64'])
    rec = {'key': key, 'kind': kind, 'rows': rows, 'cols': cols, 'style': style, 'form': form,
           'seed': rng.randint(0, 10 ** 6)}
    if arc['fmt'] != 'h5' and kind == 'mat' and rows and style != 'special' and rng.random() < 0.12:
        # a matrix that is already compressed, maybe scaled since
        rec.update(form='kcm', pre=rng.choice(METHODS), alpha=rng.choice([1, 1, 0.5, 3, -2]))
    return rec


def gen_arc(rng, i, fmts=('ark', 'ark_t', 'h5'), compress=0.35, scp=None, flush=None):
    fmt = rng.choice(list(fmts))
    return {'fmt': fmt,
            'path': rng.choice(['a%d.%s', 'feats_%d.%s', './x%d.%s', 'sub/y%d.%s', 'my sub/z %d.%s',
                                'd%d/feats.%s', 'd%d/feats.%s']) % (
                i, 'h5' if fmt == 'h5' else 'ark'),
            'scp': rng.random() < 0.8 if scp is None else scp,
            'compress': rng.choice(METHODS) if rng.random() < compress else None,
            'flush': rng.random() < 0.4 if flush is None else flush,
            'via': rng.choice(['factory', 'class']),
            'end': rng.choice(['close', 'with']),
            'recs': [], 'calls': []}


def gen_io(rng):
    m = rng.random()
    if m < 0.15:
        return {'seed': 0, 'slice_reads': 0.0, 'slice_writes': 0.0, 'vary_buf': False}
    return {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0.0, 0.1, 0.5, 0.9]),
            'slice_writes': rng.choice([0.0, 0.3, 0.8]), 'vary_buf': rng.random() < 0.7}


def gen_store(rng, n_arc=None, fmts=('ark', 'ark_t', 'h5'), max_recs=9, compress=0.35, scp=None,
              flush=None, same_kind=False, big=False):
    """A store: archives with records and the write calls that fill them."""
    n_arc = n_arc or rng.choice([1, 1, 1, 2, 3])
    used = set()
    arcs = []
    fam = None
    for i in range(n_arc):
        f = fmts
        if same_kind and fam is not None:
            f = ('h5',) if fam == 'h5' else tuple(x for x in fmts if x != 'h5')
        arc = gen_arc(rng, i, f, compress, scp, flush)
        fam = arc['fmt']
        uniform = None
        if rng.random() < 0.35:
            uniform = gen_rec(rng, 'x', arc, big=big)
            if uniform['rows'] == 0:
                uniform['rows'] = 2
        n = rng.randint(1, max_recs)
        for _ in range(n):
            arc['recs'].append(gen_rec(rng, gen_key(rng, used, any(a == 'h5' for a in fmts)), arc,
                                       uniform, big))
        arc['calls'] = gen_calls(rng, n, uniform is not None and
                                 not uniform['form'].startswith('k'))
        arcs.append(arc)
    return arcs


def gen_calls(rng, n, stackable):
    calls, i = [], 0
    while i < n:
        m = rng.choice([1, 1, 2, 3, n])
        m = min(m, n - i)
        form = 'list'
        if m == 1 and rng.random() < 0.5:
            form = 'single'
        elif stackable and rng.random() < 0.4:
            form = 'stack'
        calls.append([form, m, rng.random() < 0.2])       # form, count, flush() afterwards
        i += m
    return calls


# --------------------------------------------------------------------------- data
def raw(rec):
    """Values of a record before any storage rounding, as float64."""
    r = np.random.RandomState(rec['seed'])
    shape = (rec['rows'], rec['cols']) if rec['kind'] == 'mat' else (rec['cols'],)
    s = rec['style']
    x = r.randn(*shape)
    if s == 'int':
        x = np.round(x * 100)
    elif s == 'int16':
        x = np.round(r.uniform(-33500, 33500, shape))
    elif s == 'byte':
        x = np.round(r.uniform(-10, 265, shape))
    elif s == 'unit':
        x = r.uniform(-0.1, 1.1, shape)
    elif s == 'offset':
        x = x * 3 + 1000
    elif s == 'tiny':
        x = x * 1e-4
    elif s == 'const':
        x = np.zeros(shape) + np.round(x.ravel()[0] * 8) / 8 if x.size else x
    elif s == 'wide':
        x = x * 10.0 ** r.randint(-3, 6, shape)
    elif s == 'skew':
        x = np.exp(2.5 * x)
    elif s == 'special' and x.size:
        f = x.ravel()
        f[r.randint(0, f.size)] = np.inf
        f[r.randint(0, f.size)] = -np.inf
        f[r.randint(0, f.size)] = np.nan
        f[r.randint(0, f.size)] = 1e30
        f[r.randint(0, f.size)] = -0.0
        x = f.reshape(shape)
    return x


def payload(rec, arc):
    """The object handed to the writer."""
    x = raw(rec)
    f = rec['form']
    if f == 'f64':
        return x
    if f == 'f32':
        return x.astype(F32)
    if f == 'fortran':
        return np.asfortranarray(x.astype(F32))
    if f == 'strided':
        big = np.zeros(tuple(2 * d for d in x.shape), dtype=F32)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix, KaldiMatrix
    if f == 'kcm':
        m = KaldiCompressedMatrix.compress(x.astype(F32), rec['pre'])
        if rec['alpha'] != 1:
            m.scale(rec['alpha'])
        return m
    return KaldiMatrix(x.astype(F32) if f == 'kmat32' else x)


class Expect(object):
    """Reference value of a stored record: val with tolerance tol per element."""

    def __init__(self, val, tol=None):
        self.val = val
        self.tol = tol

    @property
    def exact(self):
        return self.tol is None


def expect(rec, arc):
    x = raw(rec)
    double = rec['form'] == 'kmat64' or (rec['form'] == 'f64' and arc['fmt'] == 'h5' and
                                         arc['compress'])
    if not double:
        with np.errstate(over='ignore'):
            x = x.astype(F32).astype(float)
    if arc['compress'] or rec['form'] == 'kcm':
        if rec['form'] == 'kcm':
            val, tol = compressed(x, rec['pre'])
            val, tol = val * rec['alpha'], tol * abs(rec['alpha']) + 1e-6 * np.abs(val)
        else:
            val, tol = compressed(x, arc['compress'])
        if arc['fmt'] == 'ark_t':
            tol = tol + 1e-6 + 1e-6 * np.abs(val)
        return Expect(val, tol)
    if arc['fmt'] == 'ark_t':
        with np.errstate(invalid='ignore'):
            return Expect(x, 0.5000001e-6 + np.abs(np.where(np.isfinite(x), x, 0)) * 1.2e-7)
    return Expect(x)


def compressed(x, method):
    """Nearest-level quantisation of Kaldi's compressed matrices: value and bound."""
    if method == 'auto':
        method = 'speech-feat' if x.shape[0] > 8 else '2byte-auto'
    if method in ('2byte-signed-integer', '1byte-unsigned-integer', '1byte-0-1'):
        lo, rng, lev = {'2byte-signed-integer': (-32768.0, 65535.0, 65535),
                        '1byte-unsigned-integer': (0.0, 255.0, 255),
                        '1byte-0-1': (0.0, 1.0, 255)}[method]
        val = np.clip(x, lo, lo + rng)
        step = rng / lev
        return val, np.full(x.shape, 0.52 * step) + 1e-6 * np.abs(val)
    lo, hi = x.min(), x.max()
    if hi == lo:
        hi = lo + 1 + abs(lo)
    rng = hi - lo
    eps = 4e-7 * (abs(lo) + abs(hi) + rng)
    if method == '2byte-auto':
        return x, np.full(x.shape, 0.52 * rng / 65535 + eps)
    if method == '1byte-auto':
        return x, np.full(x.shape, 0.52 * rng / 255 + eps)
    s16 = rng / 65535
    tol = np.zeros(x.shape)
    n = x.shape[0]
    for c in range(x.shape[1]):
        v = np.sort(x[:, c])
        if n >= 5:
            q = n // 4
            p = [v[0], v[q], v[3 * q], v[-1]]
        else:
            p = [v[min(i, n - 1)] for i in range(4)]
        m = 5 * s16
        for k, lev in enumerate((64, 128, 63)):
            sel = (x[:, c] >= p[k] - m) & (x[:, c] <= p[k + 1] + m)
            w = (p[k + 1] - p[k] + 3 * s16) / lev
            tol[sel, c] = np.maximum(tol[sel, c], 0.52 * w)
    return x, tol + 4 * s16 + eps


# --------------------------------------------------------------------------- write
def wspec(arc):
    opts, files = ['h5' if arc['fmt'] == 'h5' else 'ark'], [arc['path']]
    if arc['scp']:
        opts.append('scp')
        files.append(scp_path(arc))
    if arc['fmt'] == 'ark_t':
        opts.append('t')
    if arc['flush']:
        opts.append('f')
    return '%s:%s' % (','.join(opts), ','.join(files))


def scp_path(arc):
    return arc['path'].rsplit('.', 1)[0] + '.scp'


def open_writer(arc):
    d = os.path.dirname(arc['path'])
    if d and not os.path.isdir(d):
        os.makedirs(d)
    comp = dict(compress=bool(arc['compress']), compression_method=arc['compress'] or 'auto')
    if arc.get('sep', ' ') != ' ':
        comp['scp_sep'] = arc['sep']
    if arc['via'] == 'factory':
        from hyperion.io import DataWriterFactory
        return DataWriterFactory.create(wspec(arc), **comp)
    from hyperion.io import ArkDataWriter, H5DataWriter
    s = scp_path(arc) if arc['scp'] else None
    if arc['fmt'] == 'h5':
        return H5DataWriter(arc['path'], s, flush=arc['flush'], **comp)
    return ArkDataWriter(arc['path'], s, binary=arc['fmt'] == 'ark', flush=arc['flush'], **comp)


def do_calls(w, arc, ctx, on_ack=None):
    i = 0
    for form, m, fl in arc['calls']:
        recs = arc['recs'][i:i + m]
        if not recs:
            break
        i += len(recs)
        if form == 'single':
            for r in recs:
                w.write(r['key'], payload(r, arc))
        else:
            data = [payload(r, arc) for r in recs]
            if form == 'stack' and len({getattr(d, 'shape', None) for d in data}) == 1 and \
                    hasattr(data[0], 'shape') and len({d.dtype for d in data}) == 1:
                data = np.stack(data)
                ctx.probe('write-stacked')
            w.write([r['key'] for r in recs], data)
        ctx.ev('acked', [r['key'] for r in recs])
        if fl:
            w.flush()
            ctx.probe('flush-call')
        if on_ack:
            on_ack(recs, arc['flush'] or fl)


def write_archive(arc, ctx, on_ack=None):
    """Writes and closes one archive, raising whatever the writer raises."""
    if arc['end'] == 'with':
        with open_writer(arc) as w:
            do_calls(w, arc, ctx, on_ack)
    else:
        w = open_writer(arc)
        do_calls(w, arc, ctx, on_ack)
        w.close()


# --------------------------------------------------------------------------- read
class Entry(object):
    """One line of what a reader should walk through."""
    __slots__ = ('key', 'arc', 'rec', 'exp', 'rng', 'path', 'off')

    def __init__(self, key, arc, rec, rng=None):
        self.key, self.arc, self.rec, self.rng = key, arc, rec, rng
        self.exp = expect(rec, arc)

    def shape(self):
        return self.exp.val.shape


class Model(object):
    """Reference model of everything stored; remembers the value each lossy record was first
    read with, so that all read paths must agree on it."""

    def __init__(self, arcs, ctx):
        self.ctx = ctx
        self.arcs = arcs
        self.by_key = {}
        for a in arcs:
            for r in a['recs']:
                self.by_key[r['key']] = Entry(r['key'], a, r)
        self.seen = {}

    def check_value(self, key, got, row0=0, nrows=0, where='', squeeze=False):
        """got must be rows [row0, row0+nrows) (nrows 0: to the end) of the record."""
        e = self.by_key.get(key)
        if e is None:
            raise Violation('foreign-key', '%s returned a record for key %r that was never '
                            'written' % (where, key))
        exp = e.exp.val
        tol = e.exp.tol
        if row0 or nrows:
            end = row0 + nrows if nrows else None
            exp = exp[row0:end]
            tol = None if tol is None else tol[row0:end]
        got = np.asarray(got)
        check(got.shape == exp.shape, 'wrong-shape', lambda: '%s: record %r (%s%s) rows %d+%d has '
              'shape %s, expected %s' % (where, key, e.arc['fmt'], desc(e), row0, nrows, got.shape,
                                         exp.shape))
        g = got.astype(float)
        if tol is None:
            ok = (g == exp) | (np.isnan(g) & np.isnan(exp))
        else:
            with np.errstate(invalid='ignore'):
                ok = (np.abs(g - exp) <= tol) | (g == exp) | (np.isnan(g) & np.isnan(exp))
        if not ok.all():
            w = np.argwhere(~ok)[0]
            raise Violation('wrong-value', '%s: record %r (%s%s) rows %d+%d: %d of %d elements '
                            'differ, first at %s: read %r, stored %r' % (
                                where, key, e.arc['fmt'], desc(e), row0, nrows, (~ok).sum(), ok.size,
                                tuple(w), g[tuple(w)], exp[tuple(w)]))
        if tol is not None:
            full = self.seen.setdefault(key, np.full(e.exp.val.shape, np.nan))
            part = full[row0:row0 + nrows if nrows else None] if e.rec['kind'] == 'mat' else full
            diff = (part != g) & ~np.isnan(part)
            check(not diff.any(), 'paths-disagree', lambda: '%s: record %r (%s%s) read with a '
                  'value different from another read of it' % (where, key, e.arc['fmt'], desc(e)))
            part[...] = g
        self.ctx.probe('records-compared')


def desc(e):
    return ' ' + ' '.join(filter(None, [e.arc['compress'], e.rec.get('pre') and 'given ' +
                                        e.rec['pre']]))


def is_h5(arc):
    return arc['fmt'] == 'h5'


def script_lines(arc):
    with open(scp_path(arc)) as f:
        return f.read().splitlines()


def open_seq(kind, path, h5, via='class', **kw):
    """kind: 'arc' or 'scp'."""
    if via == 'factory':
        from hyperion.io import SequentialDataReaderFactory as F
        spec = ('scp:' if kind == 'scp' else 'h5:' if h5 else 'ark:') + path
        return F.create(spec, **kw)
    import hyperion.io as hio
    cls = {('arc', True): hio.SequentialH5FileDataReader,
           ('arc', False): hio.SequentialArkFileDataReader,
           ('scp', True): hio.SequentialH5ScriptDataReader,
           ('scp', False): hio.SequentialArkScriptDataReader}[(kind, h5)]
    return cls(path, **kw)


def open_rand(kind, path, h5, via='class', permissive=False, **kw):
    if via == 'factory':
        from hyperion.io import RandomAccessDataReaderFactory as F
        spec = ('scp' if kind == 'scp' else 'h5') + (',p:' if permissive else ':') + path
        return F.create(spec, **kw)
    import hyperion.io as hio
    cls = {('arc', True): hio.RandomAccessH5FileDataReader,
           ('scp', True): hio.RandomAccessH5ScriptDataReader,
           ('scp', False): hio.RandomAccessArkDataReader}[(kind, h5)]
    return cls(path, permissive=permissive, **kw)


def arc_order(arc):
    """Order in which a sequential reader walks a bare archive."""
    ks = [r['key'] for r in arc['recs']]
    return sorted(ks, key=lambda k: k.split('/')) if is_h5(arc) else ks


def shrink(plan):
    """Smaller stores for the minimiser."""
    import copy
    for a in range(len(plan['arcs'])):
        arc = plan['arcs'][a]
        for i in range(len(arc['recs'])):
            if len(arc['recs']) > 1:
                q = copy.deepcopy(plan)
                del q['arcs'][a]['recs'][i]
                yield q
        for i, r in enumerate(arc['recs']):
            for k, v in (('rows', 2), ('cols', 1)):
                if r[k] > v:
                    q = copy.deepcopy(plan)
                    q['arcs'][a]['recs'][i][k] = v
                    yield q
        if len(arc['calls']) > 1:
            q = copy.deepcopy(plan)
            q['arcs'][a]['calls'] = [['list', len(arc['recs']), False]]
            yield q
