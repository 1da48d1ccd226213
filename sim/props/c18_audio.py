"""C18: audio lists read sequentially and by key, over simulated files and simulated child
processes that exit with errors, are killed half-way or deliver nothing or garbage."""
import copy
import io
import os

import numpy as np

from sim import storage as st
from sim.core import Violation, attempt, check, guard
from sim.disk import Disk, _real_open
from sim.procs import Procs

RUNS = {'quick': 5000, 'thorough': 80000}
LISTS = ('faults', 'ops', 'files', 'segs')
STATE_RULE = 'sources, formats, segments, operations, faults and outcomes'
MUST_REACH = ['writer', 'pipe', 'file', 'segments', 'seg-clipped', 'seg-outside', 'parts', 'reset',
              'stereo', 'random-access', 'after-fault', 'raised', 'fault:eio-read',
              'fault:command-exit', 'fault:command-exit-full', 'fault:command-killed',
              'fault:command-empty', 'fault:command-garbage', 'fault:command-spawn', 'file-gone',
              'file-garbage', 'unknown-key', 'colliding-names']
REAL = ['SequentialAudioReader, RandomAccessAudioReader, AudioWriter', 'SCPList, SegmentList',
        'soundfile and libsndfile decoding']
STUB = ['child processes (table of outputs and exit codes)', 'system calls below the buffers',
        'file access below libsndfile']
ASSUMPTIONS = ['a command that exits with status 0 and a well-formed but short waveform is not '
               'told apart from a short recording', 'samples are inside the range of the format']


FORMATS = [('wav', 'PCM_16'), ('wav', 'PCM_16'), ('wav', 'PCM_32'), ('wav', 'FLOAT'),
           ('wav', 'DOUBLE'), ('flac', 'PCM_16'), ('au', 'PCM_16'), ('caf', 'PCM_16')]


def setup():
    import soundfile  # noqa: F401
    import hyperion.io  # noqa: F401


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    files, used = [], set()
    wfmt = rng.choice(FORMATS)
    mode = rng.choice(['writer', 'mixed', 'mixed', 'pipe', 'file'])
    for i in range(n):
        how = rng.choice(['writer', 'file', 'pipe', 'pipe']) if mode == 'mixed' else mode
        k = st.gen_key(rng, used, False)
        fmt = wfmt if how == 'writer' else rng.choice(FORMATS)
        files.append({'key': k, 'how': how, 'fmt': fmt[0], 'sub': fmt[1],
                      'fs': rng.choice([8000, 16000, 16000, 44100]), 'ch': rng.choice([1, 1, 1, 2]),
                      'len': rng.choice([1, 2, 7, 100, 801, 1600, 4000]),
                      'seed': rng.randint(0, 10 ** 6)})
    if rng.random() < 0.08:
        for k in ('spk1/u', 'spk1-u'):
            files.append(dict(files[0], key=k, how='writer', fmt=wfmt[0], sub=wfmt[1],
                              seed=rng.randint(0, 10 ** 6)))
    plan = {'io': st.gen_io(rng), 'faults': [], 'files': files, 'segs': None,
            'scale': rng.choice([None, 1, 32767, 2 ** 15]),
            'wcall': rng.choice(['single', 'list', 'array-fs', 'str']),
            'parts': rng.choice([1, 1, 2, 3, n, n + 2]), 'seg_obj': rng.random() < 0.3,
            'scp_obj': rng.random() < 0.3}
    if rng.random() < 0.5:
        segs = []
        for i in range(rng.choice([1, 2, 4, 8, 12])):
            f = rng.randrange(len(files))
            nf, fs = files[f]['len'], files[f]['fs']
            b = rng.randrange(nf) if rng.random() < 0.93 else nf + rng.randint(1, 400)
            e = b + rng.choice([1, 2, 5, 50, 400, 5000])
            segs.append(['s%s%03d' % (rng.choice(['', '_', '-x']), i), f, b, e,
                         rng.choice([0.3, 0.3, 0.4, 0.2])])
        plan['segs'] = segs
    nit = len(plan['segs'] or files)
    ops = []
    for _ in range(rng.randint(1, 8)):
        ops.append(rng.choice([['read', rng.randint(1, nit + 1)], ['read', 0], ['read', 1], ['next'],
                               ['reset'], ['eof'], ['iter', rng.randint(1, nit)]]))
    for _ in range(rng.randint(0, 4)):
        ops.append(['get', [rng.randint(0, nit) for _ in range(rng.randint(1, 5))],
                    rng.random() < 0.3])
    rng.shuffle(ops)
    plan['ops'] = ops
    return plan


def inject(plan, extra, rng, tier):
    if not extra:
        return
    n_read, runs = extra
    for _ in range(3 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        fl = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            m = rng.random()
            if runs and m < 0.6:
                i, k = rng.choice(runs)
                fl.append({'kind': 'cmd', 'cmd': i, 'run': rng.randrange(k),
                           'times': rng.choice([1, 1, 2, 99]),
                           'how': rng.choice(['exit', 'exit', 'exit-full', 'killed', 'empty',
                                              'garbage', 'spawn']),
                           'rc': rng.choice([1, 2, 127, 255]), 'part': rng.choice([0, 0.3, 0.8, 1]),
                           'seed': rng.randint(0, 10 ** 6)})
            elif m < 0.8 and n_read:
                fl.append({'kind': 'eio_read', 'n': rng.randint(1, n_read),
                           'times': rng.choice([1, 1, 2, 50])})
            else:
                fl.append({'kind': 'gone' if rng.random() < 0.4 else 'garbage-file',
                           'file': rng.randrange(len(plan['files'])),
                           'op': rng.randrange(len(plan['ops'])),
                           'what': rng.choice(['text', 'empty', 'head'])})
        q['faults'] = fl
        yield q


# --------------------------------------------------------------------------- data
FULL = {'PCM_16': 2. ** 15, 'PCM_32': 2. ** 31, 'FLOAT': 1., 'DOUBLE': 1.}


def raw(f):
    """Samples as they are handed to the writer."""
    r = np.random.RandomState(f['seed'])
    shape = (f['len'],) if f['ch'] == 1 else (f['len'], f['ch'])
    top = FULL[f['sub']]
    if top == 1:
        x = np.clip(r.randn(*shape) * 0.3, -0.99, 0.99)
        return x.astype(np.float32) if f['sub'] == 'FLOAT' else x
    x = np.floor(np.clip(r.randn(*shape) * 0.25, -1, 0.999) * top)
    if r.rand() < 0.3 and x.size:
        x.flat[r.randint(x.size)] = -top
    kind = r.randint(3)
    return x if kind == 0 else x.astype(np.int64 if kind == 1 else
                                        (np.int16 if f['sub'] == 'PCM_16' else np.int32))


class World(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.files = plan['files']
        self.table = {}
        self.paths = {}
        self.scale = 2. ** 15 if plan['scale'] is None else float(plan['scale'])
        self.segs = plan['segs'] if plan['segs'] else None
        self.write()
        self.items = self.build_items()

    def write(self):
        import soundfile as sf
        from hyperion.io import AudioWriter
        ctx, files = self.ctx, self.files
        lines = {}
        w = [f for f in files if f['how'] == 'writer']
        if w:
            ctx.probe('writer')
            names = [f['key'].replace('/', '-') for f in w]
            clash = len(set(names)) < len(names)
            if clash:
                ctx.probe('colliding-names')

            def go():
                kw = {'subtype': w[0]['sub']}
                if w[0]['sub'] == 'PCM_16' and len(w) % 2:
                    kw = {}                      # it is the default of these formats
                with AudioWriter('aud', 'aud.scp', audio_format=w[0]['fmt'], **kw) as o:
                    c = self.plan['wcall']
                    if c == 'str':
                        for f in w:
                            o.write(f['key'], raw(f), f['fs'])
                    elif c == 'single':
                        for f in w:
                            o.write([f['key']], [raw(f)], f['fs'])
                    else:
                        fs = [f['fs'] for f in w]
                        o.write([f['key'] for f in w], [raw(f) for f in w],
                                np.array(fs) if c == 'array-fs' else fs)
            if clash:
                _, e = attempt(go)
                if e is not None:
                    ctx.probe('raised')
                    self.files = files = [f for f in files if f not in w]
                    w = []
            else:
                guard(go)
        if w:
            with open('aud.scp') as h:
                got = [l.rstrip('\n').split(' ', 1) for l in h]
            check([k for k, _ in got] == [f['key'] for f in w], 'wrong-keys',
                  lambda: 'the script of the writer lists %s' % [k for k, _ in got])
            for k, p in got:
                lines[k] = p
        for i, f in enumerate(files):
            if f['how'] == 'writer':
                self.paths[f['key']] = lines[f['key']]
                continue
            ctx.probe(f['how'])
            bio = io.BytesIO()
            sf.write(bio, self.as_written(f), f['fs'], subtype=f['sub'], format=f['fmt'].upper())
            if f['how'] == 'file':
                p = 'in%d.%s' % (i, f['fmt'])
                with open(p, 'wb') as h:
                    h.write(bio.getvalue())
                lines[f['key']] = p
                self.paths[f['key']] = p
            else:
                cmd = ['sph2pipe -f wav -p -c 1 x%d.sph' % i, 'gunzip -c x%d.gz | sox -t wav - -t wav -' % i,
                       'cat x%d.wav' % i][f['seed'] % 3]
                self.table[cmd] = (i, bio.getvalue())
                lines[f['key']] = cmd + [' |', '|', ' | '][f['seed'] % 2]
        with open('wav.scp', 'w') as h:
            for f in files:
                h.write('%s %s\n' % (f['key'], lines[f['key']]))
        if self.segs:
            ctx.probe('segments')
            self.segs = [s for s in self.segs if s[1] < len(files)]
        if self.segs:
            with open('segments', 'w') as h:
                for s, f, b, e in self.times():
                    h.write('%s %s %r %r\n' % (s, f['key'], b, e))
        if any(f['ch'] > 1 for f in files):
            ctx.probe('stereo')

    def times(self):
        for s, f, b, e, frac in self.segs:
            f = self.files[f]
            # inside the sample, so that every way of rounding down agrees
            yield s, f, (b + frac) / f['fs'], (e + frac) / f['fs']

    @staticmethod
    def as_written(f):
        x = raw(f)
        return x.astype({'PCM_16': np.int16, 'PCM_32': np.int32}.get(f['sub'], x.dtype)) \
            if f['sub'].startswith('PCM') else x

    def build_items(self):
        """[(key, samples or None when the read must fail, fs, file)]"""
        out = []
        full = {f['key']: np.asarray(raw(f), dtype=np.float64) / FULL[f['sub']] * self.scale
                for f in self.files}
        if not self.segs:
            return [(f['key'], full[f['key']], f['fs'], f) for f in self.files]
        for (s, fi, b, e, _) in self.segs:
            f = self.files[fi]
            x = full[f['key']]
            if b >= len(x):
                self.ctx.probe('seg-outside')
                out.append((s, None, f['fs'], f))
                continue
            if e > len(x):
                self.ctx.probe('seg-clipped')
            out.append((s, x[b:min(e, len(x))], f['fs'], f))
        return out

    # ---- readers -------------------------------------------------------------
    def args(self):
        from hyperion.utils import SCPList, SegmentList
        p = self.plan
        scp = SCPList.load('wav.scp') if p['scp_obj'] else 'wav.scp'
        seg = None
        if self.segs:
            seg = SegmentList.load('segments', index_by_file=False) if p['seg_obj'] else 'segments'
        kw = {} if p['scale'] is None else {'wav_scale': p['scale']}
        return scp, seg, kw

    def seq(self, part=1, parts=1):
        from hyperion.io import SequentialAudioReader
        scp, seg, kw = self.args()
        return SequentialAudioReader(scp, seg, part_idx=part, num_parts=parts, **kw)

    def rand(self):
        from hyperion.io import RandomAccessAudioReader
        scp, seg, kw = self.args()
        return RandomAccessAudioReader(scp, seg, **kw)

    def same(self, item, key, x, fs, what):
        k, want, wfs, f = item
        check(want is not None, 'wrong-audio', lambda: '%s: segment %s outside its file read as %s '
              'samples' % (what, k, len(x)))
        check(key == k, 'wrong-keys', lambda: '%s: got %r, expected %r' % (what, key, k))
        check(fs == wfs, 'wrong-rate', lambda: '%s: %r has rate %s, written %s' % (what, k, fs, wfs))
        x = np.asarray(x)
        check(x.shape == want.shape, 'wrong-audio', lambda: '%s: %r has shape %s, should be %s' % (
            what, k, x.shape, want.shape))
        check(np.allclose(x, want, rtol=1e-12, atol=1e-9 * self.scale / 2 ** 15), 'wrong-audio',
              lambda: '%s: samples of %r differ by up to %g' % (what, k, np.abs(x - want).max()))
        self.ctx.probe('audio-compared')


class Run(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx

    def trouble(self):
        return len(self.d.failed) + len(self.p.failed) + self.broken

    def call(self, what, items, fn):
        """fn() reads items; returns the value or None after a legal error."""
        t0 = self.trouble()
        v, e = attempt(fn)
        if e is not None:
            ok = self.trouble() > t0 or self.broken or any(it[1] is None for it in items)
            check(ok, 'unexpected-exception', lambda: '%s raises %r' % (what, e))
            self.ctx.probe('raised')
            self.ctx.state(what[:4], 'raised')
            return None
        return (v,)

    def run(self):
        plan, ctx = self.plan, self.ctx
        self.broken = 0
        w = World(plan, ctx)
        if not w.items:
            return
        self.d = Disk(ctx, ctx.root, plan['io'],
                      [f for f in plan['faults'] if f['kind'] == 'eio_read'])
        self.p = Procs(ctx, w.table, plan['faults'])
        saved = {}
        with self.p:
            with self.d:
                self.session(w, saved)
            # storage and commands are healthy again: everything is there
            for p, b in saved.items():
                with open(p, 'wb') as h:
                    h.write(b)
            self.broken = 0
            self.p.faults = []
            if plan['faults']:
                ctx.probe('after-fault')
            self.final(w)
        ctx.state(tuple(sorted({(f['how'], f['fmt'], f['ch']) for f in w.files})), bool(w.segs),
                  plan['parts'], tuple(o[0] for o in plan['ops']),
                  tuple((f['kind'], f.get('how')) for f in plan['faults']))
        self.runs = sorted(self.p.runs.items())
        return [self.d.n_read, self.base_runs]

    def session(self, w, saved):
        plan, ctx, items = self.plan, self.ctx, w.items
        seq = rand = None
        pos = 0           # position, or None when it is not known (a batch failed half-way)
        for k, op in enumerate(plan['ops']):
            for f in plan['faults']:
                if f.get('op') == k and f['kind'] in ('gone', 'garbage-file'):
                    self.damage(w, f, saved)
            ctx.ev('op', op)
            if op[0] != 'get' and seq is None:
                r = self.call('open', [], lambda: w.seq())
                if r is None:
                    continue
                seq, pos = r[0], 0
            if op[0] == 'get' and rand is None:
                r = self.call('open', [], lambda: w.rand())
                if r is None:
                    continue
                rand = r[0]
            if op[0] == 'reset':
                ctx.probe('reset')
                guard(seq.reset)
                pos = 0
            elif op[0] == 'eof':
                if pos is not None:
                    check(bool(guard(seq.eof)) == (pos == len(items)), 'wrong-end',
                          lambda: 'eof() is wrong after %d of %d records' % (pos, len(items)))
            elif op[0] == 'get':
                self.get(w, rand, op)
            elif op[0] == 'read':
                pos = self.read(w, seq, pos, op[1])
            elif op[0] == 'next':
                pos = self.step(w, seq, pos)
            else:
                for _ in range(op[1]):
                    pos = self.step(w, seq, pos)
        self.base_runs = sorted(self.p.runs.items())

    def damage(self, w, f, saved):
        if f['file'] >= len(w.files):
            return
        p = w.paths.get(w.files[f['file']]['key'])
        if p is None or not os.path.exists(p):
            return
        with _real_open(p, 'rb') as h:
            b = h.read()
        saved.setdefault(p, b)
        self.broken += 1
        if f['kind'] == 'gone':
            self.ctx.probe('file-gone')
            os.unlink(p)
        else:
            self.ctx.probe('file-garbage')
            with _real_open(p, 'wb') as h:
                h.write({'text': b'no such host\n' * 20, 'empty': b'', 'head': b[:3]}[f['what']])
        self.bad = getattr(self, 'bad', set()) | {w.files[f['file']]['key']}

    def readable(self, it):
        return it[1] is not None and it[3]['key'] not in getattr(self, 'bad', ())

    def place(self, w, seq, pos, keys):
        """Position of a reader whose last batch failed, told by the first key it gives."""
        if pos is not None or not keys:
            return pos
        return [it[0] for it in w.items].index(keys[0]) if keys[0] in [
            it[0] for it in w.items] else 0

    def read(self, w, seq, pos, n):
        items = w.items
        rest = items if pos is None else (items[pos:] if n == 0 else items[pos:pos + n])
        r = self.call('read(%d)' % n, rest, lambda: seq.read(n) if n else seq.read())
        if r is None:
            return None
        ks, xs, fs = r[0]
        check(len(ks) == len(xs) == len(fs), 'wrong-keys', 'read returns lists of different sizes')
        pos = self.place(w, seq, pos, ks)
        if pos is None:
            return None
        m = len(items) - pos if n == 0 else min(n, len(items) - pos)
        check(len(ks) == m, 'lost-or-repeated', lambda: 'read(%d) at %d of %d gives %d records' % (
            n, pos, len(items), len(ks)))
        for it, k, x, f in zip(items[pos:], ks, xs, fs):
            self.served(it)
            w.same(it, k, x, f, 'read(%d)' % n)
        return pos + m

    def served(self, it):
        check(self.readable(it) or it[1] is None, 'wrong-audio', lambda: '%r is returned although '
              'its file is gone or garbage' % it[0])

    def step(self, w, seq, pos):
        items = w.items
        try:
            r = self.call('next', items if pos is None else items[pos:pos + 1],
                          lambda: self.next(seq))
        except StopIteration:
            r = (None,)
        if r is None:
            return pos
        if r[0] is None:
            check(pos is None or pos == len(items), 'lost-or-repeated',
                  lambda: 'iteration ends after %s of %d' % (pos, len(items)))
            return len(items)
        k, x, f = r[0]
        pos = self.place(w, seq, pos, [k])
        check(pos < len(items), 'lost-or-repeated', lambda: 'an extra record %r' % k)
        self.served(items[pos])
        w.same(items[pos], k, x, f, 'next')
        return pos + 1

    @staticmethod
    def next(seq):
        try:
            return next(seq)
        except StopIteration:
            return None

    def get(self, w, rand, op):
        items = w.items
        idx = [i for i in op[1] if i <= len(items)]
        if not idx:
            return
        self.ctx.probe('random-access')
        if op[2]:
            idx = idx[:1]
        keys = [items[i][0] if i < len(items) else 'nobody' for i in idx]
        its = [items[i] if i < len(items) else ('nobody', None, 0, {'key': ''}) for i in idx]
        if len(items) in idx:
            self.ctx.probe('unknown-key')
        r = self.call('get', its, lambda: rand.read(keys[0] if op[2] else keys))
        if r is None:
            return
        xs, fs = r[0]
        check(len(xs) == len(fs) == len(its), 'lost-or-repeated', lambda: 'get of %d keys gives %d' % (
            len(its), len(xs)))
        for it, k, x, f in zip(its, keys, xs, fs):
            self.served(it)
            w.same(it, k, x, f, 'get')

    def final(self, w):
        """The parts, read over healthy storage, cover the list once."""
        n = self.plan['parts']
        if n > 1:
            self.ctx.probe('parts')
        got, whole = {}, True
        want = {it[0]: it for it in w.items}
        order = [it[0] for it in w.items]
        for j in range(1, n + 1):
            r = guard(w.seq, j, n)
            last = -1
            while True:
                ks = []
                try:
                    ks, xs, fs = r.read(1)
                except Exception as e:
                    check(any(it[1] is None for it in w.items), 'unexpected-exception',
                          lambda: 'part %d of %d: %r' % (j, n, e))
                    whole = False        # this part stays in front of a segment without samples
                    break
                if not ks:
                    break
                k = ks[0]
                check(k in want, 'wrong-keys', lambda: 'part %d gives %r' % (j, k))
                w.same(want[k], k, xs[0], fs[0], 'part %d of %d' % (j, n))
                got[k] = got.get(k, 0) + 1
                if n == 1:
                    check(order.index(k) > last, 'lost-or-repeated', lambda: 'part %d of %d is out of '
                          'order at %r' % (j, n, k))
                    last = order.index(k)
            check(ks or guard(r.eof) or not whole, 'wrong-end', 'eof() after everything was read')
        check(not whole and max(got.values(), default=1) == 1 or got == {k: 1 for k in want}, 'lost-or-repeated', lambda: 'the %d parts give %s' % (
            n, {k: got.get(k, 0) for k in want if got.get(k, 0) != 1}))


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    if plan.get('segs') is not None:
        plan['segs'] = [s for s in plan['segs'] if s[1] < len(plan['files'])]
    if not plan['files']:
        return
    return Run(plan, ctx).run()


def shrink(plan):
    if plan['parts'] > 1:
        yield dict(plan, parts=1)
    for i, f in enumerate(plan['files']):
        if f['len'] > 2 and not plan['segs']:
            q = copy.deepcopy(plan)
            q['files'][i]['len'] = 2
            yield q
