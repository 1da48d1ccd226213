"""C25: a segmentation says the same about every file through each of its forms: diarization file,
segment list, binary decisions per frame, intervals of time.

The programs that convert one form into another run as jobs over parts that are killed, fail on
I/O and are retried; the lists live through histories of operations, copies, saves and restarts.
The reference is a table of spans in milliseconds."""
import copy
import os

import numpy as np

from sim import scripts
from sim.core import SimCrash, Violation, check, guard
from sim.disk import Disk
from sim.props import c24_evaluation as E

RUNS = {'quick': 1500, 'thorough': 30000}
STATE_RULE = 'kinds of the jobs, their options and operations and what happened to each part'
KINDS = ['segvad', 'rttmvad', 'h5nist', 'arknist', 'ark2hyp', 'ops']
RTTM_OPS = ['filter', 'filter_not', 'split', 'merge', 'getitem', 'iterate', 'contains', 'copy',
            'switch', 'stats', 'join', 'cut', 'names', 'prepend', 'matrix', 'tosegs', 'reload',
            'fromsegs', 'differ']
SEG_OPS = ['filter', 'filter_not', 'split', 'merge', 'getitem', 'iterate', 'contains', 'copy',
           'switch', 'binvad', 'reload']
MUST_REACH = ['kind:' + k for k in KINDS] + ['op:' + o for o in sorted(set(RTTM_OPS + SEG_OPS))] + [
    'fault:crash', 'fault:eio-read', 'fault:eio-write', 'fault:enospc', 'retried', 'failed-loudly',
    'split', 'frames-known', 'frames-unknown', 'silent-file', 'file-not-listed', 'joined', 'cut',
    'leftover-complete', 'leftover-refused', 'squeezed', 'chunked', 'text-archive']
REAL = ['segments-to-bin-vad, rttm-to-bin-vad, h5vad2nist, arkvad2nist, ark2hyp (as programs, from '
        'their command line)', 'RTTM, SegmentList', 'KaldiDataReader, HypDataReader, HypDataWriter, '
        'archive writers and readers', 'pandas, HDF5']
STUB = ['system calls below the buffers', 'the shell that starts the programs and retries them']
ASSUMPTIONS = ['a segment covers the frames from the one of its start to the one of its end, both '
               'included', 'overlaps are cut between segments of which none contains another',
               'times are not halfway between two frames']
LISTS = ('jobs', 'ops')


def setup():
    from hyperion import utils, io  # noqa: F401


def gen(rng, tier):
    p = {'seed': rng.randint(0, 10 ** 6), 'jobs': [], 'rows': [], 'byfile': rng.random() < 0.7,
         'shift': rng.choice([10, 10, 20, 12.5]), 'up': rng.random() < 0.15}
    files = ['f%d' % i if rng.random() < 0.7 else rng.choice(['10', 'NA', '007', 'x-y', 'null']) + str(
        i) * (rng.random() < 0.5) for i in range(rng.randint(1, 5))]
    files = list(dict.fromkeys(files))
    spk = rng.choice([['a', 'b', 'c'], ['1', '2', '10'], ['NA', 'None', 's@1']])
    for f in files:
        t = rng.choice([0, 0, 100, 700])
        prev = t
        for _ in range(rng.randint(1, 5)):
            dur = rng.choice([0, 100, 200, 500, 1300])
            p['rows'].append([rng.choice(['SPEAKER', 'SPEAKER', 'SPEAKER', 'NON-LEX']), f, t, dur,
                              rng.choice(spk)])
            t = max(0, rng.choice([t + dur, t + dur + 100, t + dur + 400, t + dur - 100, t + 100, t]))
            t = max(t, prev)
            prev = t
    for i in range(rng.randint(1, 3 if tier == 'quick' else 5)):
        k = rng.choice(KINDS + ['ops', 'ops'])
        j = {'id': i, 'kind': k, 'seed': rng.randint(0, 10 ** 6), 'np': rng.randint(0, 10 ** 6),
             'faults': [], 'fpart': 0, 'fmt': rng.choice(['ark', 'ark,t', 'h5'])}
        if k in ('segvad', 'rttmvad'):
            j['nparts'] = rng.choice([1, 1, 2, 3])
            j['frames'] = rng.choice([None, 'all', 'all', 'extra', 'fewer'])
            j['scp'] = rng.random() < 0.5
        elif k == 'ark2hyp':
            j.update(chunk=rng.choice([None, 1, 2, 3]), squeeze=rng.random() < 0.5,
                     field=rng.choice(['', '.x']), dir=rng.random() < 0.3)
        elif k == 'arknist':
            j['dir'] = rng.random() < 0.3
        elif k == 'ops':
            j['cls'] = rng.choice(['rttm', 'rttm', 'seg'])
            o = RTTM_OPS if j['cls'] == 'rttm' else SEG_OPS
            p['ops'] = p.get('ops', [])
            for _ in range(rng.randint(3, 8 if tier == 'quick' else 16)):
                p['ops'].append({'job': i, 'op': rng.choice(o), 'a': rng.randint(0, 10 ** 6)})
        p['jobs'].append(j)
    p.setdefault('ops', [])
    p['io'] = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
               'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    return p


inject = E.inject


class Slot(object):
    def __init__(self, obj, rows, byfile, labels=None):
        self.obj, self.rows, self.byfile = obj, rows, byfile


class Run(E.Run):
    def prepare(self):
        p = self.p
        self.rows = [list(r) for r in p['rows']]
        self.files_ = list(dict.fromkeys(r[1] for r in self.rows))
        self.r = np.random.RandomState(p['seed'])
        r = self.r
        # binary decisions of some recordings, for the conversions
        self.vad = {}
        for f in self.files_ + ['z']:
            n = r.randint(1, 40)
            v = np.zeros(n)
            for _ in range(r.randint(0, 4)):
                a = r.randint(0, n)
                v[a:a + r.randint(1, 10)] = 1
            self.vad[f] = v
        self.mats = {'m%d' % i: f32(r.randn(*s)) for i, s in enumerate(
            [(r.randint(1, 6), r.randint(1, 4)) for _ in range(r.randint(1, 6))])}

    # ---- decisions per frame
    def frames(self, rows, f, n=None):
        s = self.p['shift']
        at = lambda t: int(np.floor(t / s + 0.5))
        n = max(at(t + d) for _, g, t, d, _ in rows if g == f) if n is None else n
        v = np.zeros(n, dtype=int)
        for _, g, t, d, _ in rows:
            if g == f:
                v[at(t):at(t + d) + 1] = 1
        return v

    def tied(self, rows):
        s = self.p['shift']
        return any(abs((x / s) % 1 - 0.5) < 1e-6 for r in rows for x in (r[2], r[2] + r[3]))

    def binvad(self, j):
        from hyperion.io import RandomAccessDataReaderFactory as DRF
        from hyperion.utils import RTTM, SegmentList
        p, k = self.p, j['kind']
        r = np.random.RandomState(j['seed'])
        rows = self.rows
        if self.tied(rows):
            return 'tied'
        src = 'src%d' % j['id']
        ids = ['%s_%d' % (q[1], i) for i, q in enumerate(rows)]
        with Disk(self.ctx, self.ctx.root, p['io']):
            if k == 'segvad':
                SegmentList.create(ids, [q[1] for q in rows], [q[2] / 1000. for q in rows],
                                   [(q[2] + q[3]) / 1000. for q in rows]).save(src)
                order = sorted(self.files_)
            else:
                self.rttm(rows).save(src)
                order = sorted(self.files_)
            num, silent = {}, []
            if j['frames']:
                self.ctx.probe('frames-known')
                for f in self.files_:
                    need = len(self.frames(rows, f))
                    num[f] = max(1, need + r.choice([-3, -1, 0, 1, 5]))
                if j['frames'] == 'extra':
                    silent = ['q1', 'q2'][:r.randint(1, 3)]
                    num.update((f, r.randint(1, 9)) for f in silent)
                elif j['frames'] == 'fewer' and len(num) > 1:
                    num.pop(self.files_[r.randint(len(self.files_))])
                keys = list(num)
                keys = [keys[i] for i in r.permutation(len(keys))]
                self.text('num%d' % j['id'], ['%s %d' % (f, num[f]) for f in keys])
            else:
                self.ctx.probe('frames-unknown')
        miss = [f for f in self.files_ if j['frames'] and f not in num]
        n = min(j['nparts'], len(order))
        if n > 1:
            self.ctx.probe('split')
        sts, merged = [], {}
        for q in range(n):
            a, x = 'vad%d.%d' % (j['id'], q), 'vad%d.%d.scp' % (j['id'], q)
            spec = '%s,scp:%s,%s' % (j['fmt'], a, x) if j['scp'] else '%s:%s' % (j['fmt'], a)
            fmt = 'h5' if j['fmt'] == 'h5' else 'ark'
            rspec = 'scp:' + x if j['scp'] and fmt == 'ark' else None
            args = ['--segments' if k == 'segvad' else '--rttm', src, '--frame-shift',
                    str(p['shift']), '--output-path', spec, '--part-idx', str(q + 1),
                    '--num-parts', str(n)]
            if j['frames']:
                args += ['--num-frames', 'num%d' % j['id']]
            part = order[q * len(order) // n:(q + 1) * len(order) // n]
            want = {}
            for f in part:
                if f not in miss:
                    want[f] = self.frames(rows, f, num.get(f))
            if k == 'rttmvad' and q == 0:
                for f in silent:
                    self.ctx.probe('silent-file')
                    want[f] = np.ones(num[f], dtype=int)
            bad = [f for f in part if f in miss or len(want[f]) == 0]

            def content():
                from hyperion.io import SequentialDataReaderFactory as SF
                with Disk(self.ctx, self.ctx.root, p['io']):
                    with SF.create(rspec or '%s:%s' % (fmt, a)) as rd:
                        ks, xs = rd.read(0, squeeze=False)
                    return {str(f): np.asarray(v).ravel() for f, v in zip(ks, xs)}

            def left():
                try:
                    got = content()
                except Exception:
                    return False
                for f, v in got.items():
                    # a text archive cut in a number is not told from a shorter number, nor an
                    # HDF5 file whose writer died from one with zeros
                    check(f in want and (np.array_equal(v, want[f]) or j['fmt'] != 'ark'),
                          'wrong-decision', lambda: 'a failed job leaves %s for %s, should be %s' % (
                              v, f, want.get(f)))
                return set(got) == set(want)

            def verify():
                got = guard(content)
                check(set(got) == set(want), 'wrong-files', lambda: '%s part %d of %d: decisions for %s, '
                      'its files are %s' % (k, q + 1, n, sorted(got), sorted(want)))
                for f, v in want.items():
                    check(np.array_equal(got[f], v), 'wrong-decision', lambda: '%s of %s: %s, its '
                          'segments say %s' % (k, f, got[f].astype(int), v))
                for f in got:
                    check(f not in merged, 'wrong-files', lambda: '%s is in two parts' % f)
                    merged[f] = got[f]

            script = 'segments-to-bin-vad.py' if k == 'segvad' else 'rttm-to-bin-vad.py'
            body = lambda: scripts.main(script, args)
            if bad:
                if any(f in miss for f in bad):
                    self.ctx.probe('file-not-listed')
                    st = self.process(body, [], 0)[0]
                    check(st == 'failed', 'incomplete-success', lambda: 'the number of frames of %s is '
                          'not given and %s succeeds' % (bad, k))
                    sts.append('refused')
                continue
            sts.append(self.job(j, body, left, verify, [a, x],
                                len(self.info.get(str(j['id']), []))))
        return sts

    # ---- intervals
    def intervals(self, f, v, path):
        txt = open(path).read()
        check(txt.endswith('\n'), 'wrong-intervals', lambda: '%s is cut: %r' % (path, txt))
        t, last, back = 0., None, []
        for l in txt[:-1].split('\n'):
            w = l.split('\t')
            check(len(w) == 9 and w[3] == 'SAD' and w[4] == f and w[7] in ('speech', 'non-speech'),
                  'wrong-intervals', lambda: '%s: line %r' % (path, l))
            a, b = float(w[5]), float(w[6])
            check(abs(a - t) < 1e-6 and b > a and w[7] != last, 'wrong-intervals', lambda: 'intervals '
                  'of %s do not follow each other:\n%s' % (f, txt))
            back += [int(w[7] == 'speech')] * int(round((b - a) * 100))
            t, last = b, w[7]
        check(back == [int(x) for x in v], 'wrong-intervals', lambda: 'decisions %s of %s become\n%s' % (
            v.astype(int), f, txt))

    def nist(self, j):
        from hyperion.io import DataWriterFactory, HypDataWriter
        k = j['kind']
        r = np.random.RandomState(j['seed'])
        keys = [list(self.vad)[i] for i in r.permutation(len(self.vad))]
        src, out = 'in%d' % j['id'], 'out%d' % j['id']
        with Disk(self.ctx, self.ctx.root, self.p['io']):
            if k == 'h5nist':
                with HypDataWriter(src) as w:
                    w.write(keys, '', [self.vad[f] for f in keys])
                args = ['--input-file', src]
            else:
                if j['dir']:
                    os.mkdir('d%d' % j['id'])
                a = ('d%d/a' if j['dir'] else 'a%d') % j['id']
                with DataWriterFactory.create('ark,scp:%s,%s' % (a, src)) as w:
                    for f in keys:
                        w.write(f, self.vad[f])
                args = ['--input-file', src]
                if j['dir']:
                    t = open(src).read().replace('d%d/' % j['id'], '')
                    open(src, 'w').write(t)
                    args += ['--input-dir', 'd%d' % j['id']]
        paths = {f: '%s/%s.txt' % (out, f) for f in keys}

        def verify():
            check(os.path.isdir(out) and {
                f for f in os.listdir(out) if f.endswith('.txt')} == {f + '.txt' for f in keys},
                  'wrong-files', lambda: '%s: files %s, should be for %s' % (
                      k, os.listdir(out) if os.path.isdir(out) else None, keys))
            for f in keys:
                self.intervals(f, self.vad[f], paths[f])

        script = 'h5vad2nist.py' if k == 'h5nist' else 'arkvad2nist.py'
        return self.job(j, lambda: scripts.main(script, args + ['--output-dir', out]), None,
                        verify, list(paths.values()))

    h5nist = arknist = nist

    # ---- features in the old HDF5 form
    def ark2hyp(self, j):
        from hyperion.io import DataWriterFactory
        from hyperion.io.hyp_data_reader import HypDataReader
        r = np.random.RandomState(j['seed'])
        keys = [list(self.mats)[i] for i in r.permutation(len(self.mats))]
        vals = {f: self.mats[f][0] if r.rand() < 0.3 else self.mats[f] for f in keys}
        src, out = 'mi%d' % j['id'], 'mo%d.h5' % j['id']
        with Disk(self.ctx, self.ctx.root, self.p['io']):
            if j['dir']:
                os.mkdir('md%d' % j['id'])
            a = ('md%d/a' if j['dir'] else 'ma%d') % j['id']
            text = r.rand() < 0.3
            if text:
                self.ctx.probe('text-archive')
                # (few decimals); a vector in text is read as a matrix of one row
                vals = {f: np.atleast_2d(np.round(v * 16) / 16) for f, v in vals.items()}
            with DataWriterFactory.create('ark%s,scp:%s,%s' % (',t' if text else '', a, src)) as w:
                for f in keys:
                    w.write(f, vals[f])
            if j['dir']:
                t = open(src).read().replace('md%d/' % j['id'], '')
                open(src, 'w').write(t)
        args = ['--input-file', src, '--output-file', out, '--field', j['field']]
        if j['dir']:
            args += ['--input-dir', 'md%d' % j['id']]
        if j['chunk']:
            self.ctx.probe('chunked')
            args += ['--chunk-size', str(j['chunk'])]
        if j['squeeze']:
            self.ctx.probe('squeezed')
            args += ['--squeeze']
            vals = {f: np.squeeze(v) for f, v in vals.items()}

        def content():
            with Disk(self.ctx, self.ctx.root, self.p['io']):
                rd = HypDataReader(out)
                n = rd.get_datasets()
                ks = [x[:len(x) - len(j['field'])] for x in n]
                xs = rd.read(ks, j['field'])
                if all(v.ndim > 0 for v in xs):
                    nr = rd.get_num_rows(ks, j['field'])
                    check(list(nr) == [len(v) for v in xs], 'wrong-rows', lambda: 'rows %s of %s' % (
                        nr, [v.shape for v in xs]))
                    for f, v in zip(ks, xs):
                        b = r.randint(0, len(v))
                        n = r.randint(1, len(v) - b + 1)
                        check(np.array_equal(rd.read_slice(f, b, n, j['field']), v[b:b + n]),
                              'wrong-rows', lambda: 'slice of %s' % f)
                        y, i = rd.read_random_slice(f, n, r, j['field'])
                        check(np.array_equal(y, v[i:i + n]) and len(y) == n, 'wrong-rows',
                              lambda: 'random slice of %s' % f)
                        y, _ = rd.read_random_samples(f, n, r, j['field'], replace=False)
                        check(len(y) == n and sorted(map(_key, y)) != [] and all(
                            sum(_key(a) == _key(b) for a in y) <= sum(_key(a) == _key(b) for a in v)
                            for b in y), 'wrong-rows', lambda: 'random samples of %s' % f)
                if len({v.shape for v in xs}) == 1 and xs[0].ndim:
                    check(np.array_equal(rd.read(np.array(ks, dtype=object), j['field'],
                                                 return_tensor=True), np.array(xs)), 'wrong-rows',
                          lambda: 'as a tensor')
                rd.f.close()
                return dict(zip(ks, xs))

        def left():
            try:
                got = content()
            except Violation:
                raise
            except Exception:
                return False
            return all(f in got and np.array_equal(got[f], v) for f, v in vals.items())

        def verify():
            got = guard(content)
            check(set(got) == set(vals), 'wrong-files', lambda: 'ark2hyp: %s, should be %s' % (
                sorted(got), sorted(vals)))
            for f, v in vals.items():
                check(got[f].shape == v.shape and np.array_equal(got[f], v), 'wrong-values', lambda:
                      'ark2hyp of %s: %s, should be %s' % (f, got[f], v))

        return self.job(j, lambda: scripts.main('ark2hyp.py', args), left, verify, [out])

    # ---- histories of operations
    def rttm(self, rows, byfile=True):
        from hyperion.utils import RTTM
        return RTTM.create([q[0] for q in rows], [q[1] for q in rows], None,
                           [q[2] / 1000. for q in rows], [q[3] / 1000. for q in rows],
                           name=[q[4] for q in rows], index_by_file=byfile)

    def seglist(self, rows, byfile=True):
        from hyperion.utils import SegmentList
        return SegmentList.create([q[4] for q in rows], [q[1] for q in rows],
                                  [q[2] / 1000. for q in rows], [(q[2] + q[3]) / 1000. for q in rows],
                                  index_by_file=byfile)

    def same(self, s, what, tol=1e-5):
        o = s.obj
        if self.cls == 'rttm':
            got = [[str(a), str(b), float(c), float(d), str(e)] for a, b, c, d, e in zip(
                o.segments['segment_type'], o.file_id, o.tbeg, o.tdur, o.name)]
        else:
            got = [[None, str(b), float(c), float(d) - float(c), str(e)] for b, c, d, e in zip(
                o.file_id, o.tbeg, o.tend, o.segment_id)]
        ok = len(got) == len(s.rows) == len(o) and all(
            g[0] == w[0] and g[1] == w[1] and g[4] == w[4] and abs(g[2] - w[2] / 1000.) < tol and
            abs(g[3] - w[3] / 1000.) < tol for g, w in zip(got, s.rows))
        check(ok, 'wrong-segments', lambda: '%s: %s, should be %s' % (what, got, s.rows))
        check(bool(o.index_by_file) == s.byfile, 'wrong-segments', lambda: 'index of %s' % what)

    def make(self, rows, byfile):
        return guard(self.rttm if self.cls == 'rttm' else self.seglist, rows, byfile)

    def valid(self, rows):
        # the segments of a file are in order of time
        return self.cls == 'seg' or all(a[1] != b[1] or b[2] >= a[2] for i, b in enumerate(rows)
                                        for a in rows[:i])

    def ops(self, j):
        self.cls = j['cls']
        rows = [list(q) for q in self.rows]
        if self.cls == 'seg':
            rows = [[None] + q[1:4] + ['%s_%d' % (q[1], i)] for i, q in enumerate(rows)]
        slots = [Slot(self.make(rows, self.p['byfile']), rows, self.p['byfile'])]
        self.j = j
        self.nrel = 0
        self.done = []
        for n, o in enumerate(self.p['ops']):
            if o['job'] != j['id']:
                continue
            r = np.random.RandomState(o['a'])
            s = slots[r.randint(len(slots))]
            self.ctx.ev('op', o['op'])
            np.random.seed(o['a'] % 997)
            new = self.op(o['op'], s, slots, r)
            self.ctx.probe('op:' + o['op'])
            self.done.append(o['op'])
            if new is not None:
                if len(slots) < 4 and r.rand() < 0.5:
                    slots.append(new)
                else:
                    slots[r.randint(len(slots))] = new
            for q in slots:
                self.same(q, 'after %s' % self.done)
        return self.done

    def keys(self, s):
        if s.byfile:
            return list(dict.fromkeys(q[1] for q in s.rows))
        if self.cls == 'rttm':
            return list(s.obj.segments.index)
        return [q[4] for q in s.rows]

    def by(self, s, keys):
        """Rows of the keys, in the order of the keys."""
        if s.byfile:
            return [list(q) for f in keys for q in s.rows if q[1] == f]
        lab = self.keys(s)
        return [list(s.rows[i]) for f in keys for i, l in enumerate(lab) if l == f]

    def op(self, op, s, slots, r):
        ctx, cls, o = self.ctx, self.cls, s.obj
        K = self.keys(s)
        if op in ('filter', 'filter_not'):
            pick = [K[i] for i in r.permutation(len(K))[:r.randint(1, len(K) + 1)]]
            if not s.byfile:
                pick = [k for k in K if k in pick]
            if len(set(K)) != len(K):
                pick = list(dict.fromkeys(pick))
            if op == 'filter_not':
                rest = sorted(set(K) - set(pick))
                rows = self.by(s, rest)
                if not rest or not self.valid(rows):
                    return
            else:
                rows = self.by(s, pick)
            a = np.array(pick) if r.rand() < 0.5 else pick
            return Slot(guard(o.filter, a, op == 'filter'), rows, s.byfile)
        if op == 'split':
            if len(set(K)) != len(K):
                return
            U = sorted(K) if s.byfile and cls == 'seg' else K
            n = r.randint(1, len(U) + 1)
            parts = []
            for i in range(n):
                q = guard(o.split, i + 1, n)
                t = Slot(q, self.by(s, U[i * len(U) // n:(i + 1) * len(U) // n]), s.byfile)
                self.same(t, 'part %d of %d' % (i + 1, n))
                parts.append(t)
            m = guard(type(o).merge, [q.obj for q in parts], s.byfile)
            self.same(Slot(m, [x for q in parts for x in q.rows], s.byfile), 'the merged parts')
            return parts[r.randint(n)]
        if op == 'merge':
            t = slots[r.randint(len(slots))]
            rows = [list(q) for q in s.rows + t.rows]
            if not self.valid(rows) or len(rows) > 30:
                return
            b = bool(r.randint(2))
            return Slot(guard(type(o).merge, [o, t.obj], b), rows, b)
        if op == 'getitem':
            i = r.randint(len(K))
            if s.byfile:
                if cls == 'seg' and r.rand() < 0.5:
                    U = sorted(K)
                    k, g = U[i], guard(o.__getitem__, i)
                else:
                    k, g = K[i], guard(o.__getitem__, K[i])
                return Slot(g, self.by(s, [k]), False)
            if len(set(K)) != len(K):
                return
            if cls == 'seg' and r.rand() < 0.5:
                g = guard(o.__getitem__, K[i])
            else:
                g = guard(o.__getitem__, i)
            w = s.rows[i]
            e = g['tbeg'] + g['tdur'] if cls == 'rttm' else g['tend']
            check(str(g['file_id']) == w[1] and abs(g['tbeg'] - w[2] / 1000.) < 1e-5 and
                  abs(e - (w[2] + w[3]) / 1000.) < 1e-5, 'wrong-lookup', lambda: 'item %r: %s, should '
                  'be %s' % (K[i], dict(g), w))
        elif op == 'iterate':
            U = sorted(K) if s.byfile and cls == 'seg' else K
            n = 0
            for g in guard(list, o):
                if s.byfile:
                    self.same(Slot(g, self.by(s, [U[n]]), False), 'iteration')
                else:
                    check(str(g['file_id']) == s.rows[n][1] and abs(
                        g['tbeg'] - s.rows[n][2] / 1000.) < 1e-5, 'wrong-lookup', lambda: 'item %d of '
                        'the iteration: %s' % (n, dict(g)))
                n += 1
            check(n == (len(U) if s.byfile else len(s.rows)), 'wrong-lookup', lambda: '%d items' % n)
        elif op == 'contains':
            if cls == 'seg':
                has, no = s.rows[r.randint(len(s.rows))][4], 'nobody'
            else:
                has, no = K[r.randint(len(K))], 'nobody' if s.byfile else 10 ** 6
            check(guard(lambda: has in o) and not guard(lambda: no in o), 'wrong-lookup', lambda:
                  '%r should be in %s and %r not' % (has, K, no))
            if cls == 'seg':
                f = s.rows[r.randint(len(s.rows))][1]
                g = list(guard(o.segments_ids_from_file, f))
                check(g == [q[4] for q in s.rows if q[1] == f], 'wrong-lookup', lambda: 'segments of '
                      '%s: %s' % (f, g))
        elif op == 'copy':
            c = guard(o.copy)
            check(guard(lambda: c == o) and not guard(lambda: c != o), 'wrong-equality', lambda: 'a '
                  'copy of %s differs' % s.rows)
            rows = [list(q) for q in s.rows]
            i = r.randint(len(rows))
            what = r.choice(['file', 'time', 'name', 'drop'])
            if what == 'file':
                f = rows[i][1]
                for q in rows:
                    if q[1] == f:
                        q[1] = 'other'
            elif what == 'time':
                rows[i][3] += 100
            elif what == 'name':
                rows[i][4] += 'x'
            elif len(rows) > 1:
                rows.pop(i)
            if rows != s.rows and self.valid(rows):
                z = self.make(rows, s.byfile)
                check(not guard(lambda: z == o) and guard(lambda: z != o), 'wrong-equality', lambda:
                      '%s equals %s' % (rows, s.rows))
            return Slot(c, [list(q) for q in s.rows], s.byfile)
        elif op == 'switch':
            s.byfile = not s.byfile
            guard(setattr, o, 'index_by_file', s.byfile)
        elif op == 'stats':
            F = list(dict.fromkeys(q[1] for q in s.rows))
            spk = {f: len({q[4] for q in s.rows if q[1] == f and q[0] == 'SPEAKER'}) for f in F}
            g = guard(lambda: (o.num_files, o.total_num_spks, dict(o.num_spks_per_file),
                               float(o.avg_num_spks_per_file), len(o)))
            w = (len(F), len({q[4] for q in s.rows if q[0] == 'SPEAKER'}), spk,
                 np.mean(list(spk.values())), len(s.rows))
            check(g[:3] == w[:3] and abs(g[3] - w[3]) < 1e-9 and g[4] == w[4], 'wrong-stats', lambda:
                  'counts %s of %s, should be %s' % (g, s.rows, w))
            info, hist, n = guard(o.compute_stats)
            d = [q[3] / 1000. for q in s.rows]
            check(abs(info['mean'] - np.mean(d)) < 1e-5 and abs(info['max'] - max(d)) < 1e-5 and
                  abs(info['min'] - min(d)) < 1e-5 and hist[0].sum() == len(d) and
                  n == len({q[4] for q in s.rows}), 'wrong-stats', lambda: 'durations %s' % (info,))
        elif op == 'join':
            m = int(r.choice([0, 100, 300]))
            guard(o.merge_adjacent_segments, m / 1000. + 1e-6)
            R, drop = [list(q) for q in s.rows], []
            for i in range(len(R) - 1, 0, -1):
                a, b = R[i - 1], R[i]
                if a[:2] == b[:2] and a[4] == b[4] and b[2] - (a[2] + s.rows[i - 1][3]) <= m:
                    a[3] = max(a[2] + a[3], b[2] + b[3]) - a[2]
                    drop.append(i)
                    ctx.probe('joined')
            s.rows = [q for i, q in enumerate(R) if i not in drop]
        elif op == 'cut':
            for a, b, c in zip(s.rows, s.rows[1:], s.rows[2:] + [None]):
                if a[1] == b[1] and (b[2] + b[3] <= a[2] + a[3] or b[2] <= a[2]):
                    return
                if c and a[1] == c[1] and c[2] < a[2] + a[3]:
                    return
            guard(o.eliminate_overlaps)
            R = [list(q) for q in s.rows]
            for a, b, x, y in zip(s.rows, s.rows[1:], R, R[1:]):
                if a[:2] == b[:2] and b[2] < a[2] + a[3]:
                    ctx.probe('cut')
                    mid = (b[2] + a[2] + a[3]) / 2.
                    x[3] = mid - x[2]
                    y[3] = y[2] + y[3] - mid
                    y[2] = mid
            s.rows = R
        elif op == 'names':
            from hyperion.utils import SegmentList
            F = list(dict.fromkeys(q[1] for q in s.rows)) + ['none']
            q = []
            for i in range(r.randint(1, 6)):
                t = 50 + 100 * r.randint(0, 40)
                q.append([None, F[r.randint(len(F))], t, 100 * r.randint(1, 12), 'x%d' % i])
            q.sort(key=lambda a: (a[1], a[2]))
            self.cls = 'seg'
            L = self.make(q, bool(r.randint(2)))
            self.cls = 'rttm'
            sep = str(r.choice(['@', '+']))
            a, na = guard(o.get_segment_names, L, sep)
            b, nb = guard(o.get_segment_names_slow, L, sep)
            for i, x in enumerate(q):
                on = lambda t: {y[4] for y in s.rows if y[0] == 'SPEAKER' and y[1] == x[1] and
                                y[2] <= t < y[2] + y[3]}
                lo = on(x[2]) | on(x[2] + x[3])
                hi = {y[4] for y in s.rows if y[0] == 'SPEAKER' and y[1] == x[1] and
                      y[2] < x[2] + x[3] and y[2] + y[3] > x[2]} | lo
                for n, c in ((a, na), (b, nb)):
                    g = _names(str(n[i]), sep, hi)
                    check(g is not None and lo <= g and c[i] == len(g), 'wrong-names', lambda:
                          'names of %s: %r (%d), should be between %s and %s' % (x, n[i], c[i], lo, hi))
        elif op == 'differ':
            F = list(dict.fromkeys(q[1] for q in s.rows))
            f = F[r.randint(len(F))]
            nm = {q[4] for q in s.rows if q[1] == f and q[0] == 'SPEAKER'}
            w = {q[1] for q in s.rows if q[0] == 'SPEAKER' and q[4] not in nm}
            g = guard(o.get_files_with_names_diff_to_file, f)
            check(set(g) == w and len(g) == len(w), 'wrong-names', lambda: 'files with speakers not in '
                  '%s: %s, should be %s' % (f, g, w))
        elif op == 'prepend':
            if max(len(q[4]) for q in s.rows) > 40:
                return
            if not any(q[0] == 'SPEAKER' for q in s.rows):
                return
            guard(o.prepend_file_id_to_name)
            s.rows = [[q[0], q[1], q[2], q[3], '_'.join([q[1], q[4]]) if q[0] == 'SPEAKER' else q[4]]
                      for q in s.rows]
        elif op == 'matrix':
            F = list(dict.fromkeys(q[1] for q in s.rows))
            f = F[r.randint(len(F))]
            sel = [q for q in s.rows if q[1] == f]
            if any((x * 10) % 1 for q in sel for x in (q[2] / 10., (q[2] + q[3]) / 10.)):
                return
            if any(abs(x - round(x)) > 1e-9 for q in sel for x in (q[2], q[3])):
                return
            sh = float(r.choice([0.001, 0.05]))
            M = guard(o.to_matrix, f, sh)
            ms = int(round(sh * 1000))
            if any((x / ms) % 1 == 0.5 for q in sel for x in (q[2], q[2] + q[3])):
                return
            nm = sorted({q[4] for q in sel})
            at = lambda t: int(np.floor(t / ms + 0.5))
            W = np.zeros((max(at(q[2] + q[3]) for q in sel), len(nm)), dtype=int)
            for q in sel:
                W[at(q[2]):at(q[2] + q[3]), nm.index(q[4])] = 1
            check(M is not None and M.shape == W.shape and np.array_equal(M, W), 'wrong-matrix', lambda:
                  'speakers per frame of %s at shift %s: %s' % (sel, sh, M if M is None else M.shape))
        elif op == 'tosegs':
            L = guard(o.to_segment_list)
            self.cls = 'seg'
            ids = [str(x) for x in L.segment_id]
            self.same(Slot(L, [[None] + q[1:4] + [i] for q, i in zip(s.rows, ids)], True),
                      'as segments')
            self.cls = 'rttm'
            spans = {}
            for q, i in zip(s.rows, ids):
                key = (q[1], int(round(q[2])), int(round(q[2] + q[3])))
                check(spans.setdefault(i, key) == key, 'wrong-segments', lambda: 'the segments %s and '
                      '%s are both called %s' % (spans[i], key, i))
            self.check_vad(L, [[None] + q[1:4] + [i] for q, i in zip(s.rows, ids)], True, r)
        elif op == 'fromsegs':
            from hyperion.utils import RTTM
            self.cls = 'seg'
            L = self.make([[None] + q[1:4] + ['u%d' % i] for i, q in enumerate(s.rows)], True)
            self.cls = 'rttm'
            pre = bool(r.randint(2))
            nm = [q[4] for q in s.rows]
            g = guard(RTTM.create_spkdiar_from_segments, L, nm, index_by_file=s.byfile,
                      prepend_file_id=pre)
            rows = [['SPEAKER'] + q[1:4] + ['_'.join([q[1], q[4]]) if pre else q[4]] for q in s.rows]
            if max(len(q[4]) for q in rows) > 40:
                return
            h = guard(RTTM.create_spkdiar, [q[1] for q in s.rows], [q[2] / 1000. for q in s.rows],
                      [q[3] / 1000. for q in s.rows], nm, index_by_file=s.byfile,
                      prepend_file_id=pre)
            self.same(Slot(h, rows, s.byfile), 'created from its fields')
            return Slot(g, rows, s.byfile)
        elif op == 'binvad':
            self.check_vad(o, s.rows, s.byfile, r)
        elif op == 'reload':
            self.reload(s)

    def check_vad(self, L, rows, byfile, r):
        if self.tied(rows):
            return
        sh = self.p['shift']
        at = lambda t: int(np.floor(t / sh + 0.5))
        if byfile:
            F = list(dict.fromkeys(q[1] for q in rows))
            f = F[r.randint(len(F))]
            sel = [q for q in rows if q[1] == f]
            key = f
        else:
            i = r.randint(len(rows))
            sel, key = [rows[i]], rows[i][4]
            if sum(q[4] == key for q in rows) > 1:
                return
        n = None if r.rand() < 0.5 else r.randint(1, 60)
        m = n or at(max(q[2] + q[3] for q in rows if q[1] == sel[0][1]))
        W = np.zeros(m, dtype=int)
        for q in sel:
            W[at(q[2]):at(q[2] + q[3]) + 1] = 1
        g = guard(L.to_bin_vad, key, sh, n)
        check(np.array_equal(g, W), 'wrong-decision', lambda: 'decisions of %s: %s, its segments %s '
              'say %s' % (key, g, sel, W))

    def reload(self, s):
        """Saves and loads; the process may die on the way and start again from its object."""
        j = self.j
        self.nrel += 1
        f = 'list%d.%d' % (j['id'], self.nrel)
        box = []

        def body():
            guard_plain(s.obj.save, f)
            box.append(type(s.obj).load(f, index_by_file=s.byfile))

        def verify():
            t = Slot(box[-1], s.rows, s.byfile)
            self.same(t, 'loaded', 6e-4)
            s.obj = box[-1]
            if self.cls == 'rttm':
                s.rows = [[q[0], q[1], float(a) * 1000, float(b) * 1000, q[4]] for q, a, b in zip(
                    s.rows, s.obj.tbeg, s.obj.tdur)]
            else:
                s.rows = [[q[0], q[1], float(a) * 1000, (float(b) - float(a)) * 1000, q[4]]
                          for q, a, b in zip(s.rows, s.obj.tbeg, s.obj.tend)]
            s.rows = [q[:2] + [round(q[2], 3), round(q[3], 3)] + q[4:] for q in s.rows]

        self.job(j, body, None, verify, [f], self.nrel - 1)

    def run(self):
        self.prepare()
        tags = []
        for j in self.p['jobs']:
            k = j['kind']
            st = {'segvad': self.binvad, 'rttmvad': self.binvad, 'h5nist': self.nist,
                  'arknist': self.nist, 'ark2hyp': self.ark2hyp, 'ops': self.ops}[k](j)
            self.ctx.probe('kind:' + k)
            tags.append([k, st, j['fmt'], j.get('nparts'), j.get('frames'), j.get('scp'),
                         j['faults'][0]['kind'] if j['faults'] else None, j.get('squeeze'),
                         j.get('chunk'), j.get('cls')])
        self.ctx.state(tags, [len([q for q in self.rows if q[1] == f]) for f in self.files_])
        return self.info


f32 = E.f32


def guard_plain(f, *a):
    return f(*a)


def _key(a):
    return np.asarray(a, dtype="float64").tobytes()


def _names(t, sep, known):
    """The set of names joined in t (names may hold the separator)."""
    if t == '<NA>' and not (known and '<NA>' in known):
        return set()
    out = {''}

    def rec(t):
        if t in known:
            yield {t}
        for k in known:
            if t.startswith(k + sep):
                for q in rec(t[len(k) + len(sep):]):
                    if k not in q:
                        yield q | {k}
    for q in rec(t):
        return q
    return None


def run(plan, ctx):
    return Run(plan, ctx).run()
