"""C08: the copy, feature-extraction and merge jobs run as part-jobs of a simulated cluster that
crash, fail, are retried and interleave at every system call; their merged output is compared
with one uninterrupted job and with a reference model."""
import copy
import os
import random

import numpy as np

from sim import scripts, storage as st
from sim.cluster import Cluster, process
from sim.core import HarnessError, Violation, attempt, check, guard
from sim.disk import Disk
from sim import sched

RUNS = {'quick': 700, 'thorough': 20000}
LISTS = ('faults', 'switches')
STATE_RULE = 'job kind, input and output formats, part count, merge tool, faults, job outcomes'
MUST_REACH = ['job:copy', 'job:mfcc', 'job:chain', 'job:vad', 'fault:crash', 'fault:eio-write',
              'fault:eio-read', 'fault:enospc', 'job-retried', 'job-crashed', 'job-failed',
              'empty-part', 'merge:copy', 'merge:h5', 'merge:scp', 'segments', 'interleaved']
REAL = ['copy-feats.py, compute-mfcc-feats.py and merge-h5-files.py main programs',
        'CopyFeats, H5Merger, MFCC, EnergyVAD, audio and feature readers and writers']
STUB = ['job scheduler and processes (tasks switched at every simulated system call)',
        'system calls below the buffers', 'file access below HDF5 and libsndfile']
ASSUMPTIONS = ['a killed job restarts from scratch on the same output paths',
               'two attempts of one job never run at the same time', 'keys are distinct']
CPU_LIMIT = 60


def setup():
    import scipy.signal  # noqa: F401
    import hyperion.io  # noqa: F401
    import hyperion.feats  # noqa: F401
    for n in ('copy-feats.py', 'compute-mfcc-feats.py', 'merge-h5-files.py'):
        scripts.load(n)
    sched.warm()


OUT = ['ark', 'ark,scp', 'ark,scp', 'h5', 'h5', 'h5,scp', 'ark,t', 'ark,scp,t', 'ark,scp,f', 'h5,f']


def gen(rng, tier):
    job = rng.choice(['copy', 'copy', 'copy', 'mfcc', 'mfcc', 'chain', 'vad'])
    n = rng.choice([1, 2, 3, 5, 6, 8])
    plan = {'job': job, 'io': st.gen_io(rng), 'faults': [], 'slots': rng.choice([1, 2, 2, 3, 4]),
            'sched': sched.gen_cfg(rng), 'via': rng.choice(['script', 'class']),
            'batch': rng.choice([1, 1, 2, 3, 50]), 'out': rng.choice(OUT),
            'outdir': rng.choice(['out', 'out', 'deep/er', '.']),
            'parts': rng.choice([1, 2, 2, 3, 4, n, n + 1]),
            'order': rng.randint(0, 10 ** 6), 'nframes': rng.random() < 0.5,
            'merge_out': rng.choice(['ark', 'ark,scp', 'h5', 'h5,scp']),
            'merge_chunk': rng.choice([None, 1, 2, 5]), 'h5out': rng.random() < 0.5}
    plan['comp'] = rng.choice(st.METHODS[:5]) if rng.random() < 0.25 else None
    if job == 'copy':
        fmt = rng.choice(['ark', 'ark', 'ark_t', 'h5', 'h5'])
        arcs = st.gen_store(rng, n_arc=rng.choice([1, 1, 2]) if fmt != 'h5' else 1, fmts=(fmt,),
                            max_recs=n, compress=0.2, scp=True, same_kind=True)
        for a in arcs:
            for r in a['recs']:
                r['rows'] = max(1, r['rows'])
                if r['style'] == 'special':
                    r['style'] = 'norm'
                if plan['comp'] and r['kind'] == 'vec':
                    r['kind'] = 'mat'
        plan['arcs'] = arcs
        plan['src'] = 'scp' if len(arcs) > 1 else rng.choice(['scp', 'scp', 'arc'])
        if plan['src'] == 'arc' and fmt != 'h5':
            plan['parts'] = 1
    else:
        plan['fs'] = rng.choice([8000, 16000])
        plan['utts'] = [{'id': 'utt%s%d' % (rng.choice(['', '-a']), i), 'seed': rng.randint(0, 10 ** 6),
                         'len': rng.choice([0.05, 0.06, 0.08, 0.12, 0.12])} for i in range(n)]
        if rng.random() < 0.4 and job == 'vad':
            plan['segs'] = [['s%02d' % i, rng.randrange(n), rng.choice([0, 0.01, 0.02]),
                             rng.choice([0.045, 0.05, 0.2])] for i in range(rng.randint(1, 6))]
        plan['opts'] = {
            'sample-frequency': plan['fs'], 'frame-length': rng.choice([10, 20]),
            'frame-shift': rng.choice([5, 10]), 'dither': rng.choice([0, 1, 1]),
            'snip-edges': rng.choice(['true', 'false']),
            'preemphasis-coeff': rng.choice([0.97, 0]),
            'remove-dc-offset': rng.choice(['true', 'true', 'false']),
            'raw-energy': rng.choice(['true', 'false']), 'use-energy': 'true',
            'num-filters': rng.choice([13, 16]), 'num-ceps': rng.choice([5, 13]),
            'cepstral-lifter': rng.choice([0, 22]),
            'output-step': rng.choice(['cepstrum', 'cepstrum', 'logfb', 'fft_mag'])}
        if plan['opts']['snip-edges'] == 'false':
            plan['opts']['frame-length'], plan['opts']['frame-shift'] = 20, 10
        plan['batch'] = 1
    return plan


def inject(plan, extra, rng, tier):
    if not extra:
        return
    h5 = 'h5' in plan['out'] or any(a['fmt'] == 'h5' for a in plan.get('arcs', [])) or \
        'h5' in plan['merge_out'] or plan['h5out']
    for _ in range(3 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        fl = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, n_mut, n_read, nb = rng.choice(extra)
            kind = rng.choice(['crash', 'crash', 'crash', 'eio_write', 'eio_read', 'enospc'])
            f = {'job': name, 'attempt': rng.choice([0, 0, 0, 1]), 'kind': kind}
            if kind == 'crash':
                if not n_mut:
                    continue
                f['n'] = rng.randint(1, n_mut)
                f['keep'] = rng.choice([0, 0.3, 0.7, 1])
            elif kind == 'eio_write':
                if not n_mut:
                    continue
                f['n'] = rng.randint(1, n_mut)
            elif kind == 'eio_read':
                if not n_read:
                    continue
                f['n'] = rng.randint(1, n_read)
                f['times'] = rng.choice([1, 2, 1000])
            else:
                if not nb:
                    continue
                f['after'] = rng.randrange(nb)
            fl.append(f)
        if not fl:
            continue
        q['faults'] = fl
        q['isolate'] = h5
        yield q


def on_death(plan, status):
    """HDF5 itself may take a process down after a failed write: a loud failure."""
    return None


# --------------------------------------------------------------------------- input data
def wave(u, fs):
    r = np.random.RandomState(u['seed'])
    n = int(u['len'] * fs) + r.randint(0, 40)
    return np.round(np.clip(r.randn(n) * 3000 + 200, -32768, 32767)).astype(np.int16)


def specs(plan, name, which='out'):
    out = plan[which]
    o = out.split(',')
    ext = o[0]
    d = plan['outdir'] + '/' if which == 'out' else 'm/'
    files = ['%s%s.%s' % (d, name, ext)] + (['%s%s.scp' % (d, name)] if 'scp' in o else [])
    return '%s:%s' % (out, ','.join(files)), files


def rspec(files):
    if len(files) == 2:
        return 'scp:' + files[1]
    return '%s:%s' % ('h5' if files[0].endswith('h5') else 'ark', files[0])


def read_all(spec):
    from hyperion.io import SequentialDataReaderFactory as F
    with F.create(spec) as r:
        ks, vs = r.read(0)
    out = {}
    for k, v in zip(ks, vs):
        check(k not in out, 'duplicate-record', '%s holds %r twice' % (spec, k))
        out[k] = np.array(v)
    return out


class Run(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.exact = None

    def inputs(self):
        """Writes the input files; returns the list of ids and the reference outputs."""
        p, ctx = self.plan, self.ctx
        comp = p['comp']
        text = 't' in p['out'].split(',')
        ref = {}
        if p['job'] == 'copy':
            lines = []
            for a in p['arcs']:
                a = dict(a, flush=False)
                guard(st.write_archive, a, ctx)
                for r in a['recs']:
                    ref[r['key']] = st.expect(r, a)
                lines += st.script_lines(a)
            with open('in.scp', 'w') as f:
                f.write('\n'.join(lines) + '\n')
            a0 = p['arcs'][0]
            self.src = 'scp:in.scp' if p['src'] == 'scp' else (
                '%s:%s' % ('h5' if a0['fmt'] == 'h5' else 'ark', a0['path']))
            for k, e in ref.items():
                tol = np.zeros(e.val.shape) if e.tol is None else e.tol
                val = e.val.astype(np.float32).astype(float)       # outputs are single precision
                lossy = e.tol is not None
                tol = tol + (1.2e-7 * np.abs(val) + 1e-30 if lossy else 0)
                if comp:
                    v, t = st.compressed(val, comp)
                    # the second quantiser sees the values the first one left
                    tol = 3 * t + 3 * tol + 0.03 * (val.max() - val.min() + np.abs(tol).max())
                    val, lossy = v, True
                if text:
                    tol = tol + 0.6e-6 + 1e-6 * np.abs(val)
                    lossy = True
                ref[k] = st.Expect(val, tol if lossy else None)
            return ref
        import soundfile as sf
        fs = p['fs']
        with open('wav.scp', 'w') as f:
            for u in p['utts']:
                sf.write(u['id'] + '.wav', wave(u, fs), fs, subtype='PCM_16')
                f.write('%s %s.wav\n' % (u['id'], u['id']))
        if p.get('segs'):
            ctx.probe('segments')
            with open('segments', 'w') as f:
                for s, u, b, e in p['segs']:
                    f.write('%s %s %s %s\n' % (s, p['utts'][u]['id'], b, e))
        for key, x in self.waves():
            y = self.extract(x)
            if p['job'] == 'vad':
                y = y.astype(float)
            val = y.astype(np.float32).astype(float)
            tol = None
            if p['job'] == 'chain':
                tol = 1e-3 + 1e-3 * np.abs(val)      # single-precision hop between the stages
            if comp and val.ndim == 2:
                val, t = st.compressed(val, comp)
                tol = t if tol is None else 2 * tol + 2 * t + 1e-3 * (val.max() - val.min())
            if text:
                tol = (0 if tol is None else tol) + 0.6e-6 + 1e-6 * np.abs(val)
            ref[key] = st.Expect(val, tol)
        return ref

    def waves(self):
        p = self.plan
        w = {u['id']: wave(u, p['fs']).astype(float) for u in p['utts']}
        if not p.get('segs'):
            return sorted(w.items())
        out = []
        for s, u, b, e in p['segs']:
            x = w[p['utts'][u]['id']]
            out.append((s, x[int(b * p['fs']):min(len(x), int(e * p['fs']))]))
        return out

    def extract(self, x):
        """A fresh extractor for one utterance."""
        p = self.plan
        o = p['opts']
        if p['job'] == 'vad':
            return self.vad().compute(x)
        from hyperion.feats import MFCC
        kw = {k.replace('-', '_'): v == 'true' if v in ('true', 'false') else v
              for k, v in o.items()}
        kw['fs'] = kw.pop('sample_frequency')
        kw['preemph_coeff'] = kw.pop('preemphasis_coeff')
        if p['job'] == 'chain':
            # the second job starts from stored log filter banks
            a = MFCC(**dict(kw, output_step='logfb')).compute(x)
            return MFCC(**dict(kw, input_step='logfb', output_step='cepstrum')).compute(a)
        return MFCC(**kw).compute(x)

    def vad(self):
        from hyperion.feats.energy_vad import EnergyVAD
        o = self.plan['opts']
        return EnergyVAD(fs=self.plan['fs'], frame_length=o['frame-length'],
                         frame_shift=o['frame-shift'], dither=o['dither'],
                         snip_edges=o['snip-edges'] == 'true')

    # ---- job bodies ---------------------------------------------------------
    def copy_body(self, src, out, j, n):
        p = self.plan
        comp = p['comp'] if src != 'merge' else None
        if p['via'] == 'script':
            a = ['--input'] + (src if isinstance(src, list) else [src]) + [
                '--output', out, '--part-idx', j, '--num-parts', n, '-v', 0]
            if comp:
                a += ['--compress', '--compression-method', comp]
            return lambda: scripts.main('copy-feats.py', a)
        from hyperion.io import CopyFeats
        kw = dict(compress=True, compression_method=comp) if comp else {}
        return lambda: CopyFeats(src, out, part_idx=j, num_parts=n, chunk_size=p['batch'], **kw)

    def mfcc_body(self, src, out, j, n, opts, nframes):
        p = self.plan
        a = ['--input', src, '--output', out, '--part-idx', j, '--num-parts', n, '-v', 0]
        for k, v in sorted(opts.items()):
            a += ['--' + k, v]
        if p['comp'] and ':mid/' not in out:
            a += ['--compress', '--compression-method', p['comp']]
        if nframes:
            a += ['--write-num-frames', nframes]
        return lambda: scripts.main('compute-mfcc-feats.py', a)

    def vad_body(self, out, j, n):
        p = self.plan

        def body():
            from hyperion.io import DataWriterFactory, SequentialAudioReader
            v = self.vad()
            with DataWriterFactory.create(out) as w:
                seg = 'segments' if p.get('segs') else None
                for k, x, fs in SequentialAudioReader('wav.scp', seg, part_idx=j, num_parts=n):
                    w.write([k], [v.compute(x).astype('float32')])
                    v.reset()
        return body

    def jobs(self, tag, parts):
        """Part-jobs of the pipeline: list of stages, each a list of (name, body), and the
        output files of the last stage."""
        p = self.plan
        stages, outs = [[]], []
        mids = []
        for j in range(1, parts + 1):
            name = '%s.%d' % (tag, j)
            out, files = specs(p, name)
            outs.append(files)
            nf = '%s.nf' % name if p['nframes'] else None
            if p['job'] == 'copy':
                body = self.copy_body(self.src, out, j, parts)
            elif p['job'] == 'mfcc':
                body = self.mfcc_body('wav.scp', out, j, parts, p['opts'], nf)
            elif p['job'] == 'vad':
                body = self.vad_body(out, j, parts)
            else:
                if j == 1:
                    stages.append([])
                mid = 'fb.%s' % name
                stages[0].append((mid, self.mfcc_body(
                    'wav.scp', 'ark,scp:mid/%s.ark,mid/%s.scp' % (mid, mid), j, parts,
                    dict(p['opts'], **{'output-step': 'logfb'}), None)))
                mids.append(mid)
                stages[1].append((name, self.mfcc_body(
                    'scp:mid/%s.scp' % mid, out, 1, 1,
                    dict(p['opts'], **{'input-step': 'logfb', 'output-step': 'cepstrum'}), nf)))
                continue
            stages[0].append((name, body))
        for s in stages:
            random.Random(p['order']).shuffle(s)
        return stages, outs

    # ---- checks -------------------------------------------------------------
    def compare(self, got, ref, what, exact=None):
        check(set(got) == set(ref), 'wrong-records', lambda: '%s: missing %s, extra %s' % (
            what, sorted(set(ref) - set(got))[:6], sorted(set(got) - set(ref))[:6]))
        for k, v in got.items():
            e = ref[k]
            check(v.shape == e.val.shape, 'wrong-shape', lambda: '%s: %s is %s, should be %s' % (
                what, k, v.shape, e.val.shape))
            if e.tol is None:
                ok = v == e.val
            else:
                ok = np.abs(v - e.val) <= e.tol
            check(np.all(ok), 'wrong-value', lambda: '%s: %s differs by up to %g' % (
                what, k, np.abs(v - e.val).max()))
            if exact is not None:
                x = exact[k]
                if what == 'the merged archive':       # stored once more in single precision
                    v, x = v.astype(np.float32), x.astype(np.float32)
                check(np.array_equal(v, x), 'differs-from-single-job', lambda: '%s: %s '
                      'differs from what one uninterrupted job gives by up to %g' % (
                          what, k, np.abs(v - x).max()))
        self.ctx.probe('records-compared', len(got))

    def run(self):
        p, ctx = self.plan, self.ctx
        ctx.probe('job:' + p['job'])
        if p['slots'] > 1:
            ctx.probe('interleaved')
        ref = self.inputs()
        # the reference job: alone, without faults, over the whole list
        stages, outs = self.jobs('one', 1)
        for stage in stages:
            for name, body in stage:
                o = process(ctx, None, [], body)
                check(o.kind == 'ok', 'job-failed', lambda: 'single job: %s at %s' % (o.exc, o.where))
        single = guard(read_all, rspec(outs[0]))
        self.compare(single, ref, 'the single job')
        # the cluster
        parts = p['parts']
        if parts > len(ref):
            ctx.probe('empty-part')
        cl = Cluster(ctx, p)
        stages, outs = self.jobs('job', parts)
        for stage in stages:
            cl.run(stage)
        got = {}
        for files in outs:
            for k, v in guard(read_all, rspec(files)).items():
                check(k not in got, 'duplicate-record', lambda: '%s is in two parts' % k)
                got[k] = v
        self.compare(got, ref, 'the parts', single)
        if p['nframes'] and p['job'] in ('mfcc', 'chain'):
            nf = {}
            for j in range(1, parts + 1):
                for l in open('job.%d.nf' % j):
                    k, v = l.split()
                    check(k not in nf, 'duplicate-record', lambda: '%s twice in the frame counts' % k)
                    nf[k] = int(v)
            check(nf == {k: e.val.shape[0] for k, e in ref.items()}, 'wrong-records',
                  lambda: 'frame counts %s' % nf)
        self.merge(cl, outs, ref, single)
        stats = {}
        for name, k, o in cl.history:
            if k == 0:
                stats[name] = [name, o.n_mut, o.n_read, o.nbytes]
        ctx.state(p['job'], p['out'], p['parts'], p['comp'], p['merge_out'],
                  tuple((n, o.kind) for n, k, o in cl.history))
        return list(stats.values())

    def merge(self, cl, outs, ref, single):
        p, ctx = self.plan, self.ctx
        if all(f[0].endswith('h5') for f in outs) and p['h5out']:
            ctx.probe('merge:h5')
            a = ['--input-files'] + [f[0] for f in outs] + ['--output-path', 'merged.h5']
            if p['merge_chunk']:
                a += ['--chunk-size', p['merge_chunk']]
            cl.run([('merge', lambda: scripts.main('merge-h5-files.py', a))])
            got = guard(read_all, 'h5:merged.h5')
        elif all(len(f) == 2 for f in outs) and p['order'] % 3 == 0:
            ctx.probe('merge:scp')

            def body():
                from hyperion.utils import SCPList
                SCPList.merge([SCPList.load(f[1]) for f in outs]).save('merged.scp')
            cl.run([('merge', body)])
            got = guard(read_all, 'scp:merged.scp')
        else:
            ctx.probe('merge:copy')
            out, files = specs(p, 'merged', 'merge_out')
            comp, p['comp'] = p['comp'], None
            body = self.copy_body([rspec(f) for f in outs], out, 1, 1)
            p['comp'] = comp
            cl.run([('merge', body)])
            got = guard(read_all, rspec(files))
        self.compare(got, ref, 'the merged archive', single)


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    if plan.get('switches') is not None:
        plan['sched'] = dict(plan['sched'], switches=plan['switches'])
    return Run(plan, ctx).run()
