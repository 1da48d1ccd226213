"""C26: the feature programs give each recording the features its options define, in one program or
continued from a stored step, whatever part of the job fails and is retried.

compute-mfcc-feats and compute-energy-vad run as programs over parts of a list of recordings; the
features they store are then normalized with a sliding window and restricted to speech by the
stored decisions, as the consumers of the library do.  The reference is written from the
documented steps (dither, offset filter, energy, pre-emphasis, window, Fourier transform, filter
bank, cosine transform, lifter), in double precision, for each recording on its own."""
import os

import numpy as np

from sim import scripts
from sim.batches import command
from sim.core import check, guard
from sim.disk import Disk
from sim.props import c24_evaluation as E

RUNS = {'quick': 700, 'thorough': 20000}
STATE_RULE = 'stages, steps and options of the jobs and what happened to each part'
KINDS = ['mfcc', 'vad', 'norm', 'library']
STEPS = ['fft_mag', 'log_spec', 'logfb', 'cepstrum']
MUST_REACH = ['norm-options'] + ['kind:' + k for k in KINDS] + ['step:' + s for s in STEPS] + [
    'from:' + s for s in ('wave', 'fft_mag', 'log_spec', 'logfb')] + [
    'fault:crash', 'fault:eio-read', 'fault:eio-write', 'fault:enospc', 'retried', 'failed-loudly',
    'split', 'leftover-complete', 'leftover-refused', 'edges', 'vad-context', 'selected',
    'sliding-mean', 'sliding-variance', 'long-fft', 'energy', 'raw-energy', 'floored',
    'fb:mel_kaldi', 'fb:mel_etsi', 'fb:linear', 'below-nyquist', 'frames-written', 'scaled',
    'tolerated', 'mismatch-refused', 'compressed', 'transform-inverted', 'all-steps']
REAL = ['compute-mfcc-feats, compute-energy-vad (as programs, from their command line)', 'MFCC, '
        'EnergyVAD, filter banks, windows, short-time transforms, MeanVarianceNorm, FrameSelector',
        'audio reader, archive and HDF5 writers and readers', 'soundfile, scipy']
STUB = ['system calls below the buffers', 'the shell that starts the programs and retries them']
ASSUMPTIONS = ['when the energy takes the place of a coefficient in a stored spectrum, that '
               'coefficient has no weight in the filters', 'frames whose energy is within rounding '
               'of the threshold are not compared']
LISTS = ('jobs',)


def setup():
    import scipy.signal  # noqa: F401
    import soundfile  # noqa: F401
    from hyperion import feats, io  # noqa: F401


def gen(rng, tier):
    fs = rng.choice([8000, 16000])
    p = {'seed': rng.randint(0, 10 ** 6), 'fs': fs, 'jobs': [], 'utts': []}
    for i in range(rng.randint(1, 4)):
        p['utts'].append({'len': rng.choice([0.06, 0.11, 0.2, 0.33]), 'off': rng.randint(0, 60),
                          'amp': rng.choice([30, 1000, 8000]), 'dc': rng.choice([0, 0, 300]),
                          'quiet': rng.random() < 0.5})
    for i in range(rng.randint(1, 3 if tier == 'quick' else 5)):
        k = rng.choice(['mfcc', 'mfcc', 'mfcc', 'vad', 'norm', 'library'])
        j = {'id': i, 'kind': k, 'seed': rng.randint(0, 10 ** 6), 'np': rng.randint(0, 10 ** 6),
             'faults': [], 'fpart': 0, 'fmt': rng.choice(['ark', 'ark', 'ark,t', 'h5']),
             'nparts': rng.choice([1, 1, 2]), 'scp': rng.random() < 0.4}
        o = {'sample-frequency': fs, 'frame-length': rng.choice([25, 25, 20, 32, 40]),
             'frame-shift': rng.choice([10, 10, 12, 5]), 'dither': rng.choice([1, 0, 0.5, 10])}
        if rng.random() < 0.3:
            o['snip-edges'] = 'false'
        if k == 'vad':
            o.update({'vad-energy-mean-scale': rng.choice([0.5, 1, 0]),
                      'vad-energy-threshold': rng.choice([5, 0, -1, 12]),
                      'vad-frames-context': rng.choice([0, 0, 1, 2, 5, 30]),
                      'vad-proportion-threshold': rng.choice([0.6, 0.12, 0.5])})
            if rng.random() < 0.2:
                o['wav-scale'] = rng.choice([1000., 2. ** 14])
        elif k in ('mfcc', 'library'):
            nf = rng.choice([10, 15, 23])
            o.update({'fft-length': rng.choice([512, 512, 256, 1024]),
                      'remove-dc-offset': rng.choice(['true', 'true', 'false']),
                      'preemphasis-coeff': rng.choice([0.97, 0.97, 0, 0.5]),
                      'window-type': rng.choice(['povey', 'hamming', 'hanning', 'rectangular',
                                                 'blackman']),
                      'use-fft2': rng.choice(['true', 'true', 'false']),
                      'fb-type': rng.choice(['mel_kaldi', 'mel_etsi', 'linear']),
                      'num-filters': nf, 'low-freq': rng.choice([20, 100, 300]),
                      'high-freq': rng.choice([0, 0, fs // 2 - 200, 3700, -300]),
                      'norm-filters': rng.choice(['false', 'false', 'true']),
                      'num-ceps': rng.choice([nf, 13, 5]) if nf >= 13 else rng.choice([nf, 5]),
                      'energy-floor': rng.choice([0, 0, 1e6]),
                      'raw-energy': rng.choice(['true', 'true', 'false']),
                      'use-energy': rng.choice(['true', 'true', 'false']),
                      'cepstral-lifter': rng.choice([22, 22, 0, 10])})
            steps = sorted(rng.sample(range(4), rng.choice([1, 1, 2, 2, 3])))
            if rng.random() < 0.6 and steps[-1] != 3:
                steps.append(3)
            j['steps'] = [STEPS[s] for s in steps]
            j['frames'] = rng.random() < 0.3
            j['compress'] = rng.choice([None] * 4 + ['auto', 'speech-feat', '2byte-auto', '1byte-auto'])
            if rng.random() < 0.02 and i == 0:
                j['steps'], j['fmt'], j['nparts'] = ['fft'], 'h5', 1
        else:
            j['mvn'] = {'norm_mean': rng.random() < 0.8, 'norm_var': rng.random() < 0.5,
                        'left_context': rng.choice([None, 0, 1, 3, 8, 40]),
                        'right_context': rng.choice([None, 0, 1, 3, 8, 40])}
            j['extra'] = rng.choice([0, 0, 1, -1, 3, -3, 4, -4])
            j['dtype'] = rng.choice(['bool', 'int', 'float'])
        j['opt'] = o
        p['jobs'].append(j)
    p['io'] = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
               'slice_writes': rng.choice([0, 0.5]), 'vary_buf': rng.random() < 0.5}
    return p


inject = E.inject


# ---------------------------------------------------------------------------------- definitions
def frame(x, N, S):
    n = (len(x) - N + S) // S
    return np.array([x[i * S:i * S + N] for i in range(n)]).reshape(n, N)


def edges(x, N, S, snip):
    if snip:
        return x
    n = int(np.round(len(x) / S))
    a = (N - S) // 2
    b = (n - 1) * S + N - len(x) - a
    if b < 0:
        x, b = x[:b], 0
    return np.pad(x, (a, b), mode='reflect')


def on(o, k, d='true'):
    return o.get(k, d) == 'true'


def start(x, o):
    """The waveform with its ends extended and dither."""
    N, S = o['frame-length'] * o['sample-frequency'] // 1000, o['frame-shift'] * o[
        'sample-frequency'] // 1000
    x = edges(x, N, S, on(o, 'snip-edges'))
    if o['dither'] > 0:
        x = x + o['dither'] * np.random.RandomState(len(x)).randn(len(x))
    return x, N, S


def dcfree(x):
    y = np.zeros(len(x))
    last = prev = 0.
    for i, v in enumerate(x):
        last = v - prev + 0.999 * last
        prev = v
        y[i] = last
    return y


def filters(o, nfft):
    fs, n = o['sample-frequency'], o['num-filters']
    lo, hi = o['low-freq'], o['high-freq']
    hi = hi if hi > 0 else fs / 2. + hi
    mel = lambda f: 1127. * np.log(1 + f / 700.)
    lin = lambda m: 700. * (np.exp(m / 1127.) - 1)
    B = np.zeros((nfft // 2 + 1, n))
    if o['fb-type'] == 'mel_kaldi':
        c = np.linspace(mel(lo), mel(hi), n + 2)
        m = mel(np.linspace(0, fs, nfft))[:nfft // 2]
        for k in range(n):
            up, dn = (m - c[k]) / (c[k + 1] - c[k]), (c[k + 2] - m) / (c[k + 2] - c[k + 1])
            B[:nfft // 2, k] = np.maximum(0, np.minimum(up, dn))
    else:
        f = np.linspace(lo, hi, n + 2) if o['fb-type'] == 'linear' else lin(
            np.linspace(mel(lo), mel(hi), n + 2))
        b = np.round(f / fs * nfft).astype(int)
        for k in range(n):
            for q in range(b[k], b[k + 2] + 1):
                B[q, k] = ((q - b[k] + 1.) / (b[k + 1] - b[k] + 1) if q <= b[k + 1] else
                           (b[k + 2] - q + 1.) / (b[k + 2] - b[k + 1] + 1))
    return B


def features(x, o):
    """All the steps of one recording: {step: matrix}, with the energy where the options put it."""
    x, N, S = start(x, o)
    if on(o, 'remove-dc-offset'):
        x = dcfree(x)
    e = np.log((frame(x, N, S) ** 2).sum(1) + 1e-15)
    c = o['preemphasis-coeff']
    if c > 0:
        x = x - c * np.append(0, x[:-1])
    n = np.arange(N)
    w = {'povey': (0.5 - 0.5 * np.cos(2 * np.pi * n / N)) ** 0.85,
         'hanning': 0.5 - 0.5 * np.cos(2 * np.pi * n / N),
         'hamming': 0.54 - 0.46 * np.cos(2 * np.pi * n / N),
         'blackman': 0.42 - 0.5 * np.cos(2 * np.pi * n / N) + 0.08 * np.cos(4 * np.pi * n / N),
         'rectangular': np.ones(N)}[o['window-type']]
    nfft = o['fft-length']
    if N > nfft:
        nfft = 1
        while nfft < N:
            nfft *= 2
    X = np.fft.rfft(frame(x, N, S) * w, n=nfft)
    F = np.abs(X)
    if not on(o, 'raw-energy'):
        e = np.log((F ** 2).mean(1) + 1e-10)
    e = np.maximum(e, np.log(o['energy-floor'] + 1e-15))
    if on(o, 'use-fft2'):
        F = F ** 2
    W = filters(o, nfft)
    if on(o, 'norm-filters'):
        W = W / W.sum(0)
    with np.errstate(all='ignore'):
        B = np.log(F @ W + 1e-10)
    M = W.shape[1]
    D = np.sqrt(2. / M) * np.cos(np.pi * np.outer(np.arange(M), np.arange(M) + 0.5) / M)
    D[0] /= np.sqrt(2)
    C = (B @ D.T)[:, :o['num-ceps']]
    q = o['cepstral-lifter']
    if q > 0:
        C = C * (1 + 0.5 * q * np.sin(np.pi * np.arange(o['num-ceps']) / q))
    out = {'fft_mag': F, 'fft': X, 'log_spec': np.log(F + 1e-10), 'logfb': B, 'cepstrum': C}
    if on(o, 'use-energy'):
        for s in ('fft', 'fft_mag', 'log_spec', 'cepstrum'):
            out[s] = out[s].copy()
            out[s][:, 0] = e
        out['logfb'] = np.hstack((e[:, None], B))
    return out, W, e


def rounding(ref, step, o):
    """What the rounding of a frame's largest Fourier coefficient to single precision does to the
    logarithms of its smallest ones."""
    if step in ('fft', 'fft_mag'):
        return 0.
    h = 0.5 if on(o, 'use-fft2') else 1.
    e = on(o, 'use-energy')
    top = ref['log_spec'][:, 1:].max(1)[:, None]
    r = lambda x: 3e-6 * np.exp(np.minimum(h * (top - x), 30))
    if step == 'log_spec':
        return r(ref[step])
    s = r(ref['logfb'][:, 1:] if e else ref['logfb'])
    if step == 'logfb':
        return np.hstack((np.zeros((len(s), 1)), s)) if e else s
    return s.mean(1)[:, None] * (1 + 0.5 * o['cepstral-lifter'])


class Run(E.Run):
    def prepare(self):
        import soundfile as sf
        p = self.p
        r = np.random.RandomState(p['seed'])
        self.x = {}
        with Disk(self.ctx, self.ctx.root, p['io']):
            lines = []
            for i, u in enumerate(p['utts']):
                n = int(u['len'] * p['fs']) + u['off']
                x = r.randn(n) * u['amp'] + u['dc']
                if u['quiet']:
                    a = r.randint(0, n)
                    x[a:] *= 0.02
                x = np.round(np.clip(x, -32768, 32767)).astype(np.int16)
                k = 'u%d' % i
                sf.write(k + '.wav', x, p['fs'], subtype='PCM_16')
                lines.append('%s %s.wav' % (k, k))
                self.x[k] = x.astype('float64')
            self.text('wav.scp', lines)
        self.keys = list(self.x)

    def out(self, name, j):
        fmt = 'h5' if j['fmt'] == 'h5' else 'ark'
        spec = '%s,scp:%s,%s.scp' % (j['fmt'], name, name) if j['scp'] else '%s:%s' % (j['fmt'], name)
        return spec, 'scp:%s.scp' % name if j['scp'] and fmt == 'ark' else '%s:%s' % (fmt, name), [
            name, name + '.scp', name + '.nf']

    def content(self, rspec):
        from hyperion.io import SequentialDataReaderFactory as SF
        with Disk(self.ctx, self.ctx.root, self.p['io']):
            with SF.create(rspec) as rd:
                ks, xs = rd.read(0, squeeze=False)
        return {str(f): np.asarray(v) for f, v in zip(ks, xs)}

    def run_part(self, j, script, args, keys, want, name, src_spec=None):
        spec, rspec, own = self.out(name, j)

        def left():
            try:
                got = self.content(rspec)
            except Exception:
                return False
            for f, v in got.items():
                check(f in want, 'wrong-files', lambda: 'a failed job leaves features for %s' % f)
                check(j['fmt'] != 'ark' or self.equal(v, want[f], f), 'wrong-features', lambda: 'a failed '
                      'job leaves %s for %s, its options define %s' % (brief(v), f, brief(want[f])))
            return set(got) == set(want)

        def verify():
            got = guard(self.content, rspec)
            check(list(sorted(got)) == sorted(keys), 'wrong-files', lambda: '%s stores %s, its part of '
                  'the list is %s' % (script, sorted(got), sorted(keys)))
            for f in keys:
                if np.iscomplexobj(want[f]) and self.equal(got[f], want[f].real, f):
                    check(False, 'imaginary-part-lost', 'the Fourier transform is stored without its '
                          'imaginary part')
                check(self.equal(got[f], want[f], f), 'wrong-features', lambda: '%s: %s of %s: %s, its '
                      'options define %s' % (script, name, f, brief(got[f], want[f]), brief(want[f])))
            self.got.update(got)
            if '--write-num-frames' in args:
                n = [l.split() for l in open(name + '.nf')]
                check(n == [[f, str(len(want[f]))] for f in keys] or j['fmt'] == 'h5' and sorted(n) ==
                      sorted([f, str(len(want[f]))] for f in keys), 'wrong-frames', lambda:
                      'numbers of frames %s' % n)
        st = self.job(j, lambda: scripts.main(script, args + ['--output', spec]), left, verify, own,
                      len(self.info.get(str(j['id']), [])))
        return st, rspec

    def equal(self, a, b, key):
        if a.shape != b.shape:
            return False
        return not a.size or bool(np.all(np.abs(a - b) <= self.tol * np.maximum(
            np.abs(b), self.floor) + self.slack.get(key, 0)))

    # ---- features
    def mfcc(self, j):
        o, p = j['opt'], self.p
        x = {k: v for k, v in self.x.items()}
        N, S = [o[q] * p['fs'] // 1000 for q in ('frame-length', 'frame-shift')]
        if any(len(v) < N + 2 * S for v in x.values()):
            return 'short'
        ref, W = {}, None
        for k in x:
            f, W, e = features(x[k], o)
            ref[k] = f
            if on(o, 'use-energy'):
                self.ctx.probe('energy')
                if on(o, 'raw-energy'):
                    self.ctx.probe('raw-energy')
                if o['energy-floor'] and np.any(e <= np.log(o['energy-floor'] + 1e-15)):
                    self.ctx.probe('floored')
        if np.any(W.sum(0) < 1e-6):
            return 'empty-filter'
        steps = list(j['steps'])
        if on(o, 'use-energy') and np.any(W[0] > 0):
            # a stored spectrum has lost the coefficient the energy took the place of
            steps = steps[-1:]
        self.ctx.probe('fb:' + o['fb-type'])
        if o['high-freq'] < 0:
            self.ctx.probe('below-nyquist')
        if not on(o, 'snip-edges'):
            self.ctx.probe('edges')
        if N > o['fft-length']:
            self.ctx.probe('long-fft')
        sts, prev, at = [], None, 'wave'
        n = min(j['nparts'], len(self.keys))
        if n > 1:
            self.ctx.probe('split')
        flags = []
        for k, v in o.items():
            flags += ['--' + k, str(v)]
        for si, step in enumerate(steps):
            self.ctx.probe('step:' + step)
            self.ctx.probe('from:' + at)
            nxt, srcs = [], prev or [('wav.scp', self.keys)]
            if at != 'wave':
                parts = [(s, ks, 1, 1) for s, ks in srcs]
            else:
                parts = [('wav.scp', self.keys[q * len(self.keys) // n:(q + 1) * len(self.keys) // n],
                          q + 1, n) for q in range(n)]
            for q, (src, ks, a, b) in enumerate(parts):
                name = 'f%d.%d.%d' % (j['id'], si, q)
                args = flags + ['--input', src, '--input-step', at, '--output-step', step,
                                '--part-idx', str(a), '--num-parts', str(b)]
                if j['frames']:
                    self.ctx.probe('frames-written')
                    args += ['--write-num-frames', name + '.nf']
                want = {k: ref[k][step] for k in ks}
                self.tol = 2e-3 if j['fmt'] != 'ark,t' else 3e-3
                # coefficients much smaller than the largest one of the frame carry its rounding
                top = lambda w: 0.05 * max([1.] + [np.abs(v[:, 1:]).max() for v in w.values()])
                self.floor = top(want) if step in ('fft', 'fft_mag') else 3. if step == 'logfb' else 5.
                self.slack = {k: rounding(ref[k], step, o) for k in ks}
                if j['compress'] and j['fmt'] == 'ark' and si == len(steps) - 1:
                    self.ctx.probe('compressed')
                    args += ['--compress', '--compression-method', j['compress']]
                    one = j['compress'] in ('auto', 'speech-feat')
                    for k in ks:
                        g = np.ptp(want[k], axis=0 if one else None)
                        self.slack[k] = self.slack[k] + g / (50 if one else 200)
                st, rs = self.run_part(j, 'compute-mfcc-feats.py', args, ks, want, name)
                sts.append(st)
                nxt.append((rs, ks))
            prev, at = nxt, step
        self.done.append((step, j['fmt']))
        return sts

    # ---- decisions
    def vad(self, j):
        o, p = j['opt'], self.p
        N, S = [o[q] * p['fs'] // 1000 for q in ('frame-length', 'frame-shift')]
        if any(len(v) < N + 2 * S for v in self.x.values()):
            return 'short'
        want = {}
        for k, x in self.x.items():
            if 'wav-scale' in o:
                self.ctx.probe('scaled')
                x = x / 2 ** 15 * o['wav-scale']
            x, N, S = start(x, o)
            e = np.log((frame(dcfree(x), N, S) ** 2).sum(1) + 1e-15)
            t = o['vad-energy-threshold'] + o['vad-energy-mean-scale'] * e.mean()
            if np.any(np.abs(e - t) < 2e-3):
                return 'tied'
            v = e > t
            c = o['vad-frames-context']
            if c:
                self.ctx.probe('vad-context')
                m = np.array([v[max(0, i - c):i + c + 1].mean() for i in range(len(v))])
                if np.any(np.abs(m - o['vad-proportion-threshold']) < 1e-4):
                    return 'tied'
                v = m > o['vad-proportion-threshold']
            want[k] = v.astype(float)
        if not on(o, 'snip-edges'):
            self.ctx.probe('edges')
        n = min(j['nparts'], len(self.keys))
        sts = []
        flags = []
        for k, v in o.items():
            flags += ['--' + k, str(v)]
        self.tol, self.floor, self.slack = 1e-6, 1., {}
        for q in range(n):
            ks = self.keys[q * len(self.keys) // n:(q + 1) * len(self.keys) // n]
            args = flags + ['--input', 'wav.scp', '--part-idx', str(q + 1), '--num-parts', str(n)]
            sts.append(self.run_part(j, 'compute-energy-vad.py', args, ks, {k: want[k] for k in ks},
                                     'v%d.%d' % (j['id'], q))[0])
        return sts

    # ---- normalization and selection of frames
    def norm(self, j):
        from hyperion.feats import FrameSelector, MeanVarianceNorm
        from hyperion.io import DataWriterFactory, RandomAccessDataReaderFactory as RF
        r = np.random.RandomState(j['seed'])
        a = j['mvn']
        L, R = a['left_context'], a['right_context']
        name = 'n%d' % j['id']
        spec, rspec, own = self.out(name, j)
        spec = '%s:%s' % (j['fmt'], name) if j['fmt'] == 'h5' else '%s,scp:%s,%s.scp' % (
            j['fmt'], name, name)
        rspec = 'h5:' + name if j['fmt'] == 'h5' else 'scp:%s.scp' % name
        mats = {k: (r.randn(r.choice([2, 5, 9, 30, 80]), 3) * [1, 3, 0.5] + [0, 5, -2]).astype('float32')
                for k in self.keys}
        vads = {k: (r.rand(max(1, len(v) + j['extra'])) < 0.6) for k, v in mats.items()}

        def body():
            with DataWriterFactory.create(spec) as w:
                for k in self.keys:
                    w.write(k, mats[k])
                    w.write(k + '-vad', vads[k].astype('float32'))

        opts, tol = a, {'tol_num_frames': 3}
        if j['seed'] % 2:
            self.ctx.probe('norm-options')
            opts = {k: v for k, v in a.items() if k != 'norm_mean'}
            opts['no_norm_mean'] = not a['norm_mean']
            opts = command(MeanVarianceNorm, opts, [None, 'mvn'][j['seed'] // 2 % 2], [k for k in a if a[k] is None])
            tol = command(FrameSelector, tol, 'sel')
        norm = MeanVarianceNorm(**opts)
        sel = FrameSelector(**tol)
        tol = 3e-3

        def verify():
            if (L, R) != (None, None):
                if a['norm_mean']:
                    self.ctx.probe('sliding-mean')
                if a['norm_var']:
                    self.ctx.probe('sliding-variance')
            with Disk(self.ctx, self.ctx.root, self.p['io']):
                rd = RF.create(rspec)
                for k in self.keys:
                    x = guard(rd.read, [k])[0]
                    v = guard(rd.read, [k + '-vad'])[0]
                    m = mats[k].astype('float64')
                    if a['norm_mean']:
                        m = m - m.mean(0)
                    if a['norm_var']:
                        m = m / m.std(0)
                    if (L, R) != (None, None):
                        y = m.copy()
                        small = False
                        for i in range(len(m)):
                            w = m[0 if L is None else max(0, i - L):len(m) if R is None else i + R + 1]
                            if a['norm_mean']:
                                y[i] = y[i] - w.mean(0)
                            if a['norm_var']:
                                s = w.var(0)
                                # few frames with almost one value: the floor, or rounding
                                small = small or np.any(s < 0.02)
                                y[i] = y[i] / np.sqrt(np.maximum(s, 1e-5))
                        if small:
                            continue
                    else:
                        y = m
                    for f in (norm.normalize, norm.normalize_conv, norm.normalize_slow):
                        g = guard(f, x.copy())
                        check(g.shape == y.shape and np.all(np.abs(g - y) <= tol * np.maximum(
                            1, np.abs(y))), 'wrong-norm', lambda: '%s with contexts %s, %s: %s, '
                              'should be %s' % (f.__name__, L, R, brief(g, y), brief(y)))
                    x0 = x.copy()
                    guard(norm.normalize, x)
                    check(np.array_equal(x, x0), 'wrong-norm', lambda: 'the features given to '
                          'normalize are changed')
                    n, q = len(y), len(v)
                    u = v.astype(j['dtype'])
                    try:
                        g = sel.select(x, u)
                    except Exception as e:
                        check(abs(n - q) > 3, 'wrong-selection', lambda: 'selection of %d frames by '
                              '%d %s decisions fails: %r' % (n, q, j['dtype'], e))
                        self.ctx.probe('mismatch-refused')
                        continue
                    check(abs(n - q) <= 3, 'wrong-selection', lambda: '%d frames selected by %d '
                          'decisions' % (n, q))
                    if n != q:
                        self.ctx.probe('tolerated')
                    self.ctx.probe('selected')
                    w = [x[i] for i in range(min(n, q)) if v[i]]
                    w = np.array(w).reshape(len(w), 3)
                    check(np.array_equal(g, w), 'wrong-selection', lambda: '%s decisions %s select %d '
                          'frames of %d' % (j['dtype'], u, len(g), n))

        return self.job(j, body, None, verify, own, 0)

    # ---- one extractor kept by a worker for all its recordings
    def library(self, j):
        from hyperion import feats as F
        from hyperion.io import DataWriterFactory, RandomAccessDataReaderFactory as RF
        o, p = j['opt'], self.p
        r = np.random.RandomState(j['seed'])
        N, S = [o[q] * p['fs'] // 1000 for q in ('frame-length', 'frame-shift')]
        if any(len(v) < N + 2 * S for v in self.x.values()):
            return 'short'
        ref = {}
        for k in self.x:
            ref[k], W, _ = features(self.x[k], o)
        if np.any(W.sum(0) < 1e-6):
            return 'empty-filter'
        last = ['logfb', 'cepstrum'][r.randint(2)]
        names = {'fs': 'sample-frequency'}
        kw = {}
        for a in ('fs', 'frame_length', 'frame_shift', 'fft_length', 'remove_dc_offset', 'preemph_coeff',
                  'window_type', 'use_fft2', 'dither', 'fb_type', 'low_freq', 'high_freq', 'num_filters',
                  'norm_filters', 'num_ceps', 'snip_edges', 'energy_floor', 'raw_energy', 'use_energy',
                  'cepstral_lifter'):
            v = o.get(names.get(a, a.replace('preemph_', 'preemphasis_').replace('_', '-')))
            if v is not None:
                kw[a] = v == 'true' if v in ('true', 'false') else v
        keys = [self.keys[i] for i in r.permutation(len(self.keys))]
        name = 'l%d' % j['id']
        spec = '%s:%s' % (j['fmt'], name) if j['fmt'] == 'h5' else '%s,scp:%s,%s.scp' % (
            j['fmt'], name, name)
        rspec = 'h5:' + name if j['fmt'] == 'h5' else 'scp:%s.scp' % name
        win = {'povey': None, 'hamming': 'hamming', 'hanning': None, 'rectangular': 'rectangular',
               'blackman': 'blackman'}[o['window-type']]

        def body():
            m = F.MFCC(output_step=last, **kw)
            with DataWriterFactory.create(spec) as w:
                for k in keys:
                    x = self.x[k].copy()
                    y, X, mag, fb = m.compute(x, return_fft=True, return_fft_mag=True,
                                              return_logfb=True)
                    check(np.array_equal(x, self.x[k]), 'wrong-features', 'the waveform is changed')
                    w.write([k, k + '-re', k + '-im', k + '-mag', k + '-fb'],
                            [y, X.real.copy(), X.imag.copy(), mag, fb])
                    m.reset()

        def near(a, b, top, slack=0.):
            return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 3e-3 * np.maximum(
                np.abs(b), top) + slack))

        def verify():
            with Disk(self.ctx, self.ctx.root, self.p['io']):
                rd = RF.create(rspec)
                for k in keys:
                    y, re, im, mag, fb = [guard(rd.read, [k + q])[0] for q in (
                        '', '-re', '-im', '-mag', '-fb')]
                    w = dict(ref[k])
                    o2 = dict(o)
                    plain = features(self.x[k], dict(o, **{'use-energy': 'false'}))[0]
                    o2['use-energy'] = 'false'
                    check(near(y, w[last], 3. if last == 'logfb' else 5., rounding(ref[k], last, o)),
                          'wrong-features', lambda: '%s of %s by a kept extractor: %s, its options define '
                          '%s' % (last, k, brief(y, w[last]), brief(w[last])))
                    top = 0.05 * max(1., np.abs(plain['fft']).max())
                    check(near(re, plain['fft'].real, top) and near(im, plain['fft'].imag, top),
                          'wrong-features', lambda: 'Fourier transform of %s returned by compute: %s' % (
                              k, brief(re, plain['fft'].real)))
                    check(near(mag, plain['fft_mag'], 0.05 * max(1., plain['fft_mag'].max())),
                          'wrong-features', lambda: 'spectrum of %s returned by compute: %s' % (
                              k, brief(mag, plain['fft_mag'])))
                    check(near(fb, plain['logfb'], 3., rounding(plain, 'logfb', o2)), 'wrong-features',
                          lambda: 'filter bank of %s returned by compute: %s' % (
                              k, brief(fb, plain['logfb'])))
                    self.ctx.probe('all-steps')
                    self.inverse(self.x[k], N, S, o['fft-length'], win)

        return self.job(j, body, None, verify, [name, name + '.scp'], 0)

    def inverse(self, x, N, S, nfft, win):
        """The short-time transforms and their inverses."""
        from hyperion import feats as F
        if N > nfft:
            return
        w = None
        if win is not None:
            w = guard(F.FeatureWindowFactory.create, win, N)
            n = np.arange(N)
            d = {'hamming': 0.54 - 0.46 * np.cos(2 * np.pi * n / N), 'rectangular': np.ones(N),
                 'blackman': 0.42 - 0.5 * np.cos(2 * np.pi * n / N) + 0.08 * np.cos(
                     4 * np.pi * n / N)}[win]
            check(np.allclose(w, d, atol=1e-6), 'wrong-window', win)
        f = frame(x, N, S)
        v = np.ones(N) if w is None else np.asarray(w, dtype=float)
        top = max(1., np.abs(x).max())
        full = guard(F.stft, x, N, S, nfft, w)
        half = guard(F.strft, x, N, S, nfft, w)
        tol = 1e-5 * top * N
        check(full.shape == (len(f), nfft) and np.abs(full - np.fft.fft(f * v, n=nfft)).max() < tol,
              'wrong-transform', 'stft')
        check(half.shape == (len(f), nfft // 2 + 1) and np.abs(half - np.fft.rfft(
            f * v, n=nfft)).max() < tol, 'wrong-transform', 'strft')
        n = (len(f) - 1) * S + N
        s = np.zeros(n)
        for i in range(len(f)):
            s[i * S:i * S + N] += v
        ok = s > 0.05
        for inv, X in ((F.istft, full), (F.istrft, half)):
            y = guard(inv, X, N, S, w)
            check(y.shape == (n,) and np.abs(y[ok] - x[:n][ok]).max() < 2e-3 * top, 'wrong-transform',
                  lambda: '%s does not invert the transform' % inv.__name__)
        e = guard(F.st_logE, x, N, S)
        check(np.allclose(e, np.log((f ** 2).sum(1) + 1e-15), atol=1e-4), 'wrong-transform', 'energy')
        self.ctx.probe('transform-inverted')

    def run(self):
        self.prepare()
        self.got, self.done = {}, []
        tags = []
        for j in self.p['jobs']:
            k = j['kind']
            st = {'mfcc': self.mfcc, 'vad': self.vad, 'norm': self.norm, 'library': self.library}[k](j)
            self.ctx.probe('kind:' + k)
            o = j['opt']
            tags.append([k, st, j['fmt'], j['nparts'], j['scp'], j.get('steps'), j.get('mvn'),
                         j['faults'][0]['kind'] if j['faults'] else None,
                         [o.get(q) for q in ('fb-type', 'window-type', 'use-energy', 'raw-energy',
                                             'snip-edges', 'vad-frames-context')]])
        self.ctx.state(tags, len(self.keys))
        return self.info


def brief(a, b=None):
    a = np.asarray(a)
    if b is not None and a.shape == np.shape(b) and a.size:
        i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
        return '%s (at %s: %r instead of %r)' % (a.shape, tuple(int(q) for q in i), float(a[i]),
                                                 float(np.asarray(b)[i]))
    return '%s' % (a.shape,)


def run(plan, ctx):
    return Run(plan, ctx).run()
