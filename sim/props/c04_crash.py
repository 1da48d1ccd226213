"""C04: flushed records survive a crash of the writing process; scripts never name wrong data."""
import copy
import os

import numpy as np

from sim import storage as st
from sim.core import SimCrash, Violation, attempt, check, guard, in_repo
from sim.disk import Disk

RUNS = {'quick': 700, 'thorough': 4000}
STATE_RULE = 'archive format and options, crash point, records acknowledged, lines in the script ' \
             'and outcome of every read after the crash'
MUST_REACH = ['fault:crash', 'fault:torn-write', 'crash-with-acked', 'crash-inside-hdf5',
              'crash-between-calls', 'line-fails-after-crash', 'line-resolves-after-crash',
              'audio-crash', 'rerun-over-old-output', 'restart-complete']
REAL = ['hyperion.io writers, readers and factories', 'AudioWriter/AudioReader',
        'hyperion.utils.kaldi_matrix', 'CPython buffers', 'HDF5 library', 'libsndfile']
STUB = ['system calls below the buffers; process death (buffers lost, files keep what was '
        'written)']
ASSUMPTIONS = ['process-crash model: what reached write(2) survives; power loss is not promised '
               '(no fsync in the code)',
               'one small write(2) to a text index is not torn by a process crash',
               'a kill inside an HDF5 library call leaves a file nothing is claimed about (the library may '
               'have updated the names but not yet the objects); a restarted job must still give a '
               'complete one']
LISTS = ('faults',)
shrink = st.shrink


def gen(rng, tier):
    if rng.random() < 0.18:
        return gen_audio(rng)
    arc = st.gen_store(rng, 1, max_recs=6, flush=rng.random() < 0.85, scp=rng.random() < 0.9)[0]
    io = st.gen_io(rng)
    io['atomic_index'] = True
    plan = {'arcs': [arc], 'io': io, 'faults': [], 'kill_call': None, 'prev': None}
    if rng.random() < 0.3:
        prev = copy.deepcopy(arc)
        for r in prev['recs']:
            r['seed'] += 1
            r['rows'] = max(1, r['rows'] + rng.choice([-1, 0, 1]))
        prev['recs'].reverse()
        plan['prev'] = prev
    return plan


def gen_audio(rng):
    n = rng.randint(1, 4)
    recs = [{'key': 'rec-%d' % (i * 7), 'n': rng.choice([1, 10, 400, 3000]),
             'seed': rng.randint(0, 9999)} for i in range(n)]
    return {'audio': True, 'recs': recs, 'arcs': [], 'fmt': rng.choice(['wav', 'wav', 'flac']),
            'single': rng.random() < 0.5, 'prev': None, 'kill_call': None,
            'io': {'seed': rng.randint(0, 9999), 'slice_writes': rng.choice([0, 0.5]),
                   'slice_reads': 0, 'vary_buf': False, 'atomic_index': True}, 'faults': []}


def inject(plan, extra, rng, tier):
    n_mut, n_call = extra
    pts = list(range(1, n_mut + 1))
    if tier == 'quick' and len(pts) > 9:
        pts = sorted(rng.sample(pts, 9))
    elif len(pts) > 120:
        pts = sorted(rng.sample(pts, 120))
    h5 = bool(plan['arcs']) and st.is_h5(plan['arcs'][0])
    for n in pts:
        q = copy.deepcopy(plan)
        q['faults'] = [{'kind': 'crash', 'n': n, 'keep': rng.choice([0, 0, 0.5, rng.random(), 1])}]
        q['isolate'] = h5
        yield q
    for k in range(1, n_call + 1):
        q = copy.deepcopy(plan)
        q['kill_call'] = k
        q['isolate'] = h5
        yield q


def on_death(plan, status):
    return None          # the HDF5 library crashed on a torn file: an error, not wrong data


class Killed(Exception):
    pass


def run(plan, ctx):
    if plan.get('audio'):
        return run_audio(plan, ctx)
    arc = plan['arcs'][0]
    h5 = st.is_h5(arc)
    if plan['prev']:
        with Disk(ctx, ctx.root):
            guard(st.write_archive, plan['prev'], ctx)
        ctx.probe('rerun-over-old-output')
        with open(arc['path'], 'rb') as f:
            old_bytes = f.read()
    durable, pending = [], []
    calls = [0]
    crashed = False
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])

    def on_ack(recs, flushed):
        pending.extend(r['key'] for r in recs)
        if flushed:
            durable.extend(pending)
            del pending[:]

    arc_run = dict(arc)
    with d:
        w = None
        try:
            w = guard(st.open_writer, arc_run)
            run_calls(w, arc_run, ctx, on_ack, calls, plan['kill_call'], d)
            guard(w.close)
            if d.crashed:
                raise SimCrash()
            durable.extend(pending)
        except SimCrash:
            crashed = True
    del w
    model = st.Model([arc], ctx)
    if crashed and plan['prev'] and not durable:
        with open(arc['path'], 'rb') as f:
            if f.read() == old_bytes:           # died before it touched the old output
                ctx.probe('old-output-intact')
                with Disk(ctx, ctx.root):
                    guard(st.write_archive, dict(arc), ctx)
                    read_all(arc, st.Model([arc], ctx), ctx)
                return d.n_mut, calls[0]
    if crashed:
        inside = h5 and plan['kill_call'] is None
        ctx.probe('crash-inside-hdf5' if inside else 'crash-between-calls'
                  if plan['kill_call'] else 'crash-in-write')
        if durable:
            ctx.probe('crash-with-acked')
        ctx.state(arc['fmt'], arc['compress'], len(durable), len(arc['recs']))
        with Disk(ctx, ctx.root):
            after_crash(plan, arc, model, ctx, durable, not inside)
            # restart from scratch on the same paths
            arc2 = dict(arc)
            guard(st.write_archive, arc2, ctx)
            read_all(arc, st.Model([arc], ctx), ctx)
            ctx.probe('restart-complete')
    else:
        with Disk(ctx, ctx.root):
            read_all(arc, model, ctx)
    return d.n_mut, calls[0]


def run_calls(w, arc, ctx, on_ack, calls, kill, d):
    i = 0
    for form, m, fl in arc['calls']:
        recs = arc['recs'][i:i + m]
        if not recs:
            break
        i += len(recs)
        if form == 'single':
            guard(w.write, recs[0]['key'], st.payload(recs[0], arc))
        else:
            guard(w.write, [r['key'] for r in recs], [st.payload(r, arc) for r in recs])
        if d.crashed:
            raise SimCrash()
        if fl:
            guard(w.flush)
            if d.crashed:
                raise SimCrash()
        on_ack(recs, arc['flush'] or fl)
        ctx.ev('acked', [r['key'] for r in recs])
        calls[0] += 1
        if kill == calls[0]:
            d.crashed = True
            ctx.fault('kill-between-calls'); ctx.state('kill', kill)
            for f in d.files:
                f.dead = True
            raise SimCrash()


def read_all(arc, model, ctx):
    r = guard(st.open_seq, 'arc', arc['path'], st.is_h5(arc))
    ks, vs = guard(r.read)
    check(list(ks) == st.arc_order(arc), 'wrong-keys', lambda: 'complete archive holds %s, wrote '
          '%s' % (list(ks), st.arc_order(arc)))
    for k, v in zip(ks, vs):
        model.check_value(k, v, where='complete archive')
    r.close()
    if arc['scp']:
        r = guard(st.open_seq, 'scp', st.scp_path(arc), st.is_h5(arc))
        ks, vs = guard(r.read)
        check(list(ks) == [x['key'] for x in arc['recs']], 'wrong-keys', 'complete script')
        for k, v in zip(ks, vs):
            model.check_value(k, v, where='complete script')
        r.close()


def after_crash(plan, arc, model, ctx, durable, must):
    inside = not must            # HDF5 was in the middle of its own update of the file
    h5 = st.is_h5(arc)
    names = {r['key'] for r in arc['recs']}
    # 1. the archive itself
    ok = set()
    r, exc = attempt(st.open_seq, 'arc', arc['path'], h5)
    if r is not None:
        pos = 0
        order = st.arc_order(arc)
        while True:
            got, exc = attempt(r.read, 1)
            if got is None or not len(got[0]):
                break
            k, v = got[0][0], got[1][0]
            if not inside:
                model.check_value(k, v, where='archive after crash')
            check(k in names, 'foreign-key', 'archive after crash holds %r' % k)
            if not h5:
                check(k == order[pos], 'wrong-keys', 'archive after crash returned %r at position '
                      '%d, expected %r' % (k, pos, order[pos]))
            ok.add(k)
            pos += 1
            check(pos <= len(order), 'too-many-records', 'archive after crash')
        r.close()
    if must:
        lost = [k for k in durable if k not in ok]
        check(not lost, 'acked-record-lost', lambda: 'records %s were acknowledged with flushing '
              'on and cannot be read from the archive after the crash (%s)' % (lost, exc))
    ctx.state('archive', len(ok))
    # 2. through the script
    if not arc['scp']:
        return
    p = st.scp_path(arc)
    lines = st.script_lines(arc) if os.path.exists(p) else []
    if not lines:
        check(not (must and durable), 'acked-record-lost', 'script is empty after the crash, %d '
              'records were acknowledged' % len(durable))
        return
    keys = [l.split(' ')[0] for l in lines]
    extra = [k for k in keys if k not in names]
    check(not extra, 'foreign-key', lambda: 'script names %s' % extra)
    good = []
    for kind in ('rand', 'seq'):
        if kind == 'rand':
            r, exc = attempt(st.open_rand, 'scp', p, h5)
        else:
            r, exc = attempt(st.open_seq, 'scp', p, h5)
        if r is None:
            check(not (must and durable), 'acked-record-lost',
                  lambda: 'script cannot be opened after the crash: %s' % exc)
            continue
        for i, k in enumerate(keys):
            if kind == 'rand':
                v, exc = attempt(r.read, [k])
            else:
                got, exc = attempt(r.read, 1)
                v = None
                if got is not None:
                    check(list(got[0]) == [k], 'wrong-keys', 'script reader after crash')
                    v = got[1]
            if v is None:
                ctx.probe('line-fails-after-crash')
                check(not (must and k in durable), 'acked-record-lost', lambda: 'record %r was '
                      'acknowledged with flushing on and cannot be read through the script after '
                      'the crash: %r' % (k, exc))
                if kind == 'seq':
                    break
                continue
            ctx.probe('line-resolves-after-crash')
            if not inside:
                model.check_value(k, v[0], where='script after crash')
            good.append(k)
        attempt(r.close)
    if must:
        lost = [k for k in durable if k not in keys]
        check(not lost, 'acked-record-lost', lambda: 'acknowledged records %s are missing from the '
              'script after the crash' % lost)
    ctx.state('script', len(lines), len(good))


# --------------------------------------------------------------------------- audio
def wave(rec):
    r = np.random.RandomState(rec['seed'])
    return np.round(r.uniform(-30000, 30000, rec['n'])).astype(np.int16)


def run_audio(plan, ctx):
    from hyperion.io import AudioWriter, SequentialAudioReader
    recs = plan['recs']
    acked = []
    crashed = False
    calls = 0
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])

    def job(fatal):
        n = 0
        w = guard(AudioWriter, 'aud', 'aud.scp', audio_format=plan['fmt'],
                  **({'subtype': 'PCM_16'} if len(recs) % 2 else {}))
        for r in recs:
            if plan['single']:
                guard(w.write, r['key'], wave(r), 8000)
            else:
                guard(w.write, [r['key']], [wave(r)], 8000)
            n += 1
            if fatal:
                acked.append(r['key'])
                ctx.ev('acked', r['key'])
                if plan['kill_call'] == n:
                    d.crashed = True
                    ctx.fault('kill-between-calls'); ctx.state('kill', plan['kill_call'] if isinstance(plan, dict) else 0)
                    for f in d.files:
                        f.dead = True
                    raise SimCrash()
        guard(w.close)
        return n

    with d:
        try:
            calls = job(True)
        except SimCrash:
            crashed = True
    with Disk(ctx, ctx.root):
        if crashed:
            ctx.probe('audio-crash')
            audio_check(recs, ctx, acked, False)
            job(False)
        audio_check(recs, ctx, [r['key'] for r in recs], True)
    ctx.state('audio', plan['fmt'], crashed, len(acked))
    return d.n_mut, calls


def audio_check(recs, ctx, must, complete):
    from hyperion.io import SequentialAudioReader
    by = {r['key']: r for r in recs}
    lines = open('aud.scp').read().splitlines() if os.path.exists('aud.scp') else []
    keys = [l.split(' ')[0] for l in lines]
    lost = [k for k in must if k not in keys]
    check(not lost, 'acked-record-lost', lambda: 'audio script lacks %s' % lost)
    if complete:
        check(keys == [r['key'] for r in recs], 'wrong-keys', lambda: 'audio script %s' % keys)
    if not lines:
        return
    r = guard(SequentialAudioReader, 'aud.scp')
    for k in keys:
        got, exc = attempt(r.read, 1)
        if got is None:
            check(k not in must, 'acked-record-lost', lambda: 'audio %r: %r' % (k, exc))
            return
        check(got[0][0] == k, 'wrong-keys', 'audio reader')
        x, fs = got[1][0], got[2][0]
        w = wave(by[k])
        check(len(x) == len(w) and fs == 8000 and np.array_equal(np.asarray(x, float),
                                                                 w.astype(float)),
              'wrong-value', 'audio %r named by the script has %d samples, wrote %d (or values '
              'differ)' % (k, len(x), len(w)))
        ctx.probe('audio-compared')
