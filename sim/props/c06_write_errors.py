"""C06: a write that fails is reported to the caller."""
import copy
import os

import numpy as np

from sim import artifacts as A, models as M, storage as st
from sim.core import SimCrash, Violation, attempt, check, guard
from sim.disk import Disk

RUNS = {'quick': 1200, 'thorough': 9000}
STATE_RULE = 'kind of output, failing call class, fault kind, whether the program saw an error'
MUST_REACH = ['fault:eio-write', 'fault:enospc', 'fault:short-write', 'error-seen', 'out:arc-ark',
              'out:arc-ark_t', 'out:arc-h5', 'out:audio', 'out:model', 'acked-kept',
              'error-at-close', 'retry-complete'] + ['out:list-' + k for k in A.KINDS]
REAL = ['hyperion.io writers', 'AudioWriter', 'hyperion.utils lists and trial classes',
        'HypModel.save', 'pandas, HDF5, libsndfile', 'CPython buffers']
STUB = ['system calls below the buffers: EIO on any write or open for writing, full disk']
ASSUMPTIONS = ['an error counts as reported when a call the writing program makes raises; HDF5 '
               'errors pass through its Python file driver']
LISTS = ('faults',)
shrink_arc = st.shrink


def gen(rng, tier):
    m = rng.random()
    io = {'seed': rng.randint(0, 10 ** 6), 'slice_reads': 0, 'slice_writes': rng.choice([0, 0, 0.5]),
          'vary_buf': rng.random() < 0.7}
    plan = {'io': io, 'faults': [], 'arcs': [], 'isolate': False}
    if m < 0.4:
        plan['what'] = 'arc'
        plan['arcs'] = st.gen_store(rng, 1, max_recs=6)
    elif m < 0.5:
        plan['what'] = 'audio'
        plan['recs'] = [{'key': 'rec-%d' % (i * 7), 'n': rng.choice([1, 10, 400, 9000]),
                         'seed': rng.randint(0, 9999)} for i in range(rng.randint(1, 4))]
        plan['scp'] = rng.random() < 0.8
        plan['fmt'] = rng.choice(['wav', 'wav', 'flac'])
        plan['end'] = rng.choice(['close', 'with'])
    elif m < 0.8:
        plan['what'] = 'list'
        plan['kind'] = rng.choice(sorted(A.KINDS))
        plan['spec'] = A.KINDS[plan['kind']].gen(rng)
    else:
        plan['what'] = 'model'
        plan['spec'] = M.gen(rng)
    return plan


def is_h5(plan):
    w = plan['what']
    return w == 'model' or (w == 'arc' and st.is_h5(plan['arcs'][0])) or \
        (w == 'list' and A.KINDS[plan['kind']].h5)


def inject(plan, extra, rng, tier):
    n_mut, nbytes = extra
    k = 4 if tier == 'quick' else 30
    pts = list(range(1, n_mut + 1))
    if len(pts) > k:
        pts = sorted(set(rng.sample(pts, k - 1) + [n_mut]))
    fs = [[{'kind': 'eio_write', 'n': n}] for n in pts]
    for _ in range(k // 2):
        fs.append([{'kind': 'enospc', 'after': rng.randint(0, max(0, nbytes - 1))}])
    fs.append([{'kind': 'enospc', 'after': max(0, nbytes - 1)}])
    for f in fs:
        q = copy.deepcopy(plan)
        q['faults'] = f
        q['isolate'] = is_h5(plan)
        yield q


def on_death(plan, status):
    return None                      # the process died: the failure was certainly noticed


def produce(plan, acked):
    """The writing program.  Appends flushed-and-acknowledged keys to acked."""
    w = plan['what']
    if w == 'arc':
        arc = plan['arcs'][0]
        pend = []

        def on_ack(recs, flushed):
            pend.extend(r['key'] for r in recs)
            if flushed:
                acked.extend(pend)
                del pend[:]
        st.write_archive(dict(arc), plan['_ctx'], on_ack)
    elif w == 'audio':
        from hyperion.io import AudioWriter
        wr = AudioWriter('aud', 'aud.scp' if plan['scp'] else None, audio_format=plan['fmt'],
                         **({'subtype': 'PCM_16'} if len(plan['recs']) % 2 else {}))

        def go():
            for r in plan['recs']:
                wr.write([r['key']], [wave(r)], 8000)
                acked.append(r['key'])
        if plan['end'] == 'with':
            with wr:
                go()
        else:
            go()
            wr.close()
    elif w == 'list':
        K = A.KINDS[plan['kind']]
        K.save(K.build(plan['spec']), 'x.' + K.ext)
    else:
        M.build(plan['spec']).save('./m.h5')


def wave(rec):
    r = np.random.RandomState(rec['seed'])
    return np.round(r.uniform(-30000, 30000, rec['n'])).astype(np.int16)


def complete(plan, ctx, where):
    """The output is complete and correct."""
    w = plan['what']
    if w == 'arc':
        arc = plan['arcs'][0]
        model = st.Model([arc], ctx)
        r = guard(st.open_seq, 'arc', arc['path'], st.is_h5(arc))
        ks, vs = guard(r.read)
        check(list(ks) == st.arc_order(arc), 'silent-loss', lambda: '%s: archive holds %s, wrote '
              '%s' % (where, list(ks), st.arc_order(arc)))
        for k, v in zip(ks, vs):
            model.check_value(k, v, where=where)
        r.close()
        if arc['scp']:
            r = guard(st.open_seq, 'scp', st.scp_path(arc), st.is_h5(arc))
            ks, vs = guard(r.read)
            check(list(ks) == [x['key'] for x in arc['recs']], 'silent-loss', '%s: script' % where)
            for k, v in zip(ks, vs):
                model.check_value(k, v, where=where)
            r.close()
    elif w == 'audio':
        audio(plan, [r['key'] for r in plan['recs']], where)
    elif w == 'list':
        K = A.KINDS[plan['kind']]
        o = guard(K.load, plan['spec'], 'x.' + K.ext)
        d = A.diff(plan['kind'], K.content(o, plan['spec']), A.reference(plan['kind'], plan['spec']))
        check(d is None, 'silent-loss', lambda: '%s: %s' % (where, d))
    else:
        m = guard(M.cls_of(plan['spec']).load, './m.h5')
        d = M.diff(plan['spec'], M.build(plan['spec']), m)
        check(d is None, 'silent-loss', lambda: '%s: %s' % (where, d))


def audio(plan, keys, where):
    import soundfile as sf
    by = {r['key']: r for r in plan['recs']}
    for k in keys:
        x, exc = attempt(sf.read, 'aud/%s.%s' % (k, plan['fmt']), dtype='int16')
        check(x is not None, 'silent-loss', lambda: '%s: audio %s: %r' % (where, k, exc))
        check(len(x[0]) == by[k]['n'] and np.array_equal(x[0], wave(by[k])), 'silent-loss',
              lambda: '%s: audio %s has %d samples, wrote %d (or differ)' % (
                  where, k, len(x[0]), by[k]['n']))
    if plan['scp']:
        got = open('aud.scp').read().splitlines()
        check([l.split(' ')[0] for l in got][:len(keys)] == keys and len(got) >= len(keys),
              'silent-loss', lambda: '%s: audio script %s' % (where, got))


def run(plan, ctx):
    w = plan['what']
    name = w + ('-' + plan['arcs'][0]['fmt'] if w == 'arc' else '-' + plan['kind']
                if w == 'list' else '')
    ctx.probe('out:' + name)
    acked = []
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])
    p = dict(plan)
    p['_ctx'] = ctx
    with d:
        if plan['faults']:
            _, exc = attempt(produce, p, acked)
        else:
            guard(produce, p, acked)
            exc = None
        nb, nm = d.bytes_written, d.n_mut
    ctx.ev('outcome', type(exc).__name__)
    ctx.state(name, tuple(f['kind'] for f in plan['faults']), exc is None, len(acked),
              len(d.failed), d.failed[0][1] if d.failed else None)
    with Disk(ctx, ctx.root):
        if exc is None:
            complete(plan, ctx, 'no error was reported%s' % (
                ' although %s failed' % (d.failed,) if d.failed else ''))
            check(not d.failed, 'error-swallowed', lambda: '%s: %s was never reported' % (
                name, d.failed))
        else:
            check(d.failed, 'spurious-error', lambda: '%r without any fault' % exc)
            ctx.probe('error-seen')
            if len(acked) == (len(plan['arcs'][0]['recs']) if w == 'arc' else
                              len(plan.get('recs', [0, 0]))):
                ctx.probe('error-at-close')
            if acked and not is_h5(plan):
                kept(plan, ctx, acked)
                ctx.probe('acked-kept')
    if exc is not None and not is_h5(plan):
        # the disk recovers and the job is run again on the same paths
        with Disk(ctx, ctx.root):
            guard(produce, p, [])
            complete(plan, ctx, 'run again after the disk recovered')
            ctx.probe('retry-complete')
    return nm, nb


def kept(plan, ctx, acked):
    if plan['what'] == 'audio':
        audio(plan, acked, 'acknowledged before the failure')
        return
    arc = plan['arcs'][0]
    model = st.Model([arc], ctx)
    r = guard(st.open_seq, 'arc', arc['path'], False)
    for k in acked:
        got, exc = attempt(r.read, 1)
        check(got is not None and list(got[0]) == [k], 'acked-record-lost', lambda: 'record %r was '
              'acknowledged with flushing on before the failure: %r' % (k, exc or got))
        model.check_value(k, got[1][0], where='archive after a failed write')
    attempt(r.close)
    if arc['scp']:
        p = st.scp_path(arc)
        txt = open(p).read()
        if txt and not txt.endswith('\n'):         # a line torn by the full disk, not acknowledged
            ctx.probe('torn-script-line')
            with open(p, 'w') as f:
                f.write(txt[:txt.rfind('\n') + 1])
        r = guard(st.open_rand, 'scp', p, False)
        for k in acked:
            v, exc = attempt(r.read, [k])
            check(v is not None, 'acked-record-lost', lambda: 'record %r was acknowledged with '
                  'flushing on before the failure; through the script: %r' % (k, exc))
            model.check_value(k, v[0], where='script after a failed write')
        attempt(r.close)


def shrink(plan):
    if plan['what'] == 'arc':
        for q in st.shrink(plan):
            yield q
    elif plan['what'] == 'audio' and len(plan['recs']) > 1:
        for i in range(len(plan['recs'])):
            q = copy.deepcopy(plan)
            del q['recs'][i]
            yield q
