"""C19: list and trial files load back what was saved or fail to load."""
import copy
import os

from sim import artifacts as A
from sim.core import SimCrash, Violation, attempt, check, guard
from sim.disk import Disk

RUNS = {'quick': 1500, 'thorough': 12000}
STATE_RULE = 'kind of file, crash or cut position class, outcome of loading, entries loaded'
MUST_REACH = ['fault:crash', 'fault:torn-write', 'fault:eio-read', 'fault:truncated', 'roundtrip',
              'partial-loaded', 'partial-refused', 'resaved', 'old-file-intact', 'h5-refused',
              'read-error-raised'] + ['kind:' + k for k in A.KINDS]
REAL = ['hyperion.utils lists and trial classes', 'pandas readers and writers', 'HDF5 library',
        'CPython buffers']
STUB = ['system calls below the buffers; process death (buffers lost); truncation of the file by a '
        'later accident']
ASSUMPTIONS = ['ids hold no blanks, ":" or "["', 'label files with several columns are loaded with '
               'the column types given, as their interface asks', 'process-crash model']
LISTS = ('faults',)


def gen(rng, tier):
    kind = rng.choice(sorted(A.KINDS))
    K = A.KINDS[kind]
    return {'kind': kind, 'spec': K.gen(rng), 'prev': K.gen(rng) if rng.random() < 0.3 else None,
            'io': {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.3, 0.9]),
                   'slice_writes': rng.choice([0, 0.3, 0.8]), 'vary_buf': rng.random() < 0.7},
            'dir': rng.choice(['', './', 'sub/']), 'cut': None, 'rfault': None, 'faults': [],
            'isolate': False}


def inject(plan, extra, rng, tier):
    n_mut, n_read, size, nl = extra
    h5 = A.KINDS[plan['kind']].h5
    k = 4 if tier == 'quick' else 40
    pts = list(range(1, n_mut + 1))
    if len(pts) > k:
        pts = sorted(rng.sample(pts, k))
    for n in pts:
        q = copy.deepcopy(plan)
        q['faults'] = [{'kind': 'crash', 'n': n, 'keep': rng.choice([0, 0.5, rng.random(), 1])}]
        q['isolate'] = h5
        yield q
    if h5:
        cuts = [rng.randint(0, size - 1) for _ in range(k)]
    else:
        cuts = [rng.choice(nl)] + [rng.randint(0, size) for _ in range(k // 2)]
        if tier != 'quick':
            cuts += nl
    for c in cuts:
        q = copy.deepcopy(plan)
        q['cut'] = c
        q['isolate'] = h5
        yield q
    for n in sorted(set(rng.randint(1, n_read) for _ in range(2))):
        q = copy.deepcopy(plan)
        q['rfault'] = {'kind': 'eio_read', 'n': n, 'times': rng.choice([1, 1, 3, 10 ** 6])}
        q['isolate'] = h5
        yield q


def on_death(plan, status):
    return None                      # HDF5 took the process down: it did fail to load


def run(plan, ctx):
    kind, s = plan['kind'], plan['spec']
    K = A.KINDS[kind]
    ctx.probe('kind:' + kind)
    d0 = plan['dir'].strip('./')
    if d0:
        os.makedirs(d0)
    path = plan['dir'] + 'x.' + K.ext
    ref = A.reference(kind, s)
    # what a complete save leaves on disk
    with Disk(ctx, ctx.root):
        guard(K.save, guard(K.build, s), 'ref.' + K.ext)
    full = open('ref.' + K.ext, 'rb').read()
    old = None
    if plan['prev']:
        with Disk(ctx, ctx.root):
            guard(K.save, guard(K.build, plan['prev']), path)
        old = open(path, 'rb').read()
    crashed = False
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])
    with d:
        try:
            guard(K.save, guard(K.build, s), path)
            if d.crashed:
                raise SimCrash()
        except SimCrash:
            crashed = True
    nl = [i + 1 for i, c in enumerate(full) if c == 10] or [0]
    if plan['cut'] is not None:
        ctx.fault('truncated')
        with open(path, 'r+b') as f:
            f.truncate(min(plan['cut'], len(full)))
    whole = not crashed and plan['cut'] is None
    faults = [plan['rfault']] if plan['rfault'] else []
    r = Disk(ctx, ctx.root, plan['io'], faults)
    now = open(path, 'rb').read() if os.path.exists(path) else None
    n_read = 0
    if now is not None:
        with r:
            if whole and not faults:
                o, exc = guard(K.load, s, path), None
                ctx.probe('roundtrip')
            else:
                src = plan['prev'] if (old is not None and now == old) else s
                o, exc = attempt(K.load, src, path)
        n_read = r.n_read
        judge(plan, ctx, K, kind, s, o, exc, ref, now, old, full, whole, r)
    ctx.state(kind, whole, crashed, plan['cut'] is not None, bool(faults),
              None if now is None else len(now) * 8 // max(1, len(full)))
    # saving again on the same path gives a complete file
    if crashed or plan['cut'] is not None:
        with Disk(ctx, ctx.root, dict(plan['io'], slice_reads=0)):
            guard(K.save, guard(K.build, s), path)
            o = guard(K.load, s, path)
            same(kind, K, s, o, ref, 'after saving again')
            ctx.probe('resaved')
    return d.n_mut, max(1, n_read), len(full), nl


def same(kind, K, s, o, ref, where):
    dd = A.diff(kind, K.content(o, s), ref)
    check(dd is None, 'wrong-content', lambda: '%s file %s: %s' % (kind, where, dd))
    if K.trial:
        dd = A.order_diff(kind, s, o)
        check(dd is None, 'wrong-order', lambda: '%s file %s: %s' % (kind, where, dd))


def judge(plan, ctx, K, kind, s, o, exc, ref, now, old, full, whole, r):
    if whole:
        if o is None:
            check(r.failed, 'load-failed', lambda: '%s: %r' % (kind, exc))
            ctx.probe('read-error-raised')
        else:
            same(kind, K, s, o, ref, 'loaded' + (' over a failing read' if r.failed else ''))
        return
    if old is not None and now == old and now != full:
        check(o is not None, 'load-failed', lambda: 'untouched old %s file: %r' % (kind, exc))
        dd = A.diff(kind, K.content(o, plan['prev']), A.reference(kind, plan['prev']))
        check(dd is None, 'wrong-content', lambda: 'old %s file: %s' % (kind, dd))
        ctx.probe('old-file-intact')
        return
    if K.h5:
        if o is None:
            ctx.probe('h5-refused')
        else:
            same(kind, K, s, o, ref, 'after %s' % ('a crash while saving' if plan['faults'] else
                                                   'being cut to %d of %d bytes' % (
                                                       len(now), len(full))))
            ctx.probe('h5-whole-after-damage')
        return
    check(full.startswith(now), 'wrong-file', lambda: '%s: file after the crash is not a beginning '
          'of the complete one' % kind)
    if now == full:
        check(o is not None, 'load-failed', lambda: '%s: %r' % (kind, exc))
        same(kind, K, s, o, ref, 'complete')
        return
    if o is None:
        ctx.probe('partial-refused')
        return
    ctx.probe('partial-loaded')
    n = now.count(b'\n')
    lost = 'after being cut to %d of %d bytes' % (len(now), len(full))
    if now and not now.endswith(b'\n') and full[len(now):len(now) + 1] == b'\n':
        n += 1                                   # only the line end is missing
    if not K.trial:
        A.check_partial(kind, s, o, n, ref, lost)
        return
    lines = full.decode().split('\n')[:n]
    keys = [tuple(l.split(' ')[:2]) for l in lines]
    got = K.content(o, s)
    for k in keys:
        check(k in got, 'entries-lost', lambda: '%s %s: trial %s' % (kind, lost, k))
        check(A.same_val(kind, got[k], ref[k]), 'entry-altered',
              lambda: '%s %s: trial %s has %r, saved %r' % (kind, lost, k, got[k], ref[k]))
    extra = [k for k in got if k not in keys]
    check(len(extra) <= 1, 'entries-invented', lambda: '%s %s: %s' % (kind, lost, extra))
    if extra and now.endswith(b'\n'):
        raise Violation('entries-invented', '%s %s: %s' % (kind, lost, extra))


def shrink(plan):
    for key in ('spec', 'prev'):
        s = plan[key]
        if not s:
            continue
        if key == 'prev':
            q = copy.deepcopy(plan)
            q['prev'] = None
            yield q
        for lst in ('rows', 'models', 'segs'):
            if lst in s and len(s[lst]) > 1:
                for i in range(len(s[lst])):
                    q = copy.deepcopy(plan)
                    del q[key][lst][i]
                    yield q
