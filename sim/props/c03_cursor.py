"""C03: a sequential reader behaves as a cursor over its records, and parts cover the list."""
from sim import readers as rd
from sim import storage as st
from sim.core import check, guard
from sim.disk import Disk

RUNS = {'quick': 10000, 'thorough': 120000}
STATE_RULE = 'reader kind, list length, part setting and the history of cursor operations'
MUST_REACH = ['single-record-files', 'aliased-record', 'past-end-read', 'iteration-ended', 'reset', 'eof-seen', 'metadata-read', 'parts',
              'parts-by-key', 'empty-part', 'two-readers', 'fault:sliced-read']
REAL = ['hyperion.io sequential readers and factories', 'hyperion.utils.scp_list',
        'hyperion.utils.list_utils', 'CPython buffered I/O', 'HDF5 library']
STUB = ['system calls below the buffers (short reads and writes, buffer sizes)']
ASSUMPTIONS = ['a bare Kaldi archive reports end of data once a read has come up short: it cannot '
               'know earlier']


shrink = st.shrink


def gen(rng, tier):
    arcs = st.gen_store(rng, max_recs=10, compress=0.2)
    plan = {'arcs': arcs, 'io': st.gen_io(rng), 'views': [], 'ops': []}
    for i in range(rng.randint(1, 2)):
        a = rng.randrange(len(arcs))
        scp = arcs[a]['scp'] and rng.random() < 0.65
        v = {'id': i, 'arc': a, 'kind': 'scp' if scp else 'arc', 'single': rng.random() < 0.3, 'alias': rng.random() < 0.3,
            'mix': rng.random() < 0.4,
             'perm': rng.randint(0, 10 ** 6), 'ranges': 1 if rng.random() < 0.2 else None,
             'via': rng.choice(['factory', 'class']), 'parts': 1, 'part': 1, 'by_key': False}
        if (scp or st.is_h5(arcs[a])) and rng.random() < 0.5:
            v['parts'] = rng.choice([2, 2, 3, 4, 5, 7, 12, 30])
            v['part'] = rng.randint(1, v['parts'])
            v['by_key'] = rng.random() < 0.4
        plan['views'].append(v)
    n = rng.randint(5, 40 if tier == 'thorough' else 25)
    for _ in range(n):
        plan['ops'].append({
            'v': rng.randrange(len(plan['views'])),
            'op': rng.choice(['read'] * 4 + ['next'] * 3 + ['eof'] * 3 +
                             ['shapes', 'num_rows', 'dims', 'reset']),
            'n': rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 50]), 'ranged': rng.random() < 0.2,
            'squeeze': rng.random() < 0.2, 'seed': rng.randint(0, 10 ** 6)})
    return plan


def part_entries(model, ctx, view, v):
    """Reads every part once with fresh readers; the parts must cover the list exactly once."""
    by_key = {e[0]: e for e in view.entries}
    parts = []
    for p in range(1, v['parts'] + 1):
        r = guard(st.open_seq, view.kind, view.path, view.h5, v['via'], part_idx=p,
                  num_parts=v['parts'], split_by_key=v['by_key'])
        ks, vs = guard(r.read)
        for k in ks:
            check(k in by_key, 'foreign-key', 'part %d returned unknown key %r' % (p, k))
        rd.compare(model, ctx, vs, [by_key[k] for k in ks],
                   [by_key[k][1:] for k in ks], 'part %d/%d of %s' % (p, v['parts'], view.path))
        parts.append(list(ks))
        r.close()
        if not len(ks):
            ctx.probe('empty-part')
    allk = [k for p in parts for k in p]
    exp = [e[0] for e in view.entries]
    if v['by_key']:
        ctx.probe('parts-by-key')
        check(sorted(allk) == sorted(exp), 'parts-do-not-cover', lambda: 'parts of %s hold %s, '
              'list holds %s' % (view.path, parts, exp))
    else:
        ctx.probe('parts')
        check(allk == exp, 'parts-do-not-cover', lambda: 'parts of %s hold %s, list holds %s' % (
            view.path, parts, exp))
    return [by_key[k] for k in parts[v['part'] - 1]]


def run(plan, ctx):
    model = st.Model(plan['arcs'], ctx)
    with Disk(ctx, ctx.root, plan['io']):
        for arc in plan['arcs']:
            guard(st.write_archive, arc, ctx)
        drv = []
        for v in plan['views']:
            view = rd.make_view(model, plan, v, ctx)
            ents, kw = None, {}
            if v['parts'] > 1:
                ents = part_entries(model, ctx, view, v)
                kw = dict(part_idx=v['part'], num_parts=v['parts'], split_by_key=v['by_key'])
            drv.append(rd.SeqDriver(model, ctx, view, v['via'], ents, **kw))
            ctx.state(view.kind, view.h5, len(drv[-1].entries), v['part'], v['parts'], v['by_key'])
        if len(drv) > 1:
            ctx.probe('two-readers')
        for o in plan['ops']:
            if o['v'] < len(drv):
                ctx.state(o['v'], o['op'], o['n'])
                drv[o['v']].op(o)
        for d in drv:
            guard(d.r.close)
