"""C02: partial and metadata reads agree with the full record."""
from sim import readers as rd
from sim import storage as st
from sim.core import guard
from sim.disk import Disk

RUNS = {'quick': 12000, 'thorough': 120000}
STATE_RULE = 'archive format, compression, record shapes, script ranges and the history of reader ' \
             'operations'
MUST_REACH = ['single-record-files', 'aliased-record', 'ranged-read', 'script-range', 'metadata-read', 'out-of-range-read', 'squeezed',
              'missing-key-refused', 'missing-key-tolerated', 'fault:sliced-read']
REAL = ['hyperion.io readers, writers and factories', 'hyperion.utils.kaldi_matrix',
        'hyperion.utils.scp_list', 'CPython buffered I/O', 'HDF5 library']
STUB = ['system calls below the buffers (short reads and writes, buffer sizes)']
ASSUMPTIONS = ['row ranges are asked of matrices in binary archives (the text format refuses '
               'them)', 'ranges named in a script file lie inside their record']


shrink = st.shrink


def gen(rng, tier):
    arcs = st.gen_store(rng, max_recs=7, compress=0.45, fmts=('ark', 'h5', 'ark', 'h5', 'ark_t'),
                        big=rng.random() < 0.3)
    plan = {'arcs': arcs, 'io': st.gen_io(rng), 'views': [], 'ops': []}
    for i in range(rng.randint(1, 3)):
        a = rng.randrange(len(arcs))
        scp = arcs[a]['scp'] and rng.random() < 0.7
        rand = rng.random() < 0.5 and (scp or st.is_h5(arcs[a]))
        plan['views'].append({
            'id': i, 'arc': a, 'kind': 'scp' if scp else 'arc', 'rand': rand,
            'single': rng.random() < 0.3, 'alias': rng.random() < 0.3,
            'mix': rng.random() < 0.4, 'perm': rng.randint(0, 10 ** 6),
            'ranges': 1 if rng.random() < 0.6 else None,
            'permissive': rng.random() < 0.3, 'via': rng.choice(['factory', 'class'])})
    for _ in range(rng.randint(4, 14)):
        plan['ops'].append({
            'v': rng.randrange(len(plan['views'])),
            'op': rng.choice(['read'] * 6 + ['shapes', 'num_rows', 'dims', 'reset']),
            'n': rng.choice([0, 1, 1, 2, 3]), 'ranged': rng.random() < 0.75,
            'bad': rng.random() < 0.15, 'missing': rng.random() < 0.15,
            'squeeze': rng.random() < 0.3, 'seed': rng.randint(0, 10 ** 6)})
    return plan


def run(plan, ctx):
    model = st.Model(plan['arcs'], ctx)
    with Disk(ctx, ctx.root, plan['io']):
        for arc in plan['arcs']:
            guard(st.write_archive, arc, ctx)
            ctx.state(arc['fmt'], arc['compress'],
                      tuple((r['kind'], r['rows'], r['cols']) for r in arc['recs']))
        drv = []
        for v in plan['views']:
            view = rd.make_view(model, plan, v, ctx)
            ctx.state(view.kind, v['rand'], tuple(e[1:] for e in view.entries))
            if v['rand']:
                drv.append(rd.RandDriver(model, ctx, view, v['via'], v['permissive']))
            else:
                drv.append(rd.SeqDriver(model, ctx, view, v['via']))
        for o in plan['ops']:
            if o['v'] < len(drv):
                ctx.state(o['v'], o['op'], o['n'], o['ranged'])
                drv[o['v']].op(o)
        for d in drv:
            guard(d.r.close)
