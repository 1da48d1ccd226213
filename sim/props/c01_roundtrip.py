"""C01: archives return exactly the records that were written, by every read path, under any
slicing of the underlying reads and writes."""
import os

from sim import storage as st
from sim.core import Violation, check, guard
from sim.disk import Disk

RUNS = {'quick': 8000, 'thorough': 60000}
LISTS = ('ops', 'faults')
STATE_RULE = 'archive format, compression, record shapes, write forms, read paths and batch sizes'
MUST_REACH = ['fault:sliced-read', 'fault:sliced-write', 'records-compared', 'write-stacked',
              'squeezed', 'mixed-script', 'read:seq-arc', 'read:seq-scp', 'read:rand-scp',
              'read:rand-arc', 'buffered-twice', 'other-separator', 'non-ascii-key']
REAL = ['hyperion.io writers and readers, factories, specifiers', 'hyperion.utils.kaldi_matrix',
        'hyperion.utils.scp_list', 'CPython buffered I/O', 'HDF5 library']
STUB = ['system calls below the buffers (short reads and writes, buffer sizes)']
ASSUMPTIONS = ['HDF5 reads and writes go through its Python file driver, not its POSIX driver',
               'keys in one store are distinct and are single printable tokens without the separator of the script']


shrink = st.shrink


def gen(rng, tier):
    big = rng.random() < 0.15
    arcs = st.gen_store(rng, max_recs=12 if tier == 'thorough' else 8, big=big)
    sep = rng.choice([' ', ' ', ' ', ',', '\t', ';'])
    for arc in arcs:
        arc['sep'] = sep
    plan = {'arcs': arcs, 'io': st.gen_io(rng), 'ops': []}
    for _ in range(rng.randint(2, 5)):
        i = rng.randrange(len(arcs))
        arc = arcs[i]
        h5 = st.is_h5(arc)
        paths = ['seq-arc']
        if arc['scp']:
            paths += ['seq-scp', 'rand-scp']
        if h5:
            paths.append('rand-arc')
        path = rng.choice(paths)
        op = {'arc': i, 'path': path, 'via': rng.choice(['factory', 'class']),
              'squeeze': rng.random() < 0.4, 'close': rng.choice(['close', 'with', 'none'])}
        if path.startswith('seq'):
            op['how'] = rng.choice(['batch', 'batch', 'iter', 'all'])
            op['batch'] = rng.choice([1, 2, 3, 5, len(arc['recs'])])
        else:
            ks = [r['key'] for r in arc['recs']]
            rng.shuffle(ks)
            if rng.random() < 0.3:
                ks = ks + [rng.choice(ks) for _ in range(2)]
            op['keys'] = ks
            op['batch'] = rng.choice([0, 1, 2, 3, 100])
        if path.endswith('scp'):
            op['mix'] = rng.random() < 0.5           # one script over several archives
            op['prefix'] = rng.random() < 0.25
            op['perm'] = rng.randint(0, 10 ** 6)
        plan['ops'].append(op)
    return plan


def squeezable(entries):
    shapes = {e.shape() for e in entries}
    return len(shapes) == 1 and len(entries) > 0 and 0 not in next(iter(shapes))


def _script(plan, op, arc, ctx):
    """Returns (script path, list of keys in script order)."""
    import random
    arcs = [arc]
    if op['mix']:
        arcs = [a for a in plan['arcs'] if a['scp'] and st.is_h5(a) == st.is_h5(arc)]
        if len(arcs) > 1:
            ctx.probe('mixed-script')
    if len(arcs) == 1 and not op['prefix']:
        return st.scp_path(arc), [r['key'] for r in arc['recs']], None
    lines = []
    for a in arcs:
        got = st.script_lines(a)
        check(len(got) == len(a['recs']), 'script-incomplete', 'script of %s has %d lines for %d '
              'records' % (a['path'], len(got), len(a['recs'])))
        lines += got
    random.Random(op['perm']).shuffle(lines)
    keys = [l.split(arc['sep'])[0] for l in lines]
    prefix = None
    if op['prefix']:
        prefix = os.getcwd() + '/' if op['perm'] % 2 else './'
        ctx.probe('path-prefix')
    with open('mix.scp', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return 'mix.scp', keys, prefix


def run(plan, ctx):
    model = st.Model(plan['arcs'], ctx)
    with Disk(ctx, ctx.root, plan['io']) as d:
        for arc in plan['arcs']:
            guard(st.write_archive, arc, ctx)
            ctx.state(arc['fmt'], arc['compress'], arc['via'], tuple(map(tuple, arc['calls'])),
                      tuple((r['kind'], r['rows'], r['cols']) for r in arc['recs']))
        if d.n_mut > 6:
            ctx.probe('buffered-twice')
        for op in plan['ops']:
            arc = plan['arcs'][op['arc']]
            ctx.probe('read:' + op['path'])
            ctx.ev('read', op['path'], op['arc'], op['batch'])
            ctx.state(op['path'], op['arc'], op['via'], op['batch'], op.get('how'))
            read_op(plan, op, arc, model, ctx)
    return None


def read_op(plan, op, arc, model, ctx):
    h5 = st.is_h5(arc)
    kw = {}
    if op['path'].endswith('scp'):
        path, keys, prefix = _script(plan, op, arc, ctx)
        if prefix:
            kw['path_prefix'] = prefix
        if arc['sep'] != ' ':
            kw['scp_sep'] = arc['sep']
            ctx.probe('other-separator')
        if not all(k.isascii() for k in keys):
            ctx.probe('non-ascii-key')
    else:
        path, keys = arc['path'], st.arc_order(arc)
    where = '%s(%s)' % (op['path'], op['via'])
    kind = op['path'].split('-')[1]
    if op['path'].startswith('seq'):
        r = guard(st.open_seq, kind, path, h5, op['via'], **kw)
        got = []
        if op['how'] == 'iter':
            def walk():
                for k, v in r:
                    got.append((k, v))
                    check(len(got) <= len(keys), 'too-many-records', where)
            guard(walk)
        elif op['how'] == 'all':
            ks, vs = guard(r.read)
            check(len(ks) == len(vs), 'wrong-count', where)
            got = list(zip(ks, vs))
        else:
            pos = 0
            while True:
                b = op['batch']
                exp = keys[pos:pos + b]
                sq = op['squeeze'] and squeezable([model.by_key[k] for k in exp])
                ks, vs = guard(r.read, b, squeeze=sq)
                check(len(ks) == len(vs), 'wrong-count', where)
                if sq:
                    ctx.probe('squeezed')
                    check(hasattr(vs, 'shape') and vs.ndim == len(model.by_key[exp[0]].shape()) + 1,
                          'wrong-shape', 'squeezed read is not one array')
                got += list(zip(ks, vs))
                pos += b
                if not len(ks):
                    break
                check(len(got) <= len(keys), 'too-many-records', where)
        check([k for k, _ in got] == keys, 'wrong-keys', lambda: '%s of %s returned keys %s, '
              'expected %s' % (where, path, [k for k, _ in got], keys))
        for k, v in got:
            model.check_value(k, v, where=where)
    else:
        r = guard(st.open_rand, kind, path, h5, op['via'], **kw)
        b = op['batch'] or 1
        for i in range(0, len(op['keys']), b):
            ks = op['keys'][i:i + b]
            arg = ks[0] if op['batch'] == 0 else ks
            sq = op['squeeze'] and squeezable([model.by_key[k] for k in ks])
            vs = guard(r.read, arg, squeeze=sq)
            if sq:
                ctx.probe('squeezed')
            check(len(vs) == len(ks), 'wrong-count', where)
            for k, v in zip(ks, vs):
                model.check_value(k, v, where=where)
    if op['close'] == 'close':
        r.close()
    elif op['close'] == 'with':
        with r:
            pass
