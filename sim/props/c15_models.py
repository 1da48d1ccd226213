"""C15: model files load back the same model or fail to load."""
import copy
import os

import h5py
import numpy as np

from sim import models as M
from sim.core import SimCrash, Violation, attempt, check, guard
from sim.disk import Disk

RUNS = {'quick': 700, 'thorough': 8000}
STATE_RULE = 'model kinds, way of saving and loading, crash or cut position class, outcome'
MUST_REACH = ['fault:crash', 'fault:truncated', 'fault:eio-read', 'fault:torn-write', 'fault:parameter-lost', 'roundtrip',
              'refused', 'whole-after-damage', 'resaved', 'way:direct', 'way:member', 'way:loader', 'way:mat',
              'old-file-intact'] + ['model:' + k for k in M.NAMES]
REAL = ['HypModel save and load', 'transforms, pdfs, classifiers, calibration, TransformList',
        'ModelLoader', 'HDF5 library']
STUB = ['system calls below HDF5; process death; truncation of the file by a later accident']
ASSUMPTIONS = ['parameters are exactly representable in the single precision of the file',
               'models are fully initialised when they are saved',
               'a damaged file may make HDF5 fail hard; such a run counts as a failure to load']
LISTS = ('faults', 'specs')
LOADER = ('normal', 'normdiag', 'gmm', 'gmmdiag', 'frplda', 'splda', 'centwhiten', 'lnorm', 'pca',
          'lda', 'nap', 'sbsw', 'mvn', 'chain')
MAT = ('centwhiten', 'lnorm', 'pca', 'lda', 'nda', 'nap', 'gaussianizer')   # files with parameters only


def gen(rng, tier):
    way = rng.choice(['direct', 'direct', 'direct', 'member', 'loader', 'mat'])
    if way == 'member':
        specs = []
        for i in range(rng.randint(1, 3)):
            s = M.gen(rng, [k for k in M.NAMES if k != 'chain'])
            s['name'] = 'part%d' % i if rng.random() < 0.7 else 'sys/%d' % i
            specs.append(s)
    elif way == 'loader':
        specs = [M.gen(rng, LOADER)]
    elif way == 'mat':
        specs = [M.gen(rng, MAT)]
    else:
        specs = [M.gen(rng, ['chain'] if rng.random() < 0.25 else None)]
    prev = None
    if rng.random() < 0.35:
        prev = copy.deepcopy(specs)
        for s in prev:
            s['seed'] += 1
            s['flags'] ^= 3
    return {'way': way, 'specs': specs, 'prev': prev, 'cut': None, 'drop': None, 'rfault': None, 'faults': [],
            'isolate': False, 'dir': rng.choice(['./', 'models/']),
            'io': {'seed': rng.randint(0, 10 ** 6), 'slice_reads': rng.choice([0, 0.5]),
                   'slice_writes': rng.choice([0, 0.5]), 'vary_buf': False}}


def inject(plan, extra, rng, tier):
    n_mut, n_read, size = extra
    k = 4 if tier == 'quick' else 40
    pts = list(range(1, n_mut + 1))
    if len(pts) > k:
        pts = sorted(rng.sample(pts, k))
    for n in pts:
        q = copy.deepcopy(plan)
        q['faults'] = [{'kind': 'crash', 'n': n, 'keep': rng.choice([0, 0.5, rng.random(), 1])}]
        q['isolate'] = True
        yield q
    for _ in range(k):
        q = copy.deepcopy(plan)
        q['cut'] = rng.choice([rng.randint(0, size - 1), size - rng.randint(1, 40)])
        q['isolate'] = True
        yield q
    for _ in range(2 if tier == 'quick' else 8):
        q = copy.deepcopy(plan)
        q['drop'] = rng.randint(0, 10 ** 6)
        yield q
    for _ in range(2):
        q = copy.deepcopy(plan)
        q['rfault'] = {'kind': 'eio_read', 'n': rng.randint(1, n_read),
                       'times': rng.choice([1, 1, 2, 10 ** 6])}
        q['isolate'] = True
        yield q


def on_death(plan, status):
    return None


def save(plan, specs, path):
    ms = [M.build(s) for s in specs]
    if plan['way'] != 'member':
        (ms[0].save_mat if plan['way'] == 'mat' else ms[0].save)(path)
        return
    with h5py.File(path, 'w') as f:
        for m in ms:
            m.save_params(f)


def load(plan, specs, path):
    if plan['way'] == 'loader':
        from hyperion.model_loader import ModelLoader
        return [ModelLoader.load(path)]
    if plan['way'] == 'mat':
        return [M.cls_of(s).load_mat(path) for s in specs]
    if plan['way'] == 'direct':
        return [M.cls_of(s).load(path) for s in specs]
    with h5py.File(path, 'r') as f:
        return [M.cls_of(s).load_params(f, M.config(M.build(s))) for s in specs]


def differs(plan, specs, ms):
    for s, m in zip(specs, ms):
        d = M.diff(s, M.build(s), m, plan['way'] != 'mat')
        if d is not None:
            return '%s: %s' % (s['kind'], d)
    return None


def run(plan, ctx):
    specs = plan['specs']
    if not specs:
        return 1, 1, 1
    if plan['dir'] != './' and plan['way'] in ('member', 'mat'):
        os.makedirs(plan['dir'])
    path = plan['dir'] + 'm.h5'
    ctx.probe('way:' + plan['way'])
    for s in specs:
        ctx.probe('model:' + s['kind'])
    old = None
    if plan['prev']:
        with Disk(ctx, ctx.root):
            guard(save, plan, plan['prev'], path)
        old = open(path, 'rb').read()
    crashed = False
    d = Disk(ctx, ctx.root, plan['io'], plan['faults'])
    with d:
        try:
            guard(save, plan, specs, path)
            if d.crashed:
                raise SimCrash()
        except SimCrash:
            crashed = True
    size = os.path.getsize(path) if os.path.exists(path) else 0
    if plan['cut'] is not None:
        ctx.fault('truncated')
        with open(path, 'r+b') as f:
            f.truncate(max(0, min(plan['cut'], size - 1)))
    dropped = None
    if plan['drop'] is not None:
        with h5py.File(path, 'a') as f:
            ds = []
            f.visititems(lambda n, o: ds.append(n) if isinstance(o, h5py.Dataset) and
                         n != 'config' and not n.endswith('prior') else None)
            # (files from before the prior was kept have none)
            if ds:
                dropped = sorted(ds)[plan['drop'] % len(ds)]
                del f[dropped]
                ctx.fault('parameter-lost')
    whole = not crashed and plan['cut'] is None and dropped is None
    r = Disk(ctx, ctx.root, plan['io'], [plan['rfault']] if plan['rfault'] else [])
    res = None
    if size:
        now = open(path, 'rb').read()
        with r:
            if whole and not plan['rfault']:
                ms = guard(load, plan, specs, path)
                ctx.probe('roundtrip')
            else:
                ms, exc = attempt(load, plan, plan['prev'] if now == old else specs, path)
        if ms is None:
            ctx.probe('refused')
            res = 'refused'
            check(not whole or r.failed, 'load-failed', lambda: '%r' % exc)
        elif old is not None and now == old:
            dd = differs(plan, plan['prev'], ms)
            check(dd is None, 'wrong-model', lambda: 'old file: ' + dd)
            ctx.probe('old-file-intact')
            res = 'old'
        else:
            dd = differs(plan, specs, ms)
            check(dd is None, 'wrong-model', lambda: '%s: %s' % (
                'loaded' if whole else 'loaded without %s' % dropped if dropped else 'loaded after a crash' if crashed else
                'loaded from a file cut to %d of %d bytes' % (len(now), size), dd))
            res = 'whole'
            if not whole:
                ctx.probe('whole-after-damage')
    ctx.state(plan['way'], [(s['kind'], s['dim'], s['flags'], s['name']) for s in specs], crashed,
              d.n_mut if crashed else None, None if plan['cut'] is None else
              plan['cut'] * 8 // max(size, 1), bool(plan['rfault']), dropped, res)
    if not whole:
        with Disk(ctx, ctx.root):
            guard(save, plan, specs, path)
            ms = guard(load, plan, specs, path)
            dd = differs(plan, specs, ms)
            check(dd is None, 'wrong-model', lambda: 'saved again: %s' % dd)
            ctx.probe('resaved')
    return d.n_mut, max(1, r.n_read), max(1, size)


def shrink(plan):
    for i, s in enumerate(plan['specs']):
        if s['kind'] == 'chain' and len(s['parts']) > 1:
            for j in range(len(s['parts'])):
                q = copy.deepcopy(plan)
                del q['specs'][i]['parts'][j]
                q['prev'] = None
                yield q
    if plan['prev']:
        q = copy.deepcopy(plan)
        q['prev'] = None
        yield q
