"""Reader histories: a sequential reader against a cursor model, a random-access reader
against a dictionary model.  Used by C02, C03, C05 and C08."""
import random

import numpy as np

from . import storage as st
from .core import Violation, attempt, check, guard, in_repo


class View(object):
    """What a reader over some list should contain: entries (key, row0, nrows)."""

    def __init__(self, path, kind, h5, entries, kw=None):
        self.path, self.kind, self.h5, self.entries = path, kind, h5, entries
        self.kw = kw or {}


def shape_of(model, e):
    key, r0, n = e
    s = model.by_key[key].shape()
    if r0 or n:
        s = ((n or s[0] - r0),) + tuple(s[1:])
    return s


def make_view(model, plan, v, ctx):
    """v: {'arc':i,'kind':'arc'|'scp','mix':bool,'ranges':seed|None,'perm':seed,'id':n}."""
    arc = plan['arcs'][v['arc']]
    h5 = st.is_h5(arc)
    if v['kind'] == 'arc':
        return View(arc['path'], 'arc', h5, [(k, 0, 0) for k in st.arc_order(arc)])
    arcs = [arc]
    if v.get('mix'):
        arcs = [a for a in plan['arcs'] if a['scp'] and st.is_h5(a) == h5]
        if len(arcs) > 1:
            ctx.probe('mixed-script')
    lines, recs = [], []
    for a in arcs:
        lines += st.script_lines(a)
        recs += [(r, a) for r in a['recs']]
    check(len(lines) == len(recs), 'script-incomplete', 'script has %d lines for %d records' % (
        len(lines), len(recs)))
    rng = random.Random(v['perm'])
    if v.get('single') and not h5:
        lines = [detach(l, r, a) if rng.random() < 0.6 else l
                 for l, (r, a) in zip(lines, recs)]
        ctx.probe('single-record-files')
    if v.get('alias') and not h5:
        # the same stored record is listed under a second key (as for segments of a recording)
        for i in range(len(lines)):
            if rng.random() < 0.5:
                k = 'alias-' + recs[i][0]['key']
                model.by_key[k] = st.Entry(k, recs[i][1], recs[i][0])
                lines.append(k + lines[i][len(recs[i][0]['key']):])
                recs.append((dict(recs[i][0], key=k), recs[i][1]))
                ctx.probe('aliased-record')
    order = list(range(len(lines)))
    if v['perm'] % 3:
        rng.shuffle(order)
    out, entries = [], []
    for i in order:
        rec, a = recs[i]
        line = lines[i]
        r0 = n = 0
        key = rec['key']
        if v.get('ranges') is not None and rec['kind'] == 'mat' and rec['rows'] > 1 and \
                a['fmt'] != 'ark_t' and rng.random() < 0.7:
            r0 = rng.randint(0, rec['rows'] - 1)
            b = rng.randint(r0 + 1, rec['rows'])
            m = rng.random()
            if m < 0.25 and r0:
                line += '[%d:]' % r0
            elif m < 0.4:
                r0 = 0
                n = b
                line += '[:%d]' % b
            else:
                n = b - r0
                line += '[%d:%d]' % (r0, b)
            ctx.probe('script-range')
        out.append(line)
        entries.append((key, r0, n))
    path = 'view%d.scp' % v['id']
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return View(path, 'scp', h5, entries)


def detach(line, rec, arc):
    """Copies one record of an archive into a file of its own and returns its script line."""
    offs = sorted(int(l.rsplit(':', 1)[1]) for l in st.script_lines(arc))
    head, off = line.rsplit(':', 1)
    data = open(arc['path'], 'rb').read()
    keys = {int(l.rsplit(':', 1)[1]): l.split(' ')[0] for l in st.script_lines(arc)}
    nxt = [o for o in offs if o > int(off)]
    end = nxt[0] - len(keys[nxt[0]].encode()) - 1 if nxt else len(data)
    name = 'one%s_%s.mat' % (off, arc['path'].replace('/', '_'))
    with open(name, 'wb') as f:
        f.write(data[int(off):end])
    return '%s %s:0' % (rec['key'], name)


def rows_arg(rng, model, ents, allow_bad=False):
    """Row ranges for reading the given entries: returns (row_offset, num_rows, per-entry
    (absolute row, count), ok)."""
    if any(model.by_key[k].rec['kind'] != 'mat' or model.by_key[k].arc['fmt'] == 'ark_t'
           for k, _, _ in ents) or not ents:
        return 0, 0, [(r0, n) for _, r0, n in ents], True
    avail = [shape_of(model, e)[0] for e in ents]
    m = rng.random()
    per = []
    as_list = rng.random() < 0.5
    if as_list:
        offs = [rng.randint(0, max(a - 1, 0)) for a in avail]
        cnts = [0 if rng.random() < 0.2 else rng.randint(1, max(a - o, 1))
                for a, o in zip(avail, offs)]
    else:
        lo = min(avail)
        o = rng.randint(0, max(lo - 1, 0))
        c = 0 if rng.random() < 0.3 else rng.randint(1, max(lo - o, 1))
        offs, cnts = [o] * len(ents), [c] * len(ents)
    if m < 0.2:
        cnts = [0] * len(ents)
    elif m < 0.4:
        offs = [0] * len(ents)
        if not as_list:
            cnts = [cnts[0]] * len(ents)
    bad = allow_bad and rng.random() < 0.5
    if bad:
        j = rng.randrange(len(ents)) if as_list else 0
        if rng.random() < 0.5 or offs[j] + 1 > avail[j]:
            cnts[j] = avail[j] - offs[j] + rng.choice([1, 1, 2, 10])
        else:
            offs[j] = avail[j] + rng.choice([1, 2, 10])
            cnts[j] = rng.choice([0, 1])
        if not as_list:
            offs, cnts = [offs[0]] * len(ents), [cnts[0]] * len(ents)
    ok = True
    for e, a, o, c in zip(ents, avail, offs, cnts):
        if o + c > a or (o >= a and (o or c)):
            ok = False
        per.append((e[1] + o, c or max(a - o, 0)))
    if as_list:
        ro, nr = offs, cnts
        if rng.random() < 0.5:
            ro, nr = np.array(offs), np.array(cnts)
        z = rng.random()
        if all(c == 0 for c in cnts) and z < 0.5:
            nr = 0
        if all(o == 0 for o in offs) and z < 0.5:
            ro = 0
    else:
        ro, nr = offs[0], cnts[0]
    return ro, nr, per, ok


def compare(model, ctx, got, ents, per, where):
    for v, e, (r0, n) in zip(got, ents, per):
        full = model.by_key[e[0]].shape()
        if len(full) == 2 and n == 0 and r0:
            n = full[0] - r0
        if len(full) == 2 and r0 == 0 and n == full[0]:
            n = 0
        model.check_value(e[0], v, r0, n, where)


def can_squeeze(shapes):
    return len(set(shapes)) == 1 and shapes and 0 not in shapes[0]


class SeqDriver(object):
    """Runs operations on one sequential reader and checks them against a cursor."""

    def __init__(self, model, ctx, view, via, entries=None, **kw):
        self.model, self.ctx, self.view = model, ctx, view
        self.entries = view.entries if entries is None else entries
        kw = dict(view.kw, **kw)
        self.r = guard(st.open_seq, view.kind, view.path, view.h5, via, **kw)
        self.pos = 0
        self.short = False          # a read has come up short since the last reset
        self.lost = False           # a call failed: the cursor is unknown until a reset
        self.where = 'sequential %s reader of %s' % ('script' if view.kind == 'scp' else 'archive',
                                                     view.path)
        self.exact_eof = view.kind == 'scp' or view.h5

    def take(self, n):
        e = self.entries[self.pos:] if n == 0 else self.entries[self.pos:self.pos + n]
        return e

    def advance(self, n, e):
        self.pos += len(e)
        if n == 0 or len(e) < n:
            self.short = True

    def keys_ok(self, ks, e):
        check(list(ks) == [x[0] for x in e], 'wrong-keys', lambda: '%s at position %d of %d '
              'returned keys %s, expected %s' % (self.where, self.pos, len(self.entries), list(ks),
                                                 [x[0] for x in e]))

    def op(self, o):
        rng = random.Random(o['seed'])
        k = o['op']
        if self.lost and k != 'reset':
            self.op({'op': 'reset', 'seed': 0})
        self.ctx.ev(self.view.path, k, o.get('n'), self.pos)
        n = o.get('n', 0)
        if k == 'read':
            e = self.take(n)
            per = [(r0, c) for _, r0, c in e]
            kw = {}
            ok = True
            if o.get('ranged') and len(e) == (n or len(e)):
                ro, nr, per, ok = rows_arg(rng, self.model, e, o.get('bad'))
                kw = dict(row_offset=ro, num_rows=nr)
                self.ctx.probe('ranged-read')
            if not ok:
                self.ctx.probe('out-of-range-read')
                self.lost = True
                val, exc = attempt(self.r.read, n, **kw)
                refuse(val[1] if val else None, exc, e, per, self.where)
                return
            if o.get('squeeze') and can_squeeze(
                    [self.model.by_key[x[0]].shape()[:0] + tuple(
                        ((p[1] or shape_of(self.model, x)[0]),) + self.model.by_key[x[0]].shape()[1:]
                        if len(self.model.by_key[x[0]].shape()) == 2
                        else self.model.by_key[x[0]].shape())
                     for x, p in zip(e, per)]):
                kw['squeeze'] = True
                self.ctx.probe('squeezed')
            ks, vs = guard(self.r.read, n, **kw)
            self.keys_ok(ks, e)
            check(len(vs) == len(e), 'wrong-count', self.where)
            compare(self.model, self.ctx, vs, e, per, self.where)
            self.advance(n, e)
            self.ctx.probe('past-end-read' if len(e) < n else 'read')
        elif k == 'next':
            e = self.take(1)
            if not e:
                try:
                    kk, _ = guard(lambda: next(self.r))
                except StopIteration:
                    self.short = True
                    self.ctx.probe('iteration-ended')
                    return
                raise Violation('wrong-keys', '%s: iteration goes on after the last record with '
                                '%r' % (self.where, kk))
            try:
                kk, v = guard(lambda: next(iter(self.r)))
            except StopIteration:
                raise Violation('lost-records', '%s: iteration ended at position %d of %d' % (
                    self.where, self.pos, len(self.entries)))
            self.keys_ok([kk], e)
            compare(self.model, self.ctx, [v], e, [(e[0][1], e[0][2])], self.where)
            self.advance(1, e)
        elif k in ('shapes', 'num_rows', 'dims'):
            e = self.take(n)
            shapes = [shape_of(self.model, x) for x in e]
            same = len({s[-1] for s in shapes}) <= 1
            kw = {'assert_same_dim': True} if same and rng.random() < 0.5 else \
                {} if same and rng.random() < 0.5 else {'assert_same_dim': False}
            f = {'shapes': self.r.read_shapes, 'num_rows': self.r.read_num_rows,
                 'dims': self.r.read_dims}[k]
            if k == 'shapes' and rng.random() < 0.3:
                args = (n,)
            else:
                args = (n,)
            ks, got = guard(f, *args, **kw)
            self.keys_ok(ks, e)
            meta_ok(k, got, shapes, self.where)
            self.advance(n, e)
            self.ctx.probe('metadata-read')
        elif k == 'reset':
            guard(self.r.reset)
            self.pos = 0
            self.short = self.lost = False
            self.ctx.probe('reset')
        elif k == 'eof':
            got = bool(guard(self.r.eof))
            left = len(self.entries) - self.pos
            if left:
                check(not got, 'early-eof', '%s reports end of data with %d records left' % (
                    self.where, left))
            elif self.exact_eof or self.short:
                check(got, 'missing-eof', '%s does not report end of data after its last record'
                      % self.where)
                self.ctx.probe('eof-seen')
        else:
            raise ValueError(k)


def refuse(val, exc, ents, per, where):
    """An out-of-range request: an error, or no rows at all for the entry it concerns."""
    if exc is not None:
        if not in_repo(exc):
            raise exc
        return
    for v, e, (r0, n) in zip(val, ents, per):
        check(np.shape(v)[0] in (0, n), 'range-not-refused', lambda: '%s: rows %d+%d of %r were '
              'requested beyond its end and %d rows came back' % (where, r0, n, e[0],
                                                                 np.shape(v)[0]))


def meta_ok(k, got, shapes, where):
    if k == 'shapes':
        g = [tuple(int(x) for x in s) for s in got]
        exp = [tuple(s) for s in shapes]
    elif k == 'num_rows':
        g = [int(x) for x in got]
        exp = [s[0] if len(s) == 2 else 1 for s in shapes]
    else:
        g = [int(x) for x in got]
        exp = [s[-1] for s in shapes]
    check(g == exp, 'wrong-metadata', lambda: '%s: %s query returned %s, expected %s' % (
        where, k, g, exp))


class RandDriver(object):
    def __init__(self, model, ctx, view, via, permissive=False):
        self.model, self.ctx, self.view = model, ctx, view
        self.permissive = permissive
        self.r = guard(st.open_rand, view.kind, view.path, view.h5, via, permissive)
        self.ents = {e[0]: e for e in view.entries}
        self.keys = [e[0] for e in view.entries]
        self.where = 'random-access reader of %s' % view.path

    def op(self, o):
        rng = random.Random(o['seed'])
        k = o['op']
        if k in ('reset', 'eof', 'next'):
            k = 'read'
        n = min(max(o.get('n', 1), 1), 6)
        keys = [rng.choice(self.keys) for _ in range(n)]
        miss = o.get('missing') and rng.random() < 0.7
        if miss:
            keys[rng.randrange(n)] = 'no-such-key'
        self.ctx.ev(self.view.path, k, keys)
        arg = keys[0] if len(keys) == 1 and rng.random() < 0.5 else keys
        if k == 'read':
            ents = [self.ents[x] for x in keys if x in self.ents]
            per = [(r0, c) for _, r0, c in ents]
            kw, ok = {}, True
            if o.get('ranged') and len(ents) == len(keys):
                ro, nr, per, ok = rows_arg(rng, self.model, ents, o.get('bad'))
                kw = dict(row_offset=ro, num_rows=nr)
                self.ctx.probe('ranged-read')
            if miss and not self.permissive:
                val, exc = attempt(self.r.read, arg, **kw)
                check(exc is not None, 'missing-key-accepted', '%s returned data for a key that '
                      'is not in the list' % self.where)
                self.ctx.probe('missing-key-refused')
                return
            if not ok:
                self.ctx.probe('out-of-range-read')
                val, exc = attempt(self.r.read, arg, **kw)
                refuse(val, exc, ents, per, self.where)
                return
            vs = guard(self.r.read, arg, **kw)
            check(len(vs) == len(keys), 'wrong-count', self.where)
            j = 0
            for x, v in zip(keys, vs):
                if x not in self.ents:
                    check(np.size(v) == 0, 'missing-key-filled', '%s returned data for a missing '
                          'key' % self.where)
                    self.ctx.probe('missing-key-tolerated')
                else:
                    compare(self.model, self.ctx, [v], [ents[j]], [per[j]], self.where)
                    j += 1
        else:
            f = {'shapes': self.r.read_shapes, 'num_rows': self.r.read_num_rows,
                 'dims': self.r.read_dims}[k]
            if miss:
                if not self.permissive:
                    val, exc = attempt(f, arg, assert_same_dim=False)
                    check(exc is not None, 'missing-key-accepted', '%s returned metadata of a key '
                          'that is not in the list' % self.where)
                return
            shapes = [shape_of(self.model, self.ents[x]) for x in keys]
            same = len({s[-1] for s in shapes}) <= 1
            f = {'shapes': self.r.read_shapes, 'num_rows': self.r.read_num_rows,
                 'dims': self.r.read_dims}[k]
            got = guard(f, arg, assert_same_dim=bool(same and rng.random() < 0.6))
            meta_ok(k, got, shapes, self.where)
            self.ctx.probe('metadata-read')
