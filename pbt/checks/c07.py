"""C07: codecs that are only a table do what the table says."""
import os
from ..core import Part, Violation, scaled
from ..client import Req
from .. import pipes, tables, util

PROPERTY = 'C07'
RULE = 'non-trivial: at least one listed sequence was converted and at least two pieces were fed (random part); every key of the chunk is fed (every-entry part)'
ASSUMPTIONS = ['the reference reads the same table text; that the text itself is right is checked by C09-C12, C18 and C23']
KIND = {'from': '%s:PASS', 'inter': 'PASS:%s:PASS', 'to': 'PASS:%s'}


def todo(env):
    """(kind, name) of every codec that is only a table, without wildcards"""
    k = ('c07', env.repo)
    if k not in tables._cache:
        reg = pipes.registry(env.repo)
        out = []
        for kind in ('from', 'inter', 'to'):
            for n in reg[kind]:
                if os.path.exists(os.path.join(env.repo, 'modules', kind, n + '.c')):
                    continue
                t = tables.table(env.repo, kind, n)
                if t and all(tables.ANYTOK not in e.key and not e.callback for e in t):
                    out.append((kind, n))
        tables._cache[k] = out
    return tables._cache[k]


def reference(env, kind, name, x):
    """-> (cells, errors)"""
    tr = tables.trie(env.repo, kind, name)
    if not tr.lit:
        return tables.general_ref(kind, tr.entries, x)
    if kind == 'from':
        return tables.decode_ref(tr, x)
    if kind == 'inter':
        return tables.inter_ref(tr, x), 0
    return tables.to_ref(tr, x)


STEP = 400


def chunks(env):
    return [{'kind': k, 'name': n, 'at': i} for k, n in todo(env) for i in range(0, len(tables.literal_keys(env.repo, k, n)), STEP)]


def run_chunk(env, case):
    kind, name = case['kind'], case['name']
    keys = tables.literal_keys(env.repo, kind, name)[case['at']:case['at'] + STEP]
    r = Req()
    k = r.create(0, KIND[kind] % name)
    r.init(0)
    f = [r.cells(0, [key] if kind == 'from' else list(key)) for key in keys]
    c = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s/%s cannot be created' % (kind, name))
    for key, i in zip(keys, f):
        want = reference(env, kind, name, key if kind == 'from' else list(key))[0]
        if rep[i] != want:
            raise Violation('%s/%s maps %s to %s, its table to %s' % (kind, name, show(key), show(rep[i]), show(want)))
    util.same(util.clean(rep[c]), {}, '%s/%s counts for listed sequences' % (kind, name))
    return True, kind


def show(x):
    return x.hex() if isinstance(x, (bytes, bytearray)) else ','.join(c.hex() for c in x)


def gen(s, env):
    kind = s.pick(['from', 'inter', 'to'])
    names = [n for k, n in todo(env) if k == kind]
    multi = ('multi', env.repo, kind)
    if multi not in tables._cache:
        tables._cache[multi] = [n for n in names if any(len(k) > 1 for k in tables.literal_keys(env.repo, kind, n)[:5000])]
    name = s.pick(tables._cache[multi]) if tables._cache[multi] and s.chance(50) else s.pick(names)
    keys = tables.literal_keys(env.repo, kind, name)
    base = s.n(len(keys) - 1)

    def key(q):
        return keys[min(len(keys) - 1, base + q.n(20))] if q.chance(40) else q.pick(keys)
    if kind == 'from':
        def piece(q):
            m = q.n(9)
            k = key(q)
            if m < 4:
                return k
            if m < 6:
                return k[:q.n(len(k))]
            if m < 8:
                j = q.n(len(k) - 1)
                return k[:j] + bytes([q.pick([0, 0x20, 0x41, 0x7f, 0x80, 0xff, q.n(255)])]) + k[j + 1:]
            return bytes([q.n(255)])
        x = b''.join(s.list(piece, 12))
    else:
        def piece(q):
            m = q.n(9)
            k = key(q)
            if m < 4:
                return list(k)
            if m < 6:
                return list(k[:q.n(len(k))])
            if m < 8:
                j = q.n(len(k) - 1)
                c = k[j]
                i = q.n(len(c) - 1)
                h = q.n(3)
                c = [c[:i] + bytes([q.n(255)]) + c[i + 1:], c[:1 + i], c + bytes([q.n(255)]), bytes([c[0] ^ 1]) + c[1:]][h]
                return list(k[:j]) + [c] + list(k[j + 1:])
            if m < 9:
                return [tables.u(pipes.cp(q))]
            return [bytes([q.pick([0, 1, 2, 3, 4, 0x1b])]) + q.blob(3)]
        x = [c for p in s.list(piece, 10) for c in p]
    return {'kind': kind, 'name': name, 'x': x}


def run(env, case):
    kind, name, x = case['kind'], case['name'], case['x']
    r = Req()
    k = r.create(0, KIND[kind] % name)
    r.init(0)
    f = r.cells(0, [x] if kind == 'from' else x)
    c = r.errs(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s/%s cannot be created' % (kind, name))
    want, err = reference(env, kind, name, x)
    if rep[f] != want:
        raise Violation('%s/%s maps %s to %s, its table to %s' % (kind, name, show(x), show(rep[f]), show(want)))
    e = rep[c]
    util.same(tuple(e), (err if kind == 'from' else 0, err if kind == 'to' else 0), '%s/%s, %s: errors' % (kind, name, show(x)))
    return len(x) > 1 and bool(want) and want != x, kind


PARTS = [Part('every-entry', None, run_chunk, 0, exhaustive=chunks), Part('mixtures', gen, run, 400000, 4000000),
         Part('long mixtures', scaled(gen, 20, 60), run, 4000)]
