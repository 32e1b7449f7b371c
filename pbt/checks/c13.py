"""C13: what is not convertible is counted once and takes nothing else with it."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req
from .. import model, pipes, tables, util
from ..tables import u

PROPERTY = 'C13'
RULE = 'units: the codec could be created; otherwise '
RULE += 'non-trivial: the input has something convertible and something that is not, and the reference agrees with a non-empty output'
ASSUMPTIONS = ['code points up to U+10FFFF', 'codecs of which a reference exists in pbt/model.py (tables read as text, and most codecs with code); the others are judged by leaving the junk out',
               'a shift-state decoder reads the next unit in the state it is in']


def pick(s, env, kind, alias=30):
    names, al = model.modelled(env.repo, kind)
    if al and s.chance(alias):
        return s.pick(al)
    heavy = [n for n in names if '#' in n or n in ('ESCAPE', 'ASCII-NUMERIC-HTML-ENTITY', 'CP950-UDA', '_GB18030', 'UTF-16BE', 'UTF-16LE', 'UTF-32BE', '_UTF-8', 'ASCII', 'UCS-2BE')]
    return s.pick(heavy) if heavy and s.chance(35) else s.pick(names)


def lst(s, env, kind, hi):
    n = 1 + (s.n(hi - 1) if s.chance(60) else 0)
    return ','.join(pick(s, env, kind) for _ in range(n))


def pipeline(s, env):
    def one():
        fr = s.pick(['UTF-8', 'ASCII,_UTF-8', 'ESCAPE,UTF-8', 'HTMLENTITY,UTF-8', 'ASCII', 'BIG5', 'GB18030', 'UTF-16BE', 'UTF-8,BYTE']) if s.chance(35) else lst(s, env, 'from', 3)
        mid = [lst(s, env, 'inter', 2) for _ in range(s.weighted([(6, 0), (3, 1), (1, 2)]))]
        to = s.pick(['UTF-8', 'ASCII', 'BIG5', 'GB18030', 'CP1252', 'UTF-8,BYTE', 'UTF-16LE', 'SHIFT-JIS', 'UCS-2BE']) if s.chance(35) else lst(s, env, 'to', 3)
        return ':'.join([fr] + mid + [to])
    return one() + ('|' + one() if s.chance(12) else '')


def junk(s, d):
    """bytes that are often not convertible, put anywhere"""
    for _ in range(1 + s.n(2)):
        k = s.n(len(d))
        d = d[:k] + s.pick([b'\xff', b'\x80', b'\xfe\xff', b'\0', b'\xc3', b'\x81', b'\xed\xa0\x80', b'%', b'&#', bytes([s.n(255)])]) + d[k:]
    return d


def gen(s, env):
    c = pipeline(s, env)
    d = pipes.input_for(s, env, c)
    if s.chance(50):
        d = junk(s, d)
    return {'conv': c, 'pieces': pipes.split(s, d)}


def run(env, case):
    c, data = case['conv'], b''.join(case['pieces'])
    want, cnt, trace = model.convert(env.repo, c, data)
    r = Req()
    k = r.create(0, c)
    r.init(0)
    fs = util.feed_all(r, 0, case['pieces'])
    cs = r.counters(0)
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % c)
    got = b''.join(rep[i][2] for i in fs)
    util.same(got, want, '%s of %r' % (c, data))
    util.same(util.clean(rep[cs]), cnt, '%s of %r: counters' % (c, data))
    bad = any(-1 in t for t in (trace[0], trace[-1]))
    labels = (['input errors'] if cnt.get('IERR') else []) + (['output errors'] if cnt.get('OERR') else []) + (['fallback'] if any(x > 0 for t in trace for x in t) else []) + (['two stages'] if '|' in c else [])
    return bad and bool(want), labels or ['no error']


# ------------------------------------------------------------------ junk left out: every codec

JUNK = [b'\x07junk', b'\x09\x80', b'\x7f\x01\x02', b'\x0a', b'\x05\x41', b'\x06\0']
TAKES = {'RAW', 'BSDCONV', 'ANY', 'PASS', 'NULL', 'ASCII-HTML-INFO'}


def gen_cells(s, env):
    names = [n for n in pipes.registry(env.repo)['to'] if n not in TAKES and n not in pipes.ENVDEP]
    if s.chance(40):
        to = s.pick(sorted(pipes.SHIFTING))
    else:
        to = s.pick([n for n in names])
        to += s.pick(pipes.args_for('to', to))
    if s.chance(40):
        to += ',' + s.pick([n for n in names if n not in pipes.SHIFTING])
    t = pipes.text(s, 12, snippets=pipes.snippets_for(env, 'ASCII:' + to))
    cells = [u(ord(c)) for c in t]
    if s.chance(20):
        cells.insert(s.n(len(cells)), bytes([3, s.n(255)]))
    at = sorted(s.n(len(cells)) for _ in range(1 + s.n(2)))
    return {'to': to, 'cells': cells, 'at': at, 'junk': [s.pick(JUNK) for _ in at]}


def run_cells(env, case):
    cells, at = case['cells'], case['at']
    conv = 'PASS:' + case['to']
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    a = r.cells(0, cells)
    e1 = r.errs(0)
    # the parts between junk: a sequence that only encodes as a whole is not judged
    parts, p = [], 0
    stateful = bool(set(x.split('#')[0] for x in case['to'].split(',')) & pipes.SHIFTING)
    for x in at + [len(cells)]:
        r.init(0)
        parts.append(r.cells(0, cells[p:x]))
        p = x
    mixed, n = [], 0
    for i in range(len(cells) + 1):
        while n < len(at) and at[n] == i:
            mixed.append(case['junk'][n])
            n += 1
        if i < len(cells):
            mixed.append(cells[i])
    e2 = r.errs(0)
    r.init(0)
    b = r.cells(0, mixed)
    e3 = r.errs(0)
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % conv)
    plain, got = b''.join(rep[a]), b''.join(rep[b])
    if stateful:
        got, plain = got.replace(b'\x0f\x0e', b''), plain.replace(b'\x0f\x0e', b'')   # back to single bytes at the junk and on: the same text
    if not stateful:
        glued = b''.join(b''.join(rep[x]) for x in parts)
        if glued != plain or rep[e2][1] != 2 * rep[e1][1]:
            raise Discard('a sequence across the junk')
    util.same(got, plain, '%s with %s put into %s' % (conv, [x.hex() for x in case['junk']], ','.join(x.hex() for x in cells)))
    util.same(rep[e3][1] - rep[e2][1], rep[e1][1] + len(at), '%s: output errors' % conv)
    util.same(rep[e3][0], 0, '%s: input errors' % conv)
    return bool(plain), case['to'].split(',')[0].split('#')[0]


STATES = {'_JIS': [b'\x1b$B', b'\x1b(B', b'\x1b(J', b'\x1b(I', b'\x1b$@', b'\x1b$(D']}


def gen_bytes(s, env):
    """shift-state decoders: units, and 0xff where a unit ends"""
    n = s.pick(['_JIS', 'ANSI-CONTROL,ASCII'])
    us = []
    wide = False
    keys = None
    for _ in range(1 + s.n(9)):
        if 'JIS' in n:
            if s.chance(35):
                us.append(s.pick(STATES['_JIS']))
                wide = us[-1][1:2] == b'$'
                keys = [k for k in tables.literal_keys(env.repo, 'from', '_JIS0212' if us[-1].endswith(b'D') else '_JIS0208') if len(k) == 2] if wide else None
            else:
                us.append(s.pick(keys) if wide and keys else bytes([0x21 + s.n(0x3e)]))
        elif n[0] == 'A':
            us.append(s.pick([b'\x1b[m', b'\x1b[1;31m', b'\x1b*', b'a', b'b', b'\x1b[2J']))
    at = sorted({s.n(len(us)) for _ in range(1 + s.n(2))})
    return {'from': n, 'units': us, 'at': at}


def run_bytes(env, case):
    us, at = case['units'], case['at']
    conv = case['from'] + ':PASS'
    plain = b''.join(us)
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    a = r.cells(0, [plain])
    e1 = r.errs(0)
    r.init(0)
    mixed = b''.join((b'\xff' if i in at else b'') + (us[i] if i < len(us) else b'') for i in range(len(us) + 1))
    b = r.cells(0, [mixed])
    e2 = r.errs(0)
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % conv)
    if rep[e1][0]:
        raise Discard('not all of it is convertible')
    util.same([x.hex() for x in rep[b]], [x.hex() for x in rep[a]], '%s with 0xff put into %r (%r)' % (conv, plain, mixed))
    util.same(rep[e2][0] - rep[e1][0], len(at), '%s of %r: input errors' % (conv, mixed))
    return bool(rep[a]), case['from']


# ------------------------------------------------------------------ ISO-2022-JP byte by byte

def jis_ref(repo, d, ascii):
    t = {k: tables.trie(repo, 'from', n).map for k, n in (('J', '_JIS0201'), ('B', '_JIS0208'), ('D', '_JIS0212'))}
    sw = {b'\x1b$B': 'B', b'\x1b$@': 'B', b'\x1b$(D': 'D', b'\x1b($D': 'D', b'\x1b(B': '', b'\x1b(J': 'J', b'\x1b(I': 'I'}
    out, err, i, mode = [], 0, 0, ''
    while i < len(d):
        for k, m in sw.items():
            if d.startswith(k, i):
                mode, i = m, i + len(k)
                break
        else:
            e = None
            if any(k != d[i:] and k.startswith(d[i:]) for k in sw):
                mode = ''    # the end of the input inside a sequence: back to the initial state
            if mode in ('B', 'D'):
                e = t[mode].get(tuple(d[i:i + 2]))
            elif mode == 'J':
                e = t['J'].get((d[i],))
            elif mode == 'I':
                e = t['J'].get((d[i] | 128,))
            if e is not None:
                out += e.val
                i += len(e.key)
            elif ascii and 0 < d[i] < 128:
                out.append(bytes([1, d[i]]))
                i += 1
            else:
                err += 1
                i += 1
    return out, err


def gen_jis(s, env):
    def piece(q):
        m = q.n(9)
        if m < 3:
            return q.pick(pipes.JISCORPUS)
        if m < 6:
            return bytes([0x21 + q.n(0x5d), 0x21 + q.n(0x5d)])
        if m < 8:
            return bytes([0x20 + q.n(0x5f)])
        return bytes([q.n(255)])
    return {'from': s.pick(['_JIS', 'JIS']), 'pieces': pipes.split(s, b''.join(s.list(piece, 12)))}


def run_jis(env, case):
    d = b''.join(case['pieces'])
    want, err = jis_ref(env.repo, d, case['from'] == 'JIS')
    r = Req()
    k = r.create(0, case['from'] + ':PASS')
    r.init(0)
    fs = [r.cells(0, [p], flush=i == len(case['pieces']) - 1) for i, p in enumerate(case['pieces'])]
    e = r.errs(0)
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % case['from'])
    got = [x.hex() for f in fs for x in rep[f]]
    util.same(got, [x.hex() for x in want], '%s of %r' % (case['from'], d))
    util.same(tuple(rep[e]), (err, 0), '%s of %r: errors' % (case['from'], d))
    return err > 0 and bool(want) or b'\x1b' in d and bool(want), case['from']


# ------------------------------------------------------------------ one unit alone leaves something behind: every codec

def gen_unit(s, env):
    kind = s.pick(['from', 'to'])
    n = s.pick([x for x in pipes.registry(env.repo)[kind] if x not in pipes.ENVDEP and x not in ('NULL', 'RAW')])
    a = (pipes.random_args(s, env, kind, n) if s.chance(50) else None) or s.pick(pipes.args_for(kind, n))
    units = []
    for _ in range(6):
        k = s.n(9)
        if kind == 'from':
            units.append(bytes([s.n(255)]) if k < 3 else bytes(s.list(lambda q: q.n(255), 5, 1)) if k < 7 else pipes.input_for(s, env, n + a + ':UTF-8')[:1 + s.n(8)] or b'a')
        elif k < 7:
            m = s.n(9)
            v = pipes.cp(s) if m < 5 else s.n(0x10ffff) if m < 7 else s.pick([0x110000, 0x1fffff, 0x200000, 0xffffff, 0x3fffff, 0x1000000, 0xd800, 0xdfff, 0x80, 0x7ff, 0x800, 0xffff, 0x10000]) + s.n(2) - 1 if m < 9 else s.n(0xffffffff)
            units.append(b'\1' + v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big'))
        else:
            units.append(bytes([s.pick([0, 1, 2, 3, 4, 5, 6, 7, 0x1b, 0x7f, s.n(255)])]) + bytes(s.list(lambda q: q.n(255), 5)))
    return {'kind': kind, 'codec': n + a, 'units': units}


def run_unit(env, case):
    kind, c = case['kind'], case['codec']
    if 'DROP' in c:
        return False, 'dropping was asked for'
    conv = c + ':PASS' if kind == 'from' else 'PASS:' + c
    r = Req()
    k = r.create(0, conv)
    ix = []
    for x in case['units']:
        r.init(0)
        r.counter_reset(0, None)
        ix.append((r.cells(0, [x]), r.errs(0)))
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        return False, 'rejected'
    err = False
    for x, (f, e) in zip(case['units'], ix):
        out = b''.join(rep[f])
        ie, oe = rep[e]
        y = x
        if c.startswith('IBM-9') and kind == 'from':
            y = x.replace(b'\x0e', b'').replace(b'\x0f', b'')
        if c.startswith('_JIS') and kind == 'from':
            y = x.split(b'\x1b')[0]
        if y and not out and not (ie if kind == 'from' else oe):
            raise Violation('%s of %s: neither output nor an error' % (conv, x.hex()))
        if not c.startswith('ANY') and (kind == 'from' and (oe or ie > len(x)) or kind == 'to' and (ie or oe > 1)):
            raise Violation('%s of %s: errors %d, %d' % (conv, x.hex(), ie, oe))
        if kind == 'to' and oe and out and not c.startswith('ANY') or kind == 'from' and ie == len(x) and out and not c.startswith('ANY'):
            raise Violation('%s of %s: all of it an error, and yet the output %s' % (conv, x.hex(), out.hex()))
        err = err or bool(ie or oe)
    return True, [kind] + (['errors'] if err else [])


PARTS = [Part('units', gen_unit, run_unit, 40000), Part('pipelines', gen, run, 60000), Part('junk-cells', gen_cells, run_cells, 60000), Part('junk-bytes', gen_bytes, run_bytes, 10000), Part('jis', gen_jis, run_jis, 100000), Part('long pipelines', scaled(gen, 20, 60), run, 1200)]
