"""C20: filters and scorers classify characters consistently."""
import json, os
from ..core import Part, Violation, Discard
from ..client import Req
from .. import pipes, tables, util
from ..tables import u

PROPERTY = 'C20'
RULE = 'non-trivial: every block of code points (exhaustive parts); a text of which some characters are accepted and some are not, or score and do not score (stages, bonus)'
ASSUMPTIONS = ['a filter means the blocks of Unicode 13.0 named in its documentation; PRINT, ROMAN, LATIN1 and the scorers mean the code points they list', 'a cell of type 1 holds a code point without leading zeros']

DATA = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data', 'unicode.json')))
TYPES = {'UNICODE': 1, 'CNS11643': 2, 'BYTE': 3, 'ANSI': 0x1b}
ALIAS = {'01': 'UNICODE', '1': 'UNICODE', '02': 'CNS11643', '2': 'CNS11643', '03': 'BYTE', '3': 'BYTE', '1B': 'ANSI'}
NAMES = sorted(DATA['filters']) + sorted(TYPES)
CHUNK = 0x8000


def accepts(name, cell):
    """does the filter accept the cell"""
    name = name.upper()
    name = ALIAS.get(name, name)
    if not cell:
        return False
    if name in TYPES:
        return cell[0] == TYPES[name]
    if cell[0] != 1:
        return False
    v = int.from_bytes(cell[1:], 'big')
    return any(a <= v <= b for a, b in DATA['filters'][name])


def score_of(name, cell):
    if not cell or cell[0] != 1:
        return 0
    v = int.from_bytes(cell[1:], 'big')
    return next((s for a, b, s in DATA['scorers'][name.upper()] if a <= v <= b), 0)


def blocks(env):
    return [{'filter': n, 'at': a} for n in NAMES + sorted(ALIAS) for a in range(0, 0x110000, CHUNK)] + [{'filter': n.lower(), 'at': 0} for n in NAMES]


def run_block(env, case):
    r = Req()
    k = r.filt_range(case['filter'], case['at'], case['at'] + CHUNK)
    rep = env.call(r)
    ok, got = rep[k]
    if ok != 0:
        raise Violation('filter %s cannot be loaded' % case['filter'])
    n = case['filter'].upper()
    n = ALIAS.get(n, n)
    if n in TYPES:
        want = (b'\1' if TYPES[n] == 1 else b'\0') * CHUNK
    else:
        w = bytearray(CHUNK)
        for a, b in DATA['filters'][n]:
            a, b = max(a - case['at'], 0), min(b + 1 - case['at'], CHUNK)
            if a < b:
                w[a:b] = b'\1' * (b - a)
        want = bytes(w)
    if bytes(got) != want:
        i = next(i for i in range(CHUNK) if got[i] != want[i])
        raise Violation('filter %s %s U+%04X' % (case['filter'], 'accepts' if got[i] else 'refuses', case['at'] + i))
    return True, 'filter'


SB = 0x400


def sblocks(env):
    top = [x for x in range(0, 0x40000, SB)] + [x for x in range(0x40000, 0x110000, SB * 16)]
    return [{'scorer': n, 'at': a} for n in DATA['scorers'] for a in top]


def run_score(env, case):
    cps = [c for c in range(case['at'], case['at'] + SB)]
    want = [score_of(case['scorer'], u(c)) for c in cps]
    r = Req()
    k = r.create(0, 'PASS:SCORE#WITH=%s:PASS' % case['scorer'])
    r.init(0)
    ix = []
    # halves, quarters ... of the block: the sums pin down every single score
    for bit in range(11):
        sel = cps if bit == 10 else [c for c in cps if c >> bit & 1]
        r.counter_reset(0, None)
        r.init(0)
        ix.append((sel, r.cells(0, [u(c) for c in sel]), r.counters(0)))
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('SCORE#WITH=%s cannot be created' % case['scorer'])
    for sel, f, cs in ix:
        w = sum(want[c - case['at']] for c in sel)
        util.same(util.clean(rep[cs]), {'SCORE': w} if w else {}, 'score of %d characters from U+%04X with %s' % (len(sel), sel[0], case['scorer']))
        util.same([x.hex() for x in rep[f] if x], [u(c).hex() for c in sel], 'SCORE passes the text from U+%04X' % sel[0])
    return True, 'scorer'


# ------------------------------------------------------------------ single cells of any kind

def edge(s, name):
    """a code point at or next to a bound of the filter"""
    name = ALIAS.get(name.upper(), name.upper())
    rs = DATA['filters'].get(name) or DATA['scorers'].get(name) or [[0x20, 0x7e]]
    r = s.pick(rs)
    return max(0, min(0x10ffff, s.pick([r[0], r[1], r[0] - 1, r[1] + 1, r[0] + s.n(r[1] - r[0])])))


def any_cell(s, name):
    k = s.n(9)
    if k < 5:
        return u(edge(s, name))
    if k < 7:
        return u(pipes.cp(s))
    v = u(edge(s, name))
    return bytes([s.pick([2, 3, 0x1b, 0, 4, 0xff, 0x80])]) + v[1:] if k < 9 else s.pick([b'\x03\x41', b'\x1b[m', b'\x1b', b'\x02\x41\x42\x43', b'\x00,', b'\x04'])


def gen_cell(s, env):
    if s.chance(75):
        n = s.pick(NAMES + sorted(ALIAS))
        kind = 'filter'
    else:
        n = s.pick(sorted(DATA['scorers']))
        kind = 'scorer'
    c = s.list(lambda q: any_cell(q, n), 12, 1)
    if s.chance(5):
        c.append(b'')
    return {'kind': kind, 'name': n.lower() if s.chance(30) else n, 'cells': c}


def run_cell(env, case):
    r = Req()
    n = case['name']
    ix = [(c, r.filt(n, c) if case['kind'] == 'filter' else r.score(n, c)) for c in case['cells']]
    rep = env.call(r)
    acc = 0
    for c, k in ix:
        w = int(accepts(n, c)) if case['kind'] == 'filter' else score_of(n, c)
        g = rep[k]
        if case['kind'] == 'filter' and g > 0:
            g = 1
        util.same(g, w, '%s %s on %s' % (case['kind'], n, c.hex() or '(empty)'))
        acc += bool(w)
    return 0 < acc < len(ix), case['kind']


# ------------------------------------------------------------------ stages that take a filter

STAGES = [('inter', 'COUNT#FOR=%s'), ('inter', 'COUNT#FOR=%s&seen'), ('inter', 'PASS#FOR=%s,NULL'), ('inter', 'NULL'), ('inter', 'STRINGS#FOR=%s'), ('from', 'PASS#FOR=%s'), ('to', 'PASS#FOR=%s'),
          ('inter', 'SCORE#WITH=CJK'), ('inter', 'SCORE#WITH=LATIN1&AS=x'), ('inter', 'SCORE'), ('inter', 'SCORE#WITH=LATIN1,NULL')]


def gen_stage(s, env):
    kind, st = s.pick(STAGES)
    n = s.pick(NAMES + sorted(ALIAS))
    if s.chance(30):
        n = n.lower()
    cells = s.list(lambda q: any_cell(q, n if '%s' in st else 'CJK' if 'CJK' in st else 'LATIN1'), 16)
    return {'kind': kind, 'stage': st % n if '%s' in st else st, 'name': n, 'cells': [c for c in cells if c]}


def run_stage(env, case):
    st, n, cells = case['stage'], case['name'], case['cells']
    conv = {'inter': 'PASS:%s:PASS', 'from': 'PASS:PASS|%s:PASS', 'to': 'PASS:%s'}[case['kind']] % st
    yes = [accepts(n, c) for c in cells]
    cnt = {}
    if st.startswith('COUNT'):
        want = cells
        cnt = {'SEEN' if 'seen' in st else 'COUNT': sum(yes)}
    elif st.startswith('STRINGS'):
        want, open_ = [], False
        for c, y in zip(cells + [b''], yes + [False]):
            if y:
                want.append(c)
            elif open_:
                want.append(b'\x01\x0a')
            open_ = y
    elif st == 'NULL':
        want, yes = [], []
    elif 'SCORE' in st:
        name = 'LATIN1' if 'LATIN1' in st else 'CJK'
        sc = [score_of(name, c) for c in cells]
        yes = [x > 0 for x in sc]
        cnt = {'X' if 'AS=x' in st else 'SCORE': sum(sc)}
        want = [c for c, y in zip(cells, yes) if y or 'NULL' not in st]
    else:
        want = [c for c, y in zip(cells, yes) if y]
        if case['kind'] != 'inter':
            cnt = {'IERR' if case['kind'] == 'from' else 'OERR': len(cells) - len(want)}
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    f = r.cells(0, cells)
    cs = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % conv)
    what = '%s of %s' % (conv, ','.join(c.hex() for c in cells))
    if case['kind'] == 'from':
        # what is refused is counted per byte
        cnt = {'IERR': sum(len(c) for c, y in zip(cells, yes) if not y)}
        got = util.clean(rep[cs])
        if bool(got.get('IERR')) != bool(cnt['IERR']):
            raise Violation('%s: counters %r' % (what, got))
    else:
        util.same(util.clean(rep[cs]), util.clean(cnt), what + ': counters')
    util.same([x.hex() for x in rep[f] if x], [x.hex() for x in want], what)
    return any(yes) and not all(yes), st.split('#')[0]


# ------------------------------------------------------------------ names

def gen_name(s, env):
    kind = s.pick(['filter', 'scorer'])
    base = s.pick(NAMES + ['CJK', 'LATIN1', 'TRAINED'])
    k = s.n(5)
    n = base
    if k == 1:
        n = base[:-1]
    elif k == 2:
        n = base + s.pick(['X', '.so', '/', '1'])
    elif k == 3:
        n = s.pick(['', '..', '.', '../filter/' + base, './' + base, '/' + base, 'from', '0', '4', '1b1b', 'ALIAS', '%s'])
    elif k == 4:
        n = ''.join(c.lower() if s.chance(50) else c for c in base)
    elif k == 5:
        n = ''.join(s.list(lambda q: q.pick('ABCJKLTIN1_-/.x'), 8))
    return {'kind': kind, 'name': n}


def run_name(env, case):
    n = case['name']
    if case['kind'] == 'filter':
        ok = n.upper() in NAMES or n.upper() in ALIAS
        stages = ['COUNT#FOR=%s', 'PASS#FOR=%s', 'STRINGS#FOR=%s']
    else:
        ok = n.upper() in DATA['scorers']
        stages = ['SCORE#WITH=%s']
        if n.upper() == 'TRAINED':
            raise Discard('reads a file')
    if any(c in n for c in ':|,&=#') or not n:
        raise Discard('does not reach the stage')
    r = Req()
    ix = []
    for st in stages:
        ix.append(r.create(0, st % n))
        r.destroy(0)
    rep = env.call(r)
    for st, k in zip(stages, ix):
        if bool(rep[k][0]) != ok:
            raise Violation('%s %s' % (st % n, 'can be created' if rep[k][0] else 'cannot be created'))
    return n not in NAMES, 'name'


# ------------------------------------------------------------------ bonuses

def bonus(env, name):
    key = (env.repo, name, 'bonus')
    if key not in tables._cache:
        m, pre = {}, set()
        for e in tables.table(env.repo, 'inter', name):
            if not e.callback or not e.val:
                raise Discard('not a bonus')
            k = bytes(0) if False else tuple(bytes(x) for x in split(e.key))
            m.setdefault(k, (e.val[0][0], e.val[1:]))
            for i in range(1, len(k) + 1):
                pre.add(k[:i])
        tables._cache[key] = (m, pre)
    return tables._cache[key]


def split(key):
    out = [[]]
    for t in key:
        if t == tables.SEP:
            out.append([])
        else:
            out[-1].append(t)
    return out


def gen_bonus(s, env):
    n = s.pick(['ZH-BONUS', 'ZH-BONUS-PHRASE', 'ZH-BONUS-PHRASE,ZH-BONUS'])
    ks = [k for x in n.split(',') for k in bonus(env, x)[0]]

    def piece(q):
        k = q.pick(ks)
        m = q.n(9)
        if m < 5:
            return list(k)
        if m < 7:
            return list(k[:1 + q.n(len(k) - 1)])
        if m < 8:
            return [u(pipes.cp(q))]
        return list(k[:-1]) + [u(pipes.cp_in(q, 'cjk'))]
    return {'stage': n, 'cells': [c for p in s.list(piece, 8) for c in p]}


def run_bonus(env, case):
    cells, out, total, i = case['cells'], [], 0, 0
    ms = [bonus(env, x) for x in case['stage'].split(',')]
    while i < len(cells):
        hit = None
        for m, pre in ms:
            j = i + 1
            while tuple(cells[i:j]) in pre:
                if tuple(cells[i:j]) in m:
                    hit = (j, m[tuple(cells[i:j])])
                if j >= len(cells):
                    break
                j += 1
            if hit:
                break
        if hit:
            total += hit[1][0]
            out += hit[1][1]
            i = hit[0]
        else:
            out.append(cells[i])
            i += 1
    r = Req()
    k = r.create(0, 'PASS:%s:PASS' % case['stage'])
    r.init(0)
    f = r.cells(0, cells)
    cs = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % case['stage'])
    what = '%s of %s' % (case['stage'], ','.join(c.hex() for c in cells))
    util.same([x.hex() for x in rep[f] if x], [x.hex() for x in out], what)
    util.same(util.clean(rep[cs]), {'SCORE': total} if total else {}, what + ': counters')
    return total > 0, 'bonus'


PARTS = [Part('every code point', None, run_block, 0, exhaustive=blocks), Part('every score', None, run_score, 0, exhaustive=sblocks), Part('cells', gen_cell, run_cell, 120000),
         Part('stages', gen_stage, run_stage, 150000), Part('names', gen_name, run_name, 10000), Part('bonus', gen_bonus, run_bonus, 60000)]
