"""C19: text-editing stages do exactly the documented edit."""
import json, os, unicodedata
from ..core import Part, Violation, Discard, scaled
from ..client import Req
from .. import pipes, util
from ..tables import u
from .c20 import accepts, ALIAS, NAMES, DATA, edge

PROPERTY = 'C19'
RULE = 'non-trivial: the edit changed the text, or measured or counted something, while some cell was left alone'
ASSUMPTIONS = ['widths are those of Unicode 13.0 (wide and fullwidth two columns, ambiguous one or two, others one, controls and cells that are not characters none)',
               'a trim ends at the first cell that does not fit: nothing after it is kept', 'PASS leaves what it does not pass to the next codec of its list']

_present = None


def present(cp):
    global _present
    if _present is None:
        _present = bytearray(0x110000)
        for a, b in DATA['present13']:
            _present[a:b + 1] = b'\1' * (b + 1 - a)
    return _present[cp]


def width_class(cell):
    """FULL, HALF, AMBI, '' (no width) or None (not a character of Unicode 13.0)"""
    if not cell or cell[0] != 1 or len(cell) < 2:
        return ''
    v = int.from_bytes(cell[1:], 'big')
    if v > 0x10ffff or not present(v):
        return None
    g = unicodedata.category(chr(v))
    if g == 'Cc':
        return ''
    if g == 'Cn':  # not a character
        return None
    w = unicodedata.east_asian_width(chr(v))
    return 'FULL' if w in 'WF' else 'AMBI' if w == 'A' else 'HALF'


# ------------------------------------------------------------------ reference stages: cells, counters -> cells

def hx(cells):
    return '.'.join(c.hex().upper() for c in cells)


def ref(st, cells, cnt):
    """st: [name, options]"""
    n, o = st
    out = []

    def bump(k, by=1):
        if by:
            cnt[k] = cnt.get(k, 0) + by
    if n == 'INSERT':
        for c in cells:
            out += o['before'] + [c] + o['after']
    elif n == 'LIST':  # a list of REPLACE, PASS and NULL
        left = [x[1].get('limit') or 0 for x in o['parts']]
        i = 0
        while i < len(cells):
            for j, (m, p) in enumerate(o['parts']):
                if m == 'REPLACE':
                    f = p['from']
                    if cells[i:i + len(f)] == f:
                        out += p['to']
                        i += len(f)
                        break
                elif m == 'PASS':
                    if p.get('for') and not accepts(p['for'], cells[i]):
                        continue
                    if p.get('limit'):
                        if not left[j]:
                            continue
                        left[j] -= 1
                    out.append(cells[i])
                    i += 1
                    break
                elif m == 'NULL':
                    i += 1
                    break
            else:
                out.append(cells[i])
                i += 1
    elif n == 'STRINGS':
        run = []
        for c in cells + [None]:
            if c is not None and accepts(o['for'], c):
                run.append(c)
            else:
                if run and len(run) >= o['min']:
                    out += o['before'] + run + o['after']
                run = []
    elif n == 'TRIM':
        left, full = o['width'], False
        for c in cells:
            w = {'FULL': 2, 'HALF': 1, 'AMBI': 2 if o['wide'] else 1, '': 0}[width_class(c)]
            if w <= left and not full:
                out.append(c)
                left -= w
            else:
                full = True
    elif n == 'COUNT':
        for c in cells:
            if not o['for'] or accepts(o['for'], c):
                bump(o['key'].upper())
        out = list(cells)
    elif n == 'WIDTH':
        for c in cells:
            w = width_class(c)
            if w:
                bump(w)
        out = list(cells)
    return out


def text_of(st, low=False):
    """the stage as written in a conversion"""
    n, o = st
    a = []
    if n == 'INSERT':
        a = [k + '=' + hx(o[k.lower()]) for k in o.get('order', ['AFTER', 'BEFORE']) if o[k.lower()]]
    elif n == 'LIST':
        t = []
        for m, p in o['parts']:
            if m == 'REPLACE':
                t.append('REPLACE#' + hx(p['from']) + ('=' + hx(p['to']) if p['to'] or p.get('eq') else ''))
            elif m == 'PASS':
                b = (['FOR=' + p['for']] if p.get('for') else []) + (['LIMIT=%d' % p['limit']] if p.get('limit') is not None else [])
                if p.get('swap'):
                    b.reverse()
                t.append('PASS' + ('#' + '&'.join(b) if b else ''))
            else:
                t.append('NULL')
        s = ','.join(t)
        return s.lower() if low else s
    elif n == 'STRINGS':
        if o['for'] != 'PRINT' or o.get('say'):
            a.append('FOR=' + o['for'])
        if o['min'] != 1 or o.get('say'):
            a.append('MIN-LEN=%d' % o['min'])
        if o['after'] != [b'\x01\x0a']:
            a.append('AFTER=' + hx(o['after']))
        if o['before']:
            a.append('BEFORE=' + hx(o['before']))
    elif n == 'TRIM':
        a = ['%d' % o['width']] + ([o['wide']] if o['wide'] else [])
        if o.get('swap'):
            a.reverse()
        n = 'TRIM-WIDTH'
    elif n == 'COUNT':
        a = (['FOR=' + o['for']] if o['for'] else []) + ([o['key']] if o['key'] != 'COUNT' or o.get('say') else [])
        if o.get('swap'):
            a.reverse()
    s = n + ('#' + '&'.join(a) if a else '')
    return s.lower() if low else s


# ------------------------------------------------------------------ generators

def plain_cell(s):
    k = s.n(9)
    if k < 8:
        c = u(pipes.cp(s)) if k > 2 else u(0x61 + s.n(2))
        return c if width_class(c) is not None else b'\x01\x61'
    return bytes([3, s.n(255)]) if k < 9 else s.pick([b'\x02\x41\x42', b'\x1b[m', b'\x00,', b'\x1b', b'\x04\x01'])


def palette(s):
    return [plain_cell(s) for _ in range(2 + s.n(4))]


def some(s, pal, hi=3):
    return [s.pick(pal) if s.chance(80) else plain_cell(s) for _ in range(1 + s.n(hi - 1) if s.grow == 1 or s.chance(80) else pipes.big(s, 9, 3))]


def pick_filter(s):
    return s.pick(['CJK', 'LATIN', 'PRINT', 'UNICODE', 'BYTE', 'ROMAN', 'ANSI', 'HANGUL', 'LATIN1']) if s.chance(60) else s.pick(NAMES + sorted(ALIAS))


def amount(s, hi, lo=0):
    return lo + s.n(hi) if s.grow == 1 or s.chance(20) else pipes.big(s, 11, 3)


def gen_part(s, pal):
    k = s.n(9)
    if k < 5:
        return ['REPLACE', {'from': some(s, pal, 4), 'to': some(s, pal) if s.chance(75) else [], 'eq': s.chance(40)}]
    return ['PASS', {'for': pick_filter(s) if s.chance(60) else None, 'limit': amount(s, 8) if s.chance(60) else None, 'swap': s.chance(30)}]


def gen_stage(s, pal):
    k = s.n(19)
    if k < 3:
        return ['INSERT', {'after': some(s, pal) if s.chance(60) else [], 'before': some(s, pal) if s.chance(60) else [], 'order': s.pick([['AFTER', 'BEFORE'], ['BEFORE', 'AFTER']])}]
    if k < 9:
        parts = [gen_part(s, pal) for _ in range(1 + s.n(2))]
        if s.chance(45):
            parts.append(['NULL', {}])
        return ['LIST', {'parts': parts}]
    if k < 12:
        return ['STRINGS', {'for': pick_filter(s) if s.chance(80) else 'PRINT', 'min': amount(s, 4, 1) if s.chance(70) else 1, 'after': some(s, pal) if s.chance(30) else [b'\x01\x0a'], 'before': some(s, pal) if s.chance(30) else [], 'say': s.chance(30)}]
    if k < 15:
        return ['TRIM', {'width': amount(s, 20), 'wide': s.pick(['', '', 'AMBI-AS-WIDE', 'AMBIGUOUS-AS-WIDE']), 'swap': s.chance(30)}]
    if k < 18:
        return ['COUNT', {'for': pick_filter(s) if s.chance(75) else None, 'key': s.pick(['COUNT', 'COUNT', 'n', 'Seen', 'IERR']), 'say': s.chance(30), 'swap': s.chance(30)}]
    return ['WIDTH', {}]


def gen(s, env):
    pal = palette(s)
    sts = [gen_stage(s, pal) for _ in range(s.weighted([(6, 1), (3, 2), (1, 3)]))]
    pats = [p['from'] for st in sts if st[0] == 'LIST' for m, p in st[1]['parts'] if m == 'REPLACE']
    fs = [x['for'] for st in sts for x in ([p for m, p in st[1]['parts']] if st[0] == 'LIST' else [st[1]]) if x.get('for')]

    def piece(q):
        k = q.n(9)
        if pats and k < 4:
            p = q.pick(pats)
            return p if q.chance(60) else p[:1 + q.n(len(p) - 1)] if q.chance(50) else p[q.n(len(p) - 1):]
        if fs and k < 6:
            c = u(edge(q, q.pick(fs)))
            return [c] if width_class(c) is not None else []
        return [q.pick(pal) if q.chance(75) else plain_cell(q)]
    cells = [c for p in s.list(piece, 20, 1) for c in p]
    return {'stages': sts, 'cells': cells, 'low': s.chance(15), 'pieces': s.chance(25)}


def size_after(st, n):
    """how many cells a stage can make of n"""
    n0 = n
    if st[0] == 'INSERT':
        n *= 1 + len(st[1]['before']) + len(st[1]['after'])
    elif st[0] == 'LIST':
        for m, p in st[1]['parts']:
            if m == 'REPLACE':
                n = max(n, n0 // len(p['from']) * len(p['to']), n0 * len(p['from']) // 20)
    return n


def run(env, case):
    cells, cnt, changed = case['cells'], {}, False
    for st in case['stages']:
        if 'TRIM' == st[0] or 'WIDTH' == st[0]:
            if any(width_class(c) is None for c in cells):
                raise Discard('character of unknown width')
        if size_after(st, len(cells)) > 40000:
            raise Discard('more than is converted in a second')
        out = ref(st, cells, cnt)
        changed = changed or out != cells
        cells = out
    conv = 'PASS:' + ':'.join(text_of(st, case['low']) for st in case['stages']) + ':PASS'
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    fs = []
    if case['pieces']:
        for i, c in enumerate(case['cells']):
            fs.append(r.cells(0, [c], flush=i == len(case['cells']) - 1))
    else:
        fs.append(r.cells(0, case['cells']))
    cs = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % conv)
    what = '%s of %s%s' % (conv, hx(case['cells']), ' cell by cell' if case['pieces'] else '')
    util.same([x.hex() for f in fs for x in rep[f] if x], [x.hex() for x in cells if x], what)
    util.same(util.clean(rep[cs]), util.clean(cnt), what + ': counters')
    return (changed or bool(cnt)) and bool(cells), [st[0] for st in case['stages']]


# ------------------------------------------------------------------ the same on texts, through UTF-8

def gen_text(s, env):
    pal = [c for c in palette(s) if c[0] == 1 and 0xd800 > int.from_bytes(c[1:], 'big') > 0] or [b'\x01\x61']
    for _ in range(6):
        st = gen_stage(s, pal)
        if not any(x[0] != 1 for x in cells_in(st)):
            break
    else:
        st = ['WIDTH', {}]
    t = ''.join(c for c in pipes.text(s, 30) if c != '\0' and width_class(u(ord(c))) is not None and not 0xd800 <= ord(c) < 0xe000)
    if pal and s.chance(60):
        t += ''.join(s.list(lambda q: chr(int.from_bytes(q.pick(pal)[1:], 'big')), 8))
    return {'stage': st, 'text': t}


def cells_in(st):
    o = st[1]
    out = []
    for x in [o] + [p for m, p in o.get('parts', [])]:
        for k in ('after', 'before', 'from', 'to'):
            out += x.get(k) or []
    return [c for c in out if not 0xd800 <= int.from_bytes(c[1:], 'big') < 0xe000 or c[0] != 1] + [b'\x03'] * any(c[0] == 1 and (0xd800 <= int.from_bytes(c[1:], 'big') < 0xe000 or c[1:] == b'\0') for c in out)


def run_text(env, case):
    st, cnt = case['stage'], {}
    cells = [u(ord(c)) for c in case['text']]
    want = ref(st, cells, cnt)
    conv = 'UTF-8:' + text_of(st) + ':UTF-8'
    got = util.convert(env, conv, case['text'].encode())
    if got is None:
        raise Violation('%s cannot be created' % conv)
    util.same(got[0], ''.join(chr(int.from_bytes(c[1:], 'big')) for c in want).encode(), '%s of %r' % (conv, case['text']))
    util.same(got[1], util.clean(cnt), '%s of %r: counters' % (conv, case['text']))
    return want != cells or bool(cnt), st[0]


# ------------------------------------------------------------------ width of every character

SB = 0x400


def blocks(env):
    return [{'at': a} for a in range(0, 0x110000, SB) if any(present(c) for c in range(a, a + SB - 2))]


def run_block(env, case):
    cps = [c for c in range(case['at'], case['at'] + SB) if width_class(u(c)) is not None]
    r = Req()
    k = r.create(0, 'PASS:WIDTH:PASS')
    ix = []
    for bit in range(11):
        sel = cps if bit == 10 else [c for c in cps if c >> bit & 1]
        r.counter_reset(0, None)
        r.init(0)
        ix.append((sel, r.cells(0, [u(c) for c in sel]), r.counters(0)))
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('WIDTH cannot be created')
    for sel, f, cs in ix:
        w = {}
        for c in sel:
            x = width_class(u(c))
            if x:
                w[x] = w.get(x, 0) + 1
        util.same(util.clean(rep[cs]), w, 'width of %d characters in U+%04X..U+%04X' % (len(sel), case['at'], case['at'] + SB - 1))
        util.same([x.hex() for x in rep[f] if x], [u(c).hex() for c in sel], 'WIDTH passes the text from U+%04X' % case['at'])
    return True, 'every width'


PARTS = [Part('stages', gen, run, 240000), Part('texts', gen_text, run_text, 80000), Part('every width', None, run_block, 0, exhaustive=blocks), Part('long stages', scaled(gen, 20, 100), run, 12000)]
