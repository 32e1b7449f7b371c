"""C26: the stages that move white space, pad ambiguous-width characters, separate terminal control sequences and
re-join the double-byte characters these split."""
import unicodedata as U
from ..core import Part, Violation, Discard, scaled
from ..client import Req, AUTO
from .. import pipes, tables, util
from ..tables import u

PROPERTY = 'C26'
RULE = 'non-trivial: the text held at least one unit the stage is about (white space before other text, an ambiguous-width character, a control sequence, a split double-byte character)'
ASSUMPTIONS = ['white space is tab, line feed, carriage return and space', 'ambiguous-width characters are those of East Asian Width A (Unicode 13)',
               'a control sequence is ESC and one character other than [, or ESC [ up to the first letter other than O (at most 30 bytes)',
               'one DERAIL/RERAIL pair per conversion; the stages between it neither make nor look at white space']
WS = {0x09, 0x0a, 0x0d, 0x20}
CTL_PAD = 4


def cells_of(s, mix, hi=14):
    """mostly Unicode characters, sometimes other cells"""
    def f(q):
        k = q.n(19)
        if k == 0:
            return bytes([3, q.n(255)])
        if k == 1:
            return q.pick([b'\x1b[m', b'\x1b[1;31m', b'\x02\x00', b'\x02abc', b'\x04A', b'\x01', b''[:0] + b'\x03', b'\x1b[H'])
        return u(pipes.cp(q, mix))
    return s.list(f, hi)


def feed_cells(s, cells):
    """how the cells arrive: list of counts"""
    n = []
    left = len(cells)
    while left:
        k = left if s.chance(50) else 1 + s.n(min(left, 3) - 1)
        n.append(k)
        left -= k
    return n or [0]


def through(env, conv, cells, cuts=None, before=None):
    r = Req()
    k = r.create(0, 'PASS:%s:PASS' % conv)
    r.init(0)
    if before:
        before(r)
    ix = []
    at = 0
    cuts = cuts or [len(cells)]
    for i, c in enumerate(cuts):
        ix.append(r.cells(0, cells[at:at + c], flush=i == len(cuts) - 1))
        at += c
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s is refused' % conv)
    return [c for i in ix for c in rep[i]]


def show(cells):
    return ' '.join(c.hex().upper() or '(empty)' for c in cells)[:300]


def expect(got, want, what):
    if got != want:
        raise Violation('%s: %s, expected %s' % (what, show(got), show(want)))


def cpof(c):
    return int.from_bytes(c[1:], 'big') if len(c) > 1 and c[0] == 1 else None


def is_ws(c):
    return cpof(c) in WS


# ------------------------------------------------------------------ white space

WSMIX = [(8, 'alnum'), (6, 'wsx'), (3, 'cjk'), (2, 'latin1'), (1, 'ascii'), (1, 'bmp'), (1, 'ws'), (1, 'comb'), (1, 'astral'), (1, 'ctl')]
pipes.CLASSES.setdefault('wsx', [(0x20, 0x20), (9, 10), (0xd, 0xd), (0x20, 0x20)])
# map every character on its own to one or more others
EACH = ['UPPER', 'LOWER', 'ZHTW', 'ZHCN', 'REPLACE#0161=0162.0163', 'REPLACE#0161=014E00', 'PASS', 'COUNT', 'UPPER:LOWER', 'REPLACE#0161=0162:REPLACE#0162=0161.0161', 'PASS:COUNT#FOR=CJK', 'REPLACE#0141=0161.0161.0161']
# anything else
ANY = EACH + ['ZHTW:ZHTW-WORDS', 'ZHCN:ZHCN-WORDS', 'NFC', 'NFD', 'NFKC:UPPER', 'REPLACE#0161=', 'REPLACE#0161.0162=0163', 'REPLACE#0161.0162.0163=&0164=', 'CASEFOLD', 'BIG5-DEFRAG', 'AMBIGUOUS-PAD', '_NF-ORDER', '_NFC', 'REPLACE#0161.0161.0161=0161',
             'TRIM-WIDTH#5', 'PASS#LIMIT=2', 'INSERT#AFTER=0128', 'CHEWING', 'HAN-PINYIN', 'EMOJI', 'KANA-PHONETIC', 'SPACE', 'ZH-COMP']


def gen_ws(s, env):
    each = s.chance(60)
    mid = None if s.chance(25) else s.pick(EACH if each else ANY)
    cells = cells_of(s, WSMIX)
    return {'mid': mid, 'each': each, 'cells': cells, 'cuts': feed_cells(s, cells)}


def run_ws(env, case):
    cells = case['cells']
    mid = case['mid']
    if mid and mid not in EACH:
        reg = pipes.registry(env.repo)
        for m in mid.split(':'):
            n = m.split('#')[0]
            if n not in reg['inter'] and n not in reg['alias']['inter']:
                raise Discard('no such stage')
    conv = ':'.join(x for x in ('WHITESPACE-DERAIL', mid, 'WHITESPACE-RERAIL') if x)
    got = through(env, conv, cells, case['cuts'])
    sp = [c for c in cells if is_ws(c)]
    rest = [c for c in cells if not is_ws(c)]
    nt = bool(sp and rest) and any(is_ws(c) for c in cells[:-1])
    if mid is None:
        expect(got, cells, conv)
        return nt, 'nothing between'
    alone = through(env, mid, rest)
    if any(is_ws(c) for c in alone):
        raise Discard('makes white space')
    expect([c for c in got if is_ws(c)], sp, conv + ' (white space)')
    expect([c for c in got if not is_ws(c)], alone, conv + ' (text)')
    if case['each']:
        expect(got, through(env, mid, cells), conv + ' and the stages alone')
    return nt, 'each' if case['each'] else 'any'


def gen_wstext(s, env):
    """the same from text to text, several inputs one after the other"""
    mid = s.pick(['', 'UPPER', 'ZHTW', 'NFC', 'ZHTW:ZHTW-WORDS', 'PASS'])
    ts = [''.join(s.list(lambda q: chr(pipes.cp(q, WSMIX) or 0x20), 12)) for _ in range(1 + s.n(2))]
    # flushing goes on until the instance is initialised again, so only whole texts can follow without
    init = [1] + [s.n(1) for _ in ts[1:]]
    return {'mid': mid, 'texts': ts, 'pieces': [pipes.split(s, pipes.to_utf8(t)) if i else [pipes.to_utf8(t)] for i, t in zip(init, ts)], 'init': init}


def run_wstext(env, case):
    conv = ':'.join(x for x in ('UTF-8:WHITESPACE-DERAIL', case['mid'], 'WHITESPACE-RERAIL:UTF-8') if x)
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    r.create(1, ':'.join(x for x in ('UTF-8', case['mid'], 'UTF-8') if x))
    outs, refs = [], []
    for t, ps, i in zip(case['texts'], case['pieces'], case['init']):
        if i:
            r.init(0)
        outs.append(util.feed_all(r, 0, ps))
        r.init(1)
        # what the stage makes of the text without its white space
        refs.append(r.feed(1, pipes.to_utf8(''.join(c for c in t if ord(c) not in WS)), flush=True))
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s is refused' % conv)
    n = 0
    for t, o, ref in zip(case['texts'], outs, refs):
        out = b''.join(rep[x][2] for x in o).decode('utf-8', 'surrogatepass')
        if not case['mid'] or case['mid'] == 'PASS':
            util.same(out, t, conv)
        else:
            util.same(''.join(c for c in out if ord(c) in WS), ''.join(c for c in t if ord(c) in WS), conv + ' (white space)')
            util.same(''.join(c for c in out if ord(c) not in WS), rep[ref][2].decode('utf-8', 'surrogatepass'), conv + ' (text)')
        n += any(ord(c) in WS for c in t[:-1])
    return n > 0, case['mid'] or 'nothing between'


# ------------------------------------------------------------------ ambiguous width

AMIX = [(8, 'amb'), (4, 'nbsp'), (3, 'alnum'), (2, 'latin1'), (2, 'cyr'), (2, 'greek'), (1, 'punct'), (1, 'cjk'), (1, 'bmp'), (1, 'astral'), (1, 'pua'), (1, 'ascii'), (1, 'edge')]
pipes.CLASSES.setdefault('amb', [(0xa1, 0xa1), (0xb0, 0xb4), (0x391, 0x3a1), (0x410, 0x44f), (0x2500, 0x254b), (0xe000, 0xe100), (0x1f100, 0x1f10a), (0xe0100, 0xe01ef), (0x2014, 0x2016)])
pipes.CLASSES.setdefault('nbsp', [(0xa0, 0xa0)])
PAD = b'\x01\xa0'


def ambiguous(c):
    n = cpof(c)
    return n is not None and n < 0x110000 and U.east_asian_width(chr(n)) == 'A'


def padded(cells, on=True):
    out = []
    for c in cells:
        out.append(c)
        if on and ambiguous(c):
            out.append(PAD)
    return out


def unpadded(cells, on=True):
    out = []
    after = False
    for c in cells:
        if after and c == PAD:
            after = False
            continue
        out.append(c)
        after = on and ambiguous(c)
    return out


def gen_amb(s, env):
    cells = cells_of(s, AMIX)
    return {'cells': cells, 'cuts': feed_cells(s, cells), 'pad': s.chance(80), 'unpad': s.chance(80)}


def run_amb(env, case):
    cells = case['cells']
    amb = any(ambiguous(c) for c in cells)

    def ctl(on):
        return None if on else lambda r: r.ctl(0, CTL_PAD, '', 0)
    expect(through(env, 'AMBIGUOUS-PAD', cells, case['cuts'], ctl(case['pad'])), padded(cells, case['pad']), 'AMBIGUOUS-PAD' + ('' if case['pad'] else ' switched off'))
    expect(through(env, 'AMBIGUOUS-UNPAD', cells, case['cuts'], ctl(case['unpad'])), unpadded(cells, case['unpad']), 'AMBIGUOUS-UNPAD' + ('' if case['unpad'] else ' switched off'))
    expect(through(env, 'AMBIGUOUS-PAD:AMBIGUOUS-UNPAD', cells, case['cuts']), cells, 'AMBIGUOUS-PAD:AMBIGUOUS-UNPAD')
    return amb, ['ambiguous' if amb else 'none'] + (['followed by U+00A0'] if any(ambiguous(a) and b == PAD for a, b in zip(cells, cells[1:])) else [])


STEP = 2048


def blocks(env):
    return [{'at': a} for a in range(0, 0x110000, STEP)]


def run_all(env, case):
    """every code point"""
    cells = [u(c) for c in range(case['at'], case['at'] + STEP)]
    expect(through(env, 'AMBIGUOUS-PAD', cells), padded(cells), 'AMBIGUOUS-PAD, U+%04X..' % case['at'])
    pairs = [x for c in cells for x in (c, PAD)]
    expect(through(env, 'AMBIGUOUS-UNPAD', pairs), unpadded(pairs), 'AMBIGUOUS-UNPAD, U+%04X..' % case['at'])
    return any(ambiguous(c) for c in cells), 'block'


# ------------------------------------------------------------------ control sequences

def sequence(s):
    k = s.n(9)
    if k == 0:
        return b'\x1b' + bytes([s.pick(list(b'78cDEHMNOZ=>()#'))])
    par = s.pick([b'', b'0', b'1', b'1;31', b'38;5;208', b'?25', b'2;10', b';', b'1;2;3;4;5;6;7;8;9;10', b'O', b'1O', b' ', b'>0']) if k < 8 else bytes(s.pick(list(b'0123456789;:<=>? !"$%')) for _ in range(s.n(27)))
    return b'\x1b[' + par + bytes([s.pick(list(b'mHJKABCDfhlsuPZaz'))])


def gen_ctl(s, env):
    """text and complete control sequences"""
    def f(q):
        if q.chance(40):
            return ['c', sequence(q)]
        return ['t', bytes(q.pick(list(b'ab[mO;1 \n\x00~')) if q.n(1) else q.n(255) for _ in range(1 + q.n(3)))]
    items = s.list(f, 10)
    return {'items': items, 'second': s.pick(['BYTE', 'BYTE', 'ASCII,BYTE', 'BYTE,ASCII']), 'pieces': pipes.split(s, b''.join(x for k, x in items))}


def run_ctl(env, case):
    """each sequence is one cell, everything else goes to the codec listed next"""
    want = []
    for k, x in case['items']:
        if k == 'c':
            want.append(x)
        else:
            if b'\x1b' in x:
                raise Discard('control sequences by accident')
            asc = case['second'].startswith('ASCII')
            want += [u(b) if asc and 0 < b < 0x80 else bytes([3, b]) for b in x]
    raw = b''.join(x for k, x in case['items'])
    r = Req()
    r.create(0, 'ANSI-CONTROL,%s:BSDCONV-KEYWORD,BSDCONV' % case['second'])
    r.init(0)
    a = util.feed_all(r, 0, case['pieces'])
    r.create(1, 'ANSI-CONTROL,%s:ANSI-CONTROL,ASCII,BYTE' % case['second'])
    r.init(1)
    b = util.feed_all(r, 1, case['pieces'])
    c = r.counters(1)
    r.create(2, 'ANSI-CONTROL,%s:SPLIT:BSDCONV-KEYWORD,BSDCONV' % case['second'])
    r.init(2)
    d = util.feed_all(r, 2, case['pieces'])
    rep = env.call(r)
    out = b''.join(rep[i][2] for i in d).decode()
    expect([bytes.fromhex(x) for x in out.split(',') if x], want, 'ANSI-CONTROL,%s of %s' % (case['second'], util.short(raw)))
    util.same(b''.join(rep[i][2] for i in b), raw, 'ANSI-CONTROL,%s:ANSI-CONTROL,ASCII,BYTE' % case['second'])
    util.same(util.clean(rep[c]), {}, 'error counters')
    return any(k == 'c' for k, x in case['items']), 'sequences'


def gen_raw(s, env):
    """anything with many escapes, cut anywhere"""
    d = b''.join(s.list(lambda q: q.pick([b'\x1b', b'\x1b[', b'[', b'm', b'1;2', b'O', b'0' * (1 + q.n(40)), bytes([q.n(255)]), sequence(q), sequence(q)[:1 + q.n(6)]]), 10))
    return {'data': d, 'conv': s.pick(['ANSI-CONTROL,BYTE:ANSI-CONTROL,BYTE', 'ANSI-CONTROL,ASCII,BYTE:ANSI-CONTROL,ASCII,BYTE', 'ANSI-CONTROL,BYTE:BIG5-DEFRAG:ANSI-CONTROL,BYTE', 'ANSI-CONTROL,BYTE:PASS:ANSI-CONTROL,BYTE', 'BYTE,ANSI-CONTROL:ANSI-CONTROL,BYTE',
                                       'ANSI-CONTROL,BYTE:ANSI-CONTROL,BYTE|ANSI-CONTROL,BYTE:ANSI-CONTROL,BYTE']), 'pieces': pipes.split(s, d)}


def run_raw(env, case):
    r = Req()
    r.create(0, case['conv'])
    r.init(0)
    a = util.feed_all(r, 0, case['pieces'])
    c = r.counters(0)
    rep = env.call(r)
    out = b''.join(rep[i][2] for i in a)
    if 'DEFRAG' in case['conv']:
        util.same(sorted(out), sorted(case['data']), case['conv'] + ' (bytes)')
    else:
        util.same(out, case['data'], case['conv'])
    util.same(util.clean(rep[c]), {}, 'error counters')
    return case['data'].count(b'\x1b') > 0, 'raw'


# ------------------------------------------------------------------ split double-byte characters

def rejoined(cells):
    out = []
    lead, ctl = None, []
    for c in cells:
        if lead is None:
            if len(c) == 2 and c[0] == 3 and c[1] > 0x7f:
                lead = c
            else:
                out.append(c)
        elif c[:1] == b'\x1b':
            ctl.append(c)
        else:
            out += [lead, c] + ctl
            lead, ctl = None, []
    if lead is not None:
        out += [lead] + ctl
    return out


def gen_defrag(s, env):
    def f(q):
        k = q.n(9)
        if k < 5:
            return bytes([3, q.pick([0xa4, 0xaf, 0xf9, 0x80, 0x7f, 0x40, 0x61, 0xe0, q.n(255)])])
        if k < 8:
            return q.pick([b'\x1b[m', b'\x1b[1m', b'\x1b[31;1m', b'\x1b7', b'\x1b[0K'])
        return q.pick([u(0x4e00), u(0x41), b'\x02\x01', b'\x03', b'\x03\xa4\xa4', b'\x01\xa4'])
    cells = s.list(f, 14)
    return {'cells': cells, 'cuts': feed_cells(s, cells), 'again': s.list(f, 6) if s.chance(30) else None}


def run_defrag(env, case):
    cells = case['cells']
    expect(through(env, 'BIG5-DEFRAG', cells, case['cuts']), rejoined(cells), 'BIG5-DEFRAG')
    if case['again'] is not None:
        r = Req()
        r.create(0, 'PASS:BIG5-DEFRAG:PASS')
        r.init(0)
        a = r.cells(0, cells)
        b = r.cells(0, case['again'])
        rep = env.call(r)
        expect(rep[a] + rep[b], rejoined(cells) + rejoined(case['again']), 'BIG5-DEFRAG, two texts')
    return rejoined(cells) != cells, ['moved'] if rejoined(cells) != cells else ['kept']


def gen_bbs(s, env):
    """Big5 text with colours, as on a bulletin board: sequences also between the two bytes of a character"""
    pool = big5()
    ch = [s.pick(pool) if s.chance(70) else chr(0x20 + s.n(0x5e)) for _ in range(1 + s.n(7))]
    items = []
    for c in ch:
        b = c.encode('big5')
        for i in range(len(b)):
            if s.chance(30):
                for _ in range(1 + s.n(1)):
                    items.append(['c', sequence(s)])
            items.append(['b', b[i:i + 1]])
    if s.chance(20):
        items.append(['c', sequence(s)])
    raw = b''.join(x for k, x in items)
    return {'text': ''.join(ch), 'items': items, 'pieces': pipes.split(s, raw)}


def big5():
    k = 'c26big5'
    if k not in tables._cache:
        out = []
        for a in range(0xa4, 0xc6):
            for b in list(range(0x40, 0x7f)) + list(range(0xa1, 0xff)):
                try:
                    out.append(bytes([a, b]).decode('big5'))
                except UnicodeDecodeError:
                    pass
        tables._cache[k] = out
    return tables._cache[k]


def run_bbs(env, case):
    first = 'ANSI-CONTROL,BYTE:BIG5-DEFRAG:BYTE,ANSI-CONTROL|'
    seqs = [x for k, x in case['items'] if k == 'c']
    r = Req()
    r.create(0, first + 'SKIP,BIG5:UTF-8')
    r.init(0)
    a = util.feed_all(r, 0, case['pieces'])
    r.create(1, first + 'ANSI-CONTROL,BIG5:ANSI-CONTROL,UTF-8')
    r.init(1)
    b = util.feed_all(r, 1, case['pieces'])
    c = r.counters(1)
    rep = env.call(r)
    out = b''.join(rep[i][2] for i in b)
    # where a sequence stands between characters it stays; one inside a character follows it
    want = b''
    held = b''
    half = False
    ix = 0
    for k, x in case['items']:
        if k == 'c':
            if half:
                held += x
            else:
                want += x
            continue
        wide = len(case['text'][ix].encode('big5')) == 2
        if wide and not half:
            half = True
            continue
        want += case['text'][ix].encode() + held
        held = b''
        half = False
        ix += 1
    util.same(out, want, first + 'ANSI-CONTROL,BIG5:ANSI-CONTROL,UTF-8')
    util.same(util.clean(rep[c]), {}, 'error counters')
    return bool(seqs), 'sequences' if seqs else 'plain'


PARTS = [Part('white space', gen_ws, run_ws, 120000), Part('white space in text', gen_wstext, run_wstext, 40000), Part('ambiguous', gen_amb, run_amb, 120000), Part('every character', None, run_all, 0, exhaustive=blocks),
         Part('sequences', gen_ctl, run_ctl, 60000), Part('escapes', gen_raw, run_raw, 80000), Part('rejoin', gen_defrag, run_defrag, 120000), Part('bulletin board', gen_bbs, run_bbs, 30000), Part('long white space', scaled(gen_ws, 20, 100), run_ws, 8000),
         Part('long ambiguous', scaled(gen_amb, 20, 100), run_amb, 6000),
         Part('long double byte', scaled(gen_defrag, 20, 100), run_defrag, 6000)]
