"""C18: escape encodings decode back to the text they encode."""
import re
from html.entities import name2codepoint
from ..core import Part, Violation, Discard, scaled
from ..client import Req
from .. import model, pipes, util
from ..tables import u

PROPERTY = 'C18'
RULE = 'non-trivial: at least one escape was written or read (round trips, mixtures); every case (values)'
ASSUMPTIONS = ['a text has no U+0000, which UTF-8 and ASCII leave to the 00 codec', 'backslash and percent escapes of characters have four digits and so cover the code points up to U+FFFF',
               'what introduces an escape (% and \\, &) does not itself occur in a text that is written with unescaped ASCII']

ENT = {'apos': 0x27}
ENT.update(name2codepoint)
H4 = rb'[0-9A-F]{4}'
ALPHA = {'hexent': rb'(&#x(?:[0-9A-F]{2}){1,3};)*', 'decent': rb'(&#(?:0|[1-9][0-9]*);)*', 'named': rb'(&[A-Za-z0-9]+;)*', 'u': rb'(\\u' + H4 + rb')*', '%u': rb'(%u' + H4 + rb')*',
         '%': rb'(%[0-9A-F]{2})*', 'x': rb'(\\x[0-9A-F]{2})*', 'o': rb'(\\[0-3][0-7]{2})*', 'hex': rb'([0-9A-F]{2})*', 'url': rb'(%u' + H4 + rb'|%[0-9A-F]{2})*', 'ascii': rb'[\x00-\x7f]*'}
X, O = 'ESCAPE#FOR=BYTE&MODE=HEX&PREFIX=5C78', 'ESCAPE#FOR=BYTE&MODE=8&PREFIX=5C'
# encoder of the text, decoder, kind of text, characters the text cannot have, alphabet of the escaped form
PAIRS = [
    ('UTF-8:ASCII-HEX-NUMERIC-HTML-ENTITY', 'ASCII-NUMERIC-HTML-ENTITY:UTF-8', 'text', '', 'hexent'),
    ('UTF-8:HTMLENTITY', 'NCR:UTF-8', 'text', '', 'hexent'),
    ('UTF-8:ASCII-DEC-NUMERIC-HTML-ENTITY', 'HTMLENTITY:UTF-8', 'text', '', 'decent'),
    ('UTF-8:ASCII,HTMLENTITY', 'HTMLENTITY,ASCII:UTF-8', 'text', '&', 'ascii'),
    ('UTF-8:ASCII,ASCII-DEC-NUMERIC-HTML-ENTITY', 'ASCII-NUMERIC-HTML-ENTITY,ASCII:UTF-8', 'text', '&', 'ascii'),
    ('UTF-8:ASCII-NAMED-HTML-ENTITY,UTF-8', 'NAMED-HTMLENTITY,UTF-8:UTF-8', 'text', '', None),
    ('UTF-8:NAMED-HTMLENTITY,ASCII,HTMLENTITY', 'ASCII-NAMED-HTML-ENTITY,NCR,ASCII:UTF-8', 'text', '', 'ascii'),
    ('UTF-8:NAMED-HTMLENTITY', 'NAMED-HTMLENTITY:UTF-8', 'entities', '', 'named'),
    ('UTF-8:ASCII-ESCAPED-UNICODE', 'ESCAPE:UTF-8', 'bmp', '', 'u'),
    ('UTF-8:JAVA', 'ESCAPE:UTF-8', 'bmp', '', 'u'),
    ('UTF-8:ASCII,SOURCE', 'ESCAPE,ASCII:UTF-8', 'bmp', '%\\', 'ascii'),
    ('UTF-8:ESCAPE', 'ESCAPE:UTF-8', 'bmp', '', '%u'),
    ('UTF-8:ASCII,ESCAPE', 'ESCAPE,ASCII:UTF-8', 'bmp', '%\\', 'ascii'),
    ('UTF-8:ESCAPE#FOR=UNICODE&MODE=16&PREFIX=2575', 'ESCAPE:UTF-8', 'bmp', '', '%u'),
    ('UTF-8:ASCII,URL', 'ESCAPE,ASCII:UTF-8', 'bmp', '%\\', 'ascii'),
    ('UTF-8,BYTE:URL', 'ESCAPE:UTF-8,BYTE', 'mixed', '', 'url'),
    ('UTF-8:URL', 'ESCAPE:UTF-8', 'bmp', '', 'url'),
    ('UTF-8,BYTE:ASCII,URL', 'ESCAPE,ASCII:UTF-8,BYTE', 'mixed', '%\\', 'ascii'),
    ('BYTE:URL', 'ESCAPE:BYTE', 'bytes', '', '%'),
    ('ASCII,BYTE:ASCII,URL', 'ESCAPE,ASCII:ASCII,BYTE', 'bytes', '%\\', 'ascii'),
    ('BYTE:ESCAPE#FOR=BYTE&PREFIX=25', 'ESCAPE:BYTE', 'bytes', '', '%'),
    ('BYTE:' + X, 'ESCAPE:BYTE', 'bytes', '', 'x'),
    ('ASCII,BYTE:ASCII,' + X, 'ESCAPE,ASCII:ASCII,BYTE', 'bytes', '%\\', 'ascii'),
    ('BYTE:' + O, 'ESCAPE:BYTE', 'bytes', '', 'o'),
    ('BYTE:ESCAPE#FOR=03&MODE=OCT&PREFIX=5C', 'ESCAPE:BYTE', 'bytes', '', 'o'),
    ('ASCII,BYTE:ASCII,' + O, 'ESCAPE,ASCII:ASCII,BYTE', 'bytes', '%\\', 'ascii'),
    ('UTF-8:UTF-8|BYTE:URL', 'ESCAPE:BYTE|UTF-8:UTF-8', 'text', '', '%'),
    ('BYTE:HEX', 'HEX:BYTE', 'bytes', '', 'hex'),
    ('UTF-8:SPLIT:BSDCONV-KEYWORD,BSDCONV', 'BSDCONV:UTF-8', 'text', '', 'ascii'),
    ('UTF-8,BYTE:SPLIT:BSDCONV-KEYWORD,BSDCONV', 'BSDCONV:UTF-8,BYTE', 'mixed', '', 'ascii'),
    ('BYTE:SPLIT:BSDCONV-KEYWORD,BSDCONV', 'BSDCONV:BYTE', 'bytes', '', 'ascii'),
    ('BSDCONV-KEYWORD,UTF-8:BSDCONV-KEYWORD,BSDCONV', 'BSDCONV-KEYWORD,BSDCONV:BSDCONV-KEYWORD,UTF-8', 'keyword', '', 'ascii'),
]


def bmp(s, hi=24):
    mix = [x for x in pipes.TEXTMIX if x[1] not in ('astral', 'emoji')]
    t = pipes.text(s, hi, mix)
    return ''.join(c for c in t if ord(c) < 0x10000 and not 0xd800 <= ord(c) < 0xe000)


ESCBYTES = b'%\\&#;ux0123456789abcdefABCDEF,;. '


def blob(s, hi=24):
    return bytes(s.list(lambda q: q.n(255) if q.chance(60) else q.pick(ESCBYTES), hi))


def keyword(s):
    """single characters with their separators; the ones that are separators themselves escaped"""
    out = []
    for c in bmp(s, 12) + (''.join(s.list(lambda q: q.pick(', \\\t?a'), 4))):
        if c in '\t?\n\r':
            out.append(c)
            continue
        out.append('\\' + c if c in ' ,\\' else c)
        # an escaped character is known as such by the separator that follows it
        out.append(',' if c in ' ,\\' else s.pick([',', ',', '\t', '\n', ' ']))
    return ''.join(out)


def gen(s, env):
    i = s.n(len(PAIRS) - 1)
    e, d, kind, bad, al = PAIRS[i]
    if kind == 'bytes':
        t = blob(s)
    elif kind == 'mixed':
        t = b''.join(s.list(lambda q: bmp(q, 2).encode() if q.chance(60) else bytes([0x80 + q.n(0x3f)]), 12))
    elif kind == 'entities':
        vs = sorted(set(ENT.values()) - MISSING)
        t = ''.join(s.list(lambda q: chr(q.pick(vs)), 24)).encode()
    elif kind == 'keyword':
        t = keyword(s).encode()
    elif kind == 'bmp':
        t = bmp(s).encode()
    else:
        t = pipes.text(s, 24).encode('utf-8', 'surrogatepass').decode('utf-8', 'replace').encode()
        if s.chance(30):
            t += s.pick(['&amp;', '&#65;', '%41', '\\101', '&', '\\', '%', '#x41;', '\u00e9', '\u2203']).encode()
    if kind != 'bytes':
        t = t.replace(b'\0', b'0')
    for c in bad:
        t = t.replace(c.encode(), b'_')
    return {'pair': i, 'data': t}


MISSING = {name2codepoint[x] for x in ('real', 'weierp', 'frasl', 'dArr', 'image', 'lArr', 'lang', 'rang', 'alefsym', 'rArr', 'hArr', 'uArr')}


def run(env, case):
    e, d, kind, bad, al = PAIRS[case['pair']]
    x = util.convert(env, e, case['data'])
    if x is None:
        raise Violation('%s cannot be created' % e)
    util.same(x[1], {}, '%s of %r: counters' % (e, case['data']))
    if al and not re.fullmatch(ALPHA[al], x[0]):
        raise Violation('%s of %r gives %r, which is not the documented form' % (e, case['data'], x[0]))
    y = util.convert(env, d, x[0])
    if y is None:
        raise Violation('%s cannot be created' % d)
    util.same(y[0], case['data'], '%s of %r reads back with %s' % (e, case['data'], d))
    if 'SPLIT' not in e:  # separators are not text
        util.same(y[1], {}, '%s of %r: counters' % (d, x[0]))
    return x[0] != case['data'], d.split(':')[0]


# ------------------------------------------------------------------ characters over U+FFFF

def gen_astral(s, env):
    return {'enc': s.pick(['ESCAPE', 'JAVA', 'URL', 'ASCII,SOURCE']), 'text': chr(0x10000 + s.n(0xfffff))}


def run_astral(env, case):
    x = util.need(util.convert(env, 'UTF-8:' + case['enc'], case['text'].encode()))
    y = util.need(util.convert(env, 'ESCAPE,ASCII:UTF-8', x[0]))
    if y[0] != case['text'].encode():
        h = '%06X' % ord(case['text'])
        if x[0] in (b'%u' + h.encode(), b'\\u' + h.encode()) and y[0] == (chr(int(h[:4], 16)) + h[4:]).encode():
            raise Violation('six digits for a character over U+FFFF: %s gives %r, read back as %r' % (case['enc'], x[0], y[0]))
        raise Violation('%s gives %r for %r, read back as %r' % (case['enc'], x[0], case['text'], y[0]))
    return True, 'astral'


# ------------------------------------------------------------------ mixtures

FOLLOW = ['', ',ASCII', ',UTF-8', ',BYTE', ',UTF-8,BYTE', ',ANY#013F']


def mixed_case(s, t):
    return ''.join(c.upper() if s.chance(50) else c.lower() for c in t)


def piece(s):
    """an escape, most often a good one; sometimes cut short, sometimes with a wrong digit"""
    k = s.n(9)
    v = pipes.cp(s) if s.chance(60) else s.n(255)
    if k == 0:
        t = '&#%d;' % (v if s.chance(85) else s.pick([0x10ffff, 0x110000, 99999999999, 2 ** 32 + 65, 0, 2 ** 32]))
        if s.chance(15):
            t = t.replace('#', '#' + '0' * (1 + s.n(8) if s.chance(90) else pipes.big(s, 11, 3)))
    elif k == 1:
        t = '&#x' + mixed_case(s, '%x;' % (v if s.chance(85) else s.pick([0x10ffff, 0x110000, 2 ** 32 + 65, 2 ** 36, 0])))
        if s.chance(15):
            t = t.replace('x', 'x' + '0' * (1 + s.n(8) if s.chance(90) else pipes.big(s, 11, 3)))
    elif k == 2:
        n = s.pick(sorted(ENT))
        t = '&' + (n if s.chance(60) else mixed_case(s, n)) + ';'
    elif k == 3:
        t = '%u' + mixed_case(s, '%04x' % (v & 0xffff))
    elif k == 4:
        t = '\\u' + mixed_case(s, '%04x' % (v & 0xffff))
    elif k == 5:
        t = '%' + mixed_case(s, '%02x' % (v & 0xff))
    elif k == 6:
        t = '\\x' + mixed_case(s, '%02x' % (v & 0xff))
    elif k == 7:
        t = '\\%03o' % (s.n(511))
    elif k == 8:
        t = s.pick(['a', 'Z', '0', '7', ';', '&', '%', '\\', '#', 'u', 'x', 'f', ' ', '\u00e9', '\u6e2c'])
    else:
        return s.pick(pipes.ESCCORPUS + pipes.ENTCORPUS)
    b = t.encode('utf-8', 'surrogatepass')
    m = s.n(19)
    if m < 3:
        b = b[:1 + s.n(len(b) - 1)]
    elif m < 5:
        j = s.n(len(b) - 1)
        b = b[:j] + bytes([s.pick(b'gGuUxX;&%\\ /:@`') if s.chance(80) else s.n(255)]) + b[j + 1:]
    elif m < 6:
        b = b[:-1] + s.pick([b'', b'%', b'\\', b'&'])
    return b


DEC = ['ESCAPE', 'ESCAPE', 'ASCII-NUMERIC-HTML-ENTITY', 'HTMLENTITY', 'NCR', 'ASCII-NAMED-HTML-ENTITY', 'NAMED-HTMLENTITY', 'ESCAPE,NCR', 'NCR,NAMED-HTMLENTITY', 'NAMED-HTMLENTITY,ESCAPE,NCR', 'HEX']


def gen_mix(s, env):
    d = s.pick(DEC)
    if d == 'HEX':
        data = bytes(s.list(lambda q: q.pick(b'0123456789abcdefABCDEFgG ,'), 24))
    else:
        data = b''.join(s.list(piece, 10, 1))
    return {'dec': d + s.pick(FOLLOW), 'data': data}


FIRST = {}
for _n, _v in ENT.items():
    FIRST.setdefault(_n.lower(), []).append(_n)


def d_named(d, i):
    """&eacute; in any letter case the name is not ambiguous in"""
    if d[i:i + 1] != b'&':
        return None
    j = d.find(b';', i + 1)
    if j < 0 or j > i + 12:
        return None
    try:
        n = d[i + 1:j].decode('ascii')
    except UnicodeDecodeError:
        return None
    if n.lower() == 'exists':
        return [u(0x2203)], j + 1
    if n in ENT:
        if ENT[n] in MISSING:
            raise Discard('entity without an entry')
        return [u(ENT[n])], j + 1
    c = [x for x in FIRST.get(n.lower(), ()) if ENT[x] not in MISSING]
    if len({ENT[x] for x in c}) > 1:
        raise Discard('ambiguous name')
    return ([u(ENT[c[0]])], j + 1) if c else None


def d_hex(d, i):
    t = d[i:i + 2]
    return ([bytes([3, int(t, 16)])], i + 2) if len(t) == 2 and all(c in model.HEX for c in t) else None


REF = {'ESCAPE': model.d_escape, 'ASCII-NUMERIC-HTML-ENTITY': model.d_entity, 'HTMLENTITY': model.d_entity, 'NCR': model.d_entity, 'ASCII-NAMED-HTML-ENTITY': d_named, 'NAMED-HTMLENTITY': d_named, 'HEX': d_hex,
       'ASCII': lambda d, i: ([u(d[i])], i + 1) if 0 < d[i] < 0x80 else None, 'BYTE': lambda d, i: ([bytes([3, d[i]])], i + 1), 'ANY#013F': lambda d, i: ([u(0x3f)], i + 1)}


def run_mix(env, case):
    us = []
    for n in case['dec'].split(','):
        us += [REF['ASCII'], model.d_utf8([])] if n == 'UTF-8' else [REF[n]]
    want, err, cnt, used = model.run_list(us, case['data'], True)
    r = Req()
    k = r.create(0, case['dec'] + ':PASS')
    r.init(0)
    f = r.cells(0, [case['data']])
    cs = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s:PASS cannot be created' % case['dec'])
    what = '%s of %r' % (case['dec'], case['data'])
    util.same([x.hex() for x in rep[f] if x], [x.hex() for x in want if x], what)
    util.same(util.clean(rep[cs]), {'IERR': err} if err else {}, what + ': counters')
    return any(REF.get(case['dec'].split(',')[0]) is us[x] for x in used if x >= 0), case['dec'].split(',')[0]


# ------------------------------------------------------------------ every value

def values(env):
    out = []
    for f in ('\\u%04x', '\\u%04X', '%%u%04x', '%%u%04X'):
        out += [{'fmt': f, 'lo': a, 'hi': a + 0x1000, 'dec': 'ESCAPE', 'type': 1} for a in range(0, 0x10000, 0x1000)]
    for f in ('&#x%x;', '&#x%X;', '&#%d;', '&#x%08X;', '&#%012d;'):
        out += [{'fmt': f, 'lo': a, 'hi': a + 0x1000, 'dec': 'NCR', 'type': 1} for a in range(0, 0x110000, 0x1000)]
    for f in ('%%%02x', '%%%02X', '\\x%02x', '\\x%02X', '\\%03o'):
        out += [{'fmt': f, 'lo': 0, 'hi': 256, 'dec': 'ESCAPE', 'type': 3}]
    for f in ('%02x', '%02X'):
        out += [{'fmt': f, 'lo': 0, 'hi': 256, 'dec': 'HEX', 'type': 3}]
    for n in sorted(ENT):
        if ENT[n] not in MISSING:
            out += [{'fmt': '&%s;' % n, 'lo': ENT[n], 'hi': ENT[n] + 1, 'dec': 'NAMED-HTMLENTITY', 'type': 1}]
    return out


def run_values(env, case):
    lo, hi = case['lo'], case['hi']
    esc = [(case['fmt'] % v) if '%' in case['fmt'] else case['fmt'] for v in range(lo, hi)]
    want = [u(v) if case['type'] == 1 else bytes([3, v]) for v in range(lo, hi)]
    r = Req()
    k = r.create(0, case['dec'] + ':PASS')
    r.init(0)
    f = r.cells(0, [''.join(esc).encode()])
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s:PASS cannot be created' % case['dec'])
    got = [x for x in rep[f] if x]
    if got != want:
        j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
        raise Violation('%s reads %s in a row of such escapes as %s' % (case['dec'], esc[j] if j < len(esc) else 'the end', got[j].hex() if j < len(got) else 'nothing'))
    return True, case['dec']


# ------------------------------------------------------------------ what the encoder writes, for any arguments

def gen_enc(s, env):
    n = 1 + s.n(2)
    specs = []
    for _ in range(n):
        k = s.n(9)
        if k < 7:
            specs.append('ESCAPE' + pipes.random_args(s, env, 'to', 'ESCAPE'))
        else:
            specs.append(s.pick(['ASCII', 'URL', 'JAVA', 'HTMLENTITY', 'ASCII-DEC-NUMERIC-HTML-ENTITY', 'ESCAPE']))
    cells = s.list(lambda q: bytes([3, q.n(255)]) if q.chance(35) else u(pipes.cp(q)) if q.chance(90) else q.pick([b'\x02\x41', b'\x04', b'\x01', b'\x03\x41\x42', b'\x1b[m', b'\x00,']), 12, 1)
    return {'to': ','.join(specs), 'cells': cells}


def run_enc(env, case):
    us = [x for p in case['to'].split(',') for x in ([lambda c, i: ([c[i][1:]], i + 1) if len(c[i]) == 2 and c[i][0] == 1 and 0 < c[i][1] < 0x80 else None] if p == 'ASCII' else [model.encoder(env.repo, y) for y in model.expand(env.repo, 'to', p)])]
    want, err, cnt, used = model.run_list(us, case['cells'], True)
    r = Req()
    k = r.create(0, 'PASS:' + case['to'])
    r.init(0)
    f = r.cells(0, case['cells'])
    cs = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('PASS:%s cannot be created' % case['to'])
    what = '%s of %s' % (case['to'], ','.join(x.hex() for x in case['cells']))
    util.same(b''.join(rep[f]), b''.join(want), what)
    util.same(util.clean(rep[cs]), {'OERR': err} if err else {}, what + ': counters')
    return any(x >= 0 for x in used), 'encoder'


# ------------------------------------------------------------------ forms for display: images and links

def gen_links(s, env):
    def one(q):
        k = q.n(9)
        if k < 6:
            c = pipes.cp(q)
            return '01%X' % c if len('%X' % c) % 2 == 0 else '010%X' % c
        if k == 6:
            return '01' + ''.join('%02X' % q.pick([0, 1, 9, 10, 15, 16, 127, 128, 255]) for _ in range(1 + q.n(7)))
        if k == 7:
            return '02' + ''.join('%02X' % q.pick([0, 1, 9, 10, 15, 16, 33, 96, 127, 128, 255]) for _ in range(1 + q.n(3)))
        return q.pick(['03', '041B', '1B', '05', 'FF01', '00', '0341'])
    return {'codec': s.pick(['ASCII-HTML-INFO', 'ASCII-HTML-UNICODE-IMG', 'ascii-html-info']), 'cells': s.list(one, 12, 1)}


def shown(codec, b):
    """what the manual pages show; None: not for this codec"""
    h = '%X' % b[1] + b[2:].hex().upper() if len(b) > 1 else ''
    img = '<img class="unicode_img" src="http://www.unicode.org/cgi-bin/refglyph?24-%s" />' % h
    if codec != 'ASCII-HTML-INFO':
        return img if b[0] == 1 and len(b) <= 5 else None
    if b[0] == 1:
        return '<a href="http://www.fileformat.info/info/unicode/char/%s/index.htm">%s</a>' % (b[1:].hex().upper(), img)
    if b[0] == 2:
        q = 'page=%X&code=%s' % (b[1], b[2:].hex().upper())
        return '<a href="http://www.cns11643.gov.tw/AIDB/query_general_view.do?%s"><img src="http://www.cns11643.gov.tw/AIDB/png.do?%s" /></a>' % (q, q)
    return None


def run_links(env, case):
    cells = [bytes.fromhex(x) for x in case['cells']]
    want = [shown(case['codec'].upper(), b) for b in cells]
    out, cnt = util.convert(env, 'BSDCONV:%s,ANY#7E' % case['codec'], ','.join(case['cells']).encode())
    util.same(out, ''.join('~' if w is None else w for w in want).encode(), '%s of %s' % (case['codec'], case['cells'][:20]))
    out, cnt = util.convert(env, 'BSDCONV:%s' % case['codec'], ','.join(case['cells']).encode())
    util.same(out, ''.join(w or '' for w in want).encode(), '%s of %s' % (case['codec'], case['cells'][:20]))
    util.same(cnt.get(b'OERR', cnt.get('OERR', 0)), sum(w is None for w in want), 'errors of %s' % case['codec'])
    return any(w for w in want), 'all' if all(want) else 'some'


PARTS = [Part('round trips', gen, run, 50000), Part('mixtures', gen_mix, run_mix, 60000), Part('encoders', gen_enc, run_enc, 24000),
         Part('values', None, run_values, 0, exhaustive=values), Part('astral', gen_astral, run_astral, 200), Part('long round trips', scaled(gen, 20, 100), run, 6000),
         Part('long mixtures', scaled(gen_mix, 20, 100), run_mix, 6000),
         Part('links', gen_links, run_links, 8000), Part('long links', scaled(gen_links, 20, 100), run_links, 300)]
