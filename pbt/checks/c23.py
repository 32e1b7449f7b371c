"""C23: case, width and line-ending transformations against Python's Unicode tables."""
import bisect, json, os, re, unicodedata
from ..core import Part, Violation, scaled
from ..client import Req
from .. import pipes, util

PROPERTY = 'C23'
RULE = 'non-trivial: the text is changed by the stage; the exhaustive part covers every code point in every stage'
ASSUMPTIONS = ['Python\'s str methods and unicodedata are the standard; code points not assigned in Unicode 13 (the version of the shipped tables) are left out of the case stages',
               'upper- and lower-casing use the simple mapping where there is one and the unconditional special casing where there is none',
               'full- and half-width forms are the <wide> and <narrow> decompositions, with the spacing sound marks U+309B and U+309C for U+FF9E and U+FF9F']
HERE = os.path.dirname(os.path.abspath(__file__))
_t = {}


def present13(c):
    if 'p' not in _t:
        rs = json.load(open(os.path.join(HERE, '..', 'data', 'unicode.json')))['present13']
        _t['p'] = ([r[0] for r in rs], [r[1] for r in rs])
    a, b = _t['p']
    i = bisect.bisect_right(a, ord(c)) - 1
    return i >= 0 and ord(c) <= b[i]


def upper(t):
    return ''.join(u if len(u) == 1 or len(c.title()) != 1 or c.title() == c else c.title() for c in t for u in (c.upper(),))


def lower(t):
    # str.lower on the whole text would apply the rule for the final sigma
    return ''.join('i' if c == '\u0130' else c.lower() for c in t)


def fold(t):
    return ''.join(c.casefold() for c in t)


def widths():
    if 'w' not in _t:
        full, half = {}, {}
        for c in map(chr, range(0x110000)):
            d = unicodedata.decomposition(c).split()
            if d and d[0] in ('<wide>', '<narrow>'):
                o = {'\uff9e': '\u309b', '\uff9f': '\u309c'}.get(c) or chr(int(d[1], 16))
                w, n = (c, o) if d[0] == '<wide>' else (o, c)
                full[n], half[w] = w, n
        _t['w'] = full, half
    return _t['w']


def full(t):
    return ''.join(widths()[0].get(c, c) for c in t)


def half(t):
    return ''.join(widths()[1].get(c, c) for c in t)


def newline(n):
    return lambda t: re.sub('\r\n|\r|\n', n, t)


STAGES = {'UPPER': upper, 'LOWER': lower, 'CASEFOLD': fold, 'FULL': full, 'HALF': half, 'UNIX': newline('\n'), 'MAC': newline('\r'), 'WIN': newline('\r\n'), 'NL2BR': newline('<br />')}
CASE = ('UPPER', 'LOWER', 'CASEFOLD')
# (upper-casing is not: the small letters with iota have a simple mapping to title-case letters, which have none)
IDEMPOTENT = ('LOWER', 'CASEFOLD', 'FULL', 'HALF', 'UNIX', 'MAC', 'WIN')


# ------------------------------------------------------------------ every character

STEP = 0x1000


def blocks(env):
    return [{'stage': n, 'from': a, 'twice': k} for n in STAGES for a in range(0, 0x110000, STEP) if a != 0xd000 + STEP * 16 for k in ([0, 1] if n in IDEMPOTENT and a < 0x20000 else [0])]


def run_block(env, case):
    n = case['stage']
    cs = [chr(c) for c in range(case['from'], case['from'] + STEP) if not 0xd800 <= c < 0xe000 and c]
    if n in CASE:
        cs = [c for c in cs if present13(c)]
    if not cs:
        return False, n
    sep = '\ue123'
    st = n + ':' + n if case['twice'] else n
    x = util.convert(env, 'UTF-32LE:%s:UTF-32LE' % st, (sep.join(cs)).encode('utf-32le'))
    got = x[0].decode('utf-32le', 'replace').split(sep) if x else []
    if '\ue123' in cs:
        cs.remove('\ue123')
        got = [g for g in got if g]
    f = STAGES[n]
    if len(got) != len(cs):
        raise Violation('%s of U+%04X..: %d results for %d characters' % (st, case['from'], len(got), len(cs)))
    for c, g in zip(cs, got):
        if g != f(c):
            raise Violation('%s of U+%04X: %r instead of %r' % (st, ord(c), g, f(c)))
    return True, n


def gen_block(s, env):
    return {'stage': s.pick(sorted(STAGES)), 'from': STEP * s.n(0x10f), 'twice': 0}


# ------------------------------------------------------------------ texts

CODES = [('UTF-8', 'utf-8'), ('UTF-16LE', 'utf-16-le'), ('UTF-32BE', 'utf-32-be'), ('UTF-16BE', 'utf-16-be')]
KEYS = ['\u0130', '\u0131', 'i\u0307', '\u00df', '\u1e9e', '\ufb03', '\u03a3', '\u03c3', '\u03c2', '\u0149', '\u01c5', '\u01c4', '\u01c6', '\u1f80', '\u1f88', '\u0345', '\u03b1\u0345', '\u0390', '\u1fb3', '\u212a', '\u2126', '\u212b', '\u24d0', '\u24b6', '\u2160', '\u2170', '\u10d0', '\u1c90', '\u13a0', '\uab70', '\U00010400', '\U00010428', '\U0001e900', '\u0587',
        '\r\n', '\r', '\n', '\n\r', '\r\r\n', '\r\n\n', '\u0085', '\u2028', '\x0b', '\x0c', '\u3000', '\uff01', '\uff5e', '~', ' ', '\uff71', '\u30a2', '\uff9e', '\uff76\uff9e', '\uffa1', '\u3131', '\uffe0', '\u00a2', '\uffe8', '\u2502', '\u20a9', '\uffe6', '\u2985', '\uff5f']
MIX = [(6, 'alnum'), (3, 'nl'), (3, 'full'), (2, 'greek'), (2, 'latinx'), (2, 'cyr'), (1, 'ascii'), (1, 'latin1'), (1, 'kana'), (1, 'cjk'), (1, 'astral'), (1, 'punct'), (1, 'ctl'), (1, 'bmp')]


def gen_text(s, env):
    n = 1 + s.weighted([(5, 0), (3, 1), (1, 2)])
    t = ''.join(s.list(lambda q: q.weighted([(3, None), (2, 1)]) and q.pick(KEYS) or chr(pipes.cp(q, MIX)), 24))
    junk = s.chance(15)
    e = 0 if junk else s.n(3)
    st = [s.pick(sorted(STAGES)) for _ in range(n)]
    data = t.encode(CODES[e][1], 'surrogatepass')
    k = [bytes([0x80 + s.n(0x3f)]) for _ in range(1 + s.n(2))] if junk else []
    return {'stages': st, 'text': t, 'code': e, 'junk': k, 'pieces': [len(p) for p in pipes.split(s, data)]}


def run_text(env, case):
    """the text, and (junk) bytes that are no UTF-8 between copies of it, which stages leave alone and do not look across"""
    code, py = CODES[case['code']]
    t = ''.join(c for c in case['text'] if c != '\0' and not 0xd800 <= ord(c) < 0xe000 and present13(c))
    st = case['stages']
    w = t
    for n in st:
        w = STAGES[n](w)
    d, want = t.encode(py), w.encode(py)
    conv = ':'.join(['%s' % code] + st + [code])
    if case['junk']:
        conv = ':'.join(['UTF-8,BYTE'] + st + ['UTF-8,BYTE'])
        d, want = d + b''.join(j + d for j in case['junk']), want + b''.join(j + want for j in case['junk'])
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    ix, p = [], 0
    for ln in case['pieces'] + [len(d)]:
        ix.append(r.feed(0, d[p:p + ln]))
        p += ln
    ix.append(r.feed(0, b'', flush=True))
    c = r.counters(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % conv)
    got = b''.join(rep[i][2] for i in ix)
    util.same(got, want, '%s of %r' % (conv, d))
    util.same(util.clean(rep[c]), {}, '%s of %r: counters' % (conv, d))
    return w != t, [st[0]] + (['cut'] if len(case['pieces']) > 1 else []) + (['bytes between'] if case['junk'] else [])


# ------------------------------------------------------------------ ASCII there and back

def gen_ascii(s, env):
    t = ''.join(s.list(lambda q: chr(0x20 + q.n(0x5e)), 40))
    return {'text': t, 'way': s.n(3)}


def run_ascii(env, case):
    t = case['text']
    way = case['way']
    st, a = [('FULL:HALF', t), ('HALF:FULL', full(t)), ('WIN:UNIX', t + '\n' + t), ('MAC:WIN:UNIX', t + '\n\n' + t)][way]
    x = util.convert(env, 'UTF-8:%s:UTF-8' % st, a.encode())
    util.same(x[0].decode('utf-8', 'replace'), a, '%s of %r' % (st, a))
    if way == 0:
        y = util.convert(env, 'UTF-8:FULL:UTF-8', a.encode())[0].decode('utf-8', 'replace')
        if len(y) != len(a) or any(0x20 <= ord(c) < 0x7f for c in y):
            raise Violation('FULL of %r leaves ASCII: %r' % (a, y))
    return bool(t), st


PARTS = [Part('characters', gen_block, run_block, 0, 0, exhaustive=blocks), Part('texts', gen_text, run_text, 200000), Part('there and back', gen_ascii, run_ascii, 20000), Part('long texts', scaled(gen_text, 20, 100), run_text, 8000)]
