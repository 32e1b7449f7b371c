"""C12: the legacy character sets against independent definitions, and their encoders against their decoders."""
from ..core import Part, Violation, scaled
from ..client import Req
from .. import charsets, pipes, tables, util
from ..charsets import REF, SINGLE, EBCDIC

PROPERTY = 'C12'
RULE = 'exhaustive parts: the block holds at least one sequence or character both sides define; random parts: a text of at least two characters outside ASCII'
ASSUMPTIONS = ['Python\'s codecs and the C library\'s iconv are the standard; the differing variants of single characters (pbt/data/charsets.json) are taken from the shipped tables as they are',
               'charsets neither knows are only checked against themselves']
SO, SI = b'\x0e', b'\x0f'


def key(s):
    return int.from_bytes(s, 'big') | len(s) << 32


def wrap(name, s):
    return s if name not in EBCDIC or len(s) == 1 else SO + s + SI


def decode_all(env, name, seqs):
    """-> for each sequence its text, or None if it is in error or gives no characters"""
    r = Req()
    k = r.create(0, name + ':PASS')
    ix = []
    for s in seqs:
        r.init(0)
        f = r.cells(0, [wrap(name, s)])
        ix.append((f, r.errs(0)))
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('decoder %s cannot be created' % name)
    out, last = [], 0
    for f, e in ix:
        c = rep[f]
        bad, last = rep[e][0] != last, rep[e][0]
        if bad or not c or any(x[:1] != b'\1' or len(x) < 2 for x in c):
            out.append(None)
        else:
            out.append(''.join(map(char, c)))
    return out


def char(x):
    v = int.from_bytes(x[1:], 'big')
    return chr(v) if v < 0x110000 else '\ufffd'


def encode_all(env, name, chars):
    r = Req()
    k = r.create(0, 'PASS:' + name)
    ix = []
    for c in chars:
        r.init(0)
        f = r.cells(0, [tables.u(ord(c))])
        ix.append((f, r.errs(0)))
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('encoder %s cannot be created' % name)
    out, last = [], 0
    for f, e in ix:
        b = b''.join(rep[f])
        out.append(None if rep[e][1] != last or not b else b)
        last = rep[e][1]
    return out


def names(env, kind):
    return [n for n in pipes.registry(env.repo)[kind] if n in REF]


def leads(env):
    out = []
    for n in names(env, 'from'):
        out += [{'codec': n, 'lead': a} for a in range(256)] if n not in SINGLE else [{'codec': n, 'lead': None}]
    return out


def sequences(case):
    a = case['lead']
    if a is None:
        return [bytes([b]) for b in range(256)]
    return [bytes([a])] + [bytes([a, b]) for b in range(256)]


def run_decode(env, case):
    n = case['codec']
    seqs = sequences(case)
    return compare_decode(env, n, seqs, charsets.data().get('from/' + n, {})), n


def compare_decode(env, n, seqs, d):
    ref, miss, diff, exact = REF[n], d.get('missing', ()), d.get('diff', {}), d.get('exact')
    got = decode_all(env, n, seqs)
    both = 0
    for s, g in zip(seqs, got):
        w = ref.dec(s)
        k = key(s)
        if k in miss:
            continue
        h = s.hex()
        if h in diff:
            w = diff[h]
        elif w is None and not exact:
            continue
        elif w is not None and len(s) == 2 and ref.dec(s[:1]) is not None and n not in EBCDIC:
            continue
        if w == '\0' and g is None:
            continue
        if g != w:
            raise Violation('%s decodes %s to %s, should be %s' % (n, h, ascii(g), ascii(w)))
        both += w is not None
    return both > 0


def four(env):
    return [{'b1': a, 'b2': b} for a in range(0x81, 0xff) for b in range(0x30, 0x3a)]


def run_four(env, case):
    seqs = [bytes([case['b1'], case['b2'], c, d]) for c in range(0x81, 0xff) for d in range(0x30, 0x3a)]
    n = '_GB18030'
    got = decode_all(env, n, seqs)
    ref = REF[n]
    some = False
    for s, g in zip(seqs, got):
        w = ref.dec(s)
        some |= w is not None
        if g != w:
            raise Violation('%s decodes %s to %s, should be %s' % (n, s.hex(), ascii(g), ascii(w)))
    return some, n


BLOCK = 2048


def blocks(env):
    return [{'codec': n, 'at': a} for n in names(env, 'to') for a in range(0, 0x110000 if n == '_GB18030' else 0x30000, BLOCK) if not 0xd800 <= a < 0xe000]


def run_encode(env, case):
    n = case['codec']
    chars = [chr(c) for c in range(case['at'], case['at'] + BLOCK)]
    return compare_encode(env, n, chars, charsets.data().get('to/' + n, {})), n


def compare_encode(env, n, chars, d):
    ref, miss, diff, exact, lost = REF[n], d.get('missing', ()), d.get('diff', {}), d.get('exact'), d.get('lost')
    got = encode_all(env, n, chars)
    both = 0
    back = []
    for c, g in zip(chars, got):
        w = ref.enc(c)
        if g is not None:
            back.append((c, g))
        if ord(c) in miss:
            continue
        h = '%X' % ord(c)
        if h in diff:
            w = bytes.fromhex(diff[h])
        elif w is None and not exact:
            continue
        elif n in EBCDIC and w is not None and w.startswith(SO):
            # whether SI follows at the end of the text is not the charset's business
            w, g = w.rstrip(SI), g and g.rstrip(SI)
        if g != w:
            raise Violation('%s encodes U+%s as %s, should be %s' % (n, h, g and g.hex(), w and w.hex()))
        both += w is not None
    one = d.get('oneway', ())
    if n in pipes.registry(env.repo)['from']:
        txt = decode_raw(env, n, [b for c, b in back])
        for (c, b), t in zip(back, txt):
            if ord(c) not in one and t != c:
                raise Violation('%s encodes U+%X as %s and decodes that to %s' % (n, ord(c), b.hex(), ascii(t)))
    return both > 0


def decode_raw(env, name, bs):
    r = Req()
    r.create(0, name + ':PASS')
    ix = []
    for s in bs:
        r.init(0)
        f = r.cells(0, [s])
        ix.append((f, r.errs(0)))
    rep = env.call(r)
    out, last = [], 0
    for f, e in ix:
        out.append(None if rep[e][0] != last else ''.join(map(char, rep[f])))
        last = rep[e][0]
    return out


# ---- every charset against itself: decode, encode, decode again

SELF = ['_UAO241', '_UAO250', 'CCCII', '_GBK', '_GB2312', '_GB18030', '_CP936', '_CP949', '_CP950', '_SHIFT-JIS', '_JIS0212', 'BIG5-5C', 'IBM-37', '_CP874', '_CP1251', '_CP1252', '_CP1253', '_ISO-8859-1'] + EBCDIC
STEP = 1000


def self_chunks(env):
    out = []
    for n in SELF:
        if all(n in pipes.registry(env.repo)[k] for k in ('from', 'to')):
            out += [{'codec': n, 'at': i} for i in range(0, len(keys(env, n)), STEP)]
    return out


def keys(env, n):
    k = ('c12', env.repo, n)
    if k not in tables._cache:
        tables._cache[k] = sorted({bytes(e.key) for e in tables.table(env.repo, 'from', n) if all(0 <= t < 256 for t in e.key)} - {SO, SI})
    return tables._cache[k]


def run_self(env, case):
    n = case['codec']
    ks = keys(env, n)[case['at']:case['at'] + STEP]
    lost = charsets.data().get('self/' + n, {}).get('lost', ())
    got = decode_all(env, n, ks)
    todo = [(k, t) for k, t in zip(ks, got) if t is not None and len(t) == 1]
    enc = encode_all(env, n, [t for k, t in todo])
    back = decode_raw(env, n, [e or b'' for e in enc])
    some = False
    for (k, t), e, b in zip(todo, enc, back):
        if ord(t) in lost:
            continue
        some = True
        if e is None:
            raise Violation('%s decodes %s to U+%X and cannot encode that' % (n, k.hex(), ord(t)))
        if b != t:
            raise Violation('%s decodes %s to U+%X, encodes it as %s and decodes that to %s' % (n, k.hex(), ord(t), e.hex(), ascii(b)))
    return some, n


# ---- user defined area of CP950

def uda(a):
    """sequence -> private use character, by the published formula"""
    h, l = a
    if not (0x40 <= l <= 0x7e or 0xa1 <= l <= 0xfe):
        return None
    c = l - 0x40 if l < 0x7f else l - 0x62
    for first, last, base, skip in ((0xfa, 0xfe, 0xe000, 0), (0x8e, 0xa0, 0xe311, 0), (0x81, 0x8d, 0xeeb8, 0), (0xc6, 0xc8, 0xf6b1, 63)):
        if first <= h <= last:
            v = (h - first) * 157 + c - skip
            return chr(base + v) if v >= 0 else None
    return None


def uda_cases(env):
    return [{'lead': a} for a in range(256)]


def run_uda(env, case):
    seqs = [bytes([case['lead'], b]) for b in range(256)]
    got = decode_all(env, 'CP950-UDA', seqs)
    some = False
    for s, g in zip(seqs, got):
        w = uda(s)
        some |= w is not None
        if g != w:
            raise Violation('CP950-UDA decodes %s to %s, should be %s' % (s.hex(), ascii(g), ascii(w)))
    return some, 'uda'


# ---- texts through the full charsets

FULL = {'ISO-8859-1': 'latin-1', 'LATIN1': 'latin-1', 'CP1251': 'cp1251', 'CP1252': 'cp1252', 'CP1253': 'cp1253', 'CP874': 'cp874', 'CP936': 'gbk', 'CP949': 'cp949', 'CP950': 'cp950', 'GBK': 'gbk',
        'GB18030': 'gb18030', 'SHIFT-JIS': 'shift_jis', 'IBM-37': 'cp037', 'CP1254': 'cp1254', 'CP1255': 'cp1255', 'CP1256': 'cp1256', 'CP1257': 'cp1257', 'CP1258': 'cp1258', 'CP932': 'cp932'}
SPECIAL = {'SHIFT-JIS': '\\~\xa5\u203e\uff3c', 'CP950': '\u203e\u2550\u255e\u2561\u256a\u223c\u2027', 'CP1253': '', 'CP936': '\u20ac', 'GBK': ''}


def repertoire(env, name):
    k = ('c12rep', name)
    if k not in tables._cache:
        enc = FULL[name]
        base = {'LATIN1': 'ISO-8859-1'}.get(name, name)
        bad = set(SPECIAL.get(name, ''))
        for kind in ('from', 'to'):
            d = charsets.data().get('%s/_%s' % (kind, base), {})
            if kind == 'to':
                bad |= {chr(c) for c in d.get('missing', ()) if c > 127} | {chr(int(c, 16)) for c in d.get('diff', {})} | {chr(c) for c in d.get('oneway', ())}
            else:
                bad |= set(''.join(d.get('diff', {}).values()))
                for m in d.get('missing', ()):
                    t = REF['_' + base].dec((m & 0xffffffff).to_bytes(m >> 32, 'big'))
                    bad |= {x for x in t or '' if ord(x) > 127}
        rep = []
        for c in range(0xa0, 0x110000 if name == 'GB18030' else 0x10000):
            if not 0xd800 <= c < 0xe000 and (c < 0x10000 or c % 61 == 0):
                ch = chr(c)
                try:
                    b = ch.encode(enc)
                except UnicodeEncodeError:
                    continue
                if ch not in bad and b.decode(enc) == ch:
                    rep.append(ch)
        tables._cache[k] = rep
    return tables._cache[k]


def gen_text(s, env):
    name = s.pick(sorted(FULL))
    rep = repertoire(env, name)
    lo = s.n(len(rep) - 1)

    def one(q):
        m = q.n(9)
        if m < 3:
            return chr(q.rng_int(0x20, 0x7d)).replace('\\', 'a')
        if m < 6:
            return rep[min(len(rep) - 1, lo + q.n(60))]
        return q.pick(rep)
    t = ''.join(s.list(one, 30, 1))
    b = t.encode(FULL[name])
    return {'name': name, 'text': t, 'cut': sorted({s.n(len(b)) for _ in range(s.n(4))})}


def pieces(b, cut):
    out, p = [], 0
    for c in cut + [len(b)]:
        out.append(b[p:c])
        p = c
    return out


def run_text(env, case):
    name, t = case['name'], case['text']
    b = t.encode(FULL[name])
    r = Req()
    k1 = r.create(0, name + ':UTF-8')
    r.init(0)
    ix = util.feed_all(r, 0, pieces(b, case['cut']))
    c1 = r.errs(0)
    k2 = r.create(1, 'UTF-8:' + name) if name in TO_NAMES else None
    if k2 is not None:
        r.init(1)
        ix2 = util.feed_all(r, 1, pieces(t.encode(), case['cut']))
        c2 = r.errs(1)
    rep = env.call(r)
    if not rep[k1][0]:
        raise Violation('%s cannot be created' % name)
    o = b''.join(rep[i][2] for i in ix)
    if o != t.encode() or any(rep[c1]):
        raise Violation('%s reads %s as %s with errors %s, should be %s' % (name, b.hex(), ascii(o.decode('utf-8', 'replace')), rep[c1], ascii(t)))
    if k2 is not None:
        if not rep[k2][0]:
            raise Violation('UTF-8:%s cannot be created' % name)
        o = b''.join(rep[i][2] for i in ix2)
        if o != b or any(rep[c2]):
            raise Violation('%s writes %s as %s with errors %s, should be %s' % (name, ascii(t), o.hex(), rep[c2], b.hex()))
    return sum(ord(c) > 127 for c in t) >= 2, name


TO_NAMES = {'ISO-8859-1', 'CP1251', 'CP1252', 'CP1253', 'CP874', 'CP936', 'CP949', 'CP950', 'GBK', 'GB18030', 'SHIFT-JIS', 'IBM-37'}


# ---- stateful charsets: texts that mix single and double byte runs

def ebcdic_rep(env, n):
    k = ('c12ebc', n)
    if k not in tables._cache:
        d = charsets.data().get('to/' + n, {})
        f = charsets.data().get('from/' + n, {})
        bad = set(d.get('missing', ())) | {int(c, 16) for c in d.get('diff', {})} | set(d.get('oneway', ())) | {ord(x) for x in ''.join(f.get('diff', {}).values())}
        one, two = [], []
        for c in range(1, 0x10000):
            if 0xd800 <= c < 0xe000 or c in bad:
                continue
            b = REF[n].enc(chr(c))
            if b and REF[n].text(b) == chr(c):
                (one if len(b) == 1 else two).append(chr(c))
        tables._cache[k] = (one, two)
    return tables._cache[k]


def gen_ebcdic(s, env):
    n = s.pick(EBCDIC)
    one, two = ebcdic_rep(env, n)

    def run(q):
        rep = two if q.chance(50) else one
        return ''.join(q.list(lambda z: z.pick(rep), 6, 1))
    t = ''.join(s.list(run, 8, 1))
    return {'name': n, 'text': t, 'cut': [s.n(200) for _ in range(s.n(4))]}


def run_ebcdic(env, case):
    n, t = case['name'], case['text']
    b = REF[n].go(1, t.encode('utf-32be'))
    r = Req()
    k = r.create(0, n + ':PASS')
    r.init(0)
    cut = sorted({c % (len(b) + 1) for c in case['cut']})
    ps = pieces(b, cut)
    ix = [r.cells(0, [p], flush=i == len(ps) - 1) for i, p in enumerate(ps)]
    e = r.errs(0)
    k2 = r.create(1, 'PASS:' + n)
    r.init(1)
    f2 = r.cells(1, [tables.u(ord(c)) for c in t])
    e2 = r.errs(1)
    rep = env.call(r)
    if not rep[k][0] or not rep[k2][0]:
        raise Violation('%s cannot be created' % n)
    got = ''.join(char(c) for i in ix for c in rep[i])
    if got != t or any(rep[e]):
        raise Violation('%s reads %s as %s with errors %s, should be %s' % (n, b.hex(), ascii(got), rep[e], ascii(t)))
    o = b''.join(rep[f2])
    back = REF[n].text(o)
    if back != t or any(rep[e2]):
        raise Violation('%s writes %s as %s, which iconv reads as %s' % (n, ascii(t), o.hex(), ascii(back)))
    return sum(ord(c) > 255 for c in t) >= 2, n


# ---- GB2312 under its full name

def run_gb2312(env, case):
    t = case['text']
    out = util.need(util.convert(env, 'UTF-8:GB2312', t.encode()))
    back = util.need(util.convert(env, 'GB2312:UTF-8', out[0]))
    if back[0] != t.encode():
        raise Violation('GB2312 reads what it wrote for %s (%s) as %s' % (ascii(t), out[0].hex(), ascii(back[0].decode('utf-8', 'replace'))))
    return True, 'gb2312'


# ---- ISO-2022-JP and its extensions

def jis_rep():
    k = 'c12jis'
    if k not in tables._cache:
        out = {'0208': [], '0212': []}
        for n, r in (('0208', REF['_JIS0208']), ('0212', REF['_JIS0212'])):
            for c in range(0xa0, 0x10000):
                if 0xd800 <= c < 0xe000 or c == 0xff3c:
                    continue
                b = r.enc(chr(c))
                if b and r.dec(b) == chr(c):
                    out[n].append((b, chr(c)))
        out['kana'] = [(bytes([b]), chr(0xff40 + b)) for b in range(0x21, 0x60)]
        out['ascii'] = [(bytes([b]), chr(b)) for b in range(0x20, 0x7f)] + [(b'\n', '\n')]
        out['roman'] = [(bytes([b]), {0x5c: '\xa5', 0x7e: '\u203e'}.get(b, chr(b))) for b in range(0x20, 0x7f)] + [(b'\\', '\xa5'), (b'~', '\u203e'), (b'\n', '\n')]
        tables._cache[k] = out
    return tables._cache[k]


ESC = {'ascii': ['1b2842'], 'roman': ['1b284a'], 'kana': ['1b2849'], '0208': ['1b2442', '1b2440'], '0212': ['1b242844']}


def gen_jis(s, env):
    rep = jis_rep()

    def run(q):
        m = q.pick(sorted(ESC))
        return [m, q.n(1), q.list(lambda z: z.n(len(rep[m]) - 1), 6, 1)]
    return {'runs': s.list(run, 8, 1), 'cut': [s.n(200) for _ in range(s.n(4))]}


def run_jis(env, case):
    rep = jis_rep()
    b, t = b'', ''
    for m, e, ix in case['runs']:
        b += bytes.fromhex(ESC[m][e % len(ESC[m])])
        for i in ix:
            x = rep[m][i % len(rep[m])]
            b, t = b + x[0], t + x[1]
    r = Req()
    k = r.create(0, 'JIS:UTF-8')
    r.init(0)
    ix = util.feed_all(r, 0, pieces(b, sorted({c % (len(b) + 1) for c in case['cut']})))
    e = r.errs(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('JIS cannot be created')
    o = b''.join(rep[i][2] for i in ix)
    if o != t.encode() or any(rep[e]):
        raise Violation('JIS reads %s as %s with errors %s, should be %s' % (b.hex(), ascii(o.decode('utf-8', 'replace')), rep[e], ascii(t)))
    return sum(ord(c) > 127 for c in t) >= 2, [m for m in {x[0] for x in case['runs']}]


PARTS = [Part('decode', None, run_decode, 0, exhaustive=leads),
         Part('decode-four', None, run_four, 0, exhaustive=four),
         Part('encode', None, run_encode, 0, exhaustive=blocks),
         Part('itself', None, run_self, 0, exhaustive=self_chunks),
         Part('uda', None, run_uda, 0, exhaustive=uda_cases),
         Part('gb2312', None, run_gb2312, 0, exhaustive=lambda env: [{'text': '\u4e2d'}, {'text': 'plain ASCII'}]),
         Part('texts', gen_text, run_text, 120000),
         Part('shift-texts', gen_ebcdic, run_ebcdic, 60000),
         Part('jis-texts', gen_jis, run_jis, 60000),
         Part('long texts', scaled(gen_text, 20, 100), run_text, 2000), Part('long shifted texts', scaled(gen_ebcdic, 20, 60), run_ebcdic, 1000)]
