"""Generators of conversions and of inputs that reach deep into them."""
import os
from . import build as _build, tables
from .tables import u

# ------------------------------------------------------------------ texts

def _r(a, b):
    return (a, b)

CLASSES = {
    'ascii': [_r(0x20, 0x7e)],
    'alnum': [_r(0x30, 0x39), _r(0x41, 0x5a), _r(0x61, 0x7a)],
    'ctl': [_r(0x00, 0x1f), _r(0x7f, 0x7f)],
    'ws': [_r(0x20, 0x20), _r(9, 0xd), _r(0xa0, 0xa0), _r(0x2000, 0x200b), _r(0x3000, 0x3000), _r(0x85, 0x85), _r(0x2028, 0x2029), _r(0x1680, 0x1680), _r(0x205f, 0x2060), _r(0xfeff, 0xfeff)],
    'nl': [_r(0xa, 0xa), _r(0xd, 0xd)],
    'latin1': [_r(0x80, 0xff)],
    'latinx': [_r(0x100, 0x24f), _r(0x1e00, 0x1eff)],
    'greek': [_r(0x370, 0x3ff), _r(0x1f00, 0x1fff)],
    'cyr': [_r(0x400, 0x52f)],
    'heb': [_r(0x590, 0x6ff)],
    'comb': [_r(0x300, 0x36f), _r(0x591, 0x5bd), _r(0x610, 0x61a), _r(0x64b, 0x65f), _r(0x20d0, 0x20f0), _r(0x302a, 0x302f), _r(0x3099, 0x309a), _r(0xfe20, 0xfe2f), _r(0x1d165, 0x1d172)],
    'indic': [_r(0x900, 0xdff)],
    'jamo': [_r(0x1100, 0x1112), _r(0x1161, 0x1175), _r(0x11a7, 0x11c2), _r(0x1113, 0x11ff)],
    'hangul': [_r(0xac00, 0xd7a3)],
    'kana': [_r(0x3041, 0x30ff), _r(0x31f0, 0x31ff)],
    'cjk': [_r(0x4e00, 0x9fa5)],
    'cjkx': [_r(0x3400, 0x4db5), _r(0xf900, 0xfaff), _r(0x20000, 0x2a6d6), _r(0x2f800, 0x2fa1d)],
    'punct': [_r(0x2010, 0x206f), _r(0x3000, 0x303f), _r(0x2100, 0x214f), _r(0x2190, 0x21ff), _r(0x2500, 0x25ff)],
    'full': [_r(0xff01, 0xffee)],
    'pua': [_r(0xe000, 0xf8ff), _r(0xf0000, 0xffffd)],
    'emoji': [_r(0x1f300, 0x1f64f), _r(0x1f1e6, 0x1f1ff), _r(0x2600, 0x27bf)],
    'astral': [_r(0x10000, 0x10ffff)],
    'bmp': [_r(0x80, 0xd7ff), _r(0xe000, 0xffff)],
    'edge': [_r(0, 1), _r(0x7f, 0x80), _r(0xff, 0x100), _r(0x7ff, 0x800), _r(0xd7ff, 0xd7ff), _r(0xe000, 0xe000), _r(0xfffd, 0x10000), _r(0x10fffe, 0x10ffff)],
    'surr': [_r(0xd800, 0xdfff)],
}
TEXTMIX = [(6, 'alnum'), (4, 'ascii'), (2, 'nl'), (2, 'ws'), (2, 'cjk'), (1, 'latin1'), (1, 'latinx'), (1, 'greek'), (1, 'cyr'), (1, 'comb'), (1, 'jamo'), (1, 'hangul'),
           (1, 'kana'), (1, 'cjkx'), (1, 'punct'), (1, 'full'), (1, 'pua'), (1, 'emoji'), (1, 'astral'), (1, 'bmp'), (1, 'edge'), (1, 'ctl'), (1, 'indic'), (1, 'heb')]


def cp_in(s, name):
    rs = CLASSES[name]
    r = s.pick(rs)
    return r[0] + s.n(r[1] - r[0])


def cp(s, mix=TEXTMIX):
    return cp_in(s, s.weighted(mix))


def text(s, hi=20, mix=TEXTMIX, env=None, snippets=()):
    """string: mostly runs from one or two classes, sometimes multi-character table keys"""
    mode = s.n(9)
    if mode < 4:
        pal = [s.weighted(mix) for _ in range(1 + s.n(2))]
        f = lambda q: chr(cp_in(q, q.pick(pal)))
    elif mode < 6 and snippets:
        keys = snippets

        def f(q):
            if q.chance(1, 3):
                return chr(cp(q, mix))
            k = q.pick(keys)
            if q.chance(1, 6):
                k = k[:1 + q.n(len(k))]
            return k
    else:
        f = lambda q: chr(cp(q, mix))
    return ''.join(s.list(f, hi))


def to_utf8(t):
    return t.encode('utf-8', 'surrogatepass')


# ------------------------------------------------------------------ registry

def registry(repo):
    key = ('registry', repo)
    if key in tables._cache:
        return tables._cache[key]
    codecs, filters, scorers = _build.todo(repo)
    reg = {'from': [], 'inter': [], 'to': [], 'filter': filters, 'scorer': scorers}
    for c in codecs:
        k, n = c.split('/')
        reg[k].append(n)
    reg['alias'] = {}
    for k in ('from', 'inter', 'to', 'filter'):
        p = os.path.join(repo, 'modules', k, 'alias')
        al = {}
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                a, b = line.split()[:2]
                al.setdefault(a, b)
        reg['alias'][k] = al
    tables._cache[key] = reg
    return reg


HEXVALS = ['013F', '01FFFD', '0161.0162', '3F', '010A', '002C', '014E00', '0120', '03FF', '0141']

FROM_ARGS = {
    'ANY': ['#013F', '#013F&ERROR', '#DROP', '#013F.012F', '#013F&ERROR=E1', '#DROP&ERROR'],
    '_UTF-8': ['', '#CESU', '#LOOSE', '#NUL&OVERLONG', '#OVERLONG', '#SUPER', '#CESU&LOOSE', '#CESU&LOOSE&NUL&OVERLONG&SUPER'],
    'PASS': ['', '#UNMARK', '#FOR=UNICODE', '#UNMARK&FOR=BYTE'],
}
INTER_ARGS = {
    'INSERT': ['#AFTER=002C', '#BEFORE=0161', '#AFTER=0161.0162&BEFORE=013C'],
    'REPLACE': ['#01FEFF', '#0161', '#0161=0162', '#0161.0162=0163', '#0161.0161.0162=0178.0179', '#014E00=', '#0161=0162&0162=0161'],
    'PASS': ['', '#LIMIT=3', '#LIMIT=0', '#FOR=UNICODE', '#FOR=BYTE&LIMIT=2', '#FOR=CJK'],
    'COUNT': ['', '#FOR=CJK', '#FOR=ANSI', '#FOR=BYTE', '#FOR=CJK&N', '#N'],
    'STRINGS': ['', '#MIN-LEN=1', '#MIN-LEN=3', '#FOR=CJK', '#FOR=LATIN&MIN-LEN=2', '#MIN-LEN=2&AFTER=013B.010A', '#BEFORE=0128&AFTER=0129'],
    'TRIM-WIDTH': ['#0', '#1', '#5', '#8&AMBI-AS-WIDE', '#3&AMBIGUOUS-AS-WIDE'],
    'SCORE': ['#WITH=CJK', '#WITH=LATIN1', '#WITH=CJK&AS=SC'],
}
TO_ARGS = {
    'ANY': ['#3F', '#3F&ERROR', '#DROP', '#3F.2F', '#3F&ERROR=E2'],
    'PASS': ['', '#MARK', '#MARK&FOR=UNICODE', '#FOR=BYTE', '#MARK&FOR=ANSI'],
    'ESCAPE': ['#FOR=UNICODE&MODE=16&PREFIX=2575', '#FOR=BYTE&MODE=16&PREFIX=25', '#FOR=UNICODE&MODE=10&PREFIX=2623&SUFFIX=3B', '#FOR=BYTE&MODE=8&PREFIX=5C', '#MODE=16', '#MODE=10&PREFIX=5B&SUFFIX=5D'],
    '_UTF-8': ['', '#CESU', '#LOOSE', '#SUPER', '#CESU&LOOSE'],
}
# need an environment (files) or write to the process's own stdout/stderr; exercised by dedicated cases
ENVDEP = {'BSDCONV-LOG', 'BSDCONV-OUTPUT', 'SCORE-TRAIN'}


FILTERS = ['UNICODE', 'BYTE', 'CJK', 'ANSI', 'ASCII', 'LATIN', 'LATIN1', 'PRINT', 'ENTITY', 'BSDCONV']


def cell_hex(s):
    k = s.n(9)
    if k < 7:
        c = cp(s) if k > 2 else cp_in(s, 'alnum')
        return '01' + ('%02X' % c if c < 256 else '%04X' % c if c < 65536 else '%06X' % c)
    if k < 9:
        return '03%02X' % s.n(255)
    return s.pick(['0200', '1B5B6D', '00', '04', '3F'])


def cells_hex(s, hi=3):
    return '.'.join(cell_hex(s) for _ in range(1 + s.n(hi - 1)))


def filter_name(s, env):
    return s.pick(registry(env.repo)['filter'])


def random_args(s, env, kind, name):
    """arguments of a codec that takes some, or None"""
    opt = lambda pct, f: f() if s.chance(pct) else None
    join = lambda xs: ('#' + '&'.join(x for x in xs if x)) if any(xs) else ''
    flt = lambda: 'FOR=' + filter_name(s, env)
    if kind == 'inter':
        if name == 'INSERT':
            return join([opt(60, lambda: 'AFTER=' + cells_hex(s)), opt(60, lambda: 'BEFORE=' + cells_hex(s))])
        if name == 'REPLACE':
            return '#' + cells_hex(s) + (('=' + cells_hex(s)) if s.chance(80) else '')
        if name == 'PASS':
            return join([opt(50, lambda: 'LIMIT=%d' % s.n(12)), opt(40, flt)])
        if name == 'COUNT':
            return join([opt(60, flt), opt(30, lambda: s.pick(['N', 'k2', 'IERR', 'COUNT']))])
        if name == 'STRINGS':
            return join([opt(50, flt), opt(60, lambda: 'MIN-LEN=%d' % (1 + s.n(7))), opt(30, lambda: 'AFTER=' + cells_hex(s)), opt(30, lambda: 'BEFORE=' + cells_hex(s))])
        if name == 'TRIM-WIDTH':
            return join(['%d' % s.n(25), opt(30, lambda: s.pick(['AMBI-AS-WIDE', 'AMBIGUOUS-AS-WIDE']))])
        if name == 'SCORE':
            return join(['WITH=' + s.pick(registry(env.repo)['scorer'] + ['CJK']), opt(40, lambda: 'AS=' + s.pick(['SC', 'SCORE', 'x']))]) if s.chance(50) else None
    hx = lambda: ''.join('%02X' % s.n(255) for _ in range(1 + s.n(2)))
    if name == 'ANY':
        m = opt(80, lambda: s.pick(['ERROR', 'ERROR=E1', 'ERROR=OERR']) if s.chance(30) else None)
        return join([('DROP' if s.chance(15) else cells_hex(s) if kind == 'from' else '.'.join(hx() for _ in range(1 + s.n(1)))), m])
    if kind == 'to' and name == 'ESCAPE':
        return join(['FOR=' + s.pick(['UNICODE', 'BYTE']), 'MODE=' + s.pick(['16', '10', '8', 'HEX', 'DEC', 'OCT']), 'PREFIX=' + hx(), opt(40, lambda: 'SUFFIX=' + hx())])
    return None


def args_for(kind, name):
    return {'from': FROM_ARGS, 'inter': INTER_ARGS, 'to': TO_ARGS}[kind].get(name, [''])


def codec(s, env, kind, exclude=(), alias=25, names=None):
    reg = registry(env.repo)
    if names is None and s.chance(alias):
        al = [a for a in reg['alias'][kind] if not (set(alias_codecs(reg, kind, a)) & set(exclude))]
        al = [a for a in al if alias_ok(reg, kind, a)]
        if al:
            return s.pick(al)
    pool = [n for n in (names or reg[kind]) if n not in exclude and n not in ENVDEP]
    # stateful / algorithmic codecs are few but carry most of the logic
    alg = [n for n in pool if os.path.exists(os.path.join(env.repo, 'modules', kind, n + '.c'))]
    n = s.pick(alg) if alg and s.chance(55) else s.pick(pool)
    if s.chance(45):
        a = random_args(s, env, kind, n)
        if a is not None:
            return n + a
    return n + s.pick(args_for(kind, n))


def alias_codecs(reg, kind, name, depth=0):
    """flat list of codec names an alias expands to"""
    out = []
    al = reg['alias'][kind]
    if name in al and depth < 8:
        for part in al[name].replace(':', ',').split(','):
            b = part.split('#')[0]
            out += alias_codecs(reg, kind, b, depth + 1) if b != name else [b]
    else:
        out.append(name.split('#')[0])
    return out


def alias_ok(reg, kind, name):
    return all(n in reg[kind] for n in alias_codecs(reg, kind, name)) and not (set(alias_codecs(reg, kind, name)) & ENVDEP)


def phase(s, env, kind, exclude=(), maxc=3, **kw):
    n = 1 + (s.n(maxc - 1) if s.chance(35) else 0)
    return ','.join(codec(s, env, kind, exclude, **kw) for _ in range(n))


COMMON_FROM = ['UTF-8', 'ASCII,_UTF-8', 'ESCAPE,UTF-8', 'ASCII', 'BYTE', 'UTF-8,BYTE', 'BSDCONV', 'ANSI-CONTROL,UTF-8', 'UTF-16LE', 'CP950', 'GB18030', 'UTF-8,ANY#013F']
COMMON_TO = ['UTF-8', 'UTF-8,BSDCONV', 'BSDCONV', 'UTF-8,ASCII,BYTE', 'UTF-8,ANY#3F', 'UTF-16BE']


def conv(s, env, exclude=(), stages=True):
    """a valid conversion"""
    fr = s.pick(COMMON_FROM) if s.chance(40) else phase(s, env, 'from', exclude)
    mid = [phase(s, env, 'inter', exclude, maxc=2) for _ in range(s.weighted([(4, 0), (5, 1), (2, 2), (1, 3)]))]
    to = s.pick(COMMON_TO) if s.chance(40) else phase(s, env, 'to', exclude)
    st = ':'.join([fr] + mid + [to])
    if stages and s.chance(15):
        k = s.n(2)
        if k == 0:
            st += '|' + s.pick(['UTF-8', 'BYTE', 'PASS', 'PASS#UNMARK,UTF-8', 'SKIP,BIG5', 'BSDCONV', 'ASCII,BYTE', 'UTF-16BE', 'UTF-8,3F']) + ':' + s.pick(COMMON_TO)
        elif k == 1:
            st = ':'.join([fr] + mid + ['PASS#MARK&FOR=UNICODE,BYTE']) + '|' + 'PASS#UNMARK,' + s.pick(['UTF-8', 'BIG5', 'ASCII', 'GB18030']) + ':' + to
        else:
            st += '|' + ':'.join([phase(s, env, 'from', exclude)] + [phase(s, env, 'inter', exclude, maxc=1) for _ in range(s.n(1))] + [phase(s, env, 'to', exclude)])
    return st


def codecs_of(convstr):
    """[(kind, [names])] of a generated conversion (upper case, arguments dropped)"""
    out = []
    for st in convstr.split('|'):
        ph = st.split(':')
        for i, p in enumerate(ph):
            kind = 'inter'
            if len(ph) > 1:
                kind = 'from' if i == 0 else 'to' if i == len(ph) - 1 else 'inter'
            out.append((kind, [c.split('#')[0].upper() for c in p.split(',')]))
    return out


def flat_from(env, convstr):
    """expanded names of the codecs of the first phase"""
    reg = registry(env.repo)
    out = []
    for n in codecs_of(convstr)[0][1]:
        out += alias_codecs(reg, 'from', n)
    return out


def flat_all(env, convstr):
    reg = registry(env.repo)
    out = set()
    for kind, names in codecs_of(convstr):
        for n in names:
            for x in alias_codecs(reg, kind, n):
                out.add((kind, x.upper()))
    return out


def snippets_for(env, convstr):
    """texts that are keys of the tables the conversion uses"""
    key = ('snip', env.repo, convstr)
    if key in tables._cache:
        return tables._cache[key]
    out = []
    for kind, name in sorted(flat_all(env, convstr)):
        if kind == 'from':
            continue
        ks = tables.literal_keys(env.repo, kind, name)
        step = max(1, len(ks) // 400)
        for k in ks[::step]:
            try:
                t = ''.join(chr(tables.cp_of(c)) for c in k)
            except (TypeError, ValueError):
                continue
            if t:
                out.append(t)
    if len(tables._cache) > 5000:
        tables._cache.clear()
    tables._cache[key] = out
    return out


# ------------------------------------------------------------------ inputs

JISCORPUS = [b'\x1b$B', b'\x1b(B', b'\x1b(J', b'\x1b(I', b'\x1b$@', b'\x1b$(D', b'\x1b(', b'\x1b$', b'\x1b', b'!!', b'0!', b'a', b'\x0e', b'\x0f', b'\n', b'~~', b'\x1b$(']
ESCCORPUS = [b'%41', b'%4', b'%', b'%u6e2c', b'%u6e', b'%u', b'\\u6e2c', b'\\x41', b'\\x4', b'\\x', b'\\101', b'\\377', b'\\400', b'\\1', b'\\', b'%u0000', b'%00', b'%zz', b'\\8', b'%u006', b'\\u0000', b'\\346\\270\\254', b'a', b'%E6%B8%AC', b'%uD83D%uDE00', b'\\u00e9']
ENTCORPUS = [b'&#65;', b'&#x41;', b'&#x6e2c;', b'&#35430;', b'&#0;', b'&#;', b'&#x;', b'&#', b'&', b'&#x1F600;', b'&#1114111;', b'&#x110000;', b'&#99999999999;', b'&#xFFFFFFFFF;', b'&#12', b'&#x1G;', b'&amp;', b'&AMP;', b'&uuml', b'&lt;', b'&nbsp;', b'&#X41;', b'&#-1;']
ANSICORPUS = [b'\x1b[30m', b'\x1b[m', b'\x1b[1;31;40m', b'\x1b[', b'\x1b', b'\x1b[2J', b'\x1b[1;2', b'\x1b*', b'\x1b[' + b'1;' * 20 + b'm', b'\x1bM', b'\xaf\x1b[m\xe0', b'\x1b[\x00m']
BSDCORPUS = [b'0161', b'014E00', b'0100', b'016', b'01', b',', b'0161,0162', b'01F60', b'0101F600', b'zz', b'03FF', b'1B5B6D', b'0161 ', b'\n', b'00', b'002C', b'0']
GBCORPUS = [b'\x81\x30\x81\x30', b'\x84\x31\xa4\x39', b'\x90\x30\x81\x30', b'\xe3\x32\x9a\x35', b'\xfe\x39\xfe\x39', b'\x81\x30\x81', b'\x81\x30', b'\x81', b'\xa8\xbc', b'\xe3\x32\x9a\x36', b'\xff', b'\x80', b'\x8f\x30\x81\x30', b'\x84\x31\xa5\x30']
EBCORPUS = [b'\x0e', b'\x0f', b'\x0eAA', b'\x0e\x42\xc1\x0f', b'\xc1\xc2', b'\x0e\x42', b'\x0eA\x0f', b'\x40', b'\x25', b'\x0e\x0f', b'\x0f\x0e', b'\x3f', b'\x01', b'\x02\x03']
U8CORPUS = [b'\xc0\x80', b'\xe0\x80\x80', b'\xed\xa0\x80', b'\xed\xa0\xbd\xed\xb8\x80', b'\xf4\x90\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xc3', b'\xe6\xb8', b'\xf0\x9f\x98', b'\xf0\x9f\x98\x80', b'\x80', b'\xbf', b'\xc1\xbf', b'\xf0\x80\x80\x80', b'\xed\xb8\x80', b'\xef\xbb\xbf', b'\xc2\x80', b'\xdf\xbf', b'\xe0\xa0\x80', b'\xef\xbf\xbf', b'\xed\x9f\xbf', b'\xfc\x84\x80\x80\x80\x80', b'\xf7\xbf\xbf\xbf']
UDACORPUS = [b'\xfa\x40', b'\xfe\xfe', b'\x8e\x40', b'\xa0\xfe', b'\x81\x40', b'\x8d\xfe', b'\xc6\xa1', b'\xc8\xfe', b'\xfa', b'\xfa\x7f', b'\x81\x80', b'\xff\xff']
U16CORPUS = [b'\x00a', b'a\x00', b'\xd8\x3d\xde\x00', b'\x3d\xd8\x00\xde', b'\xd8\x00', b'\x00\xd8', b'\xdc\x00', b'\x00\xdc', b'\x00\x00', b'\xfe\xff', b'\xff\xfe', b'a', b'\x6e\x2c', b'\x00\x01\xf6\x00', b'\x00\xf6\x01\x00', b'\x00\x10\xff\xff', b'\xff\xff\x10\x00', b'\x00\x11\x00\x00', b'\x00\x00\x00a', b'a\x00\x00\x00']
CORPUS = {'_JIS': JISCORPUS, 'ESCAPE': ESCCORPUS, 'ASCII-NUMERIC-HTML-ENTITY': ENTCORPUS, 'ASCII-NAMED-HTML-ENTITY': ENTCORPUS, 'ANSI-CONTROL': ANSICORPUS, 'BSDCONV': BSDCORPUS, '_GB18030': GBCORPUS,
          '_UTF-8': U8CORPUS, 'CP950-UDA': UDACORPUS, 'UTF-16BE': U16CORPUS, 'UTF-16LE': U16CORPUS, 'UTF-32BE': U16CORPUS, 'UTF-32LE': U16CORPUS,
          'IBM-930': EBCORPUS, 'IBM-933': EBCORPUS, 'IBM-935': EBCORPUS, 'IBM-937': EBCORPUS, 'IBM-939': EBCORPUS, 'IBM-37': EBCORPUS}
PYENC = {'UTF-16BE': 'utf-16-be', 'UTF-16LE': 'utf-16-le', 'UTF-32BE': 'utf-32-be', 'UTF-32LE': 'utf-32-le', '_UTF-8': 'utf-8'}


def encode_for(names, t):
    """text in an encoding the decoders can read"""
    for n in names:
        if n in PYENC:
            return t.encode(PYENC[n], 'surrogatepass')
    return to_utf8(t)


def input_for(s, env, convstr, hi=24):
    """bytes aimed at the first phase of a conversion"""
    names = flat_from(env, convstr)
    mode = s.n(9)
    t = lambda q, h: text(q, h, snippets=snippets_for(env, convstr))
    if mode < 3:
        return encode_for(names, t(s, hi))
    corp = []
    for n in names:
        corp += CORPUS.get(n, [])
    keys = []
    for n in names:
        ks = tables.literal_keys(env.repo, 'from', n)
        if ks:
            keys.append(ks)

    def piece(q):
        m = q.n(9)
        if m < 2:
            return bytes([0x20 + q.n(0x5e)])
        if m < 4 and corp:
            return q.pick(corp)
        if m < 6 and keys:
            k = q.pick(q.pick(keys))
            return k if not q.chance(15) else k[:1 + q.n(len(k) - 1)]
        if m < 8:
            return encode_for(names, t(q, 3))
        return bytes([q.n(255)])
    b = b''.join(s.list(piece, hi))
    if s.chance(15) and b:
        k = s.n(len(b) - 1)
        m = s.n(2)
        b = b[:k] if m == 0 else b[:k] + b[k + 1:] if m == 1 else b[:k] + bytes([s.n(255)]) + b[k:]
    return b


def big(s, top=16, low=7):
    """a number about a power of two (or a round number), where counters and buffers of a fixed size end"""
    if s.chance(25):
        r = [x for x in (10, 20, 50, 100, 200, 500, 1000, 5000, 10000, 50000) if 1 << low <= x <= 1 << top]
        if r:
            return s.pick(r) + s.n(4) - 2
    return max(1, (1 << low + s.n(top - low)) + s.n(6) - 3)


def long_input(s, env, convstr, top=16):
    """bytes aimed at the first phase of a conversion, thousands of them"""
    names = flat_from(env, convstr)
    out = []
    for _ in range(1 + s.n(3)):
        k = s.n(3)
        if k == 0:
            out.append((bytes([0x20 + s.n(0x5e)]), big(s, top)))
        elif k == 1:
            out.append((encode_for(names, text(s, 1)) or b'a', big(s, min(top, 13))))
        else:
            out.append((input_for(s, env, convstr, 6), 1 + s.n(3)))
    return out


def expand(rle):
    return b''.join(u * n for u, n in rle)


def split(s, data, maxp=6):
    """a list of pieces whose concatenation is data"""
    m = s.n(9)
    if m < 2:
        return [data]
    if m < 5:
        return [data[i:i + 1] for i in range(len(data))] or [b'']
    cuts = sorted(s.n(len(data)) for _ in range(1 + s.n(maxp - 1)))
    out, p = [], 0
    for c in cuts:
        out.append(data[p:c])
        p = c
    out.append(data[p:])
    return out


# codecs that hold text back or keep a shift state: they speak for their whole phase, so listing them with
# other codecs (encoders: after other codecs) has no defined meaning
HOLDING = {'_NFC', '_NF-ORDER', '_NF-HANGUL-COMPOSITION', 'STRINGS', 'BIG5-DEFRAG', 'WHITESPACE-DERAIL', 'WHITESPACE-RERAIL'}
SHIFTING = {'IBM-930', 'IBM-933', 'IBM-935', 'IBM-937', 'IBM-939'}


def odd(env, convstr):
    """a holding or shifting codec is listed where it has no defined meaning"""
    reg = registry(env.repo)
    for kind, names in codecs_of(convstr):
        if len(names) < 2 or kind == 'from':
            continue
        for i, n in enumerate(names):
            ex = set(alias_codecs(reg, kind, n))
            if kind == 'inter' and ex & HOLDING:
                return True
            if kind == 'to' and i > 0 and ex & SHIFTING:
                return True
    return False


# codecs with a memory, for checks that want them often
STATEFUL = {'from': ['ANSI-CONTROL', 'ASCII-NUMERIC-HTML-ENTITY', 'BSDCONV', 'CP950-UDA', 'IBM-930', 'IBM-933', 'IBM-935', 'IBM-937', 'IBM-939', 'ESCAPE', 'UTF-16BE', 'UTF-16LE', 'UTF-32BE', 'UTF-32LE', '_GB18030', '_JIS', '_UTF-8', 'PASS'],
            'inter': ['AMBIGUOUS-PAD', 'AMBIGUOUS-UNPAD', 'BIG5-DEFRAG', 'PASS', 'REPLACE', 'STRINGS', 'STRINGS', 'STRINGS', 'TRIM-WIDTH', 'TRIM-WIDTH', 'WHITESPACE-DERAIL', 'WHITESPACE-RERAIL', '_NF-HANGUL-COMPOSITION', '_NF-ORDER', '_NFC', 'COUNT', 'INSERT', 'SCORE', 'WIDTH'],
            'to': ['IBM-930', 'IBM-933', 'IBM-935', 'IBM-937', 'IBM-939', 'ESCAPE', 'BSDCONV', 'ANY', 'CP950-UDA', '_GB18030', '_UTF-8']}


def stateful(s, env):
    """a conversion about one codec with a memory"""
    k = s.weighted([(4, 'inter'), (2, 'from'), (2, 'to')])
    n = s.pick([x for x in STATEFUL[k] if x in registry(env.repo)[k]])
    a = random_args(s, env, k, n) if s.chance(70) else None
    n += s.pick(args_for(k, n)) if a is None else a
    if k == 'from':
        return ':'.join([n + s.pick(['', ',ASCII', ',_UTF-8', ',BYTE']), s.pick(['UTF-8,BSDCONV', 'BSDCONV'])])
    if k == 'to':
        return ':'.join([s.pick(['UTF-8', 'BSDCONV', 'UTF-8,BYTE']), n + s.pick(['', ',ASCII', ',BSDCONV'])])
    return ':'.join([s.pick(['UTF-8', 'UTF-8,BYTE', 'ANSI-CONTROL,UTF-8', 'ASCII', 'BSDCONV']), n, s.pick(['UTF-8,BSDCONV', 'BSDCONV', 'UTF-8'])])


def runs(s, env, convstr, hi=6):
    """input made of short runs of like characters"""
    names = flat_from(env, convstr)
    if 'BSDCONV' in names or s.chance(30):
        return input_for(s, env, convstr, 10)
    t = ''.join(s.list(lambda q: ''.join(chr(cp_in(q, c)) for c in [q.weighted([(5, 'alnum'), (2, 'ctl'), (2, 'cjk'), (1, 'latin1'), (1, 'ws'), (1, 'comb'), (1, 'jamo'), (1, 'punct'), (1, 'nl'), (1, 'hangul')])] for _ in range(1 + q.n(5))), hi))
    return encode_for(names, t)
