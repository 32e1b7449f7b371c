"""C09: UTF-8 decoding and encoding against an independent reading of the encoding's definition."""
from ..core import Part, Violation, scaled
from ..client import Req
from .. import pipes, util
from ..tables import u

PROPERTY = 'C09'
RULE = 'non-trivial: the input has at least two units and at least one multi-byte lead byte (decode), at least one character over U+007F (encode); exhaustive parts cover every code point'
ASSUMPTIONS = ['the encoder is judged on Unicode scalar values and on cells that are not Unicode; surrogates and values over U+10FFFF, which the shipped encoder takes, are left open',
               'an ill-formed sequence is reported byte by byte: one error for each byte that starts no accepted sequence', 'NUL in overlong form needs both NUL and OVERLONG; plain NUL belongs to the codec 00']
OPTS = ['CESU', 'LOOSE', 'NUL', 'OVERLONG', 'SUPER']


def cell(v):
    return b'\x01' + (v.to_bytes((v.bit_length() + 7) // 8, 'big') if v else b'\0')


def unit(d, i, o):
    """a multi-byte sequence at i -> (value, length) or None"""
    b = d[i]
    for n, lo, mark in ((2, 0x80, 0xc0), (3, 0x800, 0xe0), (4, 0x10000, 0xf0), (5, 0x200000, 0xf8), (6, 0x4000000, 0xfc)):
        bits = 7 - n
        if b >> bits == mark >> bits:
            break
    else:
        return None
    if n > 4 and 'SUPER' not in o:
        return None
    if i + n > len(d):
        return None
    v = b & ((1 << bits) - 1)
    for x in d[i + 1:i + n]:
        if x & 0xc0 != 0x80:
            return None
        v = v << 6 | (x & 0x3f)
    if v < lo and 'OVERLONG' not in o:
        return None
    if v > 0x10ffff and 'SUPER' not in o:
        return None
    return v, n


def accept(d, i, o):
    """-> (values, length) or None for a single byte that is not accepted"""
    r = unit(d, i, o)
    if r is None:
        return None
    v, n = r
    if v == 0 and 'NUL' not in o:
        return None
    if 0xd800 <= v <= 0xdbff and 'CESU' in o:
        r2 = unit(d, i + n, o) if i + n < len(d) else None
        if r2 and 0xdc00 <= r2[0] <= 0xdfff:
            return [0x10000 + ((v - 0xd800) << 10 | r2[0] - 0xdc00)], n + r2[1]
    if 0xd800 <= v <= 0xdfff and 'LOOSE' not in o:
        return None
    return [v], n


def decode(d, o, ascii):
    out, err, i = [], 0, 0
    while i < len(d):
        if d[i] < 0x80:
            if ascii and d[i]:
                out.append(d[i])
            else:
                err += 1
            i += 1
            continue
        r = accept(d, i, o)
        if r is None:
            err += 1
            i += 1
        else:
            out += r[0]
            i += r[1]
    return out, err


def enc_any(v, n):
    """v in the n-byte form, however overlong"""
    if n == 1:
        return bytes([v & 0x7f])
    out = []
    for _ in range(n - 1):
        out.insert(0, 0x80 | v & 0x3f)
        v >>= 6
    lead = {2: 0xc0, 3: 0xe0, 4: 0xf0, 5: 0xf8, 6: 0xfc}[n]
    return bytes([(lead | v) & 0xff] + out)


EDGES = [0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x13ffff, 0x140000,
         0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff]
BYTES = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]


def minlen(v):
    return 1 if v < 0x80 else 2 if v < 0x800 else 3 if v < 0x10000 else 4 if v < 0x200000 else 5 if v < 0x4000000 else 6


def gen(s, env):
    o = [x for x in OPTS if s.chance(40)]
    ascii = s.n(1)

    def piece(q):
        m = q.n(11)
        if m < 2:
            return bytes([0x20 + q.n(0x5e)])
        if m < 4:
            return chr(pipes.cp(q)).encode('utf-8', 'surrogatepass')
        if m < 9:
            k = q.n(3)
            v = q.pick(EDGES) if k < 2 else 0xd800 + q.n(0x7ff) if k < 3 else q.n((1 << q.pick([7, 11, 16, 21, 26, 31])) - 1)
            n = minlen(v)
            if q.chance(15):
                n = min(6, n + 1 + q.n(1))
            b = enc_any(v, n)
            if q.chance(15):
                b = b[:q.n(len(b))]
            elif q.chance(15):
                j = q.n(len(b) - 1)
                b = b[:j] + bytes([q.pick(BYTES)]) + b[j + 1:]
            return b
        if m < 11:
            v = 0x10000 + q.n(0xfffff)
            b = enc_any(0xd800 + ((v - 0x10000) >> 10), 3) + enc_any(0xdc00 + ((v - 0x10000) & 0x3ff), 3)
            return b if q.chance(70) else b[:q.n(len(b))]
        return bytes([q.pick(BYTES)])
    return {'opts': o, 'ascii': ascii, 'data': b''.join(s.list(piece, 10))}


def name(o, ascii, case=0):
    return ('ASCII,' if ascii else '') + '_UTF-8' + ('#' + '&'.join(o) if o else '')


def run(env, case):
    o, d = case['opts'], case['data']
    conv = name(o, case['ascii']) + ':PASS'
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    f = r.cells(0, [d])
    e = r.errs(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation(conv + ' cannot be created')
    want, err = decode(d, set(o), case['ascii'])
    got = rep[f]
    if got != [cell(v) for v in want]:
        raise Violation('%s decodes %s to %s instead of %s' % (conv, d.hex(), ','.join(c.hex() for c in got), ','.join(cell(v).hex() for v in want)))
    util.same(tuple(rep[e]), (err, 0), '%s, %s: errors' % (conv, d.hex()))
    return len(d) >= 2 and any(b >= 0xc0 for b in d), 'errors' if err else 'clean'


STEP = 2048


def blocks(env):
    return [{'at': a} for a in range(0, 0x110000, STEP)]


def run_block(env, case):
    cps = [c for c in range(case['at'], case['at'] + STEP) if not 0xd800 <= c <= 0xdfff and c != 0]
    if not cps:
        return False, 'surrogates'
    t = ''.join(map(chr, cps))
    r = Req()
    a = r.create(0, 'UTF-8:PASS')
    r.init(0)
    b = r.create(1, 'PASS:UTF-8')
    r.init(1)
    f = r.cells(0, [t.encode()])
    g = r.cells(1, [u(c) for c in cps])
    e0, e1 = r.errs(0), r.errs(1)
    rep = env.call(r)
    if not rep[a][0] or not rep[b][0]:
        raise Violation('UTF-8 cannot be created')
    if rep[f] != [u(c) for c in cps]:
        bad = next((c for c, x in zip(cps, rep[f]) if u(c) != x), cps[-1])
        raise Violation('U+%04X is not decoded exactly' % bad)
    want = [chr(c).encode() for c in cps]
    if rep[g] != want:
        bad = next((c for c, x in zip(want, rep[g]) if c != x), want[-1])
        raise Violation('%s is not encoded exactly' % bad.hex())
    util.same((tuple(rep[e0]), tuple(rep[e1])), ((0, 0), (0, 0)), 'errors for U+%04X...' % cps[0])
    return True, 'block'


def gen_enc(s, env):
    def piece(q):
        m = q.n(5)
        if m < 5:
            return u(pipes.cp(q))
        return bytes([q.pick([0, 2, 3, 4, 5, 0x1b])]) + q.blob(4)
    return {'cells': s.list(piece, 16)}


def good(c):
    return c[0] == 1 and c != b'\x01\0'


def run_enc(env, case):
    cells = case['cells']
    r = Req()
    k = r.create(0, 'PASS:UTF-8')
    r.init(0)
    f = r.cells(0, cells)
    e = r.errs(0)
    rep = env.call(r)
    want = [chr(int.from_bytes(c[1:], 'big')).encode() for c in cells if good(c)]
    if rep[f] != want:
        raise Violation('%s is encoded as %s instead of %s' % (','.join(c.hex() for c in cells), b' '.join(rep[f]), b' '.join(want)))
    util.same(tuple(rep[e]), (0, sum(not good(c) for c in cells)), 'errors encoding ' + ','.join(c.hex() for c in cells))
    return any(len(c) > 2 for c in cells) and len(cells) > 1, 'mixed' if not all(map(good, cells)) else 'unicode'


PARTS = [Part('every-character', None, run_block, 0, exhaustive=blocks), Part('decode', gen, run, 800000, 8000000), Part('encode', gen_enc, run_enc, 60000, 600000), Part('long decode', scaled(gen, 30, 200), run, 8000),
         Part('long encode', scaled(gen_enc, 30, 200), run_enc, 500)]
