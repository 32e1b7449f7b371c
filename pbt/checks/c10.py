"""C10: UTF-16, UTF-32 and UCS-2 against their definitions, and against each other."""
from ..core import Part, Violation, scaled
from ..client import Req
from .. import pipes, util
from ..tables import u

PROPERTY = 'C10'
RULE = 'non-trivial: at least two units, one of them outside ASCII; exhaustive part covers every code point in every form'
ASSUMPTIONS = ['an unpaired lead surrogate or an incomplete unit is reported as an input error and one byte is skipped, as everywhere in bsdconv; realignment after it is not promised',
               'unpaired trail surrogates are passed as they are', 'values over U+10FFFF in UTF-32 input are left open']
PY = {'UTF-16BE': 'utf-16-be', 'UTF-16LE': 'utf-16-le', 'UTF-32BE': 'utf-32-be', 'UTF-32LE': 'utf-32-le'}
FORMS = ['UTF-16BE', 'UTF-16LE', 'UTF-32BE', 'UTF-32LE', 'UCS-2BE', 'UCS-2LE']


def encode(form, cp):
    """-> bytes or None"""
    if form.startswith('UCS-2'):
        return cp.to_bytes(2, 'big' if form.endswith('BE') else 'little') if cp < 0x10000 else None
    return chr(cp).encode(PY[form])


def decode(form, d):
    order = 'big' if form.endswith('BE') else 'little'
    out, err, i = [], 0, 0
    if form.startswith('UTF-32'):
        n = len(d) // 4 * 4
        return [int.from_bytes(d[j:j + 4], order) for j in range(0, n, 4)], len(d) - n
    while i < len(d):
        if i + 2 > len(d):
            err += 1
            i += 1
            continue
        v = int.from_bytes(d[i:i + 2], order)
        if 0xd800 <= v <= 0xdbff:
            if i + 4 <= len(d):
                w = int.from_bytes(d[i + 2:i + 4], order)
                if 0xdc00 <= w <= 0xdfff:
                    out.append(0x10000 + ((v - 0xd800) << 10 | w - 0xdc00))
                    i += 4
                    continue
            err += 1
            i += 1
            continue
        out.append(v)
        i += 2
    return out, err


STEP = 2048


def blocks(env):
    return [{'form': f, 'at': a} for f in FORMS for a in range(0, 0x110000, STEP)]


def run_block(env, case):
    form = case['form']
    cps = [c for c in range(case['at'], case['at'] + STEP) if not 0xd800 <= c <= 0xdfff]
    if not cps:
        return False, 'surrogates'
    r = Req()
    b = r.create(1, 'PASS:' + form)
    r.init(1)
    g = r.cells(1, [u(c) for c in cps])
    e1 = r.errs(1)
    want = [encode(form, c) for c in cps]
    if not form.startswith('UCS'):
        a = r.create(0, form + ':PASS')
        r.init(0)
        f = r.cells(0, [b''.join(want)])
        e0 = r.errs(0)
    rep = env.call(r)
    if not rep[b][0]:
        raise Violation(form + ' cannot be created')
    good = [w for w in want if w is not None]
    if rep[g] != good:
        bad = next((c for c, x in zip(good, rep[g]) if c != x), good[-1] if good else b'')
        raise Violation('%s is not encoded exactly in %s' % (bad.hex(), form))
    util.same(tuple(rep[e1]), (0, len(want) - len(good)), 'errors encoding U+%04X... to %s' % (cps[0], form))
    if not form.startswith('UCS'):
        if rep[f] != [u(c) for c in cps]:
            bad = next((c for c, x in zip(cps, rep[f]) if u(c) != x), cps[-1])
            raise Violation('U+%04X is not decoded exactly from %s' % (bad, form))
        util.same(tuple(rep[e0]), (0, 0), 'errors decoding U+%04X... from %s' % (cps[0], form))
    return True, form


def gen_dec(s, env):
    form = s.pick(FORMS[:4])
    order = 'big' if form.endswith('BE') else 'little'

    def piece(q):
        m = q.n(9)
        if m < 5:
            c = pipes.cp(q)
            return chr(c).encode(PY[form])
        if m < 8 and form.startswith('UTF-16'):
            return (0xd800 + q.n(0x7ff)).to_bytes(2, order)
        if m < 9 and form.startswith('UTF-16'):
            return q.pick([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0]).to_bytes(2, order)
        if form.startswith('UTF-16'):
            return bytes([q.pick([0, 0xd8, 0xdb, 0xdc, 0xdf, q.n(255)])])
        return chr(pipes.cp_in(q, q.pick(['edge', 'astral', 'surr']))).encode(PY[form], 'surrogatepass')
    d = b''.join(s.list(piece, 12))
    if form.startswith('UTF-32') and s.chance(30) and d:
        d = d[:s.n(len(d) - 1)]
    return {'form': form, 'data': d, 'cut': s.n(len(d))}


def run_dec(env, case):
    form, d = case['form'], case['data']
    r = Req()
    k = r.create(0, form + ':PASS')
    r.init(0)
    f = r.cells(0, [x for x in (d[:case['cut']], d[case['cut']:]) if x])
    e = r.errs(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation(form + ' cannot be created')
    want, err = decode(form, d)
    if rep[f] != [u(v) for v in want]:
        raise Violation('%s decodes %s to %s instead of %s' % (form, d.hex(), ','.join(c.hex() for c in rep[f]), ','.join(u(v).hex() for v in want)))
    util.same(tuple(rep[e]), (err, 0), '%s, %s: errors' % (form, d.hex()))
    return len(d) > 4 and (err > 0 or any(v > 0x7f for v in want)), 'errors' if err else 'clean'


def gen_pair(s, env):
    return {'text': pipes.to_utf8(pipes.text(s, 20)), 'a': s.pick(FORMS), 'b': s.pick(['UTF-8'] + FORMS[:4])}


def run_pair(env, case):
    """text to form a (through form b) and back"""
    t = case['text'].decode('utf-8', 'surrogatepass')
    if any(0xd800 <= ord(c) <= 0xdfff for c in t) or '\0' in t and case['b'] == 'UTF-8':
        return False, 'excluded'
    b = case['b']
    src = t.encode(PY.get(b, 'utf-8'))
    out, cnt = util.need(util.convert(env, b + ':' + case['a'], src))
    enc = [encode(case['a'], ord(c)) for c in t]
    util.same(out, b''.join(x for x in enc if x is not None), '%s:%s of %r' % (b, case['a'], t))
    lost = sum(x is None for x in enc)
    util.same(cnt, {'OERR': lost} if lost else {}, '%s:%s of %r: counters' % (b, case['a'], t))
    back, cnt = util.need(util.convert(env, case['a'] + ':' + b, out)) if not lost else (src, {})
    util.same(back, src, '%s:%s of %s' % (case['a'], b, out.hex()))
    util.same(cnt, {}, '%s:%s of %s: counters' % (case['a'], b, out.hex()))
    return len(t) > 1 and any(ord(c) > 0x7f for c in t), 'lost' if lost else 'exact'


def gen_bad(s, env):
    return {'form': s.pick(FORMS), 'cells': s.list(lambda q: u(pipes.cp(q)) if q.chance(60) else (u(0x110000 + q.n(0xeeffff)) if q.chance(50) else bytes([q.pick([0, 2, 3, 4, 5, 0x1b])]) + q.blob(5)), 10)}


def run_bad(env, case):
    """cells that are no scalar value are reported and nothing else is touched"""
    form, cells = case['form'], case['cells']
    if form.startswith('UTF-32'):
        cells = [c for c in cells if not (c[0] == 1 and int.from_bytes(c[1:], 'big') > 0x10ffff)]
    r = Req()
    k = r.create(0, 'PASS:' + form)
    r.init(0)
    f = r.cells(0, cells)
    e = r.errs(0)
    rep = env.call(r)
    want = [encode(form, int.from_bytes(c[1:], 'big')) if c[0] == 1 and int.from_bytes(c[1:], 'big') < 0x110000 else None for c in cells]
    good = [w for w in want if w is not None]
    if rep[f] != good:
        raise Violation('PASS:%s of %s gives %s' % (form, ','.join(c.hex() for c in cells), b','.join(rep[f]).hex()))
    util.same(tuple(rep[e]), (0, len(want) - len(good)), 'PASS:%s of %s: errors' % (form, ','.join(c.hex() for c in cells)))
    return len(good) > 0 and len(good) < len(want), 'mixed'


PARTS = [Part('every-character', None, run_block, 0, exhaustive=blocks), Part('decode', gen_dec, run_dec, 300000, 3000000), Part('round-trip', gen_pair, run_pair, 150000, 1500000),
         Part('not-encodable', gen_bad, run_bad, 100000, 1000000), Part('long decode', scaled(gen_dec, 30, 200), run_dec, 8000)]
