"""C11: the normalisation stages against the Unicode Character Database of Python."""
import unicodedata as U
from ..core import Part, Violation, scaled
from ..client import Req
from .. import pipes, tables, util
from ..tables import u

PROPERTY = 'C11'
RULE = 'non-trivial: the normal form differs from the text, or the text has at least two combining marks or jamo in a row; the exhaustive part covers every code point'
ASSUMPTIONS = ['Python\'s unicodedata is the standard; characters that got a decomposition or combining class after Unicode 13 (the version of the shipped tables) are left out',
               'a cell that is no Unicode character separates texts that are normalised on their own']
FORMS = ['NFD', 'NFC', 'NFKD', 'NFKC']
# added in Unicode 14 and 15
LATER = [(0x898, 0x89f), (0x8ca, 0x8d2), (0xc3c, 0xc3c), (0x1715, 0x1715), (0x1ac1, 0x1ace), (0x1dfa, 0x1dfa), (0xa7f2, 0xa7f4), (0x10780, 0x107bf), (0x10efd, 0x10eff), (0x10f82, 0x10f85), (0x11070, 0x11070), (0x11f41, 0x11f42),
         (0x1e030, 0x1e08f), (0x1e2ae, 0x1e2ae), (0x1e4ec, 0x1e4ef)]


def later(c):
    return any(a <= c <= b for a, b in LATER)


def pools():
    k = 'c11pools'
    if k not in tables._cache:
        comb, dec, kdec, base = {}, [], [], {}
        for c in range(0x110000):
            if 0xd800 <= c < 0xe000 or later(c):
                continue
            ch = chr(c)
            n = U.combining(ch)
            if n:
                comb.setdefault(n, []).append(ch)
            d = U.decomposition(ch)
            if d:
                if d[0] == '<':
                    kdec.append(ch)
                else:
                    dec.append(ch)
                    t = d.split()
                    if len(t) == 2:
                        base.setdefault(chr(int(t[0], 16)), []).append(chr(int(t[1], 16)))
        tables._cache[k] = (sorted(comb), comb, dec, kdec, sorted(base), base)
    return tables._cache[k]


STEP = 1024


def blocks(env):
    return [{'form': f, 'at': a, 'by': b} for f in FORMS for a in range(0, 0x110000, STEP) for b in (0, 1)]


def run_block(env, case):
    t = [chr(c) for c in range(case['at'], case['at'] + STEP) if not 0xd800 <= c < 0xe000 and not later(c)]
    if not t:
        return False, 'surrogates'
    t = ('.' if case['by'] else '').join(t)
    check(env, case['form'], [t])
    return True, case['form']


def check(env, form, parts, twice=False):
    """parts: strings, with byte cells between them"""
    cells = []
    want = []
    for i, t in enumerate(parts):
        if i:
            cells.append(b'\x03\xff')
            want.append(b'\x03\xff')
        cells += [u(ord(c)) for c in t]
        want += [u(ord(c)) for c in U.normalize(form, t)]
    r = Req()
    k = r.create(0, 'PASS:' + form + ':PASS')
    r.init(0)
    f = r.cells(0, cells)
    if twice:
        g = r.cells(0, want)
    e = r.errs(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation(form + ' cannot be created')
    for i, x in ((f, cells), (g, want)) if twice else ((f, cells),):
        if rep[i] != want:
            if len(want) > 300:
                j = next((j for j, (a, b) in enumerate(zip(rep[i], want)) if a != b), min(len(want), len(rep[i])))
                raise Violation('%s of %s..: near output position %d: %s instead of %s' % (form, show(x[:2]), j, show(rep[i][max(0, j - 2):j + 4]), show(want[max(0, j - 2):j + 4])))
            raise Violation('%s of %s is %s instead of %s' % (form, show(x), show(rep[i]), show(want)))
    util.same(tuple(rep[e]), (0, 0), 'errors of ' + form)
    return cells, want


def show(cells):
    return ','.join(c.hex() for c in cells)


def gen(s, env):
    ccs, comb, dec, kdec, bases, base = pools()

    def mark(q):
        if q.chance(30):
            return q.pick(comb[230][:40])
        return q.pick(comb[q.pick(ccs)])

    def piece(q):
        m = q.n(19)
        if m < 3:
            b = q.pick(bases)
            return b + q.pick(base[b])
        if m < 7:
            b = q.pick(bases)
            ms = [q.pick(base[b]) if q.chance(50) else mark(q) for _ in range(1 + q.n(4))]
            return b + ''.join(ms)
        if m < 9:
            return mark(q)
        if m < 11:
            return q.pick(dec)
        if m < 12:
            return q.pick(kdec)
        if m < 13:
            return q.pick(dec) + mark(q)
        if m < 15:
            return chr(0x1100 + q.n(19)) + (chr(0x1161 + q.n(21)) if q.chance(80) else '') + (chr(0x11a7 + q.n(28)) if q.chance(60) else '')
        if m < 16:
            return chr(0xac00 + q.n(19 * 21 * 28 - 1)) if q.chance(50) else chr(0xac00 + 28 * q.n(19 * 21 - 1)) + chr(0x11a7 + q.n(28))
        if m < 17:
            return chr(pipes.cp_in(q, 'jamo'))
        if m < 18:
            return chr(pipes.cp_in(q, 'alnum'))
        c = pipes.cp(q)
        return 'x' if later(c) or 0xd800 <= c < 0xe000 else chr(c)
    n = 1 + (s.n(2) if s.chance(15) else 0)
    return {'form': s.pick(FORMS), 'parts': [''.join(s.list(piece, 8)) for _ in range(n)]}


def run(env, case):
    parts = case['parts']
    if any(later(ord(c)) for t in parts for c in t):
        return False, 'excluded'
    cells, want = check(env, case['form'], parts, True)
    hard = any(sum(1 for c in t if U.combining(c) or 0x1100 <= ord(c) < 0x1200) > 1 for t in parts)
    return cells != want or hard, ['changed' if cells != want else 'same'] + (['mixed cells'] if len(parts) > 1 else [])


PARTS = [Part('every-character', None, run_block, 0, exhaustive=blocks), Part('sequences', gen, run, 250000, 2500000), Part('long sequences', scaled(gen, 30, 200), run, 4000)]
