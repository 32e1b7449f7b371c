"""C16: editing conversion strings edits exactly the named phase or codec."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req, FROM, INTER, TO
from .. import pipes, util

PROPERTY = 'C16'
RULE = 'non-trivial: an edit of a well-formed conversion of two or more codecs returned a conversion'
ASSUMPTIONS = ['indices in range: phases -n..n-1 (insertion also from n on, meaning the end), codecs likewise within their phase; replacing beyond the end is a precondition of the caller',
               'an argument list that is empty means the same as none (A# and A)',
               'a new phase of type FROM begins a joined conversion, an INTER phase outside any conversion that was begun is one of its own; TO never begins one']


# a conversion: list of [type, [codec text]]

def parse(text):
    out = []
    for alt in text.split('|'):
        ph = alt.split(':')
        for i, p in enumerate(ph):
            t = INTER if len(ph) == 1 else FROM if i == 0 else TO if i == len(ph) - 1 else INTER
            cs = p.split(',')
            if any(c.partition('#')[0] == '' for c in cs):
                return None
            out.append([t, [c[:-1] if c.endswith('#') and c.index('#') == len(c) - 1 else c for c in cs]])
    return out


def render(m):
    out, opened = '', False
    for i, (t, cs) in enumerate(m):
        if i:
            out += '|' if t == FROM or t == INTER and not opened else ':'
        opened = True if t == FROM else False if t == TO else opened
        out += ','.join(cs)
    return out


def idx(n, ln):
    return ln if n >= ln else n % ln


def apply(m, op, new, a, b):
    m = [[t, list(c)] for t, c in m]
    p = idx(b if op.endswith('phase') else a, len(m))
    if op == 'insert_phase':
        m.insert(p, [a, [new]])
    elif op == 'replace_phase':
        m[p] = [a, [new]]
    else:
        c = idx(b, len(m[p][1]))
        if op == 'insert_codec':
            m[p][1].insert(c, new)
        else:
            m[p][1][c] = new
    return m


NAMES = ['utf-8', 'a', 'B', 'ASCII', '_UTF-8', 'big5', 'upper', 'NFC', 'x9', 'ANY', 'zh-tw', '00', 'PASS', 'insert', 'q']
ARGS = ['', '', '', '#013F', '#013F&ERROR', '#A=1&B=2', '#x=0161.0162', '#FOR=CJK,', '#&', '#=', '#a#b', '#', '#' + 'L' * 60]


def codec_text(s, hi=1):
    n = s.pick(NAMES) if s.chance(85) else ''.join(chr(s.pick([0x61 + s.n(25), 0x41 + s.n(25), 0x30 + s.n(9), 0x2d, 0x5f, 0xe9, 0x20])) for _ in range(1 + s.n(30)))
    return n + s.pick(ARGS).rstrip(',')


def conv_text(s):
    alts = []
    for _ in range(1 + (s.n(2) if s.chance(35) else 0)):
        nph = s.weighted([(3, 2), (3, 3), (2, 4), (2, 1), (1, 6)])
        alts.append(':'.join(','.join(codec_text(s) for _ in range(s.weighted([(4, 1), (3, 2), (2, 3), (1, 5)]))) for _ in range(nph)))
    return '|'.join(alts)


def gen_edit(s, env):
    c = conv_text(s)
    m = parse(c)
    ops = []
    for _ in range(1 + s.n(5)):
        op = s.pick(['insert_phase', 'replace_phase', 'insert_codec', 'replace_codec'])
        ln = len(m)
        new = ','.join(codec_text(s) for _ in range(s.weighted([(5, 1), (1, 2)])))
        if new.endswith('#'):
            new += 'Z'
        if op.endswith('phase'):
            hi = ln + 3 if op == 'insert_phase' else ln - 1
            a, b = s.pick([INTER, FROM, TO]), s.rng_int(-ln, hi)
            if s.chance(3) and op == 'insert_phase':
                b = s.pick([100, 2 ** 31 - 1, 1000000])
        else:
            a = s.rng_int(-ln, ln - 1)
            cl = len(m[a % ln][1])
            b = s.rng_int(-cl, cl + 3 if op == 'insert_codec' else cl - 1)
        ops.append([op, new, a, b])
        m = parse(render(apply(m, op, new, a, b)))
    return {'conv': c, 'ops': ops}


def run_edit(env, case):
    """each edit is made on what the reference has after the edits before it"""
    cur = case['conv']
    r = Req()
    want = []
    for op, new, a, b in case['ops']:
        m = parse(cur)
        w = render(apply(m, op, new, a, b))
        want.append((r.edit(op, cur, new, a, b), cur, op, new, a, b, w))
        cur = w
    rep = env.call(r)
    for k, cur, op, new, a, b, w in want:
        if rep[k] is None or rep[k].decode('utf-8', 'replace') != w:
            raise Violation('%s(%r, %r, %s, %s) = %r, expected %r' % (op, cur, new, a, b, rep[k], w))
    return sum(len(c) for t, c in parse(case['conv'])) > 1, want[0][2]


# ------------------------------------------------------------------ malformed

def gen_bad(s, env):
    c = conv_text(s)
    k = [i for i in range(len(c) + 1)]
    p = s.pick(k)
    c = s.weighted([(3, c[:p] + s.pick([':', ',', '|', '::', '#', ',#x', ':#']) + c[p:]), (1, ''), (1, c + s.pick([':', ',', '|'])), (1, s.pick([':', ',', '|', '#a:']) + c), (1, c)])
    return {'conv': c, 'op': s.pick(['insert_phase', 'replace_phase', 'insert_codec', 'replace_codec']), 'new': s.pick(NAMES), 'neg': s.n(1)}


def run_bad(env, case):
    m = parse(case['conv'])
    op = case['op']
    a, b = (INTER, -case['neg']) if op.endswith('phase') else (-case['neg'], 0)
    r = Req()
    k = r.edit(op, case['conv'], case['new'], a, b)
    rep = env.call(r)
    w = None if m is None else render(apply(m, op, case['new'], a, b)).encode()
    util.same(rep[k], w, '%s(%r, %r, %s, %s)' % (op, case['conv'], case['new'], a, b))
    return True, 'malformed' if m is None else 'well-formed'


# ------------------------------------------------------------------ indices and edits of conversions that exist

def gen_real(s, env):
    c = pipes.conv(s, env)
    return {'conv': c, 'p': s.n(20), 'c': s.n(20), 'pd': s.n(3), 'cd': s.n(3)}


def run_real(env, case):
    r = Req()
    k = r.create(0, case['conv'])
    q = r.shape(0)
    p = r.pack(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Discard('rejected')
    shape, text = rep[q], rep[p].decode()
    n = len(shape)
    m = parse(text)
    util.same([(t, len(c)) for t, c in m], [(t, c + 0) for t, c in shape_of(shape)], 'phases of %s' % text)
    pi = case['p'] % (2 * n) - n
    cl = len(m[pi % n][1])
    ci = case['c'] % (2 * cl) - cl
    r = Req()
    r.create(0, case['conv'])
    ix = [r.index(0, pi, ci), r.index(0, n + case['pd'], 0) if False else r.index(0, pi, cl + case['cd'])]
    r.destroy(0)
    new = 'PASS'
    e1 = r.edit('insert_codec', text, new, pi, ci)
    e2 = r.edit('replace_codec', text, new, pi, ci)
    e3 = r.edit('replace_phase', text, new, m[pi % n][0], pi)
    e4 = r.edit('insert_phase', text, new, INTER, pi)
    rep = env.call(r)
    util.same(rep[ix[0]], (pi % n + 1, ci % cl), 'index of phase %d codec %d in %s' % (pi, ci, text))
    util.same(rep[ix[1]], (pi % n + 1, cl), 'index of phase %d codec %d in %s' % (pi, cl + case['cd'], text))
    for e, op, a, b in ((e1, 'insert_codec', pi, ci), (e2, 'replace_codec', pi, ci), (e3, 'replace_phase', m[pi % n][0], pi), (e4, 'insert_phase', INTER, pi)):
        util.same(rep[e], render(apply(m, op, new, a, b)).encode(), '%s(%r, %r, %s, %s)' % (op, text, new, a, b))
    # the edited conversion exists and has the phases the edit says
    r = Req()
    k = r.create(0, rep[e1].decode())
    q = r.shape(0)
    r.destroy(0)
    k2 = r.create(0, rep[e2].decode())
    q2 = r.shape(0)
    r.destroy(0)
    rep2 = env.call(r)
    for k, q, op in ((k, q, 'insert_codec'), (k2, q2, 'replace_codec')):
        if not rep2[k][0]:
            raise Violation('%s of PASS at phase %d codec %d of %s: not usable: %r' % (op, pi, ci, text, rep2[k]))
        util.same(shape_of(rep2[q]), [(t, len(c)) for t, c in apply(m, op, new, pi, ci)], '%s: phases' % op)
    return sum(len(c) for t, c in m) > 1, 'real'


def shape_of(sh):
    return [(t, c + 1) for t, c in sh]


PARTS = [Part('edits', gen_edit, run_edit, 350000), Part('malformed', gen_bad, run_bad, 120000), Part('real', gen_real, run_real, 40000), Part('long edits', scaled(gen_edit, 5, 20, 60), run_edit, 20000)]
