"""C06: a joined conversion is the composition of its parts; do-nothing stages change nothing."""
from ..core import Part, scaled
from ..client import Req
from .. import pipes, util

PROPERTY = 'C06'
RULE = 'non-trivial: every part of the conversion could be created, the first produced output and the last produced output or counts'
ASSUMPTIONS = ['PASS#MARK and PASS decoders hand cells over a joint, which separate runs cannot: left out of the composition part',
               'white-space derailing keeps one queue per instance: at most one pair per joined conversion']


def marks(env, c):
    fl = pipes.flat_all(env, c)
    return any(k in ('from', 'to') and n == 'PASS' for k, n in fl)


def ws(env, c):
    return sum(1 for st in c.split('|') for p in st.split(':') for x in p.split(',') if x.split('#')[0].upper().startswith('WHITESPACE'))


def addup(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def gen(s, env):
    n = 2 + s.n(1)
    cs = []
    for i in range(n):
        c = pipes.conv(s, env, stages=False)
        if i < n - 1 and s.chance(60):
            # an output the next part can read
            nxt = s.pick(['UTF-8', 'UTF-8,BYTE', 'UTF-8,ANY#3F', 'BSDCONV'])
            c = ':'.join(c.split(':')[:-1] + [nxt])
        if i > 0 and s.chance(50):
            c = ':'.join([s.pick(['UTF-8', 'UTF-8,BYTE', 'BSDCONV', 'ASCII,BYTE', 'GB18030', 'ESCAPE,UTF-8', 'UTF-16BE'])] + c.split(':')[1:])
        cs.append(c)
    return {'convs': cs, 'data': pipes.input_for(s, env, cs[0])}


def run(env, case):
    cs = case['convs']
    if any(marks(env, c) for c in cs) or sum(1 for c in cs if ws(env, c)) > 1:
        return False, 'excluded'
    d = case['data']
    tot = {}
    mid = None
    for i, c in enumerate(cs):
        x = util.convert(env, c, d)
        if x is None:
            return False, 'rejected'
        d, cc = x
        if i == 0:
            mid = d
        tot = addup(tot, cc)
    j = '|'.join(cs)
    out, cnt = util.need(util.convert(env, j, case['data']))
    util.same(out, d, j)
    util.same(cnt, tot, 'counters of ' + j)
    return bool(mid) and bool(d or tot), 'ok'


def gen_noop(s, env):
    c = pipes.conv(s, env)
    st = [x.split(':') for x in c.split('|')]
    places = [(i, j) for i in range(len(st)) for j in range(1, len(st[i]))]
    k = s.n(3)
    if k < 3 and places:
        i, j = s.pick(places)
        st[i] = st[i][:j] + [s.pick(['PASS', 'PASS,PASS'])] + st[i][j:]
        c2 = '|'.join(':'.join(x) for x in st)
    else:
        xs = ['|' + s.pick(['BYTE:BYTE', 'PASS:PASS', 'BYTE:PASS:BYTE'])]
        c2 = c + xs[0] if s.n(1) else (s.pick(['BYTE:BYTE', 'BYTE:PASS:BYTE']) + '|' + c)
    return {'conv': c, 'conv2': c2, 'data': pipes.input_for(s, env, c)}


def gen_many(s, env):
    """a great many do-nothing stages, codecs or joints"""
    c = pipes.conv(s, env)
    st = [x.split(':') for x in c.split('|')]
    places = [(i, j) for i in range(len(st)) for j in range(1, len(st[i]))]
    n = pipes.big(s, 8, 3)
    if s.n(2) and places:
        i, j = s.pick(places)
        st[i] = st[i][:j] + (['PASS'] * n if s.n(1) else [','.join(['PASS'] * n)]) + st[i][j:]
        c2 = '|'.join(':'.join(x) for x in st)
    else:
        c2 = c + '|BYTE:BYTE' * n if s.n(1) else 'BYTE:BYTE|' * n + c
    return {'conv': c, 'conv2': c2, 'data': pipes.input_for(s, env, c)}


def run_noop(env, case):
    if pipes.odd(env, case['conv']) or 'BYTE:' in case['conv2'] and marks(env, case['conv']):
        return False, 'excluded'
    r = util.convert_many(env, [(case['conv'], case['data']), (case['conv2'], case['data'])])
    if r[0] is None:
        return False, 'rejected'
    util.need(r[1])
    util.same(r[1][0], r[0][0], '%s as %s' % (case['conv'], case['conv2']))
    util.same(r[1][1], r[0][1], 'counters of %s as %s' % (case['conv'], case['conv2']))
    return bool(r[0][0]), 'ok'


# ------------------------------------------------------------------ a stage alone between, before or after joined conversions

def gen_single(s, env):
    stage = lambda: pipes.phase(s, env, 'inter', maxc=2, alias=10) if s.chance(70) else s.pick(['PASS', 'UPPER', 'REPLACE#41=42', 'INSERT#AFTER=2C', 'REPLACE#0161=0162', 'STRINGS#FOR=CJK', 'COUNT', 'WIDTH', 'PASS#LIMIT=3,NULL'])
    first = s.pick(['UTF-8:PASS', 'UTF-8,BYTE:PASS', 'ESCAPE,UTF-8:PASS', 'BIG5:PASS', 'UTF-8:UTF-8']) if s.chance(70) else pipes.conv(s, env, stages=False)
    last = s.pick(['PASS:UTF-8', 'PASS:BSDCONV', 'PASS:UTF-16BE,BYTE', 'PASS:UTF-8,3F']) if s.chance(70) else pipes.conv(s, env, stages=False)
    cs = [first] + [stage() for _ in range(1 + s.n(1))] + [last]
    k = s.n(9)
    if k == 0:
        cs = cs[:-1]
    elif k == 1:
        cs = cs[1:]
    elif k == 2:
        cs = cs[:1] + [stage(), last, stage(), last]
    return {'convs': cs, 'data': pipes.input_for(s, env, cs[0]) if cs[0] == first else pipes.to_utf8(pipes.text(s))}


def run_single(env, case):
    cs = case['convs']
    if any('MARK' in c.upper() for c in cs) or sum(1 for c in cs if ws(env, c)) > 1:
        return False, 'excluded'
    cells = [bytes(case['data'])]
    tot = {}
    for c in cs:
        r = Req()
        k = r.create(0, c)
        r.init(0)
        f = r.cells(0, cells)
        n = r.counters(0)
        rep = env.call(r)
        if not rep[k][0]:
            return False, 'rejected'
        cells = [x for x in rep[f] if x]   # empty cells stand for nothing
        tot = addup(tot, util.clean(rep[n]))
    j = '|'.join(cs)
    r = Req()
    k = r.create(0, j)
    r.init(0)
    f = r.cells(0, [bytes(case['data'])])
    n = r.counters(0)
    rep = env.call(r)
    util.need(rep[k][0] or None)
    util.same([x.hex() for x in rep[f] if x], [x.hex() for x in cells], j)
    util.same(util.clean(rep[n]), tot, 'counters of ' + j)
    return bool(cells) and len(cs) > 1, ('in the middle' if ':' not in cs[1] else 'at an end')


PARTS = [Part('single-stage', gen_single, run_single, 24000), Part('joined', gen, run, 24000), Part('noop', gen_noop, run_noop, 24000), Part('long joined', scaled(gen, 20, 100), run, 1000),
         Part('long single-stage', scaled(gen_single, 20, 100), run_single, 1000),
         Part('many', gen_many, run_noop, 800)]
