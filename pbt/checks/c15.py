"""C15: an alias is its definition; the packed form of an instance is the conversion it performs."""
from ..core import Part, Violation, Discard
from ..client import Req, FROM, INTER, TO, FILTER
from .. import pipes, util

PROPERTY = 'C15'
RULE = 'non-trivial: the conversion names an alias that was expanded and the input produced output or counts'
ASSUMPTIONS = ['the definition of an alias is its line in modules/*/alias', 'arguments given to an alias go to every codec of its definition, after the arguments written there; aliases that stand for several phases take none',
               'aliases whose definition names a module that is not part of this build (CNS11643) cannot be used']
TYPE = {'from': FROM, 'inter': INTER, 'to': TO, 'filter': FILTER}
WRAP = {'from': ('%s:UTF-8,BSDCONV', ''), 'inter': ('UTF-8:%s:UTF-8,BSDCONV', ''), 'to': ('UTF-8:%s', ''), 'filter': ('UTF-8:PASS#FOR=%s:UTF-8,BSDCONV', '')}


def alias(env, kind):
    return pipes.registry(env.repo)['alias'][kind]


def defn(env, kind, name, args):
    """one step: the text a name stands for"""
    t = alias(env, kind).get(name.upper())
    if t is None:
        return name + ('#' + args if args else '')
    if not args:
        return t
    if ':' in t:
        raise Discard('arguments for several phases')
    return ','.join(c + ('&' if '#' in c else '#') + args for c in t.split(','))


def expand_all(env, kind, spec, depth=0):
    n, _, a = spec.partition('#')
    if n.upper() not in alias(env, kind) or n.upper() in pipes.registry(env.repo)[kind]:
        return spec
    t = defn(env, kind, n, a)
    return ':'.join(','.join(expand_all(env, kind, c, depth + 1) for c in p.split(',')) for p in t.split(':'))


def expand_conv(env, conv):
    out = []
    for st in conv.split('|'):
        ph = st.split(':')
        o = []
        for i, p in enumerate(ph):
            kind = 'inter' if len(ph) == 1 else 'from' if i == 0 else 'to' if i == len(ph) - 1 else 'inter'
            o.append(','.join(expand_all(env, kind, c) for c in p.split(',')))
        out.append(':'.join(o))
    return '|'.join(out)


def run_two(env, a, b, data, what):
    """a and b behave alike -> (created, output, counters)"""
    r = Req()
    ix = []
    for c in (a, b):
        k = r.create(0, c)
        p = r.pack(0)
        r.init(0)
        f = r.feed(0, data, flush=True)
        n = r.counters(0)
        r.destroy(0)
        ix.append((k, p, f, n))
    rep = env.call(r)
    ka, kb = rep[ix[0][0]], rep[ix[1][0]]
    if bool(ka[0]) != bool(kb[0]) or not ka[0] and ka[1] != kb[1]:
        raise Violation('%s: %s gives %r, %s gives %r' % (what, a, ka, b, kb))
    if not ka[0]:
        return None
    util.same(rep[ix[0][1]], rep[ix[1][1]], '%s: packed form of %s and %s' % (what, a, b))
    util.same(rep[ix[0][2]][2], rep[ix[1][2]][2], '%s: %s of %r compared with %s' % (what, a, data, b))
    util.same(util.clean(rep[ix[0][3]]), util.clean(rep[ix[1][3]]), '%s: counters of %s of %r compared with %s' % (what, a, data, b))
    return txt(rep[ix[0][1]]), rep[ix[0][2]][2], rep[ix[0][3]]


def txt(x):
    return x.decode('utf-8', 'replace') if isinstance(x, bytes) else x


def letters(s, n):
    m = s.n(3)
    return n if m == 0 else n.lower() if m == 1 else n.capitalize() if m == 2 else ''.join(c.lower() if s.n(1) else c for c in n)


# ------------------------------------------------------------------ each alias

TEXTS = ['', 'abc XYZ\r\n', '\u6e2c\u8a66 \u4e00\u4e01', '\u00e9\u0301 \uac00 \u1100\u1161 \ufeff', '&#65; &#x6e2c; %41%u6e2c &amp;', '\U0001f600\u20ac\u0159\u0436\u03b1\u05d0', 'x\x1b[1m\u6e2cy']


def every(env):
    out = []
    for kind in ('from', 'inter', 'to', 'filter'):
        for n in alias(env, kind):
            for t in TEXTS:
                out.append({'kind': kind, 'alias': n, 'data': t.encode()})
            out.append({'kind': kind, 'alias': n, 'data': bytes(range(256))})
    return out


def run_every(env, case):
    kind, n = case['kind'], case['alias']
    w = WRAP[kind][0]
    d = alias(env, kind)[n]
    r = Req()
    k = r.solve_alias(TYPE[kind], n)
    k2 = r.solve_alias(TYPE[kind], n.lower())
    rep = env.call(r)
    util.same(txt(rep[k]), d, 'definition of the %s alias %s' % (kind, n))
    util.same(txt(rep[k2]), d, 'definition of the %s alias %s' % (kind, n.lower()))
    if kind == 'filter':
        r = Req()
        ix = []
        for c in (w % n, w % d):
            a = r.create(0, c)
            r.init(0)
            f = r.feed(0, case["data"], flush=True)
            ix.append((a, f, r.counters(0)))
            r.destroy(0)
        rep = env.call(r)
        if not rep[ix[1][0]][0]:
            return False, 'not available'
        for x, y in zip(*ix):
            util.same(rep[x] if isinstance(rep[x], tuple) else util.clean(rep[x]) if isinstance(rep[x], dict) else rep[x][:2], rep[y] if isinstance(rep[y], tuple) else util.clean(rep[y]) if isinstance(rep[y], dict) else rep[y][:2], 'filter %s and %s' % (n, d))
        return True, kind
    x = run_two(env, w % n, w % d, case['data'], 'alias')
    if x is None:
        return False, 'not available'
    util.same(x[0], expand_conv(env, w % n), 'packed form of ' + w % n)
    return bool(x[1] or x[2]), kind


# ------------------------------------------------------------------ aliases inside conversions

ARGS = {'from': ['', 'CESU', 'LOOSE', 'LOOSE&CESU', 'ERROR', 'ERROR=E1', '0142', 'DROP'], 'inter': ['', 'BEFORE=0121', '0131', '0141=0142', 'MIN-LEN=2'], 'to': ['', 'SUFFIX=3B', 'PREFIX=26', 'ERROR=E9', 'DROP', 'MARK', 'FOR=UNICODE']}


def gen(s, env):
    def one(kind, hi):
        al = sorted(alias(env, kind))
        out = []
        for _ in range(1 + (s.n(hi - 1) if s.chance(50) else 0)):
            if s.chance(60):
                n = letters(s, s.pick(al))
                if s.chance(25):
                    a = s.pick(ARGS[kind])
                    n += '#' + a if a else ''
            else:
                n = pipes.codec(s, env, kind, alias=0)
            out.append(n)
        return ','.join(out)

    def stage():
        fr = one('from', 3) if s.chance(70) else s.pick(pipes.COMMON_FROM)
        mid = [one('inter', 2) for _ in range(s.weighted([(4, 0), (4, 1), (2, 2)]))]
        to = one('to', 3) if s.chance(60) else s.pick(pipes.COMMON_TO)
        return ':'.join([fr] + mid + [to])
    c = stage()
    if s.chance(18):
        # a joined conversion may be a single inter phase
        more = [stage() if s.chance(55) else one('inter', 2) for _ in range(1 + s.n(1))]
        c = '|'.join([c] + more if s.chance(60) else more + [c])
    if s.chance(10):
        c = c.replace(':', s.pick([' :', ': ', '\t:\n', ':']), 1).replace(',', ', ')
    return {'conv': c, 'data': pipes.input_for(s, env, clean(c))}


def clean(c):
    return ''.join(x for x in c if x not in ' \t\r\n\f')


def run(env, case):
    c = clean(case['conv'])
    want = expand_conv(env, c)
    x = run_two(env, case['conv'], want, case['data'], 'alias')
    if x is None:
        return False, 'rejected'
    util.same(x[0], want, 'packed form of ' + case['conv'])
    r = Req()
    k = r.create(0, x[0])
    p = r.pack(0)
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('the packed form %s of %s is rejected: %r' % (x[0], case['conv'], rep[k]))
    util.same(txt(rep[p]), x[0], 'packed form of the packed form')
    return want != c and bool(x[1] or x[2]), 'ok'


# ------------------------------------------------------------------ packed form of anything

def gen_pack(s, env):
    c = pipes.conv(s, env)
    return {'conv': c, 'data': pipes.input_for(s, env, c)}


# ------------------------------------------------------------------ LOCALE

LOC = ['C', 'POSIX', '', 'en_US.UTF-8', 'zh_TW.Big5', 'zh_TW.BIG5', 'ja_JP.SHIFT-JIS', 'UTF-8', 'zh_CN.GB18030', 'ru_RU.CP1251', 'zh_CN.gbk', 'en_US.ISO-8859-1', 'a.b']


def gen_locale(s, env):
    e = {}
    for v in ('LC_ALL', 'LC_CTYPE', 'LANG'):
        if s.chance(60):
            e[v] = s.pick(LOC)
    kind = s.pick(['from', 'to'])
    return {'env': e, 'kind': kind, 'data': pipes.to_utf8(pipes.text(s, 8))}


def run_locale(env, case):
    e = case['env']
    loc = next((e[v] for v in ('LC_ALL', 'LC_CTYPE', 'LANG') if v in e), None)
    name = 'ASCII' if loc in (None, '', 'C', 'POSIX') else loc.partition('.')[2] if '.' in loc else loc
    if name in ('', 'C', 'POSIX'):
        name = 'ASCII'
    w = {'from': '%s:UTF-8,BYTE', 'to': 'UTF-8:%s,BYTE'}[case['kind']]
    r = Req()
    for v in ('LC_ALL', 'LC_CTYPE', 'LANG'):
        r.setenv(v, e.get(v))
    s1 = r.solve_alias(TYPE[case['kind']], 'locale')
    ix = []
    for c in (w % 'LOCALE', w % name):
        k = r.create(0, c)
        p = r.pack(0)
        r.init(0)
        f = r.feed(0, case["data"], flush=True)
        ix.append((k, p, f))
        r.destroy(0)
    for v in ('LC_ALL', 'LC_CTYPE', 'LANG'):
        r.setenv(v, None)
    rep = env.call(r)
    util.same(txt(rep[s1]), name, 'meaning of LOCALE with %r' % e)
    (k, p, f), (k2, p2, f2) = ix
    util.same(rep[k][:2], rep[k2][:2], 'LOCALE and %s' % name)
    if not rep[k][0]:
        return False, 'not available'
    util.same(txt(rep[p]).upper(), txt(rep[p2]).upper(), 'packed form with LOCALE')
    util.same(rep[f], rep[f2], 'LOCALE and %s of %r' % (name, case['data']))
    return bool(case['data']), 'locale'


PARTS = [Part('every-alias', None, run_every, 0, exhaustive=every), Part('embedded', gen, run, 40000), Part('packed', gen_pack, run, 24000), Part('locale', gen_locale, run_locale, 4000)]
