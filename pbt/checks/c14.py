"""C14: a list of codecs converts each unit by the first codec that accepts it."""
import re
from ..core import Part, Violation, Discard, scaled
from ..client import Req
from .. import model, pipes, util
from ..tables import u
from . import c13

PROPERTY = 'C14'
RULE = 'non-trivial: lists of at least two codecs of which a later one was used (lists), or a conversion with output or counts (duplicates, catch-all)'
ASSUMPTIONS = ['codecs that hold text back or keep a shift state speak for their whole phase and are not combined with others', 'code points up to U+10FFFF']
CONV = {'from': '%s:PASS', 'inter': 'PASS:%s:PASS', 'to': 'PASS:%s'}


def gen_list(s, env):
    kind = s.weighted([(4, 'from'), (2, 'inter'), (4, 'to')])
    n = 2 + s.n(3)
    cs = [c13.pick(s, env, kind, 25) for _ in range(n)]
    l = ','.join(cs)
    conv = {'from': l + ':UTF-8', 'inter': 'UTF-8:' + l + ':UTF-8', 'to': 'UTF-8:' + l}[kind]
    if kind == 'from':
        data = pipes.input_for(s, env, conv)
        if s.chance(40):
            data = c13.junk(s, data)
    else:
        def one(q):
            m = q.n(9)
            if m < 1:
                return [bytes([3, q.n(255)])]
            if m < 2:
                return [q.pick(c13.JUNK)]
            return [u(ord(c)) for c in pipes.text(q, 4, snippets=pipes.snippets_for(env, conv))]
        data = [c for p in s.list(one, 8) for c in p]
    return {'kind': kind, 'list': l, 'data': data}


def run_list(env, case):
    kind, l, data = case['kind'], case['list'], case['data']
    want, err, cnt, used = model.run_list(model.units_of(env.repo, kind, l), data, kind != 'inter')
    conv = CONV[kind] % l
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    f = r.cells(0, [data] if kind == 'from' else data)
    cs = r.counters(0)
    r.destroy(0)
    rep = env.call(r)
    if not rep[k][0]:
        raise Violation('%s cannot be created' % conv)
    what = '%s of %s' % (conv, data.hex() if kind == 'from' else ','.join(x.hex() for x in data))
    got, want = [x.hex() for x in rep[f] if x], [x.hex() for x in want if x]
    if kind != 'from':
        util.same(b''.join(rep[f]) if kind == 'to' else got, b''.join(bytes.fromhex(x) for x in want) if kind == 'to' else want, what)
    else:
        util.same(got, want, what)
    if err and kind != 'inter':
        e = 'IERR' if kind == 'from' else 'OERR'
        cnt[e] = cnt.get(e, 0) + err
    util.same(util.clean(rep[cs]), cnt, what + ': counters')
    return any(x > 0 for x in used), kind


# ------------------------------------------------------------------ relations that hold for every codec

STATE = pipes.SHIFTING | {'_JIS', 'PASS'}


def gen_dup(s, env):
    for _ in range(6):
        c = pipes.conv(s, env, stages=False)
        if not pipes.odd(env, c):
            break
    ph = c.split(':')
    i = s.n(len(ph) - 1)
    cs = ph[i].split(',')
    j = s.n(len(cs) - 1)
    k = j + 1 + s.n(len(cs) - 1 - j)
    cs.insert(k, cs[j] if s.chance(70) else cs[j].lower())
    return {'conv': c, 'with': ':'.join(ph[:i] + [','.join(cs)] + ph[i + 1:]), 'kind': 'from' if i == 0 else 'to' if i == len(ph) - 1 else 'inter', 'data': pipes.input_for(s, env, c)}


def pair(env, a, b, data):
    r = Req()
    res = []
    for c in (a, b):
        k = r.create(0, c)
        r.init(0)
        f = r.feed(0, data)
        n = r.counters(0)
        r.destroy(0)
        res.append((k, f, n))
    rep = env.call(r)
    if not rep[res[0][0]][0]:
        raise Discard('rejected')
    if not rep[res[1][0]][0]:
        raise Violation('%s can be created and %s cannot' % (a, b))
    return [(rep[f][2], util.clean(rep[n])) for k, f, n in res]


def stateful(env, conv, kind):
    names = {n for k, n in pipes.flat_all(env, conv) if k == kind}
    return names & (STATE if kind == 'from' else pipes.HOLDING if kind == 'inter' else pipes.SHIFTING)


def run_dup(env, case):
    if pipes.odd(env, case['conv']) or stateful(env, case['conv'], case['kind']) or 'LIMIT=' in case['conv']:
        raise Discard('shift states')
    x, y = pair(env, case['conv'], case['with'], case['data'])
    util.same(y[0], x[0], '%s of %r, compared with %s' % (case['with'], case['data'], case['conv']))
    util.same(y[1], x[1], '%s of %r: counters' % (case['with'], case['data']))
    return bool(x[0] or x[1]), case['kind']


def gen_all(s, env):
    for _ in range(6):
        c = pipes.conv(s, env, stages=False)
        if not pipes.odd(env, c):
            break
    ph = c.split(':')
    if s.n(1):
        i, e = 0, 'IERR'
    else:
        i, e = len(ph) - 1, 'OERR'
    n = s.pick(['', '=LOST', '=x1'])
    ph[i] += ',ANY#DROP&ERROR' + n
    d = pipes.input_for(s, env, c)
    if s.chance(50):
        d = c13.junk(s, d)
    return {'conv': c, 'with': ':'.join(ph), 'err': e, 'name': n[1:].upper() or e, 'data': d}


def run_all(env, case):
    if pipes.odd(env, case['conv']) or case['err'] == 'IERR' and any(n == 'PASS' for n in pipes.flat_from(env, case['conv'])):
        raise Discard('shift states')
    if re.search('[IO]ERR', case['conv'], re.I):
        raise Discard('counts something else as an error')
    for n in case['conv'].split(':')[0 if case['err'] == 'IERR' else -1].split(','):
        if 'ERROR' in n.upper() or n.upper() == '3F':
            raise Discard('counts errors itself')
    x, y = pair(env, case['conv'], case['with'], case['data'])
    util.same(y[0], x[0], '%s of %r, compared with %s' % (case['with'], case['data'], case['conv']))
    want = dict(x[1])
    v = want.pop(case['err'], 0)
    if v:
        want[case['name']] = want.get(case['name'], 0) + v
    util.same(y[1], want, '%s of %r: counters' % (case['with'], case['data']))
    return bool(v), case['err']


PARTS = [Part('lists', gen_list, run_list, 60000), Part('duplicates', gen_dup, run_dup, 20000), Part('catch-all', gen_all, run_all, 24000), Part('long lists', scaled(gen_list, 20, 60), run_list, 1000)]
