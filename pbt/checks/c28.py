"""C28: a shortage of file descriptors is reported, never half of a conversion.

Histories of calls that load modules, each with a number of free descriptors (RLIMIT_NOFILE of the server process);
oracle: the same call without a shortage."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req, FROM, INTER, TO, FILTER, SCORER, AUTO
from .. import pipes, util
from . import c22

PROPERTY = 'C28'
RULE = 'non-trivial: at least one call failed for lack of descriptors, or at most 12 were free'
ASSUMPTIONS = ['codecs that are documented to do without an absent part (ASCII-HTML-INFO without CNS11643, SCORE#WITH=TRAINED without a score file, the computed alias UNICODE) are left out of the comparison of results',
               'the descriptors run out (RLIMIT_NOFILE); a shortage of memory is not simulated']
DEGRADES = ('ASCII-HTML-INFO', 'TRAINED', 'UNICODE', 'LOCALE', 'HTML')
TYPES = [FROM, INTER, TO, FILTER, SCORER]
NESTED = ['UTF-8:TRIM-WIDTH#9:UTF-8', 'UTF-8:NFC:UTF-8', 'UTF-8:NFD:UTF-8', 'UTF-8:NFKC:UTF-8', 'UTF-8:PASS#FOR=CJK|UTF-8:UTF-8', 'UTF-8:COUNT#FOR=CJK:UTF-8', 'UTF-8:STRINGS:UTF-8', 'UTF-8:SCORE:UTF-8', 'BIG5:UTF-8', 'UTF-8:BIG5', 'GBK:WIN:UTF-8,BYTE', 'UTF-8:INSERT#AFTER=0141:UTF-8', 'UTF-8:ALIAS-FROM:UTF-8', 'UTF-8:ALIAS-TO:UTF-8', 'UTF-8:STRINGS#FOR=CJK:PASS#FOR=CJK,ESCAPE', 'ISO-8859-1:UTF-16', 'NOSUCH:UTF-8', 'UTF-8:ANY#zz', 'UPPER', 'NFC', 'WIDTH', 'UTF-8:CNS11643:UTF-8', 'CCCII:UTF-8', 'UTF-8:ZHTW:ZHTW-WORDS:UTF-8', 'UTF-8:UTF-8|UTF-8:UTF-8|UTF-8:UTF-8']


def budget(s):
    return s.weighted([(5, s.n(6)), (4, s.n(14)), (1, s.n(60))])


def gen_step(s, env):
    k = s.weighted([(7, 'create'), (1, 'alias'), (1, 'check'), (1, 'list'), (1, 'filter'), (1, 'score')])
    st = {'do': k, 'free': budget(s)}
    if k == 'create':
        st['conv'] = s.pick(NESTED) if s.chance(45) else pipes.conv(s, env)
        st['data'] = pipes.input_for(s, env, st['conv'] if ':' in st['conv'] and 'NOSUCH' not in st['conv'] and 'zz' not in st['conv'] else 'UTF-8:UTF-8', 8)
        st['dry'] = s.n(1)
    elif k in ('alias', 'check'):
        st['type'] = s.pick(TYPES)
        st['name'] = c22.gen_name(s, env)
    elif k == 'list':
        st['type'] = s.pick(TYPES)
    elif k == 'filter':
        st['name'] = s.pick(pipes.FILTERS + ['NOSUCH', 'cjk', ''])
    else:
        st['name'] = s.pick(['CJK', 'LATIN1', 'cjk', 'NOSUCH'])
    return st


def gen(s, env):
    keeper = s.pick(['UTF-8:UTF-8', 'BIG5:UTF-8', 'UTF-8:NFC:UTF-8', 'UTF-8:UPPER:UTF-16LE', 'UTF-8:TRIM-WIDTH#7:UTF-8', 'ANSI-CONTROL,BYTE:BIG5-DEFRAG:BYTE,ANSI-CONTROL']) if s.chance(40) else None
    d = pipes.input_for(s, env, keeper, 10) if keeper else b''
    k = s.n(len(d))
    return {'keeper': keeper, 'a': d[:k], 'b': d[k:], 'steps': [gen_step(s, env) for _ in range(1 + s.weighted([(5, 0), (2, 1), (1, 3)]))]}


def emit(r, st, slot):
    k = st['do']
    if k == 'create':
        c = r.create(slot, st['conv'])
        if slot and not st['dry']:
            r.nofile()
        r.init(slot)
        f = r.feed(slot, st['data'], flush=True)
        n = r.counters(slot)
        r.destroy(slot)
        return c, f, n
    if k == 'alias':
        return (r.solve_alias(st['type'], st['name']),)
    if k == 'check':
        return (r.module_check(st['type'], st['name']), r.codec_check(st['type'], st['name']))
    if k == 'list':
        return (r.modules_list(st['type']), r.codecs_list(st['type']))
    if k == 'filter':
        return (r.filt(st['name'], b'\x01\x4e\x00'),)
    return (r.score(st['name'], b'\x01\x4e\x00'),)


def judge(st, want, got):
    """-> has it failed?"""
    k = st['do']
    what = '%s with %d free descriptors: ' % (' '.join(str(st[x]) for x in ('do', 'type', 'conv', 'name') if x in st), st['free'])
    if k == 'create':
        if not got[0][0]:
            if got[0][1] not in (88, 95, 12, 22) or got[0][1] == 22 and want[0][1] != 22 and want[0][0]:
                raise Violation(what + 'error %d' % got[0][1])
            if not got[0][2]:
                raise Violation(what + 'no message')
            return bool(want[0][0])
        if not want[0][0]:
            raise Violation(what + 'created, and not without a shortage')
        if any(x in st['conv'].upper() for x in DEGRADES):
            return False
        util.same(got[1], want[1], what + 'result')
        util.same(util.clean(got[2]), util.clean(want[2]), what + 'counters')
        return False
    if k == 'list':
        for g, w in zip(got, want):
            if [x for x in g if x not in w]:
                raise Violation(what + 'names that are not there: %r' % [x for x in g if x not in w][:5])
            if g != sorted(set(g)):
                raise Violation(what + 'not in order')
        return got != want
    failed = {'alias': None, 'check': 0, 'filter': -1, 'score': -1000000}[k]
    out = False
    for g, w in zip(got, want):
        if g == failed and g != w:
            out = True
        elif g != w and not (k == 'alias' and any(x in st['name'].upper() for x in DEGRADES)):
            raise Violation(what + '%r instead of %r' % (g, w))
    return out


def run(env, case):
    sv = env.server('asan', preload=False)

    def cycle(n, limited=True):
        r = Req()
        for _ in range(n):
            ix = []
            x0 = r.resources()
            if case['keeper']:
                r.create(2, case['keeper'])
                r.init(2)
                whole = r.feed(2, case['a'] + case['b'], flush=True)
                wc = r.counters(2)
                r.destroy(2)
                r.create(3, case['keeper'])
                r.init(3)
                p1 = r.feed(3, case['a'])
            for st in case['steps']:
                a = emit(r, st, 0)
                if limited:
                    r.nofile(st['free'])
                b = emit(r, st, 1)
                r.nofile()
                ix.append((a, b))
            if case['keeper']:
                r.nofile(0)
                p2 = r.feed(3, case['b'], flush=True)
                r.nofile()
                kc = r.counters(3)
                r.destroy(3)
            x1 = r.resources()
            # and again without a shortage
            again = [emit(r, st, 0) for st in case['steps'][:1]]
        rep = sv.call(r)
        util.same(rep[x1][1:], rep[x0][1:], 'descriptors and working directory')
        if case['keeper']:
            util.same(rep[p1][2] + rep[p2][2], rep[whole][2], 'an instance of %s created earlier' % case['keeper'])
            util.same(util.clean(rep[kc]), util.clean(rep[wc]), 'counters of an instance created earlier')
        failed = 0
        for st, (a, b) in zip(case['steps'], ix):
            if judge(st, [rep[x] for x in a], [rep[x] for x in b]):
                failed += 1
        for st, (a, b), g in zip(case['steps'], ix, again):
            util.same([rep[x] for x in g], [rep[x] for x in a], 'the same call when descriptors are free again')
        return failed

    def state():
        r = Req()
        a, b = r.resources(), r.modules_mapped()
        rep = sv.call(r)
        return list(rep[a]) + [rep[b]]
    o = state()
    failed = cycle(1)
    a = state()
    if o[1:] != a[1:]:
        raise Violation('descriptors, directory, mapped modules %r instead of %r' % (a[1:], o[1:]))
    cycle(2)
    b = state()
    if a[0] != b[0]:
        cycle(4)
        c = state()
        cycle(8)
        d = state()
        if d[0] > c[0] > a[0]:
            raise Violation('%d bytes more allocated after 4 more runs, %d after 8 more' % (c[0] - b[0], d[0] - c[0]))
    n = len(case['steps'])
    near = any(st['free'] <= 12 for st in case['steps'])
    return failed > 0 or near, ['failed' if failed == n else 'some failed' if failed else 'none failed'] + sorted(set(st['do'] for st in case['steps']))


PARTS = [Part('descriptors', gen, run, 12000)]
