"""C24: create/use/destroy cycles are resource neutral.

A generated cycle of calls is run again and again; between runs the server tells how much memory is allocated, how
many descriptors are open, how many modules are mapped and where the working directory is."""
import os
from ..core import Part, Violation, Discard, scaled
from ..client import Req, AUTO, HOLD, PRE, PREQ, FILE_, FD, NULL_, PASS_, FROM, INTER, TO, FILTER, SCORER
from .. import pipes, util
from . import c04, c22

PROPERTY = 'C24'
RULE = 'non-trivial: an instance was created and fed (cycles, unloading), a creation was rejected (rejected), or a lookup was made (lookups)'
ASSUMPTIONS = ['memory means what the sanitizer\'s allocator counts as allocated; caches filled by the first run of a cycle are not leaks', 'every buffer and list handed to the caller is freed by the caller']
MODES = [(6, AUTO), (3, HOLD), (2, PRE), (1, PREQ), (2, FILE_), (2, FD), (1, NULL_)]


def gen_use(s, env, slot, conv):
    ops = [['create', slot, conv], ['init', slot]]
    for _ in range(1 + s.n(3)):
        d = pipes.input_for(s, env, conv)
        ps = pipes.split(s, d, 3)
        fl = s.chance(70)
        for i, p in enumerate(ps):
            ops.append(['feed', slot, p, 1 if fl and i == len(ps) - 1 else 0, s.weighted(MODES), s.n(8), s.n(1)])
        for _ in range(s.n(2)):
            k = s.n(9)
            if k < 3:
                ops.append(['init', slot])
            elif k == 3:
                ops.append(['counter', slot, s.pick(['x', 'IERR', 'abc'])])
            elif k == 4:
                ops.append(['reset', slot])
            elif k == 5:
                ops.append(['hash', slot, s.pick(['set', 'get', 'has', 'del']), s.pick(['k', 'K2', 'long key'])])
            elif k == 6:
                ops.append(['pack', slot])
            elif k == 7:
                ops.append(['data', slot, s.pick(['0141', '01', '0141.0142', '', 'zz', '0161.zz', '.', '3F.', '0141..0142'])])
            elif k == 8:
                ops.append(['init', slot])
            else:
                ops.append(['index', slot, s.n(2) - 1, -s.n(1)])
    if s.chance(60):
        ops.append(['destroy', slot])
    return ops


def gen_cycle(s, env):
    ops = []
    for slot in range(1 + (s.n(2) if s.chance(30) else 0)):
        ops += gen_use(s, env, slot, pipes.conv(s, env) if s.chance(70) else pipes.stateful(s, env))
    if s.chance(15):
        ops.append(['pass', 0, 1])
    return {'ops': ops, 'fresh': 0}


def gen_unload(s, env):
    """modules are loaded and unloaded with the instances"""
    c = gen_cycle(s, env)
    c['fresh'] = 1
    for _ in range(s.n(2)):
        c['ops'].append(gen_lookup(s, env))
    return c


def gen_records(s, env):
    """stages that open files of their own; the files may be missing"""
    ops = [['env', n, s.weighted([(5, 1), (1, 0), (1, 2)])] for n in ('BSDCONV_TO_LOG', 'BSDCONV_FROM_LOG', 'BSDCONV_SCORE')]
    for slot in range(1 + (s.n(2) if s.chance(40) else 0)):
        frm = s.pick(['UTF-8', 'BSDCONV-LOG', 'ASCII,BSDCONV-LOG', 'ANY#011A,BSDCONV-LOG', 'UTF-8,BSDCONV-LOG,ANY#zz'])
        mid = s.pick(['', ':SCORE-TRAIN', ':SCORE#WITH=TRAINED', ':SCORE-TRAIN:SCORE#WITH=TRAINED', ':SCORE#WITH=CJK&WITH=TRAINED', ':SCORE#WITH=TRAINED&X', ':SCORE-TRAIN:NOSUCH', ':UPPER'])
        to = s.pick(['UTF-8', 'BSDCONV-LOG', 'ASCII,BSDCONV-LOG', 'NOSUCH', 'BSDCONV-LOG,ANY#zz', 'NULL'])
        ops += gen_use(s, env, slot, frm + mid + ':' + to)
    if s.chance(20):
        ops.append(['pass', 0, 1])
    return {'ops': ops, 'fresh': 0 if s.chance(85) else 1}


def gen_rejected(s, env):
    k = s.n(4)
    ops = []
    for _ in range(1 + s.n(2)):
        c = (c04.gen_args if k == 0 else c04.gen_raw if k == 1 else c04.gen_mut if k == 2 else c04.gen_own)(s, env)
        ops += [['create', 0, c['conv'].replace('\0', '')], ['init', 0], ['feed', 0, c['data'], 1, AUTO, 0, 0], ['destroy', 0]]
    if s.chance(30):
        # a conversion that fails at its end, after everything before it was loaded
        ops = [['create', 0, pipes.conv(s, env).split('|')[0] + s.pick([',NOSUCH', ':NOSUCH', '|NOSUCH:UTF-8', '#NOSUCH', ',ANY#zz', ',ESCAPE#FOR=CJK', ',PASS#FOR=NOSUCH', '|UTF-8:REPLACE#zz:UTF-8', '|UTF-8:INSERT#AFTER=zz:UTF-8', '|UTF-8:STRINGS#MIN-LEN=x&FOR=NOSUCH:UTF-8', '|UTF-8:SCORE#WITH=NOSUCH:UTF-8', '|UTF-8:COUNT#FOR=NOSUCH:UTF-8', '|UTF-8:TRIM-WIDTH#x:UTF-8', '|UTF-8:ESCAPE#PREFIX=5C&SUFFIX=zz', '|UTF-8:ESCAPE#PREFIX=5C&MODE=7', '|UTF-8:PASS#MARK&X', '|UTF-8:REPLACE#0161=0162&0163=zz:UTF-8', '|UTF-8:INSERT#BEFORE=0161&AFTER=:UTF-8', '|UTF-8:INSERT#BEFORE=0161&BEFORE=0162:UTF-8', '|UTF-8:STRINGS#FOR=CJK&FOR=ANSI:UTF-8', '|UTF-8:PASS#FOR=CJK&FOR=ANSI:UTF-8', '|UTF-8:COUNT#FOR=CJK&FOR=ANSI&X&Y:UTF-8', '|UTF-8:SCORE#WITH=CJK&WITH=LATIN1:UTF-8', '|UTF-8:ESCAPE#PREFIX=5C&PREFIX=5C', '|UTF-8:ANY#3F&3F', '|UTF-8:REPLACE#0161=0162&0161=0163:UTF-8'])]]
        ops += [['init', 0], ['feed', 0, b'ab', 1, AUTO, 0, 0], ['destroy', 0]] if s.n(1) else []
    return {'ops': ops, 'fresh': 0 if s.chance(75) else 1}


def gen_lookup(s, env):
    k = s.n(8)
    t = s.pick([FROM, INTER, TO, FILTER, SCORER, 0, 9]) if s.chance(30) else s.pick([FROM, INTER, TO, FILTER, SCORER])
    if k < 2:
        return ['check', t, c22.gen_name(s, env)]
    if k < 4:
        return ['alias', t, c22.gen_name(s, env)]
    if k == 4:
        return ['list', t]
    if k == 5:
        op = s.pick(['insert_phase', 'insert_codec', 'replace_phase', 'replace_codec'])
        return ['edit', op, pipes.conv(s, env) if s.chance(80) else s.pick(['', ':', 'a,,b', 'a:']), s.pick(['UPPER', 'x,y', 'ANY#3F']),
                s.pick([FROM, INTER, TO]) if op.endswith('phase') else -s.n(1), -s.n(1) if op != 'insert_phase' else s.n(3) - 1]
    if k == 6:
        return ['datum', s.pick(['0141', '', 'zz', '01FFFD', 'any', '?', '*', '014', '01*', '41'])]
    if k == 7:
        return ['filter', s.pick(pipes.FILTERS + ['NOSUCH', '01', 'cjk', '', '../filter/CJK'])]
    return ['score', s.pick(['CJK', 'LATIN1', 'NOSUCH', 'cjk', ''])]


def gen_lookups(s, env):
    return {'ops': [gen_lookup(s, env) for _ in range(1 + s.n(4))], 'fresh': s.chance(20) and 1 or 0}


def emit(r, ops, tmp=''):
    ix = []
    live = set()
    for o in ops:
        k = o[0]
        if k == 'env':
            r.setenv(o[1], [None, os.path.join(tmp, 'c24.' + o[1]), os.path.join(tmp, 'none', 'there')][o[2]])
        elif k == 'create':
            if o[1] in live:
                r.destroy(o[1])
            ix.append(('create', r.create(o[1], o[2].encode('utf-8', 'surrogateescape').replace(b'\0', b''))))
            live.add(o[1])
        elif k == 'destroy':
            r.destroy(o[1])
            live.discard(o[1])
        elif k in ('check', 'alias', 'list', 'edit', 'datum', 'filter', 'score'):
            if k == 'check':
                r.module_check(o[1], o[2])
                r.codec_check(o[1], o[2])
            elif k == 'alias':
                r.solve_alias(o[1], o[2])
            elif k == 'list':
                r.modules_list(o[1])
                r.codecs_list(o[1])
            elif k == 'edit':
                r.edit(o[1], o[2], o[3], o[4], o[5])
            elif k == 'datum':
                r.str2datum(o[1])
            elif k == 'filter':
                r.filt(o[1], b'\1\x4e\0')
            elif k == 'score':
                r.score(o[1], b'\1\x4e\0')
        elif o[1] not in live:
            continue
        elif k == 'init':
            r.init(o[1])
        elif k == 'feed':
            ix.append(('feed', r.feed(o[1], o[2], flush=bool(o[3]), mode=o[4], param=o[5], free=bool(o[6]))))
        elif k == 'counter':
            r.counter_set(o[1], o[2], 3)
        elif k == 'reset':
            r.counter_reset(o[1], None)
        elif k == 'hash':
            r.hash_op(o[2], o[1], o[3], 5)
        elif k == 'pack':
            r.pack(o[1])
        elif k == 'data':
            r.str2data(o[1], o[2])
        elif k == 'index':
            r.index(o[1], o[2], o[3])
    for n in live:
        r.destroy(n)
    return ix


def run(env, case):
    sv = env.server('asan', preload=False) if case['fresh'] else env.server()
    ops = [o for o in case['ops'] if o[0] != 'pass']

    def cycles(n):
        r = Req()
        for _ in range(n):
            ix = emit(r, ops, env.tmp)
        rep = sv.call(r)
        return ix, rep

    def state():
        r = Req()
        a, b = r.resources(), r.modules_mapped()
        rep = sv.call(r)
        return list(rep[a]) + [rep[b]]
    if case['fresh']:
        o = state()
    ix, rep = cycles(1)
    a = state()
    cycles(2)
    b = state()
    what = '; '.join(' '.join(str(x) if not isinstance(x, bytes) else repr(x[:12]) for x in o[:3]) for o in ops if o[0] in ('create', 'check', 'alias', 'list', 'edit', 'datum', 'filter', 'score'))[:300]
    if a[1:3] != b[1:3]:
        raise Violation('%s: descriptors and working directory %r instead of %r' % (what, b[1:3], a[1:3]))
    if a[3] != b[3]:
        raise Violation('%s: %d modules mapped instead of %d' % (what, b[3], a[3]))
    if case['fresh'] and o[3] != a[3]:
        raise Violation('%s: %d modules stayed mapped after everything was destroyed' % (what, a[3] - o[3]))
    if b[0] != a[0]:
        cycles(4)
        c = state()
        cycles(8)
        d = state()
        if d[0] > c[0] > a[0]:
            raise Violation('%s: %d bytes more allocated after 4 more runs, %d after 8 more' % (what, c[0] - b[0], d[0] - c[0]))
    ok = [rep[i][0] for k, i in ix if k == 'create']
    fed = any(k == 'feed' for k, i in ix)
    lab = (['created'] if any(ok) else []) + (['rejected'] if not all(ok) else []) + (['lookup'] if not ok else [])
    return (bool(ok) and (not all(ok) or fed)) or not ok, lab


PARTS = [Part('cycles', gen_cycle, run, 16000), Part('rejected', gen_rejected, run, 16000), Part('lookups', gen_lookups, run, 12000), Part('unloading', gen_unload, run, 6000), Part('records', gen_records, run, 6000),
         Part('long cycles', scaled(gen_cycle, 20, 100), run, 600)]
